/*
 * Configuration files as the parser sees them: FILE1 and FILE2 are token
 * skeletons (one character per token, see code()), whose strings and numbers
 * are symbolic.  The lexer is a stub that hands out the tokens.  What comes of
 * them is compared with an independent reading of the skeleton.
 */
#define VF_REDIRECT_DECL_ONLY
#include "vf_redirect.h"
#include "vf.h"
#include "detox_struct.h"
#include "config_file.h"
#include "config_file_yacc.h"
#include "filelist.h"

#define MAXSEQ 4
#define MAXF 20
#define MAXIGN 6
#define SLOTS 12

extern FILE *yyin;
static const char *const files[2] = { FILE1, FILE2 };
static int file, at, slot, num;
static char str[SLOTS][3];
static int number[SLOTS];

static int code(char c)
{
    switch (c) {
        case 's': return SEQUENCE;  case 'g': return IGNORE;   case '{': return OPEN;     case '}': return CLOSE;  case ';': return EOL;
        case 'u': return UNCGI;     case 'l': return LOWER;    case 'w': return WIPEUP;   case 'i': return ISO8859_1;
        case 't': return UTF_8;     case 'f': return SAFE;     case 'm': return MAX_LENGTH;
        case 'r': return REMOVE_TRAILING; case 'b': return BUILTIN; case 'n': return FILENAME; case 'L': return LENGTH;
        case '0': return NVALUE;    case '$': return ID;       case '"': return QSTRING;
    }
    return 0;
}
int __wrap_yylex(void)
{
    char c = files[file][at];
    if (c == 0) { vf_fgetc(yyin); return 0; }
    at++;
    if (c == '$' || c == '"') { yylval.string = str[slot++]; }
    if (c == '0') { yylval.nvalue = number[num++]; }
    return code(c);
}

/* what the skeletons say */
static struct { int name, nf, f0, file; } seq[MAXSEQ];  /* index of the name, filters f0 .. f0 + nf - 1 */
static struct { int kind, builtin, filename, len, rt; } fil[MAXF];
static int nseq, nfil, nign, ign[MAXIGN];

static void reference(void)
{
    int f, p, k, b = 0, sl = 0, nu = 0, depth = 0, cur = -1, method = -1, what = 0, ignore = 0, name = 0, start = 0;
    for (f = 0; f < NFILES; f++) {
        for (p = 0; files[f][p]; p++) {
            char c = files[f][p];
            if (c == 's') { ignore = 0; start = nfil; }
            else if (c == 'g') { ignore = 1; }
            else if (c == '{') { depth++; }
            else if (c == '}') {
                depth--;
                if (depth == 0 && !ignore) {
                    int found = 0;
                    for (k = 0; k < MAXSEQ; k++) {
                        if (k < nseq && vf_streq(str[seq[k].name], str[name])) { seq[k].f0 = start; seq[k].nf = nfil - start; seq[k].file = f; found = 1; }
                    }
                    if (!found) {
                        for (k = 0; k < MAXSEQ; k++) { if (k == nseq) { seq[k].name = name; seq[k].f0 = start; seq[k].nf = nfil - start; seq[k].file = f; } }
                        nseq++;
                    }
                }
            }
            else if (c == '$' || c == '"') {
                if (depth == 0) { name = sl; }
                else if (ignore) { ign[nign++] = sl; }
                else if (what == 'b') { fil[nfil - 1].builtin = sl; }
                else { fil[nfil - 1].filename = sl; }
                sl++;
            }
            else if (c == '0') { fil[nfil - 1].len = nu++; }
            else if (c == 'r') { fil[nfil - 1].rt = 1; }
            else if (c == 'b' || c == 'n') { what = c; }
            else if (c != ';' && c != 'L') {
                fil[nfil].kind = c == 'u' ? FILTER_UNCGI : c == 'l' ? FILTER_LOWER : c == 'w' ? FILTER_WIPEUP : c == 'i' ? FILTER_ISO8859_1 : c == 't' ? FILTER_UTF_8 : c == 'f' ? FILTER_SAFE : FILTER_MAX_LENGTH;
                fil[nfil].builtin = fil[nfil].filename = fil[nfil].len = -1;
                fil[nfil].rt = 0;
                nfil++;
            }
        }
    }
}

void vf_on_exit(int status)
{
    VF_ASSERT(WRONG, "a configuration that follows the grammar is accepted");
    VF_ASSERT(status == EXIT_FAILURE, "a configuration that does not is a failure");
    VF_ASSERT(vf_err_n > 0, "which is reported");
    VF_REACH();
}

int main(void)
{
    config_file_t *r;
    sequence_t *s;
    filter_t *x;
    static options_t opt;
    int i, j;
    char *w;

    for (i = 0; i < SLOTS; i++) { nd_str(str[i], STRN); number[i] = (int) nd_u32(); VF_ASSUME(number[i] >= 0); }
#if !WRONG
    reference();
#endif
    vf_file_add("/1", "", 0);
    vf_file_add("/2", "", 0);
    vf_file_add("/dev/null", "", 0);
    vf_exact = 2;
    r = parse_config_file("/1", NULL, &opt);
    if (NFILES > 1) { file = 1; at = 0; r = parse_config_file("/2", r, &opt); }
    vf_exact = 0;
    VF_ASSERT(!WRONG, "a configuration that does not follow the grammar is refused");
    VF_ASSERT(r != NULL, "the configuration is read");
    VF_ASSUME(r != NULL);
    VF_ASSERT(vf_open_inputs == 0, "the file is closed again");
    s = r->sequences;
    for (i = 0; i < MAXSEQ; i++) {
        if (i < nseq) {
            VF_ASSERT(s != NULL, "every sequence is there");
            VF_ASSUME(s != NULL);
            VF_ASSERT(vf_streq(s->name, str[seq[i].name]), "the sequences are in order, by their names");
            VF_ASSERT(s->source_filename != NULL && vf_streq(s->source_filename, seq[i].file ? "/2" : "/1"), "a sequence knows where it is from");
            x = s->filters;
            for (j = 0; j < MAXF; j++) {
                if (j >= seq[i].f0 && j < seq[i].f0 + seq[i].nf) {
                    VF_ASSERT(x != NULL, "every filter is there");
                    VF_ASSUME(x != NULL);
                    VF_ASSERT(x->cleaner == fil[j].kind, "the filters are in order");
                    if (fil[j].builtin < 0) { VF_ASSERT(x->builtin == NULL, "no built-in table unless asked for"); }
                    else { VF_ASSERT(x->builtin != NULL && vf_streq(x->builtin, str[fil[j].builtin]), "the built-in table is the one asked for"); }
                    if (fil[j].filename < 0) { VF_ASSERT(x->filename == NULL, "no table file unless asked for"); }
                    else { VF_ASSERT(x->filename != NULL && vf_streq(x->filename, str[fil[j].filename]), "the table file is the one asked for"); }
                    VF_ASSERT(x->max_length == (fil[j].len < 0 ? 0 : (size_t) number[fil[j].len]), "the length is the one asked for");
                    VF_ASSERT((x->remove_trailing != 0) == fil[j].rt, "remove_trailing is set when asked for");
                    x = x->next;
                }
            }
            VF_ASSERT(x == NULL, "there are no other filters");
            s = s->next;
        }
    }
    VF_ASSERT(s == NULL, "there are no other sequences");
    VF_ASSERT(filelist_count(r->files_to_ignore) == nign, "the ignore list is complete");
    for (i = 0; i < MAXIGN; i++) {
        if (i < nign) {
            w = filelist_get(r->files_to_ignore);
            VF_ASSERT(w != NULL && vf_streq(w, str[ign[i]]), "the ignore list has the names, in order");
        }
    }
    VF_REACH();
    return 0;
}
