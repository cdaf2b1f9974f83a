/*
 * The words of a configuration file: the real scanner on PRE, K free bytes and
 * POST against an independent reading of detoxrc(5).  The first CALLS words
 * are compared.
 */
#define VF_REDIRECT_DECL_ONLY
#include "vf_redirect.h"
#include "vf.h"
#include "detox_struct.h"
#include "config_file_yacc.h"
VF_EXIT_IS_FAILURE

#define LEN ((int) sizeof(PRE) - 1 + K + (int) sizeof(POST) - 1)
extern FILE *yyin, *yyout;
extern int yylex(void), config_file_lineno;
static char t[LEN + 4], word[LEN + 1];
static long none;
static int pos, line = 1, value, n;

static int lc(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int alpha(char c) { return lc(c) >= 'a' && lc(c) <= 'z'; }
static int digit(char c) { return c >= '0' && c <= '9'; }
static int is(const char *k)
{
    int i;
    for (i = 0; i <= 15; i++) { if (lc(word[i]) != k[i]) { return 0; } if (!k[i]) { return 1; } }
    return 0;
}
static int same(const char *s)
{
    int i;
    for (i = 0; i < LEN; i++) { if (s[i] != word[i]) { return 0; } if (!word[i]) { return 1; } }
    return 0;
}
/* the next word from pos on */
static int next(void)
{
    int i, start = -1, end = 0, kind = 0, comment = 0;
    /* kind: 0 none yet, 1 identifier, 2 number, 3 string, 4 punctuation */
    for (i = 0; i < LEN; i++) {
        char c = t[i];
        if (i >= pos && !end) {
            if (kind == 1) { if (!alpha(c) && !digit(c) && c != '_') { end = 1; pos = i; } }
            else if (kind == 2) { if (!digit(c)) { end = 1; pos = i; } }
            else if (kind == 3) {
                VF_ASSUME(c != '\n');      /* a name that is not closed: outside */
                if (c == '"') { end = 1; pos = i + 1; }
            }
            if (!end) {
                if (kind == 1 || kind == 3) { word[n++] = c; }
                else if (kind == 2) { value = value * 10 + (c - '0'); }
                else if (c == '\n') { line++; comment = 0; }
                else if (comment) { }
                else if (c == '#') { comment = 1; }
                else if (c == '{' || c == '}' || c == ';') { kind = 4; end = 1; pos = i + 1; start = i; }
                else if (c == '"') { kind = 3; start = i; n = 0; }
                else if (alpha(c)) { kind = 1; start = i; n = 0; word[n++] = c; }
                else if (digit(c)) { kind = 2; start = i; value = c - '0'; }
                else { VF_ASSUME(c == ' ' || c == '\t'); }     /* other bytes mean nothing: outside */
            }
        }
    }
    word[n] = 0;
    if (!end) {
        if (kind == 0) { return 0; }
        VF_MODEL(0, "the text ends in a word");
    }
    if (kind == 1) {
        if (is("builtin")) { return BUILTIN; }
        if (is("filename")) { return FILENAME; }
        if (is("ignore")) { return IGNORE; }
        if (is("iso8859_1")) { return ISO8859_1; }
        if (is("length")) { return LENGTH; }
        if (is("lower")) { return LOWER; }
        if (is("max_length")) { return MAX_LENGTH; }
        if (is("remove_trailing")) { return REMOVE_TRAILING; }
        if (is("safe")) { return SAFE; }
        if (is("sequence")) { return SEQUENCE; }
        if (is("uncgi")) { return UNCGI; }
        if (is("utf_8")) { return UTF_8; }
        if (is("wipeup")) { return WIPEUP; }
        return ID;
    }
    if (kind == 2) { return NVALUE; }
    if (kind == 3) { return QSTRING; }
    if (t[start] == '{') { return OPEN; }
    if (t[start] == '}') { return CLOSE; }
    return EOL;
}

/* the text is in the scanner's buffer from the start and ends in words enough */
int vf_no_refill(void) { VF_MODEL(0, "the scanner asks for more text"); VF_ASSUME(0); return 0; }
int vf_no_nul(int s) { vf_no_refill(); return 0; }
void vf_no_fatal(const char *m) { VF_ASSERT(0, "the scanner knows what to do"); VF_ASSUME(0); }
/* a word is compared at once, before the scanner goes on: no copy needed */
char *vf_lex_strdup(const char *s) { return (char *) s; }
int vf_lex_atoi(const char *s)
{
    int i, v = 0;
    for (i = 0; i < DIGITS; i++) { if (!digit(s[i])) { break; } v = v * 10 + (s[i] - '0'); }
    return v;
}
int vf_lex_printf(const char *f, ...) { return 0; }
void *yy_scan_bytes(const char *, int);

int main(void)
{
    int i, k = 0, c, got, want;
    for (i = 0; PRE[i]; i++) {
        t[k] = PRE[i];
#ifdef ANYCASE
        if (alpha(t[k]) && nd_bool()) { t[k] ^= 32; }
#endif
        k++;
    }
    for (i = 0; i < K; i++) { t[k] = nd_char(); VF_ASSUME(t[k] != 0); FREE(t[k]); k++; }
    for (i = 0; POST[i]; i++) { t[k++] = POST[i]; }
    vf_exact = 2;
#ifdef READ
    vf_file_add("/c", t, LEN);
    yyin = vf_fopen("/c", "r");
#else
    yy_scan_bytes(t, LEN);
    yyin = yyout = (FILE *) &none;
#endif
    for (c = 0; c < CALLS; c++) {
        want = next();
        got = yylex();
        VF_ASSERT(got == want, "the word is of the right kind");
        VF_ASSUME(got == want);
        VF_ASSERT(config_file_lineno == line, "the line is the one the word is on");
        if (want == ID || want == QSTRING) { VF_ASSERT(same(yylval.string), "a name is what is in the file"); }
        if (want == NVALUE) { VF_ASSERT(yylval.nvalue == value, "a number is what is in the file"); }
    }
    VF_REACH();
    return 0;
}
