/*
 * Command lines, by detox(1).  Every argument is, by the job, any string of up
 * to FREE bytes (FORM 'f') or the long option LARG ('l')
 * or the operand "op" ('o'); ARGV0 is the program's name.
 */
#define VF_REDIRECT_DECL_ONLY
#include "vf_redirect.h"
#include "vf.h"
#include "detox_struct.h"
#include "filelist.h"
#include "parse_options.h"

#define LEN 11
static const char form[] = FORM;
#define ARGC ((int) sizeof(form))       /* the name, and one for each letter */
static char a[ARGC][LEN + 1], name[] = ARGV0;
static char *argv[ARGC + 1];
static char env[3];
static int has_env;

/* what the command line asks for, by the manual page */
static int dry, recurse, special, list, inl, bin, verb;
static int f_at = -1, f_off, s_at = -1, s_off;  /* where the last -f and -s have their argument */
static int ops, op[ARGC];
static int ends;        /* 0, or what ends the run: 'h'elp, 'V'ersion, '?' usage, 'n'othing to do */

char *vf_getenv_hook(const char *n) { return has_env && vf_streq(n, "DETOX_SEQUENCE") ? env : NULL; }
void vf_on_exit(int code)
{
    VF_ASSERT(ends != 0, "the run goes on");
    VF_ASSERT(vf_out_n + vf_err_n > 0, "something is said");
    if (ends == 'h' || ends == 'V') { VF_ASSERT(code == EXIT_SUCCESS && vf_err_n == 0, "help and version are a success"); }
    if (ends == 'n') { VF_ASSERT(code == EXIT_FAILURE, "nothing to work on is a failure"); }
    if (ends == 'V') { VF_ASSERT(vf_out_n >= 6 && vf_out[0] == 'd' && vf_out[4] == 'x' && vf_out[5] == ' ', "the version is shown"); }
    else { VF_ASSERT(vf_out_n >= 6 && vf_out[0] == 'u' && vf_out[4] == 'e' && vf_out[5] == ':', "the usage is shown"); }
    VF_REACH();
}
static const char *const longs[6] = { "dry-run", "help", "verbose", "inline", "recursive", "special" };
/* the long option: an unambiguous abbreviation of one of the six */
static int long_opt(const char *n)
{
    int i, j, r = 0, hits = 0;
    for (i = 0; i < 6; i++) {
        for (j = 0; j < LEN; j++) { if (!n[j] || n[j] != longs[i][j]) { break; } }
        if (!n[j]) { r = i + 1; hits++; }
    }
    return hits == 1 ? r : 0;
}
static int is(const char *p, int at, int off)
{
    int i, j;
    for (i = 1; i < ARGC; i++) {
        if (i == at) {
            for (j = 0; j <= LEN; j++) {
                if (off + j > LEN) { return 0; }
                if (p[j] != a[i][off + j]) { return 0; }
                if (!p[j]) { return 1; }
            }
        }
    }
    return 0;
}
static void reference(void)
{
    int i, j, pend = 0, end = 0;
    for (i = 1; i < ARGC; i++) {
        if (ends) { break; }
        if (pend == 'f') { f_at = i; f_off = 0; pend = 0; }
        else if (pend == 's') { s_at = i; s_off = 0; pend = 0; }
        else if (end || a[i][0] != '-' || a[i][1] == 0) {
            for (j = 0; j < ARGC; j++) { if (j == ops) { op[j] = i; } }
            ops++;
        }
        else if (a[i][1] == '-' && a[i][2] == 0) { end = 1; }
        else if (a[i][1] == '-') {
            int l = long_opt(a[i] + 2);
            if (l == 1) { dry = 1; }
            else if (l == 2) { ends = 'h'; }
            else if (l == 3) { verb++; }
            else if (l == 4) { inl = 1; }
            else if (l == 5) { recurse = 1; }
            else if (l == 6) { special = 1; }
            else { ends = '?'; }
        } else {
            for (j = 1; j < LEN; j++) {
                char c = a[i][j];
                if (!c || ends || pend) { break; }
                if (c == 'n') { dry = 1; }
                else if (c == 'r') { recurse = 1; }
                else if (c == 'v') { verb++; }
                else if (c == 'L') { list = 1; }
                else if (c == 'h') { ends = 'h'; }
                else if (c == 'V') { ends = 'V'; }
                else if (c == 'f' || c == 's') {
                    if (a[i][j + 1]) {
                        if (c == 'f') { f_at = i; f_off = j + 1; } else { s_at = i; s_off = j + 1; }
                        break;
                    }
                    pend = c;
                }
                else { ends = '?'; }
            }
        }
    }
    if (!ends && pend) { ends = '?'; }
    if (!ends && !list && ops == 0 && !inl && !bin) { ends = 'n'; }
}

int main(void)
{
    options_t *o;
    int i, j, k;
    char *w;

    bin = INLINEBIN;
    argv[0] = name;
    for (i = 1; i < ARGC; i++) {
        argv[i] = a[i];
        if (form[i - 1] == 'f') {
            nd_str(a[i], FREE);
            VF_ASSUME(a[i][0] != '-' || a[i][1] != '-' || !a[i][2]);    /* long options are the other jobs' */
        }
        else { vf_cpy(a[i], form[i - 1] == 'o' ? "op" : LARG); }
    }
    has_env = nd_bool();
    nd_str(env, 2);
    reference();

    vf_exact = 2;
    o = parse_options_getopt(ARGC, argv);
    vf_exact = 0;

    VF_ASSERT(ends == 0, "the run ends there");
    VF_ASSERT(o != NULL, "the options are returned");
    VF_ASSERT((o->dry_run != 0) == dry, "-n and --dry-run, and nothing else, ask for a dry run");
    VF_ASSERT((o->recurse != 0) == recurse, "-r and --recursive, and nothing else, ask for recursion");
    VF_ASSERT((o->special != 0) == special, "--special, and nothing else, asks for special files");
    VF_ASSERT((o->list_sequences != 0) == list, "-L, and nothing else, asks for the list");
    VF_ASSERT(o->verbose == verb, "-v and --verbose are counted");
    VF_ASSERT((o->is_inline_mode != 0) == (inl || bin), "inline mode is asked for, or goes by the program's name");
    if (f_at < 0) { VF_ASSERT(o->check_config_file == NULL, "-f, and nothing else, names a configuration file"); }
    else { VF_ASSERT(o->check_config_file != NULL && is(o->check_config_file, f_at, f_off), "the last -f names the configuration file"); }
    if (s_at >= 0) { VF_ASSERT(o->sequence_name != NULL && is(o->sequence_name, s_at, s_off), "the last -s names the sequence"); }
    else if (has_env) { VF_ASSERT(o->sequence_name != NULL && vf_streq(o->sequence_name, env), "the environment names the sequence otherwise"); }
    else { VF_ASSERT(o->sequence_name == NULL, "no sequence is named"); }
    if (!list) {
        VF_ASSERT(filelist_count(o->files) == ops, "the operands are the paths");
        for (i = 0; i < ARGC; i++) {
            if (i < ops) {
                w = filelist_get(o->files);
                VF_ASSERT(w != NULL && is(w, op[i], 0), "the operands are the paths, in order");
            }
        }
    }
    VF_REACH();
    return 0;
}
