/*
 * getopt_long() and basename(), by their manual pages: options are recognised
 * anywhere on the command line, operands are moved behind them, "--" ends the
 * options, long options may be abbreviated when unambiguous.
 */
#define VF_REDIRECT_DECL_ONLY
#include "vf_redirect.h"
#include "vf.h"

#ifdef VF_CBMC
char *optarg;
int optind = 1;
int opterr = 1;
int optopt;
#endif

#ifdef VF_OPT
static const char *nextc;
static int nx, started;         /* argv[optind .. nx - 1] are operands that were skipped, argv[nx] is looked at next */

/* argv[nx] was used up: move it in front of the operands */
static char *take(char **argv)
{
    char *x = argv[nx];
    int i;
    for (i = nx; i > optind; i--) { argv[i] = argv[i - 1]; }
    argv[optind] = x;
    optind++;
    nx++;
    return x;
}

int vf_getopt_long(int argc, char *const cargv[], const char *opts, const struct option *lo, int *idx)
{
    char **argv = (char **) cargv;
    const char *o;
    int i, c;

    if (!started) { started = 1; optind = 1; nx = 1; nextc = 0; }
    optarg = 0;
    if (!nextc || !*nextc) {
        const char *a;
        if (opts[0] != '+') { while (nx < argc && (argv[nx][0] != '-' || argv[nx][1] == 0)) { nx++; } }
        if (nx >= argc || argv[nx][0] != '-' || argv[nx][1] == 0) { return -1; }
        a = take(argv);
        if (a[1] == '-' && a[2] == 0) { return -1; }
        if (a[1] == '-' && lo) {
#ifdef VF_NOLONG
            VF_MODEL(0, "no long options in this job");
            return '?';
#endif
            const char *name = a + 2;
            int len = 0, hit = -1, hits = 0, exact = 0;
            while (name[len] && name[len] != '=') { len++; }
            for (i = 0; lo[i].name; i++) {
                if (strncmp(lo[i].name, name, len) == 0) {
                    if ((int) strlen(lo[i].name) == len) { hit = i; exact = 1; break; }
                    hit = i;
                    hits++;
                }
            }
            if (hit < 0 || (!exact && hits > 1)) { return '?'; }
            if (lo[hit].has_arg == no_argument && name[len] == '=') { return '?'; }
            if (lo[hit].has_arg != no_argument) {
                if (name[len] == '=') { optarg = (char *) name + len + 1; }
                else if (lo[hit].has_arg == required_argument) {
                    if (nx >= argc) { return opts[0] == ':' ? ':' : '?'; }
                    optarg = take(argv);
                }
            }
            for (i = 0; lo[i].name; i++) {
                if (i == hit) {
                    if (idx) { *idx = i; }
                    if (lo[i].flag) { *lo[i].flag = lo[i].val; return 0; }
                    return lo[i].val;
                }
            }
        }
        nextc = a + 1;
    }
    c = (unsigned char) *nextc++;
    o = c == ':' ? 0 : strchr(opts, c);
    if (!o) { optopt = c; return '?'; }
    if (o[1] == ':') {
        if (*nextc || o[2] == ':') { optarg = *nextc ? (char *) nextc : 0; nextc = 0; }
        else {
            nextc = 0;
            if (nx >= argc) { return opts[0] == ':' ? ':' : '?'; }
            optarg = take(argv);
        }
    }
    return c;
}

char *vf_basename(char *p)
{
    char *r = p;
    int i;
    if (!p || !*p) { return "."; }
    for (i = 0; p[i]; i++) { if (p[i] == '/' && p[i + 1]) { r = p + i + 1; } }
    return r;
}
#endif
