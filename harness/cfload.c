/*
 * Which configuration files are read, in which order, and what becomes of
 * them: any subset of them exists, HOME and XDG_CONFIG_HOME are unset, short
 * or too long; reading a file is a stub.
 */
#include "vf.h"
#include "detox_struct.h"
#include "config_file.h"
#include "config_file_spoof.h"
#include <stdlib.h>

#define MAXC 6
static config_file_t cfg[MAXC], spoofed;
static char asked[MAXC][24];
static config_file_t *prev[MAXC];
static int calls, hit[MAXC], spoofs, must_exit;
static options_t opt;
static char home[4], xdg[4], dashf[4];
#define B10 "//////////"
#define B90 B10 B10 B10 B10 B10 B10 B10 B10 B10
static char big[280] = B90 B90 B90;   /* no room for anything behind it */
static int home_k, xdg_k;       /* 0 unset, 1 short, 2 too long */

config_file_t *__wrap_parse_config_file(char *fn, config_file_t *p, options_t *o)
{
    int i, k = calls;
    VF_MODEL(k < MAXC, "too many files");
    VF_ASSUME(k < MAXC);
    VF_ASSERT(o == &opt, "the options are passed along");
    for (i = 0; i < 23; i++) { asked[k][i] = fn[i]; if (!fn[i]) { break; } }
    VF_ASSERT(i < 23, "no other file is read");
    prev[k] = p;
    hit[k] = nd_bool();
    calls++;
    if (hit[k]) { return p ? p : &cfg[k]; }
    return p;
}
config_file_t *__wrap_spoof_config_file(void) { spoofs++; return &spoofed; }
char *vf_getenv_hook(const char *n)
{
    if (vf_streq(n, "HOME")) { return home_k == 0 ? NULL : home_k == 1 ? home : big; }
    if (vf_streq(n, "XDG_CONFIG_HOME")) { return xdg_k == 0 ? NULL : xdg_k == 1 ? xdg : big; }
    return NULL;
}
void vf_on_exit(int code)
{
    VF_ASSERT(must_exit && calls == 1 && !hit[0], "only a missing file asked for with -f is fatal");
    VF_ASSERT(code == EXIT_FAILURE, "which is a failure");
    VF_ASSERT(vf_err_n > 0, "and reported");
}
static int at;
static config_file_t *cur;
/* the next file read is D + "/" + NAME, on top of what was read so far */
static void next(const char *d, const char *n)
{
    char e[24];
    int i, o = 0;
    VF_ASSERT(at < calls, "the file is read");
    VF_ASSUME(at < calls);
    for (i = 0; d[i]; i++) { e[o++] = d[i]; }
    for (i = 0; n[i]; i++) { e[o++] = n[i]; }
    e[o] = 0;
    for (i = 0; i < MAXC; i++) {
        if (i == at) {
            VF_ASSERT(vf_streq(asked[i], e), "the files are read in the documented order");
            VF_ASSERT(prev[i] == cur, "a later file extends what was read before it");
            if (hit[i] && !cur) { cur = &cfg[i]; }
        }
    }
    at++;
}

int main(void)
{
    config_file_t *r;
    nd_str(home, 3);
    nd_str(xdg, 3);
    home_k = HOMEK;
    xdg_k = XDGK;
#ifdef DASHF
    nd_str(dashf, 3);
    opt.check_config_file = dashf;
    must_exit = 1;
    r = config_file_load(&opt);
    VF_ASSERT(calls == 1 && hit[0] && r == &cfg[0] && spoofs == 0, "with -f that file is used and no other");
    next(dashf, "");
#else
    r = config_file_load(&opt);
    next("/usr/local/etc", "/detoxrc");
    if (!cur) { next("/etc", "/detoxrc"); }
    if (!cur) { next("/usr/local/etc", "/detoxrc"); }
    if (home_k == 1) { next(home, "/.detoxrc"); }
    if (xdg_k == 1) { next(xdg, "/detox/detoxrc"); }
    VF_ASSERT(at == calls, "no other file is read");
    VF_ASSERT(spoofs == (cur == NULL), "the built-in configuration is used when there is no other");
    VF_ASSERT(r == (cur ? cur : &spoofed), "the result is what was read");
#endif
    VF_REACH();
    return 0;
}
