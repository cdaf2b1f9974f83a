/* wipeup: any name of up to N bytes, with and without remove_trailing */
#include "vf.h"
#include "clean_string.h"
VF_EXIT_IS_FAILURE

static int rank(char c, int rt) { return c == '_' ? 1 : c == '-' ? 2 : rt && c == '.' ? 3 : 0; }
static char mark(int r) { return r == 3 ? '.' : r == 2 ? '-' : '_'; }

/* drop leading -_#, then every run of the set becomes its strongest member */
static void ref(const char *in, int rt, char *out)
{
    int i, o = 0, best = 0, lead = 1;
    for (i = 0; i < N; i++) {
        char c = in[i];
        int r;
        if (c == 0) { break; }
        if (lead && (c == '-' || c == '_' || c == '#')) { continue; }
        lead = 0;
        r = rank(c, rt);
        if (r) { if (r > best) { best = r; } continue; }
        if (best) { out[o++] = mark(best); best = 0; }
        out[o++] = c;
    }
    if (best) { out[o++] = mark(best); }
    out[o] = 0;
}

int main(void)
{
    char in[N + 1], save[N + 1], out[N + 1], *r;
    int i, rt;

    nd_str(in, N);
    rt = nd_bool();
    for (i = 0; i <= N; i++) { save[i] = in[i]; }
    ref(in, rt, out);
    r = clean_wipeup(in, rt);
    VF_ASSERT(r != NULL, "a name is returned");
    for (i = 0; i <= N; i++) {
        VF_ASSERT(r[i] == out[i], "collapsed name equals the specification");
        if (out[i] == 0 || r[i] != out[i]) { break; }
    }
    for (i = 0; i <= N; i++) { VF_ASSERT(in[i] == save[i], "the name passed in is left alone"); }
    VF_ASSERT(clean_wipeup(NULL, rt) == NULL, "no name, no result");
    VF_REACH();
    return 0;
}
