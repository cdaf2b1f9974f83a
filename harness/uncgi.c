/* uncgi: any name of up to N bytes */
#include "vf.h"
#include "clean_string.h"
VF_EXIT_IS_FAILURE

static int hex(char c)
{
    return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
int main(void)
{
    char in[N + 3], out[N + 1], *r;
    int i, o = 0, skip = 0;

    nd_str(in, N);
    in[N + 1] = in[N + 2] = 0;
    for (i = 0; i < N; i++) {
        int h, l;
        if (!in[i]) { break; }
        if (skip) { skip--; continue; }
        h = hex(in[i + 1]);
        l = h < 0 ? -1 : hex(in[i + 2]);
        if (in[i] == '%' && l >= 0 && h * 16 + l != 0) { out[o++] = (char) (h * 16 + l); skip = 2; }
        else if (in[i] == '+') { out[o++] = ' '; }
        else { out[o++] = in[i]; }
    }
    out[o] = 0;
    r = clean_uncgi(in);
    VF_ASSERT(r != NULL, "a name is returned");
    for (i = 0; i <= N; i++) {
        VF_ASSERT(r[i] == out[i], "every escape is decoded once, nothing else is touched");
        if (out[i] == 0 || r[i] != out[i]) { break; }
    }
    VF_ASSERT(clean_uncgi(NULL) == NULL, "no name, no result");
    VF_REACH();
    return 0;
}
