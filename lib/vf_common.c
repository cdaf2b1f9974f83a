/* shared by the CBMC and the native build of every harness */
#include "vf.h"
void nd_str(char *buf, int max)
{
    int i;
    for (i = 0; i < max; i++) { buf[i] = nd_char(); }
    buf[max] = 0;
}
void nd_str_nz(char *buf, int len)
{
    int i;
    for (i = 0; i < len; i++) { buf[i] = nd_char(); VF_ASSUME(buf[i] != 0); }
    buf[len] = 0;
}
int vf_streq(const char *a, const char *b)
{
    int i;
    for (i = 0;; i++) { if (a[i] != b[i]) { return 0; } if (!a[i]) { return 1; } }
}
int vf_slen(const char *a) { int i = 0; while (a[i]) { i++; } return i; }
void vf_cpy(char *d, const char *s) { int i = 0; for (;; i++) { d[i] = s[i]; if (!s[i]) { break; } } }
