/* utf_8: any bytes, any table */
#include "vf.h"
#include "clean_utf_8.h"
#include "cutab.h"
VF_EXIT_IS_FAILURE

#ifdef NONULL
#define OUTMAX (N * DATA)
#else
#define OUTMAX (N * 7 + 1)
#endif
#ifdef NONULL
#define REPL DATA
#else
#define REPL 13
#endif

int main(void)
{
    char in[N + 1], out[OUTMAX + 1], *r;
    int i, j, o = 0, len;

    nd_str(in, N);
#ifdef SINGLE
    /* one character of any width, cut short anywhere, and one byte after it */
    for (i = 1; i < N - 1; i++) { VF_ASSUME(((unsigned char) in[i] & 0xc0) == 0x80 || in[i] == 0); }
    VF_ASSUME((unsigned char) in[0] >= 0xc0);
#endif
    cu_init(0xffffffff);
    len = vf_slen(in);
    i = 0;
    /* at most one step per byte */
    for (int step = 0; step < N; step++) {
        unsigned char c;
        int w, k, ok;
        unsigned long v;
        const char *t = 0;
        if (i >= len) { break; }
        c = (unsigned char) in[i];
        w = c < 0x80 ? 1 : c < 0xc0 ? 0 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : c < 0xf8 ? 4 : c < 0xfc ? 5 : c < 0xfe ? 6 : 0;
        if (w == 0) { out[o++] = '_'; i++; continue; }
        v = w == 1 ? c : w == 2 ? c & 0x1f : w == 3 ? c & 0x0f : w == 4 ? c & 0x07 : w == 5 ? c & 0x03 : c & 0x01;
        ok = 1;
        for (k = 1; k < 6; k++) {
            if (k < w && ok) {
                unsigned char d = i + k <= N ? (unsigned char) in[i + k] : 0;
                if (d < 0x80 || d >= 0xc0) { ok = 0; break; }
                v = v * 64 + (d & 0x3f);
            }
        }
        if (!ok) { out[o++] = '_'; i += k; continue; }  /* go on at the byte that doesn't belong */
#ifdef NONULL
        VF_ASSUME(v != 0);
#endif
#ifdef NULLS
        VF_ASSUME(v == 0 || w == 1);
#endif
        if (cu_lookup((unsigned int) v, &t)) {
            /* found */
        } else if (v == 0) {
            t = "_hidden_null_";
        } else if (v > 0x10ffff) {
            t = "_";
        } else if (cu_has_def) {
            t = cu_def;
        }
        if (t) {
            for (j = 0; j < REPL; j++) { if (!t[j]) { break; } out[o++] = t[j]; }
        } else {
            for (j = 0; j < 6; j++) { if (j < w) { out[o++] = in[i + j]; } }
        }
        i += w;
    }
    out[o] = 0;
    r = clean_utf_8(in, &cu_table);
    VF_ASSERT(r != NULL, "a name is returned");
    for (i = 0; i <= OUTMAX; i++) {
        VF_ASSERT(r[i] == out[i], "every character is translated, defaulted, replaced or kept, as specified");
        if (!out[i] || r[i] != out[i]) { break; }
    }
    VF_ASSERT(clean_utf_8(NULL, &cu_table) == NULL, "no name, no result");
    VF_REACH();
    return 0;
}
