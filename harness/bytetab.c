/* safe (CLEAN=1) and iso8859_1 (CLEAN=2): any name, any table */
#include "vf.h"
#include "clean_string.h"
#include "cutab.h"
VF_EXIT_IS_FAILURE

int main(void)
{
    char in[N + 1], out[N * (DATA > 1 ? DATA : 1) + 1], *r;
    int i, j, o = 0;

    nd_str(in, N);
#if CLEAN == 1
    cu_init(0x7f);
#else
    cu_init(0xffffffff);
#endif
    for (i = 0; i < N; i++) {
        const char *t = 0;
        unsigned char c = (unsigned char) in[i];
        int hit = 0;
        if (!c) { break; }
#if CLEAN == 1
        if (c < 0x80) { hit = cu_lookup(c, &t); }
        if (!hit && cu_has_def) { t = cu_def; hit = 1; }
#else
        if (c >= 0x80) {
            hit = cu_lookup(c, &t);
            if (!hit && cu_has_def) { t = cu_def; hit = 1; }
        }
#endif
        if (!hit) { out[o++] = (char) c; continue; }
        for (j = 0; j < DATA; j++) { if (!t[j]) { break; } out[o++] = t[j]; }
    }
    out[o] = 0;
#if CLEAN == 1
    r = clean_safe(in, &cu_table);
    VF_ASSERT(clean_safe(NULL, &cu_table) == NULL, "no name, no result");
#else
    r = clean_iso8859_1(in, &cu_table);
    VF_ASSERT(clean_iso8859_1(NULL, &cu_table) == NULL, "no name, no result");
#endif
    VF_ASSERT(r != NULL, "a name is returned");
    for (i = 0; i <= N * DATA; i++) {
        VF_ASSERT(r[i] == out[i], "every byte is translated, defaulted or kept");
        if (!out[i] || r[i] != out[i]) { break; }
    }
    VF_REACH();
    return 0;
}
