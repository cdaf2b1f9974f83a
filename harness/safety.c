/*
 * Memory safety of a filter (CLEAN) on any name and, where there is one, any
 * table: every object ends exactly where the block that was asked for ends, so
 * every read or write past an end is out of bounds; no block is released twice
 * or used after it was released; the name passed in is not changed.
 */
#include "vf.h"
#include "clean_string.h"
#include "clean_utf_8.h"
#include <stdlib.h>
#if CLEAN <= 3
#include "cutab.h"
#endif
VF_EXIT_IS_FAILURE

int main(void)
{
    char buf[N + 1], *in, *r;
    int i, len;

    nd_str(buf, N);
    len = 0;
    while (len < N && buf[len]) { len++; }
    in = malloc((size_t) len + 1);
    for (i = 0; i <= N; i++) { in[i] = buf[i]; if (!buf[i]) { break; } }
#if CLEAN <= 3
    cu_init(0xffffffff);
#endif
#if CLEAN == 1
    r = clean_safe(in, &cu_table);
#elif CLEAN == 2
    r = clean_iso8859_1(in, &cu_table);
#elif CLEAN == 3
    r = clean_utf_8(in, &cu_table);
#elif CLEAN == 4
    r = clean_uncgi(in);
#elif CLEAN == 5
    r = clean_wipeup(in, nd_bool());
#elif CLEAN == 6
    r = clean_max_length(in, nd_u64());
#elif CLEAN == 7
    r = clean_lower(in);
#endif
    VF_ASSERT(r != NULL && r != in, "a new name is returned");
    for (i = 0; i <= OUTN; i++) { if (!r[i]) { break; } }
    VF_ASSERT(i <= OUTN, "it ends");
    for (i = 0; i <= N; i++) { VF_ASSERT(in[i] == buf[i], "the name passed in is left alone"); if (!buf[i]) { break; } }
    free(r);
    free(in);
    VF_REACH();
    return 0;
}
