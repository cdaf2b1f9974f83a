/*
 * PROP 22: a table of ROWS rows behaves as a map, over any history of OPS
 * puts (any keys, any data) followed by a lookup of any key.
 * PROP 23: a copy of it in any other size and with or without hashing holds
 * the same (as long as it fits), and the original is left alone.
 */
#include "vf.h"
#include "detox_struct.h"
#include "table.h"
#ifndef DATA
#define DATA 2
#endif
VF_EXIT_IS_FAILURE

static unsigned int key[OPS];
static char data[OPS][DATA + 1], arg[DATA + 1];
static int stored[OPS];             /* put k is in the table, the last one of its key */

int main(void)
{
    table_t *t, *t2;
    int i, j, r, distinct = 0, longest = 0, hit = -1, hash, rows2;
    unsigned int q;
    char *got;

    vf_exact = 1;
    t = table_init(ROWS);
    vf_exact = 0;
    VF_ASSERT(t != NULL, "a table");
    VF_ASSERT(table_get(t, nd_u32()) == NULL, "a new table is empty");
    hash = nd_bool();
    t->use_hash = hash;
    for (i = 0; i < OPS; i++) {
        int known = 0;
        key[i] = nd_u32();
        nd_str(data[i], DATA);
        vf_cpy(arg, data[i]);
        for (j = 0; j < i; j++) { if (stored[j] && key[j] == key[i]) { known = 1; } }
        r = table_put(t, key[i], arg);
        arg[0] = '?';                /* the table keeps a copy of its own */
        if (key[i] == 0 || (!known && distinct == ROWS)) {
            VF_ASSERT(r == -1, "a put that cannot be done says so");
        } else {
            VF_ASSERT(r >= 0 && r < ROWS, "a put that can be done is done");
            for (j = 0; j < i; j++) { if (key[j] == key[i]) { stored[j] = 0; } }
            stored[i] = 1;
            if (!known) { distinct++; }
            if (vf_slen(data[i]) > longest) { longest = vf_slen(data[i]); }
        }
    }
    VF_ASSERT(t->used == distinct, "the number of rows in use is known");
    VF_ASSERT((int) t->max_data_length == longest, "the longest data ever stored is known");
    q = nd_u32();
#if PROP == 23
    rows2 = ROWS2;
    vf_exact = 2;
    t2 = table_resize(t, rows2, nd_bool());
    vf_exact = 0;
    VF_ASSERT(t2 != NULL, "a copy");
    VF_ASSERT(t2->used == distinct, "all rows are copied");
    for (i = 0; i < OPS; i++) {
        if (stored[i]) { VF_ASSERT((int) t2->max_data_length >= vf_slen(data[i]), "the longest data is known"); }
    }
#else
    t2 = t;
#endif
    got = table_get(t2, q);
    for (i = 0; i < OPS; i++) { if (stored[i] && key[i] == q) { hit = i; } }
    if (hit < 0) { VF_ASSERT(got == NULL, "a key that was never stored has no data"); }
    for (i = 0; i < OPS; i++) {
        if (i == hit) {
            VF_ASSERT(got != NULL, "a key that was stored has data");
            VF_ASSERT(vf_streq(got, data[i]), "the data last stored for the key comes back");
        }
    }
#if PROP == 23
    got = table_get(t, q);
    if (hit < 0) { VF_ASSERT(got == NULL, "the original is left alone"); }
    for (i = 0; i < OPS; i++) {
        if (i == hit) { VF_ASSERT(got != NULL && vf_streq(got, data[i]), "the original is left alone"); }
    }
    vf_exact = 2;
    t2 = table_resize(NULL, rows2, 1);
    vf_exact = 0;
    VF_ASSERT(t2 != NULL && table_get(t2, q) == NULL, "a copy of nothing is an empty table");
#endif
    VF_ASSERT(table_get(NULL, q) == NULL, "no table, no data");
    VF_ASSERT(table_put(NULL, q, arg) == -1, "no table, no row");
    VF_REACH();
    return 0;
}
