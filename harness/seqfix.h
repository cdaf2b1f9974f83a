/*
 * A sequence of one real "safe" filter over a real custom table with a single
 * row, 'Q' -> any string: the code's own filters then produce an arbitrary new
 * name for a name that holds a Q, and leave every other name alone.
 */
#include "detox_struct.h"
#ifndef NEWMAX
#define NEWMAX 2
#endif
static char sf_new[NEWMAX + 1];
static table_row_t sf_rows[1];
static table_t sf_table;
static filter_t sf_filter;
static sequence_t sf_seq;
static options_t sf_opt;
static void sf_init(void)
{
    nd_str(sf_new, NEWMAX);
    sf_rows[0].key = 'Q';
    sf_rows[0].data = sf_new;
    sf_table.length = 1;
    sf_table.used = 1;
    sf_table.max_data_length = NEWMAX;
    sf_table.max_key = 'Q';
    sf_table.use_hash = 0;
    sf_table.rows = sf_rows;
    sf_filter.cleaner = FILTER_SAFE;
    sf_filter.table = &sf_table;
    sf_seq.name = "default";
    sf_seq.filters = &sf_filter;
    sf_opt.sequence_to_use = &sf_seq;
}
/* the specification of that sequence on a base name ("." and ".." are left alone) */
static void sf_ref(const char *base, char *out, int maxin)
{
    int i, j, o = 0;
    if (base[0] == '.' && (base[1] == 0 || (base[1] == '.' && base[2] == 0))) {
        vf_cpy(out, base);
        return;
    }
    for (i = 0; i < maxin; i++) {
        if (!base[i]) { break; }
        if (base[i] == 'Q') {
            for (j = 0; j < NEWMAX; j++) { if (!sf_new[j]) { break; } out[o++] = sf_new[j]; }
        } else {
            out[o++] = base[i];
        }
    }
    out[o] = 0;
}
