/* a custom table: ROWS rows with any keys and data of up to DATA bytes, any default */
#include "detox_struct.h"
#include "table.h"
#ifndef ROWS
#define ROWS 2
#endif
#ifndef DATA
#define DATA 2
#endif
static char cu_data[ROWS][DATA + 1], cu_def[DATA + 1];
static unsigned int cu_key[ROWS];
static int cu_has_def;
static table_row_t cu_rows[ROWS];
static table_t cu_table;
static void cu_init(unsigned int maxkey)
{
    int i, j;
    cu_table.rows = cu_rows;
    cu_table.length = ROWS;
    cu_table.use_hash = nd_bool();
    for (i = 0; i < ROWS; i++) {
        cu_key[i] = nd_u32();
        VF_ASSUME(cu_key[i] <= maxkey);
        for (j = 0; j < i; j++) { VF_ASSUME(cu_key[i] == 0 || cu_key[i] != cu_key[j]); }
        nd_str(cu_data[i], DATA);
        cu_rows[i].key = cu_key[i];
        cu_rows[i].data = cu_key[i] ? cu_data[i] : NULL;
        if (cu_key[i]) {
            cu_table.used++;
            if (vf_slen(cu_data[i]) > (int) cu_table.max_data_length) { cu_table.max_data_length = vf_slen(cu_data[i]); }
            if (cu_key[i] > cu_table.max_key) { cu_table.max_key = cu_key[i]; }
        }
    }
    nd_str(cu_def, DATA);
    cu_has_def = nd_bool();
    if (cu_has_def) { cu_table.default_translation = cu_def; }
}
/* what the table says about a key: 0 nothing, 1 out */
static int cu_lookup(unsigned int key, const char **out)
{
    int i;
    if (key == 0) { return 0; }
    for (i = 0; i < ROWS; i++) { if (cu_key[i] == key) { *out = cu_data[i]; return 1; } }
    return 0;
}
