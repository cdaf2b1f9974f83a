/*
 * The built-in table TABLE against the shipped table file (builtin_ref.h is
 * generated from /repo/table/TABLE.tbl on every run), for any 32-bit key.
 */
#include "vf.h"
#include "detox_struct.h"
#include "table.h"
#include "filter.h"
#include "builtin_ref.h"
VF_EXIT_IS_FAILURE
#define DEF_OK(want, got) ((want) == NULL ? (got) == NULL : (got) != NULL && vf_streq((want) ? (want) : "", (got)))

int main(void)
{
    table_t *t;
    unsigned int key;
    unsigned long want = 0, got = 0;
    int known = 0, i, end = 0;
    char *r;

    vf_exact = 1;
    t = filter_load_builtin_by_filename(TABLE);
    VF_ASSERT(t != NULL, "the table is there");
    key = nd_u32();
    REF(TABLE_REF)
    r = table_get(t, key);
    VF_ASSERT((r != NULL) == known, "exactly the listed characters are in the table");
    if (r) {
        for (i = 0; i < 8; i++) {
            if (!end) {
                if (!r[i]) { end = 1; }
                got = got * 256 + (unsigned char) r[i];
                if (!r[i]) { got = got / 256; }
            }
        }
        VF_ASSERT(end, "replacements are as long as listed");
        VF_ASSERT(got == want, "the replacement is the listed one");
    }
    VF_ASSERT(DEF_OK(TABLE_DEF, t->default_translation), "the default is the listed one");
    if (r) { VF_ASSERT(vf_slen(r) <= (int) t->max_data_length, "the longest replacement is known"); }
    VF_ASSERT(filter_load_builtin_by_filename("nope") == NULL, "no other table is built in");
    VF_REACH();
    return 0;
}
