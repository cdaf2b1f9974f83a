/*
 * Which translation table a filter gets: any filter, any combination of
 * builtin/filename, any subset of the table files exists.
 */
#include "vf.h"
#include "detox_struct.h"
#include "filter.h"
#include "sequence.h"
#include <stdlib.h>

static table_t b_safe, b_iso, b_uni, b_cp, file_tab[4], old_tab;
static filter_t f, f2;
static sequence_t seq;
static char path[4][48];
static int calls, hit[4], builtins, may_exit;
static char bname[12], fname[4];
static int code;

table_t *__wrap_load_builtin_safe_table(void) { builtins++; return &b_safe; }
table_t *__wrap_load_builtin_iso8859_1_table(void) { builtins++; return &b_iso; }
table_t *__wrap_load_builtin_unicode_table(void) { builtins++; return &b_uni; }
table_t *__wrap_load_builtin_cp1252_table(void) { builtins++; return &b_cp; }
table_t *__wrap_parse_table(char *fn)
{
    int k = calls, i;
    VF_MODEL(k < 4, "too many files");
    VF_ASSUME(k < 4);
    for (i = 0; i < 47; i++) { path[k][i] = fn[i]; if (!fn[i]) { break; } }
    VF_ASSERT(i < 47, "no other file is read");
    hit[k] = nd_bool();
    calls++;
    return hit[k] ? &file_tab[k] : NULL;
}
static int b_known(void) { return vf_streq(bname, "safe") || vf_streq(bname, "iso8859_1") || vf_streq(bname, "unicode") || vf_streq(bname, "cp1252"); }
static int translating(void) { return code == FILTER_SAFE || code == FILTER_ISO8859_1 || code == FILTER_UTF_8; }
void vf_on_exit(int c)
{
    VF_ASSERT(c == EXIT_FAILURE && vf_err_n > 0, "a table that cannot be had is a reported failure");
    VF_ASSERT(translating() && ((f.builtin && !b_known()) || (!f.builtin && f.filename && calls == 1 && !hit[0])), "nothing else is fatal");
}
static void is(int k, const char *d, const char *n)
{
    char e[48];
    int i, o = 0;
    for (i = 0; d[i]; i++) { e[o++] = d[i]; }
    for (i = 0; n[i]; i++) { e[o++] = n[i]; }
    e[o] = 0;
    VF_ASSERT(vf_streq(path[k], e), "the documented places are searched, in order");
}

int main(void)
{
    table_t *r;
    int k;

    code = nd_range(1, 7);
    f.cleaner = code;
    k = nd_range(0, 4);
    if (k == 0) { nd_str(bname, 4); }
    if (k == 1) { vf_cpy(bname, "safe"); }
    if (k == 2) { vf_cpy(bname, "iso8859_1"); }
    if (k == 3) { vf_cpy(bname, "unicode"); }
    if (k == 4) { vf_cpy(bname, "cp1252"); }
    nd_str(fname, 3);
    f.builtin = nd_bool() ? bname : NULL;
    f.filename = nd_bool() ? fname : NULL;
    f.table = &old_tab;
#ifdef SEQ2
    /* the chosen sequence as a whole: every one of its filters gets its table */
    f.next = &f2;
    f2.cleaner = nd_range(1, 7);
    f2.builtin = "cp1252";
    seq.filters = &f;
    sequence_review(&seq);
    r = f.table;
    if (!translating()) {
        VF_ASSERT(r == &old_tab, "a filter that needs no table is left alone");
        r = NULL;
    }
    if (f2.cleaner == FILTER_SAFE || f2.cleaner == FILTER_ISO8859_1 || f2.cleaner == FILTER_UTF_8) {
        VF_ASSERT(f2.table == &b_cp, "every filter of the sequence gets its table");
        builtins--;
    } else { VF_ASSERT(f2.table == NULL, "a filter that needs no table is left alone"); }
#else
    r = filter_load_table(&f);
#endif
    if (!translating()) {
        VF_ASSERT(r == NULL && calls == 0 && builtins == 0, "other filters have no table");
    } else if (f.builtin) {
        VF_ASSERT(calls == 0 && builtins == 1, "a built-in table is not searched for");
        VF_ASSERT(r == (vf_streq(bname, "safe") ? &b_safe : vf_streq(bname, "iso8859_1") ? &b_iso : vf_streq(bname, "unicode") ? &b_uni : &b_cp),
                  "the built-in table asked for is used");
        VF_ASSERT(b_known(), "an unknown built-in table is fatal");
    } else if (f.filename) {
        VF_ASSERT(calls == 1 && builtins == 0, "a file asked for is used, and no other");
        is(0, fname, "");
        VF_ASSERT(hit[0] && r == &file_tab[0], "a file that cannot be read is fatal");
    } else {
        const char *n = code == FILTER_SAFE ? "safe.tbl" : code == FILTER_UTF_8 ? "unicode.tbl" : "iso8859_1.tbl";
        VF_ASSERT(calls >= 1, "the documented places are searched, in order");
        is(0, "/usr/local/share/detox/", n);
        if (calls >= 2) { VF_ASSERT(!hit[0], "the first table found is used"); is(1, "/usr/share/detox/", n); }
        if (calls >= 3) { VF_ASSERT(!hit[1], "the first table found is used"); is(2, "/usr/local/share/detox/", n); }
        VF_ASSERT(calls <= 3, "no other file is read");
        if (hit[0]) { VF_ASSERT(r == &file_tab[0], "the first table found is used"); }
        else if (hit[1]) { VF_ASSERT(r == &file_tab[1], "the first table found is used"); }
        else if (hit[2]) { VF_ASSERT(r == &file_tab[2], "the first table found is used"); }
        else {
            VF_ASSERT(calls == 3, "all places are searched");
            VF_ASSERT(builtins == 1 && r == (code == FILTER_SAFE ? &b_safe : code == FILTER_UTF_8 ? &b_uni : &b_iso), "the built-in table is the last resort");
        }
    }
    VF_REACH();
    return 0;
}
