/*
 * Summaries of the built-in tables, used in place of loading and searching
 * them: the "lemma" jobs of the same check show that the code's own tables and
 * lookups give exactly these answers, for every key.
 */
#include "detox_struct.h"
#include "table.h"
#include "builtin_ref.h"
static table_t sh_tab[4];
static char sh_buf[8];
table_t *sum_load(const char *name)
{
    static const char *const names[4] = { "safe", "iso8859_1", "unicode", "cp1252" };
    static const int max[4] = { MAX_safe, MAX_iso8859_1, MAX_unicode, MAX_cp1252 };
    static const char *const def[4] = { DEF_safe, DEF_iso8859_1, DEF_unicode, DEF_cp1252 };
    int i;
    for (i = 0; i < 4; i++) {
        if (vf_streq(name, names[i])) {
            sh_tab[i].length = sh_tab[i].used = 1;
            sh_tab[i].max_data_length = max[i];
            sh_tab[i].default_translation = (char *) def[i];
            return &sh_tab[i];
        }
    }
    return NULL;
}
char *sum_get(table_t *t, unsigned int key)
{
    unsigned long want = 0;
    int known = 0, i, k = 0;
#ifdef NOEXP
    /* this job: no character whose replacement is longer than itself */
    VF_ASSUME(key != '&' && key != 0);
#endif
    if (t == NULL || key == 0) { return NULL; }
#ifdef SHIP_safe
    if (t == &sh_tab[0]) { REF_safe }
#endif
#ifdef SHIP_iso8859_1
    if (t == &sh_tab[1]) { REF_iso8859_1 }
#endif
#ifdef SHIP_unicode
    if (t == &sh_tab[2]) { REF_unicode }
#endif
#ifdef SHIP_cp1252
    if (t == &sh_tab[3]) { REF_cp1252 }
#endif
    if (!known) { return NULL; }
    for (i = 7; i >= 0; i--) {
        unsigned char c = (unsigned char) (want >> (8 * i));
        if (c) { sh_buf[k++] = (char) c; }
    }
    sh_buf[k] = 0;
    return sh_buf;
}
