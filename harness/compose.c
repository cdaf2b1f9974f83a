/*
 * Any sequence of up to K filters, of any kind, on any name: the filters
 * (stubs here: each returns any string) are called in order, each with its own
 * parameters and with the previous one's result; the last result comes out.
 */
#include "vf.h"
#include "detox_struct.h"
#include "sequence.h"
#include "filter.h"
#include <stdlib.h>
VF_EXIT_IS_FAILURE
#ifndef K
#define K 4
#endif

static const int code[7] = { FILTER_LOWER, FILTER_UNCGI, FILTER_WIPEUP, FILTER_MAX_LENGTH, FILTER_SAFE, FILTER_ISO8859_1, FILTER_UTF_8 };
static char cur[N + 1];         /* what the next filter has to be given */
static int calls, cnt, kind[K], rt[K];
static unsigned long max[K];
static table_t tab[2], *tp[K];    /* filters may share a table, or a setting */

static char *stub(int k, int remove_trailing, unsigned long m, table_t *t, char *s)
{
    char *r;
    int i;

    VF_ASSERT(s != NULL, "a filter is given a name");
    VF_ASSERT(calls < cnt, "no filter runs that the sequence doesn't have");
    VF_ASSERT(vf_streq(s, cur), "a filter is given the previous one's result");
    for (i = 0; i < K; i++) {
        if (i == calls) {
            VF_ASSERT(kind[i] == k, "the filters run in the order of the sequence");
            VF_ASSERT(k != 2 || !rt[i] == !remove_trailing, "wipeup is told about remove_trailing");
            VF_ASSERT(k != 3 || max[i] == m, "max_length is told the length");
            VF_ASSERT(k < 4 || t == tp[i], "a filter is given its own table");
        }
    }
    calls++;
    nd_str(cur, N);
    r = malloc(N + 1);
    for (i = 0; i <= N; i++) { r[i] = cur[i]; }
    return r;
}
char *__wrap_clean_lower(char *s) { return stub(0, 0, 0, NULL, s); }
char *__wrap_clean_uncgi(char *s) { return stub(1, 0, 0, NULL, s); }
char *__wrap_clean_wipeup(char *s, int r) { return stub(2, r, 0, NULL, s); }
char *__wrap_clean_max_length(char *s, size_t m) { return stub(3, 0, m, NULL, s); }
char *__wrap_clean_safe(char *s, table_t *t) { return stub(4, 0, 0, t, s); }
char *__wrap_clean_iso8859_1(char *s, table_t *t) { return stub(5, 0, 0, t, s); }
char *__wrap_clean_utf_8(char *s, table_t *t) { return stub(6, 0, 0, t, s); }

int main(void)
{
    char in[N + 1], save[N + 1], *r;
    int i;
    filter_t f[K];
    sequence_t s;

    nd_str(in, N);
    for (i = 0; i <= N; i++) { save[i] = cur[i] = in[i]; }
    cnt = nd_range(0, K);
    for (i = 0; i < K; i++) {
        kind[i] = nd_range(0, 6);
        rt[i] = nd_range(0, 2);
        max[i] = nd_u64();
        f[i].cleaner = code[kind[i]];
        f[i].remove_trailing = rt[i];
        f[i].max_length = max[i];
        tp[i] = kind[i] < 4 ? NULL : nd_bool() ? &tab[0] : &tab[1];
        f[i].table = tp[i];
        f[i].builtin = f[i].filename = NULL;
        f[i].next = i + 1 < cnt ? &f[i + 1 < K ? i + 1 : i] : NULL;
    }
    s.next = &s;
    s.name = "x";
    s.source_filename = NULL;
    s.filters = cnt > 0 ? &f[0] : NULL;
    r = sequence_run_filters(&s, in);
    VF_ASSERT(r != NULL, "a name comes out");
    VF_ASSERT(calls == cnt, "every filter of the sequence runs, once");
    VF_ASSERT(vf_streq(r, cur), "the last filter's result comes out");
    VF_ASSERT(r != in, "the result is a string of its own");
    for (i = 0; i <= N; i++) { VF_ASSERT(in[i] == save[i], "the name passed in is left alone"); }
    VF_ASSERT(sequence_run_filters(&s, NULL) == NULL && calls == cnt, "no name, no result");
    VF_REACH();
    return 0;
}
