/*
 * inline mode, on any input of up to N bytes (no NUL).  The sequence is a stub
 * that records what it is given and returns it in brackets, or nothing at all.
 *
 * PROP 27 (lines fit in the buffer): the output has the lines of the input, in
 * order, each run through the sequence once; "." and ".." and lines the
 * sequence gives nothing for come out as they are; line ends are kept.
 * PROP 28 (lines are longer than the buffer; it is shrunk to CHUNK bytes and
 * its padding): nothing is lost or duplicated, no character encoded in UTF-8
 * is torn apart, nothing is written outside of the buffer.
 */
#include "vf.h"
#include "detox_struct.h"
#include "file.h"
#include <stdlib.h>
VF_EXIT_IS_FAILURE

static char in[N + 4];
static sequence_t seq;
static options_t opt;
static int len, pos;                /* input, and how much of it the sequence was given */

static int cont(char c) { return ((unsigned char) c & 0xc0) == 0x80; }
static int width(char x)
{
    unsigned char c = (unsigned char) x;
    return c >= 0xfe ? 1 : c >= 0xfc ? 6 : c >= 0xf8 ? 5 : c >= 0xf0 ? 4 : c >= 0xe0 ? 3 : c >= 0xc0 ? 2 : 1;
}
#if PROP == 27
static int fail;
static const char *file;
#else
static int bound[N + 1];            /* a piece began here */
#endif

char *__wrap_sequence_run_filters(sequence_t *s, char *name)
{
    char *r;
    int i;
    VF_ASSERT(s == &seq, "the chosen sequence is used");
    if (!name) { return NULL; }
#if PROP == 27
    if (fail && name[0] == 'F') { return NULL; }
    r = malloc(N + 3);
    r[0] = '<';
    for (i = 0; i < N; i++) { if (!name[i]) { break; } r[i + 1] = name[i]; }
    r[i + 1] = '>';
    r[i + 2] = 0;
#else
    for (i = 0; i <= N; i++) { if (i == pos) { bound[i] = 1; } }
    for (i = 0; i < N; i++) {
        if (!name[i]) { break; }
        VF_ASSERT(pos < len && in[pos] == name[i], "what the sequence is given is what comes next");
        VF_ASSUME(pos < len);
        pos++;
    }
    r = malloc(1);
    r[0] = 0;
#endif
    return r;
}

int main(void)
{
    int i, j;

    opt.sequence_to_use = &seq;
#if PROP == 27
    {
        static const int ll[] = { LINES };      /* lengths of the lines; the last one's newline is there or not */
        static char exp[3 * N + 8];
        int o = 0, k, l, n = sizeof(ll) / sizeof(ll[0]), bad;
        fail = FAIL;
        len = 0;
        for (l = 0; l < n; l++) {
            char *line = in + len;
            for (k = 0; k < ll[l]; k++) {
                in[len] = nd_char();
                VF_ASSUME(in[len] != 0 && in[len] != '\n');
                vf_shape[len] = 'w';
                len++;
            }
            bad = (ll[l] == 1 && line[0] == '.') || (ll[l] == 2 && line[0] == '.' && line[1] == '.') || (fail && ll[l] > 0 && line[0] == 'F');
            if (!bad) { exp[o++] = '<'; }
            for (k = 0; k < ll[l]; k++) { exp[o++] = line[k]; }
            if (!bad) { exp[o++] = '>'; }
            if (l + 1 < n || NL) { vf_shape[len] = in[len] = '\n'; len++; exp[o++] = '\n'; }
        }
        exp[o] = 0;
        file = FILED ? "f" : NULL;
        if (file) { vf_file_add("f", in, len); } else { vf_stdin_set(in, len); }
        parse_inline((char *) file, NULL, &opt);
        VF_ASSERT(vf_out_n == o, "the output has the lines of the input");
        for (i = 0; i < 3 * N + 8; i++) { if (i < o) { VF_ASSERT(vf_out[i] == exp[i], "every line is run through the sequence, in order"); } }
        VF_ASSERT(vf_open_inputs == 0, "the input is closed");
        VF_ASSERT(vf_err_n == 0, "nothing to complain about");
        parse_inline("nope", NULL, &opt);
        VF_ASSERT(vf_err_n > 0 && vf_out_n == o, "a file that cannot be read is reported");
    }
#else
    {
        for (i = 0; i < N; i++) { in[i] = nd_char(); }
        len = nd_range(0, N);
        for (i = 0; i < N; i++) { VF_ASSUME(in[i] != 0); }
        for (i = 0; i < N; i++) { VF_ASSUME(in[i] != '\n'); }
        for (i = 0; i < N; i++) { VF_ASSUME(in[i] != '.'); }    /* a piece that is "." or ".." isn't given to it */
        vf_stdin_set(in, len);
        parse_inline(NULL, NULL, &opt);
        VF_ASSERT(pos == len, "all of the input gets to the sequence");
        for (i = 1; i < N; i++) {
            if (bound[i] && i < len && cont(in[i])) {
                for (j = 0; j < i; j++) {
                    if (width(in[j]) > i - j && j >= i - 5) {
                        int k, whole = 1;
                        for (k = j + 1; k < i; k++) { if (!cont(in[k])) { whole = 0; } }
                        VF_ASSERT(!whole, "no character is torn apart");
                    }
                }
            }
        }
    }
#endif
    VF_REACH();
    return 0;
}
