/*
 * A built-in sequence (SEQ), set up by the code itself, on any name of up to
 * N bytes.  PROP 21: what comes out is safe for a shell.  PROP 19: doing it
 * again changes nothing.
 */
#include "vf.h"
#include "detox_struct.h"
#include "config_file_spoof.h"
#include "sequence.h"
#include "shipped.h"
VF_EXIT_IS_FAILURE

static int special(unsigned char c)
{
    return c < 0x20 || c == 0x7f || c == ' ' || c == '!' || c == '"' || c == '$' || c == '&' || c == '\'' || c == '(' ||
           c == ')' || c == '*' || c == '/' || c == ':' || c == ';' || c == '<' || c == '>' || c == '?' || c == '@' ||
           c == '[' || c == '\\' || c == ']' || c == '`' || c == '{' || c == '|' || c == '}';
}

int main(void)
{
    char in[N + 1], *r, *r2;
    int i, len = 0, end = 0;
    config_file_t *cf;
    sequence_t *seq;

    vf_exact = 1;
    cf = spoof_config_file();
    VF_ASSERT(cf != NULL, "there is a built-in configuration");
    seq = sequence_choose_default(cf->sequences, SEQ);
    VF_ASSERT(seq != NULL, "it holds the sequence");
    sequence_review(seq);
    vf_exact = 0;

    nd_str(in, N);
#ifdef ALPHA
    /* bytes that any filter of the sequence treats specially, and one of each other class */
    for (i = 0; i < N; i++) {
        VF_ASSUME(in[i] == 0 || in[i] == 'a' || in[i] == 'A' || in[i] == '.' || in[i] == '-' || in[i] == '_' || in[i] == '#' ||
                  in[i] == '&' || in[i] == ' ' || in[i] == '(' || in[i] == '\x01' || in[i] == '\x7f' || in[i] == '\x80' || in[i] == '\xc3');
    }
#endif
    r = sequence_run_filters(seq, in);
    VF_ASSERT(r != NULL, "a name comes out");
#if PROP == 21
    for (i = 0; i <= OUTN; i++) {
        unsigned char c;
        if (end) { break; }
        c = (unsigned char) r[i];
        if (!c) { end = 1; break; }
        VF_ASSERT(!special(c), "no control character, blank or shell metacharacter comes out");
        if (i == 0) { VF_ASSERT(c != '-' && c != '_' && c != '#', "a name never starts with -, _ or #"); }
#ifdef LOWER
        VF_ASSERT(!(c >= 'A' && c <= 'Z'), "no upper case comes out");
#endif
        if (i > 0) {
            VF_ASSERT(!((c == '-' || c == '_' || c == '.') && (r[i - 1] == '-' || r[i - 1] == '_' || r[i - 1] == '.')),
                      "runs of -, _ and . are collapsed");
        }
    }
    VF_ASSERT(end, "what comes out is no longer than it can be");
#endif
#if PROP == 19
    r2 = sequence_run_filters(seq, r);
    VF_ASSERT(r2 != NULL, "a name comes out again");
    for (i = 0; i <= OUTN; i++) {
        VF_ASSERT(r2[i] == r[i], "cleaning a clean name changes nothing");
        if (!r[i] || r2[i] != r[i]) { break; }
    }
#endif
    VF_REACH();
    return 0;
}
