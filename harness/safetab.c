/* the safe filter with the built-in safe table, on any name */
#include "vf.h"
#include "clean_string.h"
#include "filter.h"
#include "shipped.h"
VF_EXIT_IS_FAILURE

int main(void)
{
    char in[N + 1], out[OUTN + 1], *r;
    table_t *t;
    int i, o = 0;

    vf_exact = 1;
    t = filter_load_builtin_by_filename("safe");
    vf_exact = 0;
    VF_ASSERT(t != NULL, "the table is there");
    nd_str(in, N);
    for (i = 0; i < N; i++) {
        unsigned char c = (unsigned char) in[i];
        if (!c) { break; }
        if (c == '&') {
#ifdef NOEXP
            VF_ASSUME(0);
#else
            out[o++] = '_'; out[o++] = 'a'; out[o++] = 'n'; out[o++] = 'd'; out[o++] = '_';
#endif
        } else if (c == '(' || c == ')' || c == '[' || c == ']' || c == '{' || c == '}') {
            out[o++] = '-';
        } else if (c < 0x20 || c == 0x7f || c == ' ' || c == '!' || c == '"' || c == '$' || c == '\'' || c == '*' || c == '/' ||
                   c == ':' || c == ';' || c == '<' || c == '>' || c == '?' || c == '@' || c == '\\' || c == '`' || c == '|') {
            out[o++] = '_';
        } else {
            out[o++] = (char) c;
        }
    }
    out[o] = 0;
    r = clean_safe(in, t);
    VF_ASSERT(r != NULL, "a name is returned");
    for (i = 0; i <= OUTN; i++) {
        VF_ASSERT(r[i] == out[i], "exactly the documented characters are replaced, as documented");
        if (!out[i] || r[i] != out[i]) { break; }
    }
    VF_REACH();
    return 0;
}
