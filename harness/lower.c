/* lower: any name of up to N bytes */
#include "vf.h"
#include "clean_string.h"
VF_EXIT_IS_FAILURE

int main(void)
{
    char in[N + 1], *r;
    int i;

    nd_str(in, N);
    r = clean_lower(in);
    VF_ASSERT(r != NULL, "a name is returned");
    for (i = 0; i <= N; i++) {
        char c = in[i];
        if (c >= 'A' && c <= 'Z') { c = c - 'A' + 'a'; }
        VF_ASSERT(r[i] == c, "A-Z become a-z, every other byte is kept, in place");
        if (!c || r[i] != c) { break; }
    }
    VF_ASSERT(clean_lower(NULL) == NULL, "no name, no result");
    VF_REACH();
    return 0;
}
