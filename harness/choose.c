/* which sequence is used: any list of up to K sequences, any names, any name asked for or none */
#include "vf.h"
#include "detox_struct.h"
#include "sequence.h"
VF_EXIT_IS_FAILURE
#define LEN 8
static sequence_t seq[K];
static char name[K][LEN + 1], want[LEN + 1];
/* any short name, or one that is or nearly is "default" */
static void pick(char *s)
{
    int k = nd_range(0, 3);
    if (k == 0) { nd_str(s, 2); }
    else {
        vf_cpy(s, "default");
        if (k == 2) { s[0] = 'D'; }
        if (k == 3) { s[6] = nd_char(); s[7] = nd_char(); s[8] = 0; }
    }
}
int main(void)
{
    int i, n, asked, exp = -1;
    sequence_t *r;

    n = nd_range(0, K);
    for (i = 0; i < K; i++) {
        pick(name[i]);
        seq[i].name = name[i];
        seq[i].next = i + 1 < n ? &seq[i + 1 < K ? i + 1 : i] : NULL;
    }
    pick(want);
    asked = nd_bool();
    for (i = K - 1; i >= 0; i--) { if (i < n && vf_streq(name[i], asked ? want : "default")) { exp = i; } }
    if (!asked && exp < 0 && n > 0) { exp = 0; }
    r = sequence_choose_default(n ? &seq[0] : NULL, asked ? want : NULL);
    if (exp < 0) { VF_ASSERT(r == NULL, "a sequence that does not exist is never replaced by another"); }
    for (i = 0; i < K; i++) { if (i == exp) { VF_ASSERT(r == &seq[i], "the sequence asked for, or else the default, or else the first"); } }
    VF_REACH();
    return 0;
}
