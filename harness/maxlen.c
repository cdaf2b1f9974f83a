/* max_length: any name of up to N bytes, any limit */
#include "vf.h"
#include "clean_string.h"
VF_EXIT_IS_FAILURE

int main(void)
{
    /* the code forms (never reads) a pointer just in front of the name */
    char obj[N + 3], *in = obj + 2, *r;
    int i, len, ext, dot = -1, rl;
    unsigned long max, limit;

    obj[0] = obj[1] = 'x';
    nd_str(in, N);
    max = nd_u64();
    limit = max == 0 ? 256 : max;
    len = vf_slen(in);

    /* the extension: from the last dot on, if anything follows it; an earlier
       dot up to five characters before it, but not at the very start, takes part */
    for (i = 0; i < N; i++) { if (i < len && in[i] == '.') { dot = i; } }
    ext = len;
    if (dot >= 0 && dot + 1 < len) {
        ext = dot;
        for (i = 1; i <= 5; i++) {
            if (ext == dot && dot - i > 0 && in[dot - i] == '.') { ext = dot - i; }
        }
    }

    r = clean_max_length(in, max);
    VF_ASSERT(r != NULL, "a name is returned");
    rl = vf_slen(r);
    if ((unsigned long) len <= limit || (ext < len && limit <= (unsigned long) (len - ext))) {
        for (i = 0; i <= N; i++) {
            VF_ASSERT(r[i] == in[i], "a name that fits, or can't be cut without losing its extension, is kept");
            if (!in[i] || r[i] != in[i]) { break; }
        }
    } else {
        int body = (int) limit - (len - ext);
        VF_ASSERT((unsigned long) rl == limit, "a name that's too long is cut to exactly the limit");
        for (i = 0; i < N; i++) {
            if (i < rl) {
                VF_ASSERT(r[i] == (i < body ? in[i] : in[ext + i - body]), "the front of the name and the whole extension are kept");
            }
        }
    }
    VF_ASSERT(clean_max_length(NULL, max) == NULL, "no name, no result");
    VF_REACH();
    return 0;
}
