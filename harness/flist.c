/*
 * Lists of names: for any number of puts up to K (past the first growth), any
 * names: they come back in order, once each, and then again from the start.
 */
#include "vf.h"
#include "detox_struct.h"
#include "filelist.h"
VF_EXIT_IS_FAILURE
static char nm[K][2];
int main(void)
{
    filelist_t *l;
    int i, n, part;
    char *r, buf[2];

    VF_ASSERT(filelist_count(NULL) == 0 && filelist_get(NULL) == NULL, "no list, no names");
    vf_exact = 2;
    l = filelist_init();
    VF_ASSERT(l != NULL, "a list");
    VF_ASSERT(filelist_count(l) == 0 && filelist_get(l) == NULL, "it is empty");
    n = COUNT;
    for (i = 0; i < K; i++) {
        nd_str(nm[i], 1);
        if (i < n) {
            buf[0] = nm[i][0]; buf[1] = 0;
            filelist_put(l, buf);
            buf[0] = '?';
            VF_ASSERT(filelist_count(l) == i + 1, "names are counted");
        }
    }
    part = nd_range(0, K);
    for (i = 0; i < K; i++) {
        if (i < n && i < part) { r = filelist_get(l); VF_ASSERT(r && vf_streq(r, nm[i]), "names come back in order"); }
    }
    filelist_reset(l);
    for (i = 0; i < K; i++) {
        if (i < n) { r = filelist_get(l); VF_ASSERT(r && vf_streq(r, nm[i]), "names come back in order, from the start"); }
    }
    VF_ASSERT(filelist_get(l) == NULL, "and then there are no more");
    for (i = 0; i < K; i++) {
        if (i < n) { r = filelist_get(l); VF_ASSERT(r && vf_streq(r, nm[i]), "a second walk is like the first"); }
    }
    VF_ASSERT(filelist_get(l) == NULL && filelist_count(l) == n, "names are kept");
    filelist_free(l);
    VF_REACH();
    return 0;
}
