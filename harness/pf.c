/*
 * parse_file() for any path (prefix and name), any new name, any state of the
 * file system and any options.  PROP selects what is asserted.
 */
#include "vf_fs.h"
#include "file.h"
#include "seqfix.h"
VF_EXIT_IS_FAILURE

#define MAXNEW (LEN * NEWMAX + 1)
static char path[LEN + 1], expect[LEN + MAXNEW + 1], newbase[MAXNEW + 1];
static int plen;
static int called;

void fs_on_list(const char *dir, const char *name, int mode, int rec) {}
void fs_on_rename(const char *from, const char *to)
{
    called++;
#if PROP == 1
    int a = fs_get(from), b = fs_get(to);
    VF_ASSERT(fs_rec[b].exists == 0 ||
              (fs_rec[a].exists && fs_rec[a].dev == fs_rec[b].dev && fs_rec[a].ino == fs_rec[b].ino &&
               (fs_rec[a].nlink <= 1 || vf_streq(from, to))),
              "a rename never targets an existing other file");
#endif
#if PROP == 2
    int i, j;
    VF_ASSERT(vf_streq(from, path), "only the file that was asked for is renamed");
    for (i = 0; i < plen; i++) {
        VF_ASSERT(to[i] == path[i], "the directory part is kept byte for byte");
        if (to[i] != path[i]) { break; }
    }
    for (j = 0; j <= MAXNEW; j++) {
        VF_ASSERT(to[plen + j] != '/', "the new name has no further directory part");
        VF_ASSERT(to[plen + j] == newbase[j], "the last component is what the sequence produced");
        if (!to[plen + j] || to[plen + j] != newbase[j]) { break; }
    }
    VF_ASSERT(called == 1, "at most one rename per file");
#endif
}

int main(void)
{
    const char *base;
    char *ret;
    int i, o, changed, slash = 0, dry, verb, old;

    sf_init();
    nd_str(path, LEN);
#if PROP == 1 || PROP == 2
    sf_opt.dry_run = nd_bool();
#endif
#if PROP == 3
    sf_opt.dry_run = nd_bool();
#endif
    sf_opt.verbose = nd_range(0, 2);
    sf_opt.recurse = nd_bool();
    sf_opt.special = nd_bool();
    fs_may_fail = 1;
    fs_lstat_may_fail = PROP == 4;

    fs_base(path, &base);
    plen = (int) (base - path);
    sf_ref(base, newbase, LEN);
    changed = !vf_streq(base, newbase);
    for (i = 0; i < MAXNEW; i++) { if (!newbase[i]) { break; } if (newbase[i] == '/') { slash = 1; } }
    for (i = 0; i < plen; i++) { expect[i] = path[i]; }
    vf_cpy(expect + plen, newbase);

    ret = parse_file(path, &sf_opt);

    VF_ASSERT(ret != NULL, "a current name is returned");
#if PROP == 1
    VF_ASSERT(fs_mutations == fs_ok, "only renames change the file system");
#endif
#if PROP == 2
    if (!changed) { VF_ASSERT(called == 0, "an unchanged name is not renamed"); }
    if (slash) { VF_ASSERT(called == 0, "a name with a separator is refused"); }
    /* what can be renamed is renamed */
    if (changed && !slash && !sf_opt.dry_run && newbase[0]) {
        i = fs_get(path);
        o = fs_get(expect);
        if (called == 0) {
            VF_ASSERT(!fs_rec[i].exists || fs_rec[o].exists, "a free target is used");
            VF_ASSERT(!fs_rec[i].exists || fs_rec[i].dev != fs_rec[o].dev || fs_rec[i].ino != fs_rec[o].ino || fs_rec[i].nlink > 1,
                      "another spelling of the same file is not a collision");
        }
    }
#endif
#if PROP == 3
    dry = sf_opt.dry_run;
    verb = sf_opt.verbose;
    if (dry) {
        VF_ASSERT(called == 0 && fs_mutations == 0, "a dry run never changes the file system");
        VF_ASSERT(vf_streq(ret, path), "a dry run goes on with the old name");
    }
    o = vf_slen(path);
    if (vf_out_n > 0) {
        char line[2 * LEN + MAXNEW + 8];
        int k = 0;
        VF_ASSERT(dry || verb, "nothing is printed unless asked for");
        for (i = 0; i < LEN; i++) { if (!path[i]) { break; } line[k++] = path[i]; }
        line[k++] = ' '; line[k++] = '-'; line[k++] = '>'; line[k++] = ' ';
        for (i = 0; i < LEN + MAXNEW; i++) { if (!expect[i]) { break; } line[k++] = expect[i]; }
        line[k++] = '\n'; line[k] = 0;
        VF_ASSERT(vf_streq(vf_out, line), "the report reads old -> new");
    }
    i = fs_find(path);
    o = fs_find(expect);
    if (changed && !slash && newbase[0] && i >= 0 && o >= 0 && (dry || verb)) {
        if (called || (dry && fs_rec[i].exists && !fs_rec[o].exists)) {
            VF_ASSERT(vf_out_n > 0, "every (planned) rename is reported");
        }
    }
#endif
#if PROP == 4
    VF_ASSERT(fs_ops <= 1, "a failed rename is not tried again");
    if (fs_ok == 1) {
        VF_ASSERT(vf_streq(ret, expect), "after a rename the new name is current");
    } else {
        VF_ASSERT(vf_streq(ret, path), "without a rename the old name is current");
        VF_ASSERT(fs_mutations == 0, "nothing else changed");
    }
    if (fs_ops == 1 && fs_ok == 0) { VF_ASSERT(vf_err_n > 0, "a failed rename is reported"); }
#endif
    VF_REACH();
    return 0;
}
