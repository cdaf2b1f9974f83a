/*
 * parse_dir() going down a chain of directories d/A/B/C/...: names are fixed
 * (NA, NB, ...; the sequence lower-cases them), what each entry is, which
 * renames fail and the options are symbolic.
 */
#define VF_REDIRECT_DECL_ONLY
#include "vf_redirect.h"
#include "vf.h"
#include "detox_struct.h"
#include "file.h"
#include "filelist.h"

#ifndef DEPTH
#define DEPTH 3
#endif
#define PATHN (DEPTH * 3 + 2)
static const char *const name[4] = { NA, NB, NC, ND };

static struct {
    char cur[PATHN + 1];
    char to[PATHN + 1];
    int listed, mode, renamed, opened;
} n[DEPTH];
static struct { int pos; struct dirent ent; } h[DEPTH + 1];
static int opens, closes;
static options_t opt;
static sequence_t seq;
static filter_t filter;

VF_EXIT_IS_FAILURE

static int nd_mode(void)
{
    int t = nd_range(0, 6);
    return t == 0 ? S_IFREG : t == 1 ? S_IFDIR : t == 2 ? S_IFLNK : t == 3 ? S_IFIFO : t == 4 ? S_IFSOCK : t == 5 ? S_IFCHR : S_IFBLK;
}
static int is_root(const char *p) { return p[0] == 'd' && p[1] == 0; }
static int skip(int i) { return name[i][0] == '.' || vf_streq(name[i], IGN); }

int vf_lstat(const char *path, struct stat *st)
{
    int i;
    st->st_dev = 1; st->st_nlink = 1;
    if (is_root(path)) { st->st_ino = 99; st->st_mode = S_IFDIR | 0755; return 0; }
    for (i = 0; i < DEPTH; i++) {
        if (n[i].listed && vf_streq(path, n[i].cur)) { st->st_ino = 100 + i; st->st_mode = n[i].mode | 0644; return 0; }
    }
    errno = ENOENT;
    return -1;
}
int vf_stat(const char *path, struct stat *st)
{
    int r = vf_lstat(path, st);
    if (r == 0 && S_ISLNK(st->st_mode)) {
        if (nd_bool()) { errno = ENOENT; return -1; }
        st->st_mode = nd_bool() ? S_IFDIR | 0755 : S_IFREG | 0644;
    }
    return r;
}
int vf_mutate(const char *path) { VF_ASSERT(0, "nothing but a rename may change the file system"); return 0; }
int vf_rename(const char *from, const char *to)
{
    int i, done = 0, fail = nd_bool();
    VF_ASSERT(!opt.dry_run, "a dry run renames nothing");
    for (i = 0; i < DEPTH; i++) {
        if (n[i].listed && vf_streq(from, n[i].cur)) {
            done = 1;
            VF_ASSERT(vf_streq(to, n[i].to), "renamed within its directory to what the sequence produced");
            n[i].renamed++;
            if (!fail) { vf_cpy(n[i].cur, n[i].to); }
        }
    }
    VF_ASSERT(done, "only listed entries are renamed, by their current name");
    if (fail) { errno = EACCES; return -1; }
    return 0;
}
DIR *vf_opendir(const char *path)
{
    int k = opens++;
    VF_ASSERT(k <= DEPTH, "no directory is entered twice");
    VF_ASSUME(k <= DEPTH);
    if (k == 0) {
        VF_ASSERT(is_root(path), "the directory itself is read first");
    } else {
        VF_ASSERT(n[k - 1].listed && S_ISDIR(n[k - 1].mode) && vf_streq(path, n[k - 1].cur),
                  "only listed directories are entered, by their current name");
        n[k - 1].opened++;
    }
    return (DIR *) &h[k];
}
static void list(int k)
{
    const char *dir = k == 0 ? "d" : n[k - 1].cur;
    int i, j;
    n[k].listed = 1;
    n[k].mode = nd_mode();
    vf_cpy(h[k].ent.d_name, name[k]);
    h[k].ent.d_type = nd_bool() ? DT_UNKNOWN : (n[k].mode >> 12);
    for (i = 0; i < PATHN; i++) { if (!dir[i]) { break; } n[k].cur[i] = n[k].to[i] = dir[i]; }
    n[k].cur[i] = n[k].to[i] = '/';
    for (j = 0; j < 3; j++) {
        char c = name[k][j];
        n[k].cur[i + 1 + j] = c;
        n[k].to[i + 1 + j] = c >= 'A' && c <= 'Z' ? c + 32 : c;
        if (!c) { break; }
    }
}
struct dirent *vf_readdir(DIR *p)
{
    int k;
    for (k = 0; k < DEPTH; k++) {
        if ((void *) p == (void *) &h[k]) {
            if (h[k].pos) { return NULL; }
            h[k].pos = 1;
            list(k);
            return &h[k].ent;
        }
    }
    return NULL;
}
int vf_closedir(DIR *p) { closes++; return 0; }

int main(void)
{
    int i, reached = 1;

    vf_exact = 1;
    filter.cleaner = FILTER_LOWER;
    seq.name = "default";
    seq.filters = &filter;
    opt.sequence_to_use = &seq;
    opt.files_to_ignore = filelist_init();
    filelist_put(opt.files_to_ignore, "zz");
    filelist_put(opt.files_to_ignore, IGN);
    vf_exact = 0;
    opt.dry_run = nd_bool();
    opt.recurse = nd_bool();
    opt.special = nd_bool();

    parse_dir("d", &opt);

    VF_ASSERT(opens == closes, "every directory is closed again");
    for (i = 0; i < DEPTH; i++) {
        int dir = S_ISDIR(n[i].mode), elig = reached && !skip(i) && (dir || S_ISREG(n[i].mode) || opt.special);
        VF_ASSERT(n[i].listed == reached, "every directory is read as far as recursion goes, no further");
        if (n[i].listed && skip(i)) {
            VF_ASSERT(n[i].renamed == 0, "hidden and ignored entries are never renamed");
            VF_ASSERT(n[i].opened == 0, "hidden and ignored entries are never descended in to");
        }
#if PROP == 6
        VF_ASSERT(n[i].renamed == (elig && name[i][0] == 'Q' && !opt.dry_run), "every eligible entry is renamed, once; no other is");
        VF_ASSERT(n[i].opened == (elig && dir && opt.recurse), "every eligible directory is entered once if recursing; nothing else is");
#endif
        reached = elig && dir && opt.recurse;
    }
    VF_REACH();
    return 0;
}
