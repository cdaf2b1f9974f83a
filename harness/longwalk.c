/*
 * parse_dir() on a directory whose path has RL bytes, with one entry of EL
 * bytes: long names are handled like short ones, for any type, options and fault.
 */
#define VF_REDIRECT_DECL_ONLY
#include "vf_redirect.h"
#include "vf.h"
#include "detox_struct.h"
#include "file.h"
#include "filelist.h"

static char root[RL + 1], from[RL + EL + 2], to[RL + EL + 2];
static int mode, pos, opens, closes, renamed, moved, entered, recursed;
static struct dirent ent;
static options_t opt;
static sequence_t seq;
static filter_t filter;

VF_EXIT_IS_FAILURE

/* concrete lengths keep this cheap */
static int same(const char *a, const char *b)
{
    int i;
    for (i = 0; i < RL + EL + 2; i++) { if (a[i] != b[i]) { return 0; } if (!a[i]) { return 1; } }
    return 1;
}
int vf_lstat(const char *path, struct stat *st)
{
    st->st_dev = 1; st->st_nlink = 1;
    if (same(path, root)) { st->st_ino = 99; st->st_mode = S_IFDIR | 0755; return 0; }
    if (same(path, moved ? to : from)) { st->st_ino = 100; st->st_mode = mode | 0644; return 0; }
    errno = ENOENT;
    return -1;
}
int vf_stat(const char *path, struct stat *st) { return vf_lstat(path, st); }
int vf_mutate(const char *path) { VF_ASSERT(0, "nothing but a rename may change the file system"); return 0; }
int vf_rename(const char *f, const char *t)
{
    VF_ASSERT(same(f, from), "the entry is renamed, and nothing else");
    VF_ASSERT(same(t, to), "the directory is kept, the new name is complete");
    renamed++;
    if (nd_bool()) { errno = EACCES; return -1; }
    moved = 1;
    return 0;
}
DIR *vf_opendir(const char *path)
{
    if (opens == 0) {
        VF_ASSERT(same(path, root), "the directory itself is read");
        opens++;
        return (DIR *) &ent;
    }
    VF_ASSERT(same(path, moved ? to : from), "a directory is entered by its current name");
    entered++;
    errno = EACCES;
    return NULL;
}
struct dirent *vf_readdir(DIR *p) { return pos++ ? NULL : &ent; }
int vf_closedir(DIR *p) { closes++; return 0; }

int main(void)
{
    int i, want = 0;

    for (i = 0; i < RL; i++) { root[i] = from[i] = to[i] = i % 100 == 50 ? '/' : 'D'; }
    from[RL] = to[RL] = '/';
    for (i = 0; i < EL; i++) {
        char c = i < EL - 1 ? 'q' : 'Q';
        ent.d_name[i] = from[RL + 1 + i] = c;
        want |= c >= 'A' && c <= 'Z';
        to[RL + 1 + i] = c >= 'A' && c <= 'Z' ? c + 32 : c;
    }
    mode = DIRS ? S_IFDIR : S_IFREG;
    ent.d_type = nd_bool() ? DT_UNKNOWN : (mode >> 12);
    filter.cleaner = FILTER_LOWER;
    seq.name = "default";
    seq.filters = &filter;
    opt.sequence_to_use = &seq;
    opt.dry_run = nd_bool();
    opt.recurse = DIRS;

    parse_dir(root, &opt);

    VF_ASSERT(renamed == (want && !opt.dry_run), "the entry is cleaned, once");
    VF_ASSERT(entered == (S_ISDIR(mode) && opt.recurse), "a directory is entered, if recursing");
    VF_ASSERT(opens == closes, "what was opened is closed");
    VF_REACH();
    return 0;
}
