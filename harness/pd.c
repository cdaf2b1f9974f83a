/*
 * parse_dir() on the directory "d" for any listing of up to ROOTN entries
 * (names of up to NAME bytes, types), any new names, any ignore list in any
 * state, any options, and any rename or opendir failing.  A subdirectory that
 * is entered can't be opened: what happens inside is the same question again.
 */
#define VF_REDIRECT_DECL_ONLY
#include "vf_redirect.h"
#include "vf.h"
#include "file.h"
#include "filelist.h"
#include "seqfix.h"

#define MAXNEW (NAME * NEWMAX)

static struct {
    char name[NAME + 1];        /* as listed */
    char cur[MAXNEW + 1];       /* its name now */
    char to[MAXNEW + 1];        /* what it is to be called */
    int listed, mode, skip, eligible, isdir, changed;
    int renamed, moved, opened, stale;
} n[ROOTN];
static char ign0[NAME + 1], ign1[NAME + 1];
static int root_opened, closed, root_ok, pos;
static struct { struct dirent ent; } h;

static int emfile;
void vf_on_exit(int code) { VF_ASSERT(emfile && code != 0, "only running out of file descriptors ends the run"); }

static int nd_mode(void)
{
    int t = nd_range(0, 6);
    return t == 0 ? S_IFREG : t == 1 ? S_IFDIR : t == 2 ? S_IFLNK : t == 3 ? S_IFIFO : t == 4 ? S_IFSOCK : t == 5 ? S_IFCHR : S_IFBLK;
}
static int dot(const char *s) { return s[0] == '.' && (s[1] == 0 || (s[1] == '.' && s[2] == 0)); }
/* path == "d/" name */
static int peq(const char *path, const char *nm)
{
    int i;
    if (path[0] != 'd' || path[1] != '/') { return 0; }
    for (i = 0; i <= MAXNEW; i++) { if (path[2 + i] != nm[i]) { return 0; } if (!nm[i]) { return 1; } }
    return 0;
}
static int neq(const char *a, const char *b)
{
    int i;
    for (i = 0; i <= MAXNEW; i++) { if (a[i] != b[i]) { return 0; } if (!a[i]) { return 1; } }
    return 0;
}
static void ncpy(char *a, const char *b)
{
    int i;
    for (i = 0; i < MAXNEW; i++) { a[i] = b[i]; if (!b[i]) { break; } }
    a[i] = 0;
}

int vf_lstat(const char *path, struct stat *st)
{
    int i;
    st->st_dev = 1;
    if (!path[0] || !path[1]) {
        if (path[0] != 'd') { errno = ENOENT; return -1; }
        st->st_ino = 99; st->st_nlink = 2; st->st_mode = S_IFDIR | 0755;
        return 0;
    }
    for (i = 0; i < ROOTN; i++) {
        if (n[i].listed && peq(path, n[i].cur)) {
            st->st_ino = 100 + i; st->st_nlink = 1; st->st_mode = n[i].mode | 0644;
            return 0;
        }
    }
#if PROP == 5
    if (nd_bool()) {
        st->st_ino = nd_range(0, 200); st->st_nlink = nd_range(1, 2); st->st_mode = nd_mode();
        return 0;
    }
#endif
    errno = ENOENT;
    return -1;
}
int vf_stat(const char *path, struct stat *st)
{
    int r = vf_lstat(path, st);
    if (r == 0 && S_ISLNK(st->st_mode)) {
        if (nd_bool()) { errno = ENOENT; return -1; }
        st->st_mode = nd_mode();
        VF_ASSUME(!S_ISLNK(st->st_mode));
    }
    return r;
}
int vf_mutate(const char *path) { VF_ASSERT(0, "nothing but a rename may change the file system"); return 0; }
int vf_rename(const char *from, const char *to)
{
    int i, k = -1, fail = nd_bool();
    for (i = 0; i < ROOTN; i++) { if (k < 0 && n[i].listed && peq(from, n[i].cur)) { k = i; } }
    VF_ASSERT(!sf_opt.dry_run, "a dry run renames nothing");
    VF_ASSERT(k >= 0, "only listed entries are renamed, by their current name");
    for (i = 0; i < ROOTN; i++) {
        if (i == k) {
            n[i].renamed++;
#if PROP == 6
            VF_ASSERT(peq(to, n[i].to), "renamed within its directory to what the sequence produced");
#endif
            if (!fail) {
                n[i].moved = 1;
                ncpy(n[i].cur, n[i].to);
            }
        }
    }
    if (fail) { errno = EACCES; return -1; }
    return 0;
}

DIR *vf_opendir(const char *path)
{
    int i, known = 0, fail;

    if (!root_opened) {
        root_opened = 1;
        VF_ASSERT(path[0] == 'd' && path[1] == 0, "the directory itself is read first");
        fail = nd_range(0, 2);
        if (fail) {
            if (fail == 2) { emfile = 1; }
            errno = fail == 2 ? EMFILE : EACCES;
            return NULL;
        }
        root_ok = 1;
        return (DIR *) &h;
    }
    for (i = 0; i < ROOTN; i++) {
        if (n[i].listed && peq(path, n[i].cur)) { n[i].opened++; known = 1; }
        else if (n[i].listed && n[i].moved && peq(path, n[i].name)) { n[i].stale++; }
    }
#if PROP == 6
    VF_ASSERT(known, "only listed directories are entered, by their current name");
#endif
    fail = nd_bool();
    if (fail) { emfile = 1; }
    errno = fail ? EMFILE : EACCES;
    return NULL;
}

/* k is a constant in every call: no symbolic index in to n[] */
static struct dirent *list(int k)
{
    int i;
    char nb[MAXNEW + 1];

    nd_str(n[k].name, NAME);
    n[k].mode = nd_mode();
    VF_ASSUME(n[k].name[0] != 0);
    for (i = 0; i < NAME; i++) { VF_ASSUME(n[k].name[i] != '/'); }
    VF_ASSUME(!dot(n[k].name) || S_ISDIR(n[k].mode));
    ncpy(h.ent.d_name, n[k].name);
    h.ent.d_type = nd_bool() ? DT_UNKNOWN : (n[k].mode >> 12);
    sf_ref(n[k].name, nb, NAME);
    ncpy(n[k].to, nb);
    ncpy(n[k].cur, n[k].name);
    n[k].listed = 1;
    n[k].skip = n[k].name[0] == '.' || vf_streq(n[k].name, ign0) || vf_streq(n[k].name, ign1);
    n[k].isdir = S_ISDIR(n[k].mode);
    n[k].eligible = !n[k].skip && (n[k].isdir || S_ISREG(n[k].mode) || sf_opt.special);
    n[k].changed = !neq(n[k].name, nb);
#if PROP == 6
    VF_ASSUME(nb[0] != 0 && !dot(nb));
#endif
    for (i = 0; i < ROOTN; i++) {
        if (i < k && n[i].listed) {
            VF_ASSUME(!neq(n[i].name, n[k].name) && !neq(n[i].cur, n[k].name));
#if PROP == 6
            /* no collisions here: the no-clobber property covers those */
            VF_ASSUME(!neq(n[i].to, nb) && !neq(n[i].name, nb) && !neq(n[i].to, n[k].name));
#endif
        }
    }
    return &h.ent;
}
struct dirent *vf_readdir(DIR *p)
{
    int i;

    for (i = 0; i < ROOTN; i++) {
        if (pos == i) {
            if (nd_bool()) { pos = ROOTN; return NULL; }
            pos = i + 1;
            return list(i);
        }
    }
    return NULL;
}
int vf_closedir(DIR *p) { closed++; return 0; }

int main(void)
{
    int i;

    sf_init();
    for (i = 0; i < NEWMAX; i++) { VF_ASSUME(sf_new[i] != '/'); }
    nd_str(ign0, NAME);
    nd_str(ign1, NAME);
    vf_exact = 1;
    sf_opt.files_to_ignore = filelist_init();
    vf_exact = 0;
    filelist_put(sf_opt.files_to_ignore, ign0);
    filelist_put(sf_opt.files_to_ignore, ign1);
    /* wherever an earlier lookup left off */
    i = nd_range(0, 2);
    if (i > 0) { filelist_get(sf_opt.files_to_ignore); }
    if (i > 1) { filelist_get(sf_opt.files_to_ignore); }
    sf_opt.dry_run = nd_bool();
    sf_opt.recurse = nd_bool();
    sf_opt.special = nd_bool();

    parse_dir("d", &sf_opt);

    VF_ASSERT(closed == root_ok, "the directory is closed again");
    VF_ASSERT(root_opened == 1, "the directory itself is read, once");
    for (i = 0; i < ROOTN; i++) {
        if (n[i].listed) {
#if PROP == 5
            if (n[i].skip) {
                VF_ASSERT(n[i].renamed == 0, "hidden and ignored entries are never renamed");
                VF_ASSERT(n[i].opened == 0, "hidden and ignored entries are never descended in to");
            }
#endif
#if PROP == 6
            VF_ASSERT(n[i].renamed == (n[i].eligible && n[i].changed && !sf_opt.dry_run), "every eligible entry is renamed, once; no other is");
            VF_ASSERT(n[i].opened == (n[i].eligible && n[i].isdir && sf_opt.recurse), "every eligible directory is entered once, by its current name, if recursing; nothing else is");
            VF_ASSERT(n[i].stale == 0, "a renamed directory isn't looked for by its old name");
#endif
        }
    }
    VF_REACH();
    return 0;
}
