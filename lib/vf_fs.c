#ifdef VF_FS
#include "vf_fs.h"

struct fs_rec fs_rec[FS_MAX];
int fs_n, fs_unknown_absent, fs_may_fail, fs_lstat_may_fail;
struct fs_op fs_op[FS_OPS];
int fs_ops, fs_ok, fs_mutations, fs_opens, fs_open_now, fs_lstats;
char fs_opened[FS_OPS][FS_PATH + 1];

static int fits(const char *s)
{
    int i;
    for (i = 0; i <= FS_PATH; i++) { if (!s[i]) { return 1; } }
    return 0;
}
static void cpy(char *d, const char *s)
{
    int i, end = 0;
    for (i = 0; i <= FS_PATH; i++) { if (!end) { d[i] = s[i]; if (!s[i]) { end = 1; } } else { d[i] = 0; } }
}
static int eq(const char *a, const char *b)
{
    int i;
    for (i = 0; i <= FS_PATH; i++) { if (a[i] != b[i]) { return 0; } if (!a[i]) { return 1; } }
    return 0;
}
void fs_base(const char *path, const char **base)
{
    const char *p = path;
    int i;
    for (i = 0; i < FS_PATH; i++) { if (!path[i]) { break; } if (path[i] == '/') { p = path + i + 1; } }
    *base = p;
}

int fs_find(const char *path)
{
    int i;
    for (i = 0; i < FS_MAX; i++) { if (i < fs_n && eq(fs_rec[i].path, path)) { return i; } }
    return -1;
}
static int slot(const char *path)
{
    int k = fs_n;
    VF_MODEL(fits(path), "path longer than the modelled bound");
    VF_MODEL(k < FS_MAX, "too many paths");
    VF_ASSUME(fits(path) && k < FS_MAX);
    fs_n++;
    cpy(fs_rec[k].path, path);
    fs_rec[k].dev = 0;
    fs_rec[k].ino = 100 + k;
    fs_rec[k].nlink = 1;
    return k;
}
int fs_add(const char *path, int mode)
{
    int k = slot(path);
    fs_rec[k].exists = 1;
    fs_rec[k].mode = mode;
    return k;
}
static int nd_mode(void)
{
    int t = nd_range(0, 6);
    return t == 0 ? S_IFREG : t == 1 ? S_IFDIR : t == 2 ? S_IFLNK : t == 3 ? S_IFIFO : t == 4 ? S_IFSOCK : t == 5 ? S_IFCHR : S_IFBLK;
}
int fs_get(const char *path)
{
    int k = fs_find(path);
    const char *b;

    if (k >= 0) { return k; }
    k = slot(path);
    fs_base(path, &b);
    if (path[0] == 0) {
        fs_rec[k].exists = 0;
    } else if (b[0] == 0 || (b[0] == '.' && (b[1] == 0 || (b[1] == '.' && b[2] == 0)))) {
        /* "x/", "x/.", "x/..": a directory, and none that has another name below x */
        fs_rec[k].exists = 1;
        fs_rec[k].mode = S_IFDIR;
        fs_rec[k].nlink = 2;
    } else if (fs_unknown_absent) {
        fs_rec[k].exists = 0;
    } else {
        fs_rec[k].exists = nd_bool();
        fs_rec[k].mode = nd_mode();
        fs_rec[k].dev = nd_range(0, 2);
        fs_rec[k].ino = nd_range(0, 3);
        fs_rec[k].nlink = nd_range(1, 3);
    }
    return k;
}
static void fill(struct stat *st, int k)
{
    st->st_dev = fs_rec[k].dev;
    st->st_ino = fs_rec[k].ino;
    st->st_nlink = fs_rec[k].nlink;
    st->st_mode = fs_rec[k].mode | 0644;
    st->st_size = 1;
}
int vf_lstat(const char *path, struct stat *st)
{
    int k = fs_get(path);
    fs_lstats++;
    if (!fs_rec[k].exists) { errno = ENOENT; return -1; }
    if (fs_lstat_may_fail) {
        if (nd_bool()) { errno = EACCES; return -1; }
    }
    fill(st, k);
    return 0;
}
/* stat(): the same, except that what a symbolic link points to is a matter of chance */
int vf_stat(const char *path, struct stat *st)
{
    int k = fs_get(path);
    if (!fs_rec[k].exists) { errno = ENOENT; return -1; }
    fill(st, k);
    if (fs_rec[k].mode == S_IFLNK) {
        if (nd_bool()) { errno = ENOENT; return -1; }
        st->st_mode = nd_mode();
        VF_ASSUME(!S_ISLNK(st->st_mode));
        st->st_ino = nd_range(0, 200);
        st->st_nlink = nd_range(1, 3);
    }
    return 0;
}
int vf_rename(const char *from, const char *to)
{
    int a, b;
    fs_on_rename(from, to);
    a = fs_get(from);
    b = fs_get(to);
    VF_MODEL(fs_ops < FS_OPS, "too many renames");
    VF_ASSUME(fs_ops < FS_OPS);
    cpy(fs_op[fs_ops].from, from);
    cpy(fs_op[fs_ops].to, to);
    fs_op[fs_ops].ok = 0;
    if (fs_may_fail) {
        if (nd_bool()) { fs_ops++; errno = EACCES; return -1; }
    }
    if (!fs_rec[a].exists || to[0] == 0) { fs_ops++; errno = ENOENT; return -1; }
    if (fs_rec[b].exists && fs_rec[b].dev == fs_rec[a].dev && fs_rec[b].ino == fs_rec[a].ino) {
        fs_op[fs_ops].ok = 1;
        fs_ops++; fs_ok++; fs_mutations++;
        return 0;
    }
    if (fs_rec[b].exists && S_ISDIR(fs_rec[b].mode)) { fs_ops++; errno = EISDIR; return -1; }
    fs_rec[b].exists = 1;
    fs_rec[b].mode = fs_rec[a].mode;
    fs_rec[b].dev = fs_rec[a].dev;
    fs_rec[b].ino = fs_rec[a].ino;
    fs_rec[b].nlink = fs_rec[a].nlink;
    fs_rec[a].exists = 0;
    fs_op[fs_ops].ok = 1;
    fs_ops++; fs_ok++; fs_mutations++;
    return 0;
}
int vf_mutate(const char *path)
{
    fs_mutations++;
    VF_ASSERT(0, "nothing but a rename may change the file system");
    return 0;
}

static struct {
    int used, left, depth, n;
    char path[FS_PATH + 1];
    char names[FS_ENTRIES][FS_NAME + 1];
    struct dirent ent;
} dirs[FS_DIRS];

DIR *vf_opendir(const char *path)
{
    int k = fs_get(path), d, i;

    VF_MODEL(fs_opens < FS_OPS, "too many opendirs");
    VF_ASSUME(fs_opens < FS_OPS);
    cpy(fs_opened[fs_opens++], path);
    if (!fs_rec[k].exists || !S_ISDIR(fs_rec[k].mode)) { errno = ENOTDIR; return NULL; }
    if (fs_may_fail) {
        if (nd_bool()) { errno = EACCES; return NULL; }
    }
    d = fs_open_now++;
    VF_MODEL(d < FS_DIRS, "too many open directories");
    VF_ASSUME(d < FS_DIRS);
    dirs[d].used = 1;
    dirs[d].n = 0;
    dirs[d].left = nd_range(0, FS_ENTRIES);
    cpy(dirs[d].path, path);
    return (DIR *) &dirs[d];
}
static int which(DIR *h)
{
    int d;
    for (d = 0; d < FS_DIRS; d++) { if ((void *) h == (void *) &dirs[d]) { return d; } }
    VF_MODEL(0, "unknown directory handle");
    return 0;
}
struct dirent *vf_readdir(DIR *h)
{
    int d = which(h), i, j, m, k, n;
    char full[FS_PATH + 1];

    if (fs_open_now > FS_DEPTH) { return NULL; }
    if (dirs[d].n >= dirs[d].left || dirs[d].n >= FS_ENTRIES) { return NULL; }
    if (fs_open_now > 1 && dirs[d].n >= FS_SUBENTRIES) { return NULL; }
    n = dirs[d].n++;
    nd_str(dirs[d].names[n], FS_NAME);
    VF_ASSUME(dirs[d].names[n][0] != 0);
    for (i = 0; i < FS_NAME; i++) { VF_ASSUME(dirs[d].names[n][i] != '/'); }
    for (i = 0; i < n; i++) { VF_ASSUME(!vf_streq(dirs[d].names[i], dirs[d].names[n])); }
    m = nd_mode();
    if (dirs[d].names[n][0] == '.' && (dirs[d].names[n][1] == 0 || (dirs[d].names[n][1] == '.' && dirs[d].names[n][2] == 0))) {
        VF_ASSUME(S_ISDIR(m));
    }
    vf_cpy(dirs[d].ent.d_name, dirs[d].names[n]);
    dirs[d].ent.d_type = nd_bool() ? DT_UNKNOWN : (m >> 12);
    /* the path of the entry */
    cpy(full, dirs[d].path);
    for (i = 0; i < FS_PATH; i++) { if (!full[i]) { break; } }
    if (i < FS_PATH) { full[i++] = '/'; }
    for (j = 0; j <= FS_NAME; j++) {
        VF_MODEL(i <= FS_PATH, "path longer than the modelled bound");
        VF_ASSUME(i <= FS_PATH);
        full[i] = dirs[d].names[n][j];
        if (!full[i]) { break; }
        i++;
    }
    k = fs_find(full);
    if (k < 0) {
        k = slot(full);
        fs_rec[k].exists = 1;
        fs_rec[k].mode = m;
    } else {
        VF_ASSUME(fs_rec[k].exists && fs_rec[k].mode == m);
    }
    fs_on_list(dirs[d].path, dirs[d].names[n], m, k);
    return &dirs[d].ent;
}
int vf_closedir(DIR *h)
{
    int d = which(h);
    dirs[d].used = 0;
    fs_open_now--;
    return 0;
}
#endif
