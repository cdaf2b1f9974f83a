/*
 * File system model: paths are strings, what they name is arbitrary but
 * consistent.  A path nobody asked about yet gets a free symbolic answer.
 */
#ifndef VF_FS_H
#define VF_FS_H
#define VF_REDIRECT_DECL_ONLY
#include "vf_redirect.h"
#include "vf.h"

#ifndef FS_PATH
#define FS_PATH 12          /* longest path, stated bound */
#endif
#ifndef FS_MAX
#define FS_MAX 6            /* distinct paths asked about */
#endif
#ifndef FS_DIRS
#define FS_DIRS 3           /* directories open at a time */
#endif
#ifndef FS_ENTRIES
#define FS_ENTRIES 2        /* entries listed per directory */
#endif
#ifndef FS_SUBENTRIES
#define FS_SUBENTRIES 1       /* entries listed per subdirectory */
#endif
#ifndef FS_DEPTH
#define FS_DEPTH 2          /* directories nested deeper than this are empty */
#endif
#ifndef FS_NAME
#define FS_NAME 2           /* longest listed name */
#endif
#ifndef FS_OPS
#define FS_OPS 6
#endif

struct fs_rec {
    char path[FS_PATH + 1];
    int exists;
    int mode;               /* S_IFxxx */
    int dev, ino, nlink;
};
extern struct fs_rec fs_rec[FS_MAX];
extern int fs_n;

/* switches, set by the harness (concrete or symbolic) */
extern int fs_unknown_absent;   /* paths nobody listed or created don't exist */
extern int fs_may_fail;         /* rename/opendir/lstat may fail */
extern int fs_lstat_may_fail;   /* lstat of an existing path may fail, too */

struct fs_op { char from[FS_PATH + 1]; char to[FS_PATH + 1]; int ok; };
extern struct fs_op fs_op[FS_OPS];  /* every rename attempted */
extern int fs_ops, fs_ok, fs_mutations;
extern char fs_opened[FS_OPS][FS_PATH + 1]; /* every directory opened */
extern int fs_opens, fs_open_now, fs_lstats;

int fs_find(const char *path);
int fs_get(const char *path);
int fs_add(const char *path, int mode);   /* an existing node with its own inode */
void fs_base(const char *path, const char **base);

/* provided by the harness */
void fs_on_rename(const char *from, const char *to);    /* before it takes effect */
void fs_on_list(const char *dir, const char *name, int mode, int rec);
#endif
