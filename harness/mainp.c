/*
 * main(): its callees are recording stubs with arbitrary results; up to K
 * paths of any type are on the command line.  The calls made are compared with
 * the documented ones.
 */
#define VF_REDIRECT_DECL_ONLY
#include "vf_redirect.h"
#include "vf.h"
#include "detox_struct.h"
#include "filelist.h"

int detox_main(int argc, char **argv);

#define EV (2 * K + 1)
enum { E_NONE, E_FILE, E_DIR, E_INLINE, E_STDIN };
static struct { int kind, which, renamed; } log_[EV + 1], want[EV + 1];
static int logs, wants;
static options_t opt;
static config_file_t cfg;
static filelist_t ign;
static sequence_t seq, other;
static char sname[3];
static char *args[2];
static char name[K][2], newname[K][3];
static int exists[K], mode[K], seen[K];
static int opt_ok, cfg_ok, seq_ok, reviewed, dumped, chosen;

static int nd_mode(void)
{
    int t = nd_range(0, 6);
    return t == 0 ? S_IFREG : t == 1 ? S_IFDIR : t == 2 ? S_IFLNK : t == 3 ? S_IFIFO : t == 4 ? S_IFSOCK : t == 5 ? S_IFCHR : S_IFBLK;
}
options_t *__wrap_parse_options_getopt(int argc, char **argv)
{
    VF_ASSERT(argc == 2 && argv == args, "the command line is what was given");
    return opt_ok ? &opt : NULL;
}
config_file_t *__wrap_config_file_load(options_t *o)
{
    VF_ASSERT(o == &opt, "the options are passed along");
    return cfg_ok ? &cfg : NULL;
}
sequence_t *__wrap_sequence_choose_default(sequence_t *s, const char *n)
{
    VF_ASSERT(s == &other && n == sname, "the sequence is chosen from the configuration, by the name asked for");
    chosen++;
    return seq_ok ? &seq : NULL;
}
void __wrap_dump_config_file(config_file_t *c, options_t *o)
{
    VF_ASSERT(c == &cfg && o == &opt && o->sequence_to_use == (seq_ok ? &seq : NULL), "the configuration in use is listed");
    dumped++;
}
void __wrap_sequence_review(sequence_t *s)
{
    VF_ASSERT(s == &seq, "the chosen sequence is prepared");
    reviewed++;
}
static void event(int kind, const char *path, options_t *o)
{
    int i, which = -1, ren = 0;
    VF_ASSERT(o == &opt && opt.sequence_to_use == &seq && opt.files_to_ignore == &ign, "work is done with the options, the chosen sequence and the ignore list");
    VF_ASSERT(reviewed == 1, "the tables are loaded, once, before any work is done");
    for (i = 0; i < K; i++) {
        if (path && vf_streq(path, name[i])) { which = i; }
        if (path && vf_streq(path, newname[i])) { which = i; ren = 1; }
    }
    VF_ASSERT(logs < EV, "no path is worked on twice");
    VF_ASSUME(logs < EV);
    for (i = 0; i < EV; i++) {
        if (i == logs) { log_[i].kind = kind; log_[i].which = which; log_[i].renamed = ren; }
    }
    logs++;
}
char *__wrap_parse_file(char *f, options_t *o)
{
    int i;
    event(E_FILE, f, o);
    for (i = 0; i < K; i++) {
        if (vf_streq(f, name[i])) { seen[i]++; return strdup(newname[i]); }
    }
    return strdup("?");
}
void __wrap_parse_dir(char *f, options_t *o) { event(E_DIR, f, o); }
void __wrap_parse_inline(char *in, char *out, options_t *o)
{
    VF_ASSERT(out == NULL, "the result goes to standard output");
    event(in ? E_INLINE : E_STDIN, in, o);
}
int vf_lstat(const char *path, struct stat *st)
{
    int i;
    for (i = 0; i < K; i++) {
        if (vf_streq(path, name[i])) {
            if (!exists[i]) { errno = nd_bool() ? ENOENT : EACCES; return -1; }
            st->st_mode = mode[i] | 0644; st->st_ino = 10 + i; st->st_dev = 1; st->st_nlink = 1;
            return 0;
        }
    }
    errno = ENOENT;
    return -1;
}
int vf_stat(const char *path, struct stat *st)
{
    int r = vf_lstat(path, st);
    if (r == 0 && S_ISLNK(st->st_mode)) {
        if (nd_bool()) { errno = ENOENT; return -1; }
        st->st_mode = nd_mode();
        VF_ASSUME(!S_ISLNK(st->st_mode));
    }
    return r;
}
int vf_rename(const char *a, const char *b) { VF_ASSERT(0, "nothing else changes the file system"); return 0; }
int vf_mutate(const char *a) { VF_ASSERT(0, "nothing else changes the file system"); return 0; }
void vf_on_exit(int code)
{
    VF_ASSERT(logs == 0, "no work is done before");
    if (!opt_ok || !cfg_ok) { VF_ASSERT(code == EXIT_FAILURE && vf_err_n > 0 && dumped == 0, "without options or configuration the run fails"); }
    else if (opt.list_sequences) { VF_ASSERT(code == EXIT_SUCCESS && dumped == 1, "a list of the sequences is a success"); }
    else { VF_ASSERT(!seq_ok && code == EXIT_FAILURE && vf_err_n > 0 && dumped == 0, "without a sequence the run fails"); }
#ifdef EXITS
    VF_REACH();
#endif
}
static void expect(int kind, int which, int ren)
{
    want[wants].kind = kind; want[wants].which = which; want[wants].renamed = ren;
    wants++;
}

int main(void)
{
    int i, r, errs = 0;

    args[0] = "detox"; args[1] = "x";
    opt_ok = nd_bool(); cfg_ok = nd_bool(); seq_ok = nd_bool();
    cfg.sequences = &other;
    cfg.files_to_ignore = &ign;
    opt.sequence_name = sname;
    opt.is_inline_mode = INLINE;
    opt.is_inline_bin = INLINE && nd_bool();
    opt.list_sequences = nd_bool();
    opt.special = nd_bool();
    opt.recurse = nd_bool();
    opt.dry_run = nd_bool();
    opt.verbose = nd_range(0, 2);
    vf_exact = 2;
    opt.files = filelist_init();
    for (i = 0; i < K; i++) {
        name[i][0] = 'a' + i;
        newname[i][0] = 'a' + i; newname[i][1] = 'n';
        exists[i] = nd_bool();
        mode[i] = nd_mode();
        filelist_put(opt.files, name[i]);
    }
    vf_exact = 0;
    for (i = 0; i < K; i++) {
        if (!exists[i]) { errs++; continue; }
        if (INLINE) {
            if (S_ISDIR(mode[i])) { errs++; } else { expect(E_INLINE, i, 0); }
        } else if (S_ISDIR(mode[i])) {
            expect(E_FILE, i, 0);
            expect(E_DIR, i, 1);
        } else if (S_ISREG(mode[i]) || opt.special) {
            expect(E_FILE, i, 0);
        }
    }
    if (INLINE && K == 0) { expect(E_STDIN, -1, 0); }
    r = detox_main(2, args);
    VF_ASSERT(opt_ok && cfg_ok && seq_ok && !opt.list_sequences, "a run that cannot work ends early");
    VF_ASSERT(r == 0, "the run is a success");
    VF_ASSERT(reviewed == 1 && dumped == 0, "the tables are loaded, once");
    VF_ASSERT(logs == wants, "every path is worked on, once");
    for (i = 0; i < EV; i++) {
        if (i < wants) {
            VF_ASSERT(log_[i].kind == want[i].kind && log_[i].which == want[i].which && log_[i].renamed == want[i].renamed,
                      "each path is worked on by its type, in order, and a directory by its new name");
        }
    }
    VF_ASSERT(vf_err_n >= errs && (errs > 0 || vf_err_n == 0), "what cannot be worked on is reported");
#ifndef EXITS
    VF_REACH();
#endif
    return 0;
}
