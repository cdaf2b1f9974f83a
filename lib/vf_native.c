/* native replay runtime: reads the solver's assignment back */
#define VF_REDIRECT_DECL_ONLY
#include "vf_redirect.h"
#include "vf.h"

int vf_exact, vf_oom_at, vf_allocs, vf_oom_hit;
static long long *vals;
static int nvals, pos, loaded;

static void load(void)
{
    const char *fn = getenv("VF_INPUTS");
    FILE *f;
    loaded = 1;
    if (!fn || !(f = fopen(fn, "r"))) { return; }
    vals = malloc(sizeof(long long) * 1000000);
    while (nvals < 1000000 && fscanf(f, "%lld", &vals[nvals]) == 1) { nvals++; }
    fclose(f);
}
static long long next(void)
{
    if (!loaded) { load(); }
    return pos < nvals ? vals[pos++] : 0;
}
unsigned char nd_u8(void) { return (unsigned char) next(); }
char nd_char(void) { return (char) next(); }
int nd_bool(void) { return next() != 0; }
unsigned int nd_u32(void) { return (unsigned int) next(); }
unsigned long nd_u64(void) { return (unsigned long) next(); }
int nd_range(int lo, int hi) { int v = (int) next(); if (v < lo || v > hi) { vf_native_assume(0); } return v; }

void vf_native_assert(int c, const char *msg)
{
    if (!c) {
        fprintf(stderr, "VF_ASSERT_FAIL: %s\n", msg);
        fflush(stderr);
        _exit(99);
    }
}
void vf_native_assume(int c) { if (!c) { fprintf(stderr, "VF_ASSUME_FAIL\n"); fflush(stderr); _exit(77); } }
void vf_native_reach(void) { fprintf(stderr, "VF_REACHED\n"); }
void vf_native_stop(void) { fflush(stderr); _exit(0); }

void *vf_malloc(size_t n)
{
    vf_allocs++;
    if (vf_oom_at != 0 && vf_allocs == vf_oom_at) { vf_oom_hit = 1; errno = ENOMEM; return NULL; }
    return malloc(n);
}
void *vf_calloc(size_t n, size_t m) { void *p = vf_malloc(n * m); if (p) { memset(p, 0, n * m); } return p; }
void *vf_realloc(void *p, size_t n) { return realloc(p, n); }
char *vf_strdup(const char *s) { char *p = vf_malloc(strlen(s) + 1); return p ? strcpy(p, s) : NULL; }
char *vf_strndup(const char *s, size_t n) { size_t l = strnlen(s, n); char *p = vf_malloc(l + 1); if (p) { memcpy(p, s, l); p[l] = 0; } return p; }
void vf_native_model(int c, const char *msg) { if (!c) { fprintf(stderr, "VF_MODEL_LIMIT: %s\n", msg); fflush(stderr); _exit(78); } }

/* models a harness doesn't use */
#define WEAK __attribute__((weak))
static int unused_model(const char *n) { fprintf(stderr, "VF_MODEL_LIMIT: %s not modelled in this harness\n", n); fflush(stderr); _exit(78); return 0; }
WEAK int vf_lstat(const char *path, struct stat *st) { return unused_model("lstat"); }
WEAK int vf_stat(const char *path, struct stat *st) { return unused_model("stat"); }
WEAK int vf_rename(const char *from, const char *to) { return unused_model("rename"); }
WEAK int vf_mutate(const char *path) { return unused_model("mutate"); }
WEAK DIR *vf_opendir(const char *path) { unused_model("opendir"); return NULL; }
WEAK struct dirent *vf_readdir(DIR *d) { unused_model("readdir"); return NULL; }
WEAK int vf_closedir(DIR *d) { return unused_model("closedir"); }
WEAK int vf_getopt_long(int argc, char *const argv[], const char *opts, const struct option *lo, int *idx) { return unused_model("getopt"); }
WEAK char *vf_basename(char *p) { unused_model("basename"); return NULL; }
WEAK void vf_on_exit(int code) { unused_model("exit"); }
