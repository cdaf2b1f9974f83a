/*
 * Harness API.  A harness is an ordinary C program: CBMC executes it
 * symbolically (nd_* are free symbolic values), and the very same file is
 * compiled with gcc + ASan for replaying a solver assignment against the real
 * code (nd_* then read the recorded values back, in path order).
 */
#ifndef VF_H
#define VF_H

#include <stddef.h>

#ifdef VF_CBMC
void __CPROVER_assume(_Bool);
void __CPROVER_assert(_Bool, const char *);
void __CPROVER_input(const char *, ...);
_Bool __CPROVER_r_ok(const void *, ...);
void *__CPROVER_allocate(size_t, _Bool);
#define VF_ASSERT(c, msg) __CPROVER_assert((c), "VF " msg)
#define VF_ASSUME(c) __CPROVER_assume(c)
#define VF_REACH() __CPROVER_assert(0, "VF_REACH")
#define VF_STOP() __CPROVER_assume(0)
/* stated limit of a model: running in to it makes the job inconclusive, not a violation */
#define VF_MODEL(c, msg) __CPROVER_assert((c), "VFMODEL " msg)
#else
void vf_native_assert(int c, const char *msg);
void vf_native_assume(int c);
void vf_native_reach(void);
void vf_native_model(int c, const char *msg);
void vf_native_stop(void);
#define VF_ASSERT(c, msg) vf_native_assert(!!(c), msg)
#define VF_ASSUME(c) vf_native_assume(!!(c))
#define VF_REACH() vf_native_reach()
#define VF_STOP() vf_native_stop()
#define VF_MODEL(c, msg) vf_native_model(!!(c), msg)
#endif

unsigned char nd_u8(void);
char nd_char(void);
int nd_bool(void);
unsigned int nd_u32(void);
unsigned long nd_u64(void);
int nd_range(int lo, int hi);
void nd_str(char *buf, int max);     /* max free bytes, then NUL */
void nd_str_nz(char *buf, int len);  /* exactly len non-NUL bytes, then NUL */

/* exit() of the code under test ends up here; provided by the harness */
void vf_on_exit(int code);
#define VF_EXIT_IS_FAILURE void vf_on_exit(int code) { VF_ASSERT(0, "the code must not exit here"); }

/* allocation model switches (CBMC only; no effect natively) */
extern int vf_exact;          /* 1: exact, typed objects; 2: the same, but strings from strdup are string objects; 0: string objects */
extern int vf_oom_at;         /* the n-th allocation from now fails (0 = never) */
extern int vf_allocs;         /* allocations so far */
extern int vf_oom_hit;        /* an allocation has failed */

int vf_streq(const char *a, const char *b);
int vf_slen(const char *a);
void vf_cpy(char *d, const char *s);

/* ---- stream model ---- */
#ifndef VF_OUT_MAX
#define VF_OUT_MAX 48
#endif
extern char vf_out[VF_OUT_MAX + 1]; /* what went to stdout, in order */
extern int vf_out_n;
extern int vf_err_n;                /* number of writes to stderr */
extern int vf_out_writes;           /* number of write calls to stdout */
void vf_stdin_set(const char *data, int len);
/* a readable file; fopen of any other name fails unless vf_fopen_hook handles it */
void vf_file_add(const char *path, const char *data, int len);
#ifdef VF_SHAPE
extern char vf_shape[VF_SHAPE], vf_shape_line[VF_SHAPE];
#endif
extern int vf_open_inputs;          /* currently open input streams */

#endif
