/*
 * CBMC only: definitions of the pure C library functions the code uses, and
 * the allocator.  Each is the textbook definition; none is specific to detox.
 */
#define VF_REDIRECT_DECL_ONLY
#include "vf_redirect.h"
#include "detox_struct.h"
#include "vf.h"
#include "vf_fmt.h"

#ifndef CAP
#define CAP 32
#endif

int vf_exact = 0;
int vf_oom_at = 0;
int vf_allocs = 0;
int vf_oom_hit = 0;

#ifdef VF_FLEX
struct yy_buffer_state { FILE *yy_input_file; char *yy_ch_buf; char *yy_buf_pos; int yy_buf_size; int yy_n_chars; int yy_is_our_buffer; int yy_is_interactive; int yy_at_bol; int yy_bs_lineno; int yy_bs_column; int yy_fill_buffer; int yy_buffer_status; };
#endif
static void *vf_alloc_exact(size_t n)
{
#ifdef VF_FLEX
    /* what flex allocates: a buffer's state, the stack of buffers */
    if (n == sizeof(struct yy_buffer_state)) { return __CPROVER_allocate(sizeof(struct yy_buffer_state), 0); }
    if (n == sizeof(struct yy_buffer_state *)) { return __CPROVER_allocate(sizeof(struct yy_buffer_state *), 0); }
#else
    /* give objects the type they will be used with (keeps pointers inside of them typed) */
    if (n == sizeof(table_t)) { return __CPROVER_allocate(sizeof(table_t), 0); }
    if (n == sizeof(options_t)) { return __CPROVER_allocate(sizeof(options_t), 0); }
    if (n == sizeof(filter_t)) { return __CPROVER_allocate(sizeof(filter_t), 0); }
    if (n == sizeof(sequence_t)) { return __CPROVER_allocate(sizeof(sequence_t), 0); }
    if (n == sizeof(filelist_t)) { return __CPROVER_allocate(sizeof(filelist_t), 0); }
    if (n == sizeof(config_file_t)) { return __CPROVER_allocate(sizeof(config_file_t), 0); }
#endif
#ifdef VF_ROWS_A
    if (n == VF_ROWS_A * sizeof(table_row_t)) { return __CPROVER_allocate(sizeof(table_row_t) * VF_ROWS_A, 0); }
#endif
#ifdef VF_ROWS_B
    if (n == VF_ROWS_B * sizeof(table_row_t)) { return __CPROVER_allocate(sizeof(table_row_t) * VF_ROWS_B, 0); }
#endif
#ifdef VF_ROWS_C
    if (n == VF_ROWS_C * sizeof(table_row_t)) { return __CPROVER_allocate(sizeof(table_row_t) * VF_ROWS_C, 0); }
#endif
#ifndef VF_PTRS
#define VF_PTRS 16
#endif
    if (n == VF_PTRS * sizeof(char *)) { return __CPROVER_allocate(sizeof(char *) * VF_PTRS, 0); }
    if (n == 2 * VF_PTRS * sizeof(char *)) { return __CPROVER_allocate(sizeof(char *) * 2 * VF_PTRS, 0); }
    if (n == 3 * VF_PTRS * sizeof(char *)) { return __CPROVER_allocate(sizeof(char *) * 3 * VF_PTRS, 0); }
    return __CPROVER_allocate(n, 0);
}

void *malloc(size_t n)
{
    vf_allocs++;
#ifdef VF_OOM
    if (vf_oom_at != 0 && vf_allocs == vf_oom_at) {
        vf_oom_hit = 1;
        return 0;
    }
#endif
    if (vf_exact) {
        return vf_alloc_exact(n);
    }
#ifdef VF_TRUNC_ALLOC
    /* scratch buffers much larger than their content: the model object is
       CAP bytes; the functional models never write past the content */
    return __CPROVER_allocate(CAP, 0);
#else
    VF_MODEL(n <= CAP, "allocation larger than the modelled object");
    VF_ASSUME(n <= CAP);
#ifdef VF_ALIGN_RIGHT
    /* the object ends exactly where the requested block ends */
    return (char *) __CPROVER_allocate(CAP, 0) + (CAP - n);
#else
    return __CPROVER_allocate(CAP, 0);
#endif
#endif
}

#ifdef VF_CHECK_FREE
extern const void *__CPROVER_deallocated;
_Bool nondet_vf_bool(void);
#endif

void free(void *p)
{
#ifdef VF_CHECK_FREE
    if (p) {
        VF_ASSERT(!__CPROVER_same_object(__CPROVER_deallocated, p), "double free");
        if (nondet_vf_bool()) {
            __CPROVER_deallocated = p;
        }
    }
#endif
}

void *calloc(size_t a, size_t b)
{
    char *p = malloc(a * b);
    size_t i;
    if (p) { for (i = 0; i < a * b; i++) { p[i] = 0; } }
    return p;
}

void *realloc(void *p, size_t n)
{
    size_t i;
    char *r;
    if (!p) { return malloc(n); }
    if (!vf_exact) {
        VF_MODEL(n <= CAP, "allocation larger than the modelled object");
        return p;
    }
    r = malloc(n);
    if (r) {
        size_t o = __CPROVER_OBJECT_SIZE(p);
        if (o > n) { o = n; }
        if (n % sizeof(char *) == 0 && o % sizeof(char *) == 0) { for (i = 0; i < o / sizeof(char *); i++) { ((char **) r)[i] = ((char **) p)[i]; } }
        else { for (i = 0; i < o; i++) { r[i] = ((char *) p)[i]; } }
        free(p);
    }
    return r;
}

size_t strlen(const char *s) { size_t i = 0; while (s[i]) { i++; } return i; }
size_t strnlen(const char *s, size_t m) { size_t i = 0; while (i < m && s[i]) { i++; } return i; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char) c) { return (char *) s; } if (!*s) { return 0; } } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char) c) { r = s; } if (!*s) { return (char *) r; } } }
char *strchrnul(const char *s, int c) { for (;; s++) { if (*s == (char) c || !*s) { return (char *) s; } } }
void *memchr(const void *m, int c, size_t n) { const char *s = m; size_t i; for (i = 0; i < n; i++) { if (s[i] == (char) c) { return (void *) (s + i); } } return 0; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; size_t i; for (i = 0; i < n; i++) { if (x[i] != y[i]) { return x[i] < y[i] ? -1 : 1; } } return 0; }
int strcmp(const char *a, const char *b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) { return x < y ? -1 : 1; } if (!x) { return 0; } } }
int strncmp(const char *a, const char *b, size_t n) { size_t i; for (i = 0; i < n; i++) { unsigned char x = a[i], y = b[i]; if (x != y) { return x < y ? -1 : 1; } if (!x) { return 0; } } return 0; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isblank(int c) { return c == ' ' || c == '\t'; }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = tolower((unsigned char) *a), y = tolower((unsigned char) *b); if (x != y) { return x < y ? -1 : 1; } if (!x) { return 0; } } }
int strncasecmp(const char *a, const char *b, size_t n) { size_t i; for (i = 0; i < n; i++) { int x = tolower((unsigned char) a[i]), y = tolower((unsigned char) b[i]); if (x != y) { return x < y ? -1 : 1; } if (!x) { return 0; } } return 0; }
char *strcpy(char *d, const char *s) { size_t i = 0; for (;; i++) { d[i] = s[i]; if (!s[i]) { return d; } } }
char *stpcpy(char *d, const char *s) { size_t i = 0; for (;; i++) { d[i] = s[i]; if (!s[i]) { return d + i; } } }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) { d[i] = s[i]; } for (; i < n; i++) { d[i] = 0; } return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { size_t l = strlen(d), i; for (i = 0; i < n && s[i]; i++) { d[l + i] = s[i]; } d[l + i] = 0; return d; }
#ifndef VF_LIB_MEMCPY
void *memcpy(void *d, const void *s, size_t n) { char *a = d; const char *b = s; size_t i; for (i = 0; i < n; i++) { a[i] = b[i]; } return d; }
void *memmove(void *d, const void *s, size_t n) { char *a = d; const char *b = s; size_t i; if (a <= b) { for (i = 0; i < n; i++) { a[i] = b[i]; } } else { for (i = n; i > 0; i--) { a[i - 1] = b[i - 1]; } } return d; }
#endif
char *strdup(const char *s) { size_t n = strlen(s) + 1, i; int x = vf_exact; char *p; if (x == 2) { vf_exact = 0; } p = malloc(n); vf_exact = x; if (p) { for (i = 0;; i++) { p[i] = s[i]; if (!s[i]) { break; } } } return p; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m), i; char *p = malloc(n + 1); if (p) { for (i = 0; i < n; i++) { p[i] = s[i]; } p[n] = 0; } return p; }
size_t strspn(const char *s, const char *a) { size_t i = 0; while (s[i] && strchr(a, s[i])) { i++; } return i; }
size_t strcspn(const char *s, const char *a) { size_t i = 0; while (s[i] && !strchr(a, s[i])) { i++; } return i; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *) s : 0; }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (strncmp(h, n, l) == 0) { return (char *) h; } if (!*h) { return 0; } } }

static int vf_dig(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
unsigned long strtoul(const char *s, char **e, int base)
{
    const char *p = s, *q; int neg = 0; unsigned long v = 0;
    while (isspace((unsigned char) *p)) { p++; }
    if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && vf_dig(p[2]) < 16) { p += 2; base = 16; }
    else if (base == 0) { base = *p == '0' ? 8 : 10; }
    q = p;
    while (vf_dig((unsigned char) *p) < base) { v = v * base + vf_dig((unsigned char) *p); p++; }
    if (e) { *e = (char *) (p == q ? s : p); }
    return neg ? -v : v;
}
long strtol(const char *s, char **e, int base) { return (long) strtoul(s, e, base); }
int atoi(const char *s) { return (int) strtol(s, 0, 10); }
int abs(int x) { return x < 0 ? -x : x; }

int snprintf(char *buf, size_t cap, const char *f, ...)
{
    va_list ap; int r;
    va_start(ap, f); r = vf_vfmt(buf, cap, f, ap); va_end(ap);
    return r;
}
int sprintf(char *buf, const char *f, ...)
{
    va_list ap; int r;
    va_start(ap, f); r = vf_vfmt(buf, (size_t) 1 << 30, f, ap); va_end(ap);
    return r;
}
int vsnprintf(char *buf, size_t cap, const char *f, va_list ap) { return vf_vfmt(buf, cap, f, ap); }

#ifdef VF_SSCANF
/* what a byte is like; see vf_shape */
#ifdef VF_SHAPE
#define SH(p) (vf_shape_line[__CPROVER_POINTER_OFFSET(p)])
#else
#define SH(p) (*(p))
#endif
int sscanf(const char *s, const char *f, ...)
{
    va_list ap; int got = 0; const char *p = s; int done = 0;
    va_start(ap, f);
    while (*f && !done) {
        int sup = 0, width = 0;
        if (isspace((unsigned char) *f)) {
            while (isspace((unsigned char) SH(p))) { p++; }
            f++;
            continue;
        }
        if (*f != '%') {
            if (SH(p) != *f) { if (!SH(p) && !got) { got = EOF; } done = 1; continue; }
            p++; f++;
            continue;
        }
        f++;
        if (*f == '*') { sup = 1; f++; }
        while (*f >= '0' && *f <= '9') { width = width * 10 + (*f++ - '0'); }
        if (*f == 'n') { *va_arg(ap, int *) = (int) (p - s); f++; continue; }
        if (*f != '[' && *f != 'c') { while (isspace((unsigned char) SH(p))) { p++; } }
        if (!SH(p)) { if (!got) { got = EOF; } done = 1; continue; }
        if (*f == 's') {
            char *d = sup ? 0 : va_arg(ap, char *); int k = 0;
            while (SH(p) && !isspace((unsigned char) SH(p)) && (!width || k < width)) { if (d) { d[k] = *p; } k++; p++; }
            if (d) { d[k] = 0; got++; }
            f++;
        } else if (*f == 'i' || *f == 'd' || *f == 'u' || *f == 'x') {
            const char *e = p; unsigned long v = 0; int base = *f == 'i' ? 0 : *f == 'x' ? 16 : 10, neg = 0, any = 0;
            if (SH(e) == '-' || SH(e) == '+') { neg = SH(e) == '-'; e++; }
            if ((base == 0 || base == 16) && SH(e) == '0' && (SH(e + 1) == 'x' || SH(e + 1) == 'X') && (SH(e + 2) == 'h' || vf_dig(SH(e + 2)) < 16)) { e += 2; base = 16; }
            else if (base == 0) { base = SH(e) == '0' ? 8 : 10; }
            while (SH(e) == 'h' || vf_dig((unsigned char) SH(e)) < base) { v = v * base + vf_dig((unsigned char) *e); e++; any = 1; }
            if (!any) { done = 1; continue; }
            p = e;
            if (!sup) { *va_arg(ap, int *) = (int) (neg ? -v : v); got++; }
            f++;
        } else if (*f == '[') {
            char *d = sup ? 0 : va_arg(ap, char *); int neg = 0, k = 0; const char *set, *end;
            f++;
            if (*f == '^') { neg = 1; f++; }
            set = f;
            end = f + 1;
            while (*end != ']') { end++; }
            while (SH(p) && (!width || k < width)) {
                int in = 0; const char *q;
                for (q = set; q < end; q++) { if (*q == SH(p)) { in = 1; } }
                if (in == neg) { break; }
                if (d) { d[k] = *p; }
                k++; p++;
            }
            f = end + 1;
            if (k == 0) { done = 1; continue; }
            if (d) { d[k] = 0; got++; }
        } else {
            VF_MODEL(0, "sscanf conversion not modelled");
            done = 1;
        }
    }
    va_end(ap);
    return got;
}
#endif

/* ---- harness runtime ---- */
unsigned char nondet_vf_u8(void);
_Bool nondet_vf_b(void);
unsigned int nondet_vf_u32(void);
unsigned long nondet_vf_u64(void);
int nondet_vf_int(void);

unsigned char nd_u8(void) { unsigned char v = nondet_vf_u8(); __CPROVER_input("nd", v); return v; }
char nd_char(void) { char v = (char) nondet_vf_u8(); __CPROVER_input("nd", v); return v; }
int nd_bool(void) { _Bool v = nondet_vf_b(); __CPROVER_input("nd", v); return v; }
unsigned int nd_u32(void) { unsigned int v = nondet_vf_u32(); __CPROVER_input("nd", v); return v; }
unsigned long nd_u64(void) { unsigned long v = nondet_vf_u64(); __CPROVER_input("nd", v); return v; }
int nd_range(int lo, int hi) { int v = nondet_vf_int(); __CPROVER_input("nd", v); __CPROVER_assume(v >= lo && v <= hi); return v; }
