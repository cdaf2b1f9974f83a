/*
 * Stream model: stdout is captured, stderr is counted, readable files are
 * what the harness registered.  Same code under CBMC and natively.
 */
#define VF_REDIRECT_DECL_ONLY
#include "vf_redirect.h"
#include "vf.h"
#ifdef VF_CBMC
#include "vf_fmt.h"
#endif

#define NSTREAM 10
#define NFILE 4
static FILE vf_objs[NSTREAM];
FILE *vf_stdin = &vf_objs[0], *vf_stdout = &vf_objs[1], *vf_stderr = &vf_objs[2];

char vf_out[VF_OUT_MAX + 1];
int vf_out_n, vf_err_n, vf_out_writes, vf_open_inputs;

static const char *in_data[NSTREAM];
static int in_rd[NSTREAM];      /* opened for reading */
static int in_len[NSTREAM], in_pos[NSTREAM], in_eof[NSTREAM], in_used[NSTREAM];
static const char *f_path[NFILE], *f_data[NFILE];
static int f_len[NFILE], f_n;

/* -1: not handled; 0: fail; 1: handled as an empty output (e.g. /dev/null) */
#ifdef VF_FOPEN_HOOK
int vf_fopen_hook(const char *path, const char *mode, const char **data, int *len);
#endif
#ifdef VF_OUT_HOOK
void vf_out_hook(void);
#endif

void vf_stdin_set(const char *data, int len) { in_data[0] = data; in_len[0] = len; in_pos[0] = 0; in_eof[0] = 0; }
void vf_file_add(const char *path, const char *data, int len)
{
    f_path[f_n] = path; f_data[f_n] = data; f_len[f_n] = len; f_n++;
}

#ifdef VF_SHAPE
/*
 * The shape of the one input file: for every byte a representative of its
 * class ('w' a word character, 'h' a digit, or the byte itself).  The harness
 * assumes that every symbolic byte is of its class; splitting in to lines and
 * fields can then go by the shape.
 */
char vf_shape[VF_SHAPE], vf_shape_line[VF_SHAPE];
#endif

static int idx(FILE *f)
{
    int i;
    for (i = 0; i < NSTREAM; i++) { if (f == &vf_objs[i]) { return i; } }
    VF_MODEL(0, "unknown stream");
    return 0;
}

static void out(FILE *f, const char *s, int n)
{
    int i;
    if (f == vf_stderr) { vf_err_n++; return; }
    if (f != vf_stdout) { return; }
    vf_out_writes++;
#ifdef VF_OUT_HEAD
    /* only the beginning of the first write is kept */
    if (vf_out_n > 0) { return; }
    if (n > VF_OUT_MAX) { n = VF_OUT_MAX; }
#endif
    for (i = 0; i < n; i++) {
        VF_MODEL(vf_out_n < VF_OUT_MAX, "captured output too long");
        VF_ASSUME(vf_out_n < VF_OUT_MAX);
        vf_out[vf_out_n++] = s[i];
    }
    vf_out[vf_out_n] = 0;
#ifdef VF_OUT_HOOK
    vf_out_hook();
#endif
}

static int vout(FILE *f, const char *fmt, va_list ap)
{
#ifdef VF_CBMC
    int n;
    if (f == vf_stderr) { vf_err_n++; return 1; }
    if (f != vf_stdout) { return 1; }
    vf_out_writes++;
#ifdef VF_OUT_HEAD
    if (vf_out_n > 0) { return 1; }
    n = vf_vfmt(vf_out, VF_OUT_MAX + 1, fmt, ap);
    vf_out_n = n > VF_OUT_MAX ? VF_OUT_MAX : n;
    return n;
#endif
    n = vf_vfmt(vf_out + vf_out_n, VF_OUT_MAX + 1 - vf_out_n, fmt, ap);
    VF_MODEL(vf_out_n + n <= VF_OUT_MAX, "captured output too long");
    VF_ASSUME(vf_out_n + n <= VF_OUT_MAX);
    vf_out_n += n;
#ifdef VF_OUT_HOOK
    vf_out_hook();
#endif
    return n;
#else
    char *buf = NULL;
    int n = vasprintf(&buf, fmt, ap);
    out(f, buf, n);
    free(buf);
    return n;
#endif
}
int vf_printf(const char *fmt, ...) { va_list ap; int n; va_start(ap, fmt); n = vout(vf_stdout, fmt, ap); va_end(ap); return n; }
int vf_fprintf(FILE *f, const char *fmt, ...) { va_list ap; int n; va_start(ap, fmt); n = vout(f, fmt, ap); va_end(ap); return n; }
int vf_fputs(const char *s, FILE *f) { if (f == vf_stderr) { vf_err_n++; return 1; } out(f, s, (int) strlen(s)); return 1; }
int vf_fputc(int c, FILE *f) { char b[2]; b[0] = (char) c; b[1] = 0; out(f, b, 1); return (unsigned char) c; }
int vf_puts(const char *s) { vf_fputs(s, vf_stdout); vf_fputc('\n', vf_stdout); return 1; }
size_t vf_fwrite(const void *p, size_t sz, size_t n, FILE *f) { out(f, p, (int) (sz * n)); return n; }
int vf_fflush(FILE *f) { return 0; }
char *vf_strerror(int e) { return "strerror"; }

FILE *vf_fopen(const char *path, const char *mode)
{
    int i, j;
    const char *data = 0;
    int len = 0, ok = 0;

#ifdef VF_FOPEN_HOOK
    j = vf_fopen_hook(path, mode, &data, &len);
    if (j == 0) { errno = ENOENT; return NULL; }
    ok = j == 1;
#endif
    if (!ok && mode[0] == 'r') {
        for (i = 0; i < NFILE; i++) {
            if (i < f_n && !ok && vf_streq(f_path[i], path)) { data = f_data[i]; len = f_len[i]; ok = 1; }
        }
    }
    if (!ok && mode[0] != 'r') { ok = 1; }
    if (!ok) { errno = ENOENT; return NULL; }
    for (j = 3; j < NSTREAM; j++) {
        if (!in_used[j]) {
            in_used[j] = 1;
            in_data[j] = data; in_len[j] = len; in_pos[j] = 0; in_eof[j] = 0;
            in_rd[j] = mode[0] == 'r';
            if (in_rd[j]) { vf_open_inputs++; }
            return &vf_objs[j];
        }
    }
    VF_MODEL(0, "too many streams");
    return NULL;
}
int vf_fclose(FILE *f)
{
    int i = idx(f);
    if (i >= 3) { in_used[i] = 0; if (in_rd[i]) { vf_open_inputs--; } }
    return 0;
}
int vf_fgetc(FILE *f)
{
    int i = idx(f);
    if (in_pos[i] >= in_len[i]) { in_eof[i] = 1; return EOF; }
    return (unsigned char) in_data[i][in_pos[i]++];
}
int vf_ungetc(int c, FILE *f)
{
    int i = idx(f);
    if (c == EOF) { return EOF; }
    VF_MODEL(in_pos[i] > 0 && in_data[i][in_pos[i] - 1] == (char) c, "ungetc of something else than the last byte");
    in_pos[i]--;
    in_eof[i] = 0;
    return (unsigned char) c;
}
char *vf_fgets(char *s, int n, FILE *f)
{
    int i = idx(f), k = 0;
    if (n <= 0) { return NULL; }
#if defined(VF_SHAPE) && defined(VF_CBMC)
    while (k < n - 1) {
        char c;
        if (in_pos[i] >= in_len[i]) { in_eof[i] = 1; break; }
        s[k] = in_data[i][in_pos[i]];
        c = vf_shape[in_pos[i]++];
        vf_shape_line[k++] = c;
        if (c == '\n') { break; }
    }
    if (k == 0) { return NULL; }
    s[k] = 0;
    vf_shape_line[k] = 0;
    return s;
#endif
    while (k < n - 1) {
        char c;
        if (in_pos[i] >= in_len[i]) { in_eof[i] = 1; break; }
        c = in_data[i][in_pos[i]++];
        s[k++] = c;
        if (c == '\n') { break; }
    }
    if (k == 0) { return NULL; }
    s[k] = 0;
    return s;
}
size_t vf_fread(void *p, size_t sz, size_t n, FILE *f)
{
    int i = idx(f);
    size_t k = 0;
    VF_MODEL(sz == 1, "fread of single bytes only");
    while (k < n && in_pos[i] < in_len[i]) { ((char *) p)[k++] = in_data[i][in_pos[i]++]; }
    if (k < n) { in_eof[i] = 1; }
    return k;
}
int vf_isatty(int fd) { return 0; }
int vf_fileno(FILE *f) { return idx(f); }
int vf_ferror(FILE *f) { return 0; }
void vf_clearerr(FILE *f) { }
int vf_feof(FILE *f) { return in_eof[idx(f)]; }

void vf_exit(int code)
{
    vf_on_exit(code);
    VF_STOP();
}

/* environment: by default nothing is set */
#ifdef VF_GETENV_HOOK
char *vf_getenv_hook(const char *name);
char *vf_getenv(const char *name) { return vf_getenv_hook(name); }
#else
char *vf_getenv(const char *name) { return NULL; }
#endif
#ifdef VF_LOCALE_HOOK
char *vf_locale_hook(void);
char *vf_setlocale(int cat, const char *l) { return vf_locale_hook(); }
#else
char *vf_setlocale(int cat, const char *l) { return "C"; }
#endif
