/*
 * Force-included in front of the repository's sources (never edits them):
 * calls that reach the operating system, the terminal or end the process are
 * routed to the models.  Pure string functions are left alone; CBMC gets
 * definitions of them from cbmc_libc.c, the native replay uses glibc's.
 */
#ifndef VF_REDIRECT_H
#define VF_REDIRECT_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <ctype.h>
#include <errno.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
#include <fcntl.h>
#include <getopt.h>
#include <locale.h>
#include <libgen.h>
#include <alloca.h>
#include <limits.h>
#include <stdint.h>
#include <stdarg.h>

int vf_lstat(const char *path, struct stat *st);
int vf_stat(const char *path, struct stat *st);
int vf_rename(const char *from, const char *to);
int vf_mutate(const char *path);
DIR *vf_opendir(const char *path);
struct dirent *vf_readdir(DIR *d);
int vf_closedir(DIR *d);
FILE *vf_fopen(const char *path, const char *mode);
int vf_fclose(FILE *f);
char *vf_fgets(char *s, int n, FILE *f);
int vf_fgetc(FILE *f);
size_t vf_fread(void *p, size_t sz, size_t n, FILE *f);
int vf_isatty(int fd);
int vf_fileno(FILE *f);
int vf_ferror(FILE *f);
void vf_clearerr(FILE *f);
int vf_ungetc(int c, FILE *f);
int vf_feof(FILE *f);
int vf_printf(const char *fmt, ...);
int vf_fprintf(FILE *f, const char *fmt, ...);
int vf_fputs(const char *s, FILE *f);
int vf_fputc(int c, FILE *f);
int vf_puts(const char *s);
size_t vf_fwrite(const void *p, size_t sz, size_t n, FILE *f);
int vf_fflush(FILE *f);
void vf_exit(int code);
char *vf_getenv(const char *name);
char *vf_setlocale(int cat, const char *l);
char *vf_strerror(int e);
int vf_getopt_long(int argc, char *const argv[], const char *opts, const struct option *lo, int *idx);
char *vf_basename(char *p);
extern FILE *vf_stdin, *vf_stdout, *vf_stderr;
void *vf_malloc(size_t n);
void *vf_calloc(size_t n, size_t m);
void *vf_realloc(void *p, size_t n);
char *vf_strdup(const char *s);
char *vf_strndup(const char *s, size_t n);
void vf_free(void *p);

#ifndef VF_REDIRECT_DECL_ONLY
#define lstat(p, s) vf_lstat(p, s)
#define stat(p, s) vf_stat(p, s)
#define fstatat(d, p, s, f) vf_lstat(p, s)
#define rename(a, b) vf_rename(a, b)
#define renameat(d, a, e, b) vf_rename(a, b)
#define renameat2(d, a, e, b, f) vf_rename(a, b)
#define link(a, b) vf_mutate(b)
#define symlink(a, b) vf_mutate(b)
#define unlink(a) vf_mutate(a)
#define remove(a) vf_mutate(a)
#define rmdir(a) vf_mutate(a)
#define mkdir(a, m) vf_mutate(a)
#define chmod(a, m) vf_mutate(a)
#define truncate(a, n) vf_mutate(a)
#define creat(a, m) vf_mutate(a)
#define opendir(p) vf_opendir(p)
#define readdir(d) vf_readdir(d)
#define closedir(d) vf_closedir(d)
#define fopen(p, m) vf_fopen(p, m)
#define fclose(f) vf_fclose(f)
#define fgets(s, n, f) vf_fgets(s, n, f)
#undef fgetc
#undef getc
#undef ungetc
#undef feof
#undef putc
#undef ferror
#undef clearerr
#undef fileno
#undef putchar
#define fgetc(f) vf_fgetc(f)
#define fread(p, s, n, f) vf_fread(p, s, n, f)
#define isatty(fd) vf_isatty(fd)
#define fileno(f) vf_fileno(f)
#define ferror(f) vf_ferror(f)
#define clearerr(f) vf_clearerr(f)
#define getc(f) vf_fgetc(f)
#define ungetc(c, f) vf_ungetc(c, f)
#define feof(f) vf_feof(f)
#define printf(...) vf_printf(__VA_ARGS__)
#define fprintf(...) vf_fprintf(__VA_ARGS__)
#define fputs(s, f) vf_fputs(s, f)
#define fputc(c, f) vf_fputc(c, f)
#define putc(c, f) vf_fputc(c, f)
#define putchar(c) vf_fputc(c, vf_stdout)
#define puts(s) vf_puts(s)
#define fwrite(p, s, n, f) vf_fwrite(p, s, n, f)
#define fflush(f) vf_fflush(f)
#define exit(c) vf_exit(c)
#define _exit(c) vf_exit(c)
#define getenv(n) vf_getenv(n)
#define setlocale(c, l) vf_setlocale(c, l)
#define strerror(e) vf_strerror(e)
#define getopt_long(a, b, c, d, e) vf_getopt_long(a, b, c, d, e)

#undef basename
#define basename(p) vf_basename(p)
#undef stdin
#undef stdout
#undef stderr
#define stdin vf_stdin
#define stdout vf_stdout
#define stderr vf_stderr
#if defined(VF_OOM) && !defined(VF_CBMC)
#define malloc(n) vf_malloc(n)
#define calloc(n, m) vf_calloc(n, m)
#define realloc(p, n) vf_realloc(p, n)
#undef strdup
#undef strndup
#define strdup(s) vf_strdup(s)
#define strndup(s, n) vf_strndup(s, n)
#endif
#endif
#endif
