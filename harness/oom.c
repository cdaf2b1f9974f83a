/*
 * Any one allocation of a run fails.  PART selects what is run; whatever the
 * input, the program must end there with failure status and a report, and
 * nothing may be renamed, listed or printed afterwards.
 */
#define VF_REDIRECT_DECL_ONLY
#include "vf_redirect.h"
#include "vf.h"
#include "clean_string.h"
#include "clean_utf_8.h"
#include "config_file.h"
#include "config_file_spoof.h"
#include "config_file_yacc.h"
#include "builtin_table.h"
#include "file.h"
#include "filelist.h"
#include "filter.h"
#include "parse_options.h"
#include "parse_table.h"
#include "sequence.h"
#include "table.h"
#include "seqfix.h"

#ifndef N
#define N 2
#endif
static int a0, renames;

void vf_on_exit(int code)
{
    VF_ASSERT(vf_oom_hit, "the run ends early only when memory runs out");
    VF_ASSERT(code == EXIT_FAILURE, "running out of memory is a failure");
    VF_ASSERT(vf_err_n > 0, "running out of memory is reported");
    VF_REACH();
}
#ifdef FAILAT
#define BEGIN() do { a0 = vf_allocs; vf_oom_at = a0 + FAILAT; } while (0)
#else
#define BEGIN() do { a0 = vf_allocs; vf_oom_at = a0 + nd_range(1, ALLOCS); } while (0)
#endif

/* a directory "d" with one entry "Q"; every other name is free */
static int listed;
static struct { struct dirent e; } h;
int vf_lstat(const char *path, struct stat *st)
{
    VF_ASSERT(!vf_oom_hit, "nothing is looked up after running out of memory");
    st->st_dev = st->st_ino = st->st_nlink = 1;
    st->st_mode = vf_streq(path, "d") ? S_IFDIR : S_IFREG;
    if (path[vf_slen(path) - 1] == 'Q' || vf_streq(path, "d")) { return 0; }
    errno = ENOENT;
    return -1;
}
int vf_stat(const char *path, struct stat *st)
{
    if (path[0] != '/' || path[1] != 't') { errno = ENOENT; return -1; }
    st->st_size = 20;
    st->st_blocks = 8;
    return 0;
}
int vf_rename(const char *from, const char *to)
{
    VF_ASSERT(!vf_oom_hit, "nothing is renamed after running out of memory");
    renames++;
    return 0;
}
int vf_mutate(const char *path) { VF_ASSERT(0, "nothing but renames changes the file system"); return -1; }
DIR *vf_opendir(const char *path) { listed = 0; return (DIR *) &h; }
struct dirent *vf_readdir(DIR *d) { if (listed++) { return NULL; } h.e.d_name[0] = 'Q'; h.e.d_name[1] = 0; return &h.e; }
int vf_closedir(DIR *d) { return 0; }

#if PART == 8
extern FILE *yyin;
static const char *tok = "s${f{n$;};t{b\";};w{r;};m{L0;};};g{n$;};s\"{u;};s${l;};";
int __wrap_yylex(void)
{
    char c = *tok;
    if (c == 0) { vf_fgetc(yyin); return 0; }
    tok++;
    if (c == '$' || c == '"') { yylval.string = *tok % 2 ? "a" : "b"; }
    if (c == '0') { yylval.nvalue = 7; }
    switch (c) {
        case 's': return SEQUENCE;  case 'g': return IGNORE;   case '{': return OPEN;     case '}': return CLOSE;  case ';': return EOL;
        case 'u': return UNCGI;     case 'l': return LOWER;    case 'w': return WIPEUP;   case 'f': return SAFE;     case 't': return UTF_8;    case 'm': return MAX_LENGTH;
        case 'r': return REMOVE_TRAILING; case 'b': return BUILTIN; case 'n': return FILENAME; case 'L': return LENGTH;
        case '0': return NVALUE;    case '$': return ID;       case '"': return QSTRING;
    }
    return 0;
}
#endif
#if PART == 11
static table_t tab;
table_t *__wrap_table_init(int n) { return &tab; }
int __wrap_table_put(table_t *t, unsigned int key, char *d) { VF_ASSERT(!vf_oom_hit, "no row is stored after running out of memory"); return 0; }
void __wrap_table_free(table_t *t) { VF_ASSERT(0, "no table is refused"); }
#endif
#if PART == 10
static config_file_t conf;
config_file_t *__wrap_parse_config_file(char *f, config_file_t *p, options_t *o) { VF_ASSERT(!vf_oom_hit, "nothing is read after running out of memory"); return EXPLICIT ? &conf : p; }
config_file_t *__wrap_spoof_config_file(void) { VF_ASSERT(!vf_oom_hit, "no configuration after running out of memory"); return &conf; }
#endif

int main(void)
{
    static options_t opt;
    static char obj[12], *name = obj + 2;   /* a pointer just in front of the name is formed, never read */
    char *r = 0;
    void *v = &opt;
    int i;

#if PART == 1 || PART == 2 || PART == 3
    sf_init();
    sf_opt.verbose = nd_bool();
    sf_opt.recurse = nd_bool();
#endif
#if PART == 1
    nd_str(name, N);
    BEGIN();
    r = parse_file(name, &sf_opt);
    VF_ASSERT(r != NULL, "a current name is returned");
#elif PART == 2
    name[0] = 'd';
    BEGIN();
    parse_dir(name, &sf_opt);
#elif PART == 3
    vf_stdin_set("aQ\nQ", 4);
    BEGIN();
    parse_inline(NULL, NULL, &sf_opt);
#elif PART == 4
    sf_init();
    nd_str_nz(name, N);
    BEGIN();
    r = FILTER;
    VF_ASSERT(r != NULL, "a filter returns a name");
#elif PART == 5
    table_t *t, *u;
    unsigned int k = nd_u32(), l = nd_u32();
    nd_str(name, N);
    VF_ASSUME(k > 0 && l > 0);
    vf_exact = 2;
    BEGIN();
    t = table_init(2);
    VF_ASSERT(table_put(t, k, name) >= 0 && table_put(t, l, name) >= 0, "rows are stored");
    t->default_translation = nd_bool() ? "_" : NULL;
    u = table_resize(t, 3, nd_bool());
    VF_ASSERT(u != NULL && u != t, "the table is resized");
    VF_ASSERT(table_get(u, k) != NULL && table_get(u, l) != NULL, "no row is missing");
#elif PART == 6
    filelist_t *f;
    nd_str(name, 1);
    vf_exact = 2;
    BEGIN();
    f = filelist_init();
    for (i = 0; i < 17; i++) { filelist_put(f, name); }
    VF_ASSERT(filelist_count(f) == 17, "every name is kept");
#elif PART == 7
    vf_exact = 2;
    BEGIN();
    v = spoof_config_file();
#elif PART == 8
    vf_file_add("/1", "", 0);
    vf_exact = 2;
    BEGIN();
    v = parse_config_file("/1", NULL, &opt);
#elif PART == 9
    static char *argv[] = { "detox", "-f", "cf", "-s", "sq", "-v", "x", "y", NULL };
    vf_exact = 2;
    BEGIN();
    v = parse_options_getopt(8, argv);
#elif PART == 10
    opt.check_config_file = EXPLICIT ? "cf" : NULL;
    BEGIN();
    config_file_load(&opt);
#elif PART == 11
    static char txt[] = "start\n1 b\nend\ndefault _\n";
    vf_file_add("/t", txt, sizeof(txt) - 1);
    txt[8] = nd_char();     /* the translation, the default */
    txt[22] = nd_char();
    VF_ASSUME(txt[8] > 'a' && txt[8] <= 'z' && txt[22] > 'a' && txt[22] <= 'z');
#ifdef VF_SHAPE
    for (i = 0; i < (int) sizeof(txt); i++) { vf_shape[i] = i == 8 || i == 22 ? 'w' : txt[i]; }
#endif
    BEGIN();
    v = parse_table("/t");
#elif PART == 12
    vf_exact = 2;
    BEGIN();
    v = filter_load_builtin_by_filename("safe");
    VF_ASSERT(v == NULL || table_get(v, ' ') != NULL, "no row is missing");
#endif
    VF_ASSERT(v != NULL, "there is a result");
    VF_ASSERT(!vf_oom_hit, "running out of memory ends the run");
    VF_MODEL(vf_allocs - a0 <= ALLOCS, "more allocations than ALLOCS");
    VF_REACH();
    return 0;
}
