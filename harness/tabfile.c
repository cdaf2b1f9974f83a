/*
 * Table files, by detox.tbl(5): parse_table() on files whose layout is fixed
 * per job (TPL) and whose values, translations, comments and quoting are
 * symbolic.  The table store is a stub that records every row (its semantics
 * are another property's); the locale is symbolic.
 */
#include "vf.h"
#include "detox_struct.h"
#include "table.h"
#include "parse_table.h"
#include <sys/stat.h>
#include <stdlib.h>
VF_EXIT_IS_FAILURE
#define MAXROWS 6
#ifndef PAD
#define PAD 0
#endif
#ifndef Q
#define Q '"'
#endif

static table_t tab;
static unsigned int got_key[MAXROWS];
static char got_data[MAXROWS][16];
static int room, size = -1;
static int rows, freed, inits, refuse = 99, exists;
static char *loc;
static char txt[100 + PAD];
static int len;

table_t *__wrap_table_init(int n)
{
    inits++;
    room = n;
    return &tab;
}
int __wrap_table_put(table_t *t, unsigned int key, char *d)
{
    int i;
    VF_ASSERT(t == &tab, "rows go to the table");
    if (rows == refuse) { return -1; }
    VF_MODEL(rows < MAXROWS, "too many rows");
    VF_ASSUME(rows < MAXROWS);
    got_key[rows] = key;
    for (i = 0; i < 15; i++) { got_data[rows][i] = d[i]; if (!d[i]) { break; } }
    VF_ASSERT(i < 15, "a translation is no longer than it is in the file");
    rows++;
    return 0;
}
void __wrap_table_free(table_t *t) { freed++; }
char *vf_locale_hook(void) { return loc; }
int vf_stat(const char *path, struct stat *st)
{
    VF_ASSERT(vf_streq(path, "/t"), "the file asked for is used");
    if (!exists) { return -1; }
    st->st_size = size >= 0 ? size : len;
    st->st_blocks = 8;
    return 0;
}

static void sh(char c, char shape)
{
    txt[len] = c;
#ifdef VF_SHAPE
    vf_shape[len] = shape;
#endif
    len++;
}
static void put(const char *s) { int i; for (i = 0; s[i]; i++) { sh(s[i], s[i]); } }
/* a character that is part of a word or of something in quotes, a blank, a digit */
static void w(char c) { sh(c, 'w'); }
static void bl(void) { sh(nd_bool() ? ' ' : '\t', ' '); }
static void dg(char c) { sh(c, 'h'); }
/* any character of a class */
static int space(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
static char word(int first)
{
    char c = nd_char();
    VF_ASSUME(c != 0 && !space((unsigned char) c));
    if (first) { VF_ASSUME(c != '"' && c != '\'' && c != '#'); }
    return c;
}
/* any character but the given ones; in a comment or in quotes */
static char line(char q) { char c = nd_char(); VF_ASSUME(c != 0 && c != '\n' && c != q); return c; }
static int hexv(char c) { return c <= '9' ? c - '0' : c <= 'F' ? c - 'A' + 10 : c - 'a' + 10; }
static char digit(int base)
{
    char c = nd_char();
    if (base == 16) { VF_ASSUME((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')); }
    else { VF_ASSUME(c >= '0' && c < '0' + base); }
    return c;
}
static void expect_row(int k, unsigned int key, const char *d)
{
    int i;
    for (i = 0; i < MAXROWS; i++) {
        if (i == k) {
            VF_ASSERT(got_key[i] == key, "the value of a row is read as written");
            VF_ASSERT(vf_streq(got_data[i], d), "the translation of a row is read as written");
        }
    }
}

int main(void)
{
    table_t *t;
    char d[16], a, b, c, e;
    unsigned int v;

    loc = "C";
    exists = 1;
#if TPL == 1
    /* a hexadecimal value, a bare translation, and a comment behind it */
    put("start\n0x"); a = digit(16); b = digit(16); dg(a); dg(b); bl();
    d[0] = word(1); d[1] = word(0); d[2] = 0; w(d[0]); w(d[1]); bl(); w(line('\n')); w(line('\n')); put("\nend\n");
    v = hexv(a) * 16 + hexv(b);
    vf_file_add("/t", txt, len);
    t = parse_table("/t");
    VF_ASSERT(t == &tab && rows == 1, "the row is read");
    expect_row(0, v, d);
    VF_ASSERT(tab.default_translation == NULL, "no default unless there is one");
#elif TPL == 2
    /* decimal and octal values, translations in quotes of either kind */
    c = Q;
    put("start\n"); a = digit(10); VF_ASSUME(a != '0'); b = digit(10); dg(a); dg(b); put(" "); sh(c, c);
    d[0] = line(c); d[1] = line(c); d[2] = 0; w(d[0]); w(d[1]); sh(c, c); put(" x\n");
    e = digit(8); put("0"); dg(e); put("\tz\nend\n");
    v = (a - '0') * 10 + b - '0';
    vf_file_add("/t", txt, len);
    t = parse_table("/t");
    VF_ASSERT(t == &tab && rows == 2, "the rows are read");
    expect_row(0, v, d);
    expect_row(1, e - '0', "z");
#elif TPL == 3
    /* the default: absent, empty, bare or quoted; nothing else outside of a block counts */
    {
        const int k = VAR;
        d[0] = 0;
        put("#"); w(line('\n')); put("\n0x41 q\n");
        if (k >= 1) { put("default"); }
        if (k == 1) { put("\n"); }
        if (k == 2) { put("  \n"); }
        if (k == 3) { put("\t"); d[0] = word(1); d[1] = 0; w(d[0]); put(" # c\n"); }
        if (k == 4) { c = Q; put(" "); sh(c, c); d[0] = line(c); d[1] = 0; w(d[0]); sh(c, c); put("\n"); }
        put("start\n0x42 r\nend\n0x43 s\nend\n");
        vf_file_add("/t", txt, len);
        t = parse_table("/t");
        VF_ASSERT(t == &tab && rows == 1, "rows count inside of a block only");
        expect_row(0, 0x42, "r");
        if (k < 3) { VF_ASSERT(tab.default_translation == NULL, "no default unless there is one"); }
        else { VF_ASSERT(tab.default_translation != NULL && vf_streq(tab.default_translation, d), "the default is read as written"); }
    }
#elif TPL == 4
    /* blocks for a language: read when it is the user's, in the file's order */
    {
        static char l[8] = "xx_YY";
        char la = nd_char(), lb = nd_char(), ua, ub;
        int mine;
        const int q = VAR;
        VF_ASSUME(la >= 'a' && la <= 'z' && lb >= 'a' && lb <= 'z');
        l[0] = nd_char(); l[1] = nd_char();
        VF_ASSUME(l[0] >= 'a' && l[0] <= 'z' && l[1] >= 'a' && l[1] <= 'z');
        loc = l;
        mine = l[0] == la && l[1] == lb;
        ua = nd_bool() ? la : la - 32; ub = nd_bool() ? lb : lb - 32;
        put("start\n1 a\nend\nStart ");
        c = q == 1 ? '"' : '\'';
        if (q) { sh(c, c); }
        w(ua); w(ub);
        if (q) { sh(c, c); }
        put("\n1 b\n2 c\nEND\nstart\n3 d\nend\n");
        vf_file_add("/t", txt, len);
        t = parse_table("/t");
        VF_ASSERT(t == &tab, "the table is read");
        VF_ASSERT(rows == (mine ? 4 : 2), "a block for a language is read when it is the user's");
        expect_row(0, 1, "a");
        if (mine) { expect_row(1, 1, "b"); expect_row(2, 2, "c"); expect_row(3, 3, "d"); }
        else { expect_row(1, 3, "d"); }
    }
#elif TPL == 5
    /* files that cannot be read, rows that cannot be stored */
    exists = VAR != 1;
    refuse = VAR >= 2 ? nd_range(0, 3) : 3;
    put("start\n1 a\n2 b\n3 c\nend\n");
    if (VAR != 0) { vf_file_add("/t", txt, len); a = 1; } else { a = 0; }
    t = parse_table("/t");
    if (!exists || !a) { VF_ASSERT(t == NULL && rows == 0, "no file, no table"); }
    else if (refuse < 3) { VF_ASSERT(t == NULL, "a table is never used with some of its rows missing"); }
    else { VF_ASSERT(t == &tab && rows == 3, "the table is read"); }
    VF_ASSERT(vf_open_inputs == 0, "the file is closed again");
#elif TPL == 6
    /* lines that hold nothing: blank, comments, a value without a translation; no newline at the end */
    {
        const int k = VAR;
        put("start\n");
        if (k == 0) { put("\n"); }
        if (k == 1) { bl(); bl(); put("\n"); }
        if (k == 2) { put("#"); w(line('\n')); w(line('\n')); put("\n"); }
        if (k == 3) { dg(digit(10)); bl(); put("\n"); }
        if (k == 4) { put(" "); c = nd_char(); VF_ASSUME(c == ';' || c == '#' || c >= 'f' && c <= 'z'); w(c); put(" w\n"); }
        put("0x44"); bl(); bl(); d[0] = word(1); d[1] = 0; w(d[0]);
        if (VAR % 2) { put("\n"); }
        vf_file_add("/t", txt, len);
        t = parse_table("/t");
        VF_ASSERT(t == &tab && rows == 1, "lines that hold nothing change nothing");
        expect_row(0, 0x44, d);
    }
#endif
#if TPL == 8
    /* a long line, with a remark that looks like a row, and a long comment: each is one line */
    {
        int i;
        put("start\n0x41 "); d[0] = word(1); d[1] = 0; w(d[0]);
        for (i = 0; i < PAD / 2; i++) { put(" "); }
        put("0x43 D\n#");
        for (i = 0; i < PAD / 2; i++) { put(" "); }
        put("0x44 D\n0x45 F\nend\n");
        vf_file_add("/t", txt, len);
        t = parse_table("/t");
        VF_ASSERT(t == &tab && rows == 2, "the rest of a long line is not a line of its own");
        expect_row(0, 0x41, d);
        expect_row(1, 0x45, "F");
    }
#endif
#if TPL == 7
    /*
     * a file of any size: as large as one with the rows "1 x" .. "K x", and so
     * the table is made for at least K rows (it does not grow later on)
     */
    {
        int k = nd_range(1, 99999);
        size = 6 + 4 * (k < 9 ? k : 9);
        if (k > 9) { size += 5 * ((k < 99 ? k : 99) - 9); }
        if (k > 99) { size += 6 * ((k < 999 ? k : 999) - 99); }
        if (k > 999) { size += 7 * ((k < 9999 ? k : 9999) - 999); }
        if (k > 9999) { size += 8 * (k - 9999); }
        vf_file_add("/t", txt, 0);
        t = parse_table("/t");
        VF_ASSERT(t == &tab && inits == 1 && rows == 0, "an empty table");
        VF_ASSERT((room > 0 ? room : 500) >= k, "a table has room for all the rows its file can hold");
    }
#endif
    VF_REACH();
    return 0;
}
