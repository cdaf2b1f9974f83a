import os,subprocess,json,stat,sys
HEAD='''#!/bin/bash
R=$PWD
DETOX=$R/_build/tree/src/detox
RC=$R/etc/detoxrc
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
export HOME=$W/home LC_ALL=C; unset XDG_CONFIG_HOME DETOX_SEQUENCE
mkdir "$HOME" "$W/w"; cd "$W/w" || exit 99
fail () { echo "$1"; exit 1; }
'''
ASAN='''cat > p.c <<'C'
%s
C
gcc -w -g -fsanitize=address -D_GNU_SOURCE -I "$R/_build/tree/src" -I "$R/src" p.c %s -o p || exit 99
ASAN_OPTIONS=detect_leaks=0 timeout 60 ./p || fail "the program failed"
'''
def src(*f): return ' '.join('"$R/src/%s"'%x for x in f)
S=[]
def seed(id,prop,file,pairs,needs,breaks,demo,extra={}):
    S.append((id,prop,file,pairs,needs,breaks,demo,extra))
seed('b01-stat-target','P01','file.c',[('err = lstat(new_filename, &stat_info_new);','err = stat(new_filename, &stat_info_new);')],
 'the cleaned name is taken by a dangling symbolic link','a dangling link counts as absent and is overwritten by the rename',
 '''echo data > "a b"; ln -s nowhere a_b
"$DETOX" -f "$RC" "a b" >/dev/null 2>&1
[ -L a_b ] && [ -f "a b" ] || fail "the link was overwritten"
''')
seed('b02-dotdot-name','P02','file.c',[("(filename[1] == '\\0' || (filename[1] == '.' && filename[2] == '\\0'))","(filename[1] == '\\0' || filename[1] == '.')")],
 'a path whose last component starts with ".." but is longer','names such as "..a b" are taken for ".." and never cleaned',
 '''touch "..a b"
"$DETOX" -f "$RC" "..a b" >/dev/null 2>&1
[ ! -e "..a b" ] || fail "not renamed"
''')
seed('b03-dry-link','P03','file.c',[('    if (options->dry_run) {\n        free(new','    if (options->dry_run && !S_ISLNK(stat_info_old.st_mode)) {\n        free(new')],
 '-n together with --special and a symbolic link','a dry run renames symbolic links',
 '''ln -s nowhere "a b"
"$DETOX" -f "$RC" -n --special "a b" >/dev/null 2>&1
[ -L "a b" ] || fail "renamed in a dry run"
''')
seed('b04-fail-newname','P04','file.c',[('old_filename, new_filename, strerror(errno));\n        free(new_filename);\n        return old_filename;','old_filename, new_filename, strerror(errno));\n        free(old_filename);\n        return new_filename;')],
 'rename() of a directory fails (here: the new name is too long) during recursion','after a failed rename the walk goes on under a name that does not exist and skips the contents',
 '''n=$(printf '&a%.0s' {1..100}); mkdir "$n"; touch "$n/c d"
"$DETOX" -f "$RC" -r "$n" >/dev/null 2>&1
[ -e "$n/c_d" ] || fail "the contents were skipped"
''')
seed('b05-appledouble','P05','file.c',[("    if (filename[0] == '.') {","    if (filename[0] == '.' && filename[1] != '_') {")],
 'a hidden entry whose second character is "_"','"._name" entries are renamed during recursion',
 '''mkdir d; touch "d/._a b"
"$DETOX" -f "$RC" -r d >/dev/null 2>&1
[ -e "d/._a b" ] || fail "a hidden file was renamed"
''')
seed('b06-walk-buffer','P06','file.c',[('strlen(filename) + 1024','strlen(filename) + 256')],
 'a directory entry with a name of exactly 255 bytes','the path is cut by one byte, so the entry is not found and not cleaned',
 '''n="$(printf 'a%.0s' {1..253}) b"; mkdir d; touch "d/$n"
"$DETOX" -f "$RC" -r d >/dev/null 2>&1
[ ! -e "d/$n" ] || fail "not cleaned"
''')
seed('b06-ignore-prefix','P06','file.c',[('if (strcmp(filename, file_walk) == 0) {\n            return 1;','if (strncmp(filename, file_walk, strlen(file_walk)) == 0) {\n            return 1;')],
 'an entry whose name starts with an ignored name','entries that merely start like an ignored name are skipped',
 '''mkdir d; touch "d/{arch} x"
"$DETOX" -f "$RC" -r d >/dev/null 2>&1
[ ! -e "d/{arch} x" ] || fail "skipped"
''')
seed('b07-inline-dir','P07','detox.c',[('fprintf(stderr, "%s: is a directory\\n", file_walk);','fprintf(stderr, "%s: is a directory\\n", file_walk);\n                        break;')],
 'inline mode with a directory before a file','everything after a directory on the command line is dropped',
 '''mkdir d; echo "a b" > f
[ "$("$DETOX" -f "$RC" --inline d f 2>/dev/null)" = a_b ] || fail "the second path was dropped"
''')
seed('b11-empty-translation','P11','clean_string.c',[('replace_walk = table_get(table, *input_walk);\n        if (replace_walk == NULL) {','replace_walk = table_get(table, *input_walk);\n        if (replace_walk == NULL || *replace_walk == \'\\0\') {')],
 'a table that maps a character to the empty string','characters that a table deletes are kept',
 '''printf 'start\\n0x41 ""\\nend\\n' > t.tbl
printf 'sequence default { safe { filename "%s"; }; };\\n' "$PWD/t.tbl" > rc
[ "$(printf xAy | "$DETOX" -f rc --inline)" = xy ] || fail "not deleted"
''')
seed('b12-only-separators','P12','clean_string.c',[('    if (current != NULL) {\n        *output_walk++ = current[0];\n    }\n','    if (current != NULL && output_walk > output) {\n        *output_walk++ = current[0];\n    }\n')],
 'a name of nothing but periods (after the leading separators)','the result is empty instead of "."',
 '''printf 'sequence default { wipeup { remove_trailing; }; };\\n' > rc
[ "$(printf '...' | "$DETOX" -f rc --inline)" = . ] || fail "wrong result"
''')
seed('b13-plus-at-end','P13','clean_string.c',[("} else if (input_walk[0] == '+') {","} else if (input_walk[0] == '+' && input_walk[1] != '\\0') {")],
 'a name that ends with "+"','a final "+" is not decoded',
 '''[ "$(printf 'a+' | "$DETOX" -f "$RC" -s uncgi-only --inline)" = "a " ] || fail "not decoded"
''')
seed('b14-default-above-max','P14','clean_utf_8.c',[('if (replace_walk == NULL && new_value > UNICODE_MAX_VALUE) {','if (replace_walk == NULL && table->default_translation == NULL && new_value > UNICODE_MAX_VALUE) {')],
 'an encoded value above 0x10FFFF and a table with a default translation','it is replaced by the default instead of "_"',
 '''printf 'default D\\nstart\\n0x41 B\\nend\\n' > t.tbl
printf 'sequence default { utf_8 { filename "%s"; }; };\\n' "$PWD/t.tbl" > rc
[ "$(printf 'A\\xf5\\x80\\x80\\x80' | "$DETOX" -f rc --inline 2>/dev/null)" = B_ ] || fail "wrong result"
''')
seed('b16-extension-at-start','P16','clean_string.c',[('while (--input_walk > filename) {','while (--input_walk >= filename) {')],
 'a name longer than the limit that starts with a period at most five characters before its extension','the whole name is taken for an extension and the name is not cut',
 '''printf 'sequence default { max_length { length 5; }; };\\n' > rc
[ "$(printf '.ab.cc' | "$DETOX" -f rc --inline 2>/dev/null)" = .a.cc ] || fail "not cut"
''')
seed('b18-max-length-room','P18','clean_string.c',[('output = wrapped_malloc(max_length + 1);','output = wrapped_malloc(max_length);')],
 'any name longer than the limit; only visible with a memory checker','the terminating NUL is written behind the block',
 ASAN % ('''#include <stdlib.h>
#include <string.h>
#include "clean_string.h"
int main(void) { char *r = clean_max_length("abcdefghijklmnopq", 8); return strcmp(r, "abcdefgh") != 0; }''', src('clean_string.c','table.c','wrapped.c')))
seed('b20-same-kind-twice','P20','sequence.c',[('    while (filter != NULL && work != NULL) {\n        hold = filter_run(filter, work);','    while (filter != NULL && work != NULL) {\n        if (filter->next != NULL && filter->next->cleaner == filter->cleaner && filter->table == filter->next->table) {\n            filter = filter->next; // the same again\n            continue;\n        }\n\n        hold = filter_run(filter, work);')],
 'two neighbouring filters of the same kind without tables but with different parameters','the first of two max_length or wipeup filters is skipped',
 '''printf 'sequence default { max_length { length 3; }; max_length { length 8; }; };\\n' > rc
[ "$(printf 'abcdef' | "$DETOX" -f rc --inline)" = abc ] || fail "a filter was skipped"
''')
seed('b22-signed-hash','P22','table.c',[('static int table_hash(int table_length, unsigned int key)\n{','static int table_hash(int table_length, int key)\n{'),('static int table_hash(int table_length, unsigned int key);','static int table_hash(int table_length, int key);')],
 'a key above 0x7fffffff, such as a sign-extended byte','the row index is negative: rows in front of the table are read and written',
 ASAN % ('''#include <stdlib.h>
#include <string.h>
#include "table.h"
int main(void) { table_t *t = table_init(8); char *r; if (table_put(t, 0xffffffe3u, "x") < 0) { return 1; } r = table_get(t, 0xffffffe3u); return r == NULL || strcmp(r, "x") != 0; }''', src('table.c','wrapped.c')))
seed('b23-high-keys','P23','table.c',[('        if (table->rows[i].key > 0 && table->rows[i].data != NULL) {\n            table_put(','        if ((int) table->rows[i].key > 0 && table->rows[i].data != NULL) {\n            table_put(')],
 'a key above 0x7fffffff','rows with high keys are lost when the table is resized',
 ASAN % ('''#include <stdlib.h>
#include <string.h>
#include "table.h"
int main(void) { table_t *t = table_init(8), *n; char *r; table_put(t, 0xffffffc4u, "x"); n = table_resize(t, 16, 1); r = table_get(n, 0xffffffc4u); return r == NULL || strcmp(r, "x") != 0; }''', src('table.c','wrapped.c')))
seed('b24-long-line','P24','parse_table.c',[('fgets(work, 1024, table_file)','fgets(work, 80, table_file)')],
 'a line of 80 characters or more, such as a row with a long remark','the rest of a long line is read as a line of its own',
 '''printf 'start\\n0x41 B %72s0x43 D\\n0x45 F\\nend\\n' "" > t.tbl
printf 'sequence default { safe { filename "%s"; }; };\\n' "$PWD/t.tbl" > rc
[ "$(printf 'ACE' | "$DETOX" -f rc --inline)" = BCF ] || fail "the rest of the line became a row"
''')
seed('b27-cr','P27','file.c',[("            has_newline = 1;\n            *hold = '\\0';","            has_newline = 1;\n            if (hold > base && hold[-1] == '\\r') {\n                hold--;\n            }\n            *hold = '\\0';")],
 'a line that ends with a carriage return','the carriage return is dropped instead of going through the filters',
 '''printf 'a\\r\\n' | "$DETOX" -f "$RC" -s lower-only --inline > o
printf 'a\\r\\n' | cmp - o || fail "the line was changed"
''')
seed('b28-padding','P28','file.h',[('#define INLINE_BUF_PADDING 16','#define INLINE_BUF_PADDING 4')],
 'a line that fills the buffer and ends there with the first byte of a 6-byte sequence','the bytes brought in one at a time go past the end of the buffer',
 ASAN % ('''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "detox_struct.h"
#include "file.h"
#include "sequence.h"
#include "filter.h"
int main(void)
{
    options_t o; sequence_t *s = sequence_init("x"); FILE *f = fopen("in", "w"); int i, n = INLINE_BUF_SIZE - INLINE_BUF_PADDING - 1;
    s->filters = filter_init(FILTER_LOWER);
    memset(&o, 0, sizeof(o)); o.sequence_to_use = s;
    for (i = 0; i < n - 1; i++) { putc('a', f); }
    fputs("\\xfc\\x80\\x80\\x80\\x80\\x80zz\\n", f); fclose(f);
    parse_inline("in", "out", &o);
    return 0;
}''', src('file.c','filelist.c','sequence.c','filter.c','clean_string.c','clean_utf_8.c','table.c','wrapped.c','parse_table.c','builtin_table.c')))
seed('b29-case','P29','sequence.c',[('if (strcmp(work->name, (name == NULL)','if (strcasecmp(work->name, (name == NULL)')],
 'two sequences whose names differ in case only','asking for one gives the other',
 '''printf 'sequence "Up" { safe; };\\nsequence "up" { lower; };\\n' > rc
[ "$(printf 'A b' | "$DETOX" -f rc -s up --inline)" = "a b" ] || fail "the wrong sequence was used"
''')
seed('b30-xdg-replaces','P30','config_file.c',[('                config_file = parse_config_file(check_config_file, config_file, main_options);\n            }\n        }\n\n        if (config_file == NULL) {\n            config_file = spoof','                config_file_t *xdg = parse_config_file(check_config_file, NULL, main_options);\n                config_file = xdg != NULL ? xdg : config_file;\n            }\n        }\n\n        if (config_file == NULL) {\n            config_file = spoof')],
 'a configuration in the home directory and one in XDG_CONFIG_HOME','the sequences of the home directory\'s configuration are lost',
 '''echo 'sequence one { lower; };' > "$HOME/.detoxrc"
mkdir -p x/detox; echo 'sequence two { lower; };' > x/detox/detoxrc
XDG_CONFIG_HOME=$PWD/x "$DETOX" -L > o; grep -q one o && grep -q two o || fail "a sequence is missing"
''')
seed('b32-fallback','P32','filter.c',[('        table = parse_table(check_filename);\n\n','        table = parse_table(check_filename);\n\n        if (table == NULL) {\n            table = filter_load_builtin(filter);\n        }\n\n')],
 'a table file that is named in the configuration and does not exist','the built-in table is silently used instead of failing',
 '''printf 'sequence default { safe { filename "%s/none.tbl"; }; };\\n' "$PWD" > rc
printf 'A b' | "$DETOX" -f rc --inline >/dev/null 2>&1 && fail "no failure"
''')
seed('b33-env-wins','P33','parse_options.c',[("                main_options->sequence_name = wrapped_strdup(optarg);","                if (main_options->sequence_name == NULL) {\n                    main_options->sequence_name = wrapped_strdup(optarg);\n                }")],
 'DETOX_SEQUENCE set together with -s, or -s twice','-s does not override the environment',
 '''[ "$(printf 'A b' | DETOX_SEQUENCE=lower "$DETOX" -f "$RC" -s uncgi-only --inline)" = "A b" ] || fail "-s was not heeded"
''')
seed('b34-full-list','P34','filelist.c',[('    if (list->count == list->max) {','    if (list->count > list->max) {')],
 'exactly 17 (33, 49, ...) names; only visible with a memory checker or an unlucky heap','a full list is not grown before the next name is written behind it',
 ASAN % ('''#include <stdlib.h>
#include <string.h>
#include "detox_struct.h"
#include "filelist.h"
int main(void) { filelist_t *l = filelist_init(); int i; for (i = 0; i < 17; i++) { filelist_put(l, "a"); } return filelist_count(l) != 17; }''', src('filelist.c','wrapped.c')))
only=sys.argv[1:]
for id,prop,file,pairs,needs,breaks,demo,extra in S:
    if only and id not in only: continue
    p='/repo/src/'+file; t=o=open(p).read()
    for a,b in pairs:
        assert t.count(a)==1,(id,a,t.count(a))
        t=t.replace(a,b)
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    open(p,'w').write(t)
    try: diff=subprocess.check_output(['git','-C','/repo','diff'])
    finally: open(p,'w').write(o)
    open(d+'/patch.diff','wb').write(diff)
    open(d+'/demo.sh','w').write(HEAD+demo+'exit 0\n'); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
