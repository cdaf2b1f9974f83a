"""reads /repo/table/*.tbl, by the format described in detox.tbl(5), and writes
builtin_ref.h: one REF_<table> macro per table, listing (key, packed data)"""
import os, re


def parse(path):
    rows, inside, default = {}, False, None
    for line in open(path, encoding='latin-1'):
        line = line.rstrip('\n')
        if line.startswith('#'):
            continue
        f = line.split(None, 1)
        if not f:
            continue
        if not inside:
            if f[0].lower() == 'start':
                inside = True
            elif f[0].lower() == 'default' and len(f) > 1:
                default = f[1]
            continue
        if f[0].lower() == 'end':
            inside = False
            continue
        key = int(f[0], 0)
        if len(f) < 2:
            continue
        v = f[1]
        if v[0] in '"\'':
            v = v[1:].split(v[0])[0]
        else:
            v = v.split()[0]
        rows[key] = re.sub(r'\\u([0-9A-Fa-f]{4})', lambda m: chr(int(m.group(1), 16)), v)
    return rows, default


def generate(ctx, repo):
    out = ['#define REF(x) x']
    for n in ('safe', 'iso8859_1', 'unicode', 'cp1252'):
        rows, default = parse(os.path.join(repo, 'table', n + '.tbl'))
        assert rows
        body = []
        for k, v in sorted(rows.items()):
            b = v.encode('utf-8')
            assert len(b) <= 7
            body.append('if (key == 0x%xu) { known = 1; want = 0x%xul; }' % (k, int.from_bytes(b, 'big')))
        out.append('#define DEF_%s %s' % (n, '((char *) 0)' if default is None else '"%s"' % default.split()[0].strip('"')))
        out.append('#define MAX_%s %d' % (n, max(len(v.encode('utf-8')) for v in rows.values())))
        out.append('#define REF_%s %s' % (n, ' '.join(body)))
    open(os.path.join(ctx.tmp, 'builtin_ref.h'), 'w').write('\n'.join(out) + '\n')
