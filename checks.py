"""The jobs that decide each property; see run.Job and DESIGN.md."""
import run, gen_builtin, meta
from run import Job

CHECKS = {}


class Check:
    def __init__(self, id, jobs):
        p = [p for p in meta.PROPS if p['id'] == id][0]
        self.id, self._jobs = id, jobs
        self.title, self.explain = p['title'], p['explain'] + ' ' + p['note']
        self.assumptions = meta.BASE_ASSUME + p['assume']
        CHECKS[id] = self

    def jobs(self, tier):
        return self._jobs(tier != 'quick')


def check(id):
    return lambda f: Check(id, f) and f


def q(s):
    return '"%s"' % s


def gen_bt(ctx):
    gen_builtin.generate(ctx, run.REPO)


NOFS = ('--no-array-field-sensitivity',)


def fs(n):
    return ('--max-field-sensitivity-array-size', str(n))


# ---- files ----------------------------------------------------------------
def pf(prop):
    def jobs(T):
        l = [dict(LEN=5, NEWMAX=2), dict(LEN=4, NEWMAX=2), dict(LEN=3, NEWMAX=2)] if T else [dict(LEN=4, NEWMAX=2), dict(LEN=3, NEWMAX=2)]
        return [Job('file', 'pf', defs=dict(PROP=prop, VF_FS=None, FS_PATH=12, CAP=16), ladder=l, unwind=16, timeout=1800 if T else 240,
                    bounds='paths of up to LEN bytes, replacement of up to NEWMAX bytes per Q')]
    return jobs


for _p in (1, 2, 3, 4):
    Check('P0%d' % _p, pf(_p))


def tree(prop, name, names, ign, depth=3):
    d = dict(zip(('NA', 'NB', 'NC', 'ND'), map(q, names)))
    d.update(PROP=prop, IGN=q(ign), DEPTH=depth, VF_OUT_MAX=60 * depth, CAP=3 * depth + 4, VF_TRUNC_ALLOC=None)
    return Job(name, 'tree', defs=d, unwind=3 * depth + 4, lunwind=3 * depth + 4,
               hints={'parse_dir': depth, r'parse_dir\.\d+': 2, r'ignore_file\.\d+': 3, r'(vf_lstat|vf_readdir|vf_rename).*': depth + 1,
                      'clean_lower.*': 4, 'sequence_run_filters.*': 2, 'list.*': 3 * depth + 4},
               bounds='a chain of %d directories %s, ignore list {%s}' % (depth, '/'.join(names[:depth]), ign))


def longwalk(rl, el, dirs=0):
    n = rl + el + 8
    return Job('long%d-%d-%d' % (rl, el, dirs), 'longwalk', defs=dict(DIRS=dirs, RL=rl, EL=el, CAP=n + 4, VF_TRUNC_ALLOC=None, VF_OUT_HEAD=None, VF_OUT_MAX=4), unwind=n, hints={'parse_dir': 1, r'parse_dir\.\d+': 3, r'sequence_run_filters.*': 2},
               cbmc=fs(n + 8), solver='cadical', bounds='a directory path of RL bytes, an entry of EL bytes')


def pd(prop):
    def jobs(T):
        return [Job('flat', 'pd', defs=dict(PROP=prop, NAME=2, NEWMAX=1, ROOTN=2, CAP=8, VF_TRUNC_ALLOC=None), unwind=4, lunwind=6,
                    hints={'parse_dir': 1, r'parse_dir\.\d+': 3}, bounds='2 entries, names of up to 2 bytes, 2 ignore entries'),
                tree(prop, 'tree', ['Qa', 'Qb', 'Qc', 'Qd'], 'zz'),
                tree(prop, 'tree-hidden', ['.Qa', 'Qb', 'Qc', 'Qd'], 'Qe'),
                tree(prop, 'tree-hidden2', ['Qa', '.b', 'Qc', 'Qd'], 'Qe'),
                tree(prop, 'tree-ignored', ['Qa', 'Qb', '.Qc', 'Qd'], 'Qb'),
                tree(prop, 'tree-ignored3', ['Qa', 'b', 'Qc', 'Qd'], 'Qc')] + ([longwalk(1, 255), longwalk(300 if T else 100, 255), longwalk(2, 12, 1)] if prop == 6 else []) + \
            ([tree(prop, 'tree4', ['Qa', 'Qb', 'Qc', 'Qd'], 'zz', 4), tree(prop, 'tree4-hidden', ['Qa', 'Qb', '.c', 'Qd'], 'Qd', 4)] if T else [])
    return jobs


for _p in (5, 6):
    Check('P0%d' % _p, pd(_p))


# ---- filters --------------------------------------------------------------
@check('P12')
def _(T):
    return [Job('wipeup', 'wipeup', defs=dict(N=11 if T else 8), unwind=15 if T else 12, timeout=3000, bounds='names of up to N bytes')]


@check('P13')
def _(T):
    return [Job('uncgi', 'uncgi', defs=dict(N=11 if T else 8), unwind=15 if T else 12, timeout=3000, bounds='names of up to N bytes')]


@check('P17')
def _(T):
    return [Job('lower', 'lower', defs=dict(N=16 if T else 10), unwind=20 if T else 13, timeout=3000, bounds='names of up to N bytes')]


@check('P16')
def _(T):
    n = 12 if T else 10
    return [Job('maxlen', 'maxlen', defs=dict(N=n, CAP=n + 2, VF_TRUNC_ALLOC=None), unwind=n + 4, timeout=3000, bounds='names of up to N bytes, any 64-bit limit')]


def bytetab(c, n, **kw):
    return Job('custom', 'bytetab', defs=dict(CLEAN=c, N=n, CAP=2 * n + 2), unwind=2 * n + 3, solver='cadical', timeout=3000,
               bounds='names of up to N bytes, tables of 2 rows with translations of up to 2 bytes', **kw)


@check('P11')
def _(T):
    return [bytetab(1, 6 if T else 5, cbmc=NOFS)]


@check('P15')
def _(T):
    return [bytetab(2, 6 if T else 5)]


def utf8(n, name='any', **kw):
    out = n * kw['DATA'] if 'NONULL' in kw else n * 7 + 1
    d = dict(N=n, CAP=out + 1, VF_TRUNC_ALLOC=None, **kw)
    return Job(name, 'utf8', defs=d, unwind=8 if 'NONULL' in kw else 15, lunwind=15, solver='cadical', cbmc=NOFS, hints={r'main\.\d+': out + 2},
               timeout=3000, bounds='strings of up to N bytes, tables of ROWS rows with translations of up to DATA bytes')


@check('P14')
def _(T):
    return [utf8(5 if T else 4, 'any4', ROWS=1, DATA=2, NONULL=None), utf8(4 if T else 3, 'any3', ROWS=2, DATA=2, NONULL=None),
            utf8(7, 'single', ROWS=1, DATA=2, SINGLE=None, NONULL=None), utf8(5 if T else 3, 'null', ROWS=1, DATA=1, NULLS=None)]


def builtin(t):
    return Job('table-' + t, 'builtin', defs=dict(VF_ROWS_A=256, TABLE=q(t), TABLE_REF='REF_' + t, TABLE_DEF='DEF_' + t), gen=gen_bt, unwind=14, cbmc=fs(300),
               hints={r'(table_put|table_get|table_resize|table_free)\.\d+': 260}, bounds='every 32-bit key')


@check('P25')
def _(T):
    return [builtin(t) for t in ('safe', 'iso8859_1', 'unicode', 'cp1252')]


SUM = {'table_get': 'sum_get', 'filter_load_builtin_by_filename': 'sum_load'}


def seq(prop, name, n, out, ship=('safe',), tag='', **kw):
    d = dict(PROP=prop, SEQ=q(name), N=n, OUTN=out, CAP=out + 2, VF_TRUNC_ALLOC=None, OBJBITS=11, **kw)
    for t in ship:
        d['SHIP_' + t] = None
    return Job(name + tag, 'seq', defs=d, hints={r'(strdup|strlen|vf_streq|strcmp|sum_load|sum_get|sequence_choose_default)\.\d+': 24},
               unwind=max(7, out + 2), gen=gen_bt, solver='cadical', summary=SUM, timeout=3000,
               bounds='names of up to N bytes' + (' without &' if 'NOEXP' in kw else ''))


SHIP = {'utf_8': ('safe', 'unicode'), 'iso8859_1': ('safe', 'iso8859_1'), 'iso8859_1-legacy': ('safe', 'iso8859_1', 'cp1252')}


def seqs(prop, n, names):
    r = []
    for x in names:
        k = dict(LOWER=None) if x == 'lower' else {}
        r.append(seq(prop, x, n, n * 3 if x.startswith('iso') else n, SHIP.get(x, ('safe',)), NOEXP=None, **k))
    return r


@check('P21')
def _(T):
    return seqs(21, 5 if T else 4, ['default', 'uncgi', 'lower', 'utf_8']) + seqs(21, 4, ['iso8859_1'])


@check('P19')
def _(T):
    return seqs(19, 5 if T else 4, ['default', 'lower', 'utf_8'])


STUBS = ['clean_' + x for x in ('lower', 'uncgi', 'wipeup', 'max_length', 'safe', 'iso8859_1', 'utf_8')]


@check('P20')
def _(T):
    return [Job('compose', 'compose', defs=dict(N=2, K=4, CAP=3), unwind=6, solver='cadical', wrap=STUBS, bounds='K filters, intermediate results of up to N bytes')]


def safetab(name, n, out, **kw):
    return Job(name, 'safetab', defs=dict(N=n, OUTN=out, CAP=out + 2, VF_TRUNC_ALLOC=None, SHIP_safe=None, **kw), unwind=max(9, out + 2), gen=gen_bt,
               solver='cadical', summary=SUM, timeout=3000, bounds='names of up to N bytes')


@check('P10')
def _(T):
    return [safetab('any', 4 if T else 3, 20 if T else 15), safetab('noexp', 10 if T else 8, 10 if T else 8, NOEXP=None), builtin('safe')]


def safety(n, c, N, out, cap, uw=None, **kw):
    return Job(n, 'safety', defs=dict(CLEAN=c, N=N, OUTN=out, CAP=cap, VF_ALIGN_RIGHT=None, VF_CHECK_FREE=None, **kw), unwind=uw or cap + 2, solver='cadical',
               cbmc=NOFS, safe=True, hints={r'main\.\d+': max(out, N) + 2, r'clean_utf_8\.2': 16,
                                            r'clean_utf_8\.[013456789]|table_get.*|get_utf_8.*|cu_init.*|nd_str.*': uw and 5 or cap + 2},
               timeout=3000, bounds='names of up to N bytes')


@check('P18')
def _(T):
    return [safety('safe', 1, 3, 6, 24, ROWS=1, DATA=2), safety('iso8859_1', 2, 3, 6, 24, ROWS=1, DATA=2), safety('utf_8', 3, 3, 39, 41, uw=16, ROWS=1, DATA=2, OBJBITS=12),
            safety('uncgi', 4, 5, 5, 12), safety('wipeup', 5, 5, 5, 12), safety('max_length', 6, 5, 5, 12), safety('lower', 7, 5, 5, 12)]


# ---- tables ---------------------------------------------------------------
def tabmap(name, prop, rows, ops, data=2, **kw):
    return Job(name, 'tabmap', defs=dict(PROP=prop, ROWS=rows, OPS=ops, DATA=data, CAP=data + 1, VF_ROWS_A=rows, **kw), unwind=max(rows, ops, data) + 3, solver='cadical',
               timeout=3000, bounds='OPS stores in a table of ROWS rows, translations of up to DATA bytes')


@check('P22')
def _(T):
    return [tabmap('r3', 22, 3, 4), tabmap('r4', 22, 4, 5, 1), tabmap('r1', 22, 1, 3)] + ([tabmap('r5', 22, 5, 6, 1)] if T else [])


@check('P23')
def _(T):
    return [tabmap('grow', 23, 3, 3, 1, ROWS2=5, VF_ROWS_B=5), tabmap('same', 23, 3, 3, 1, ROWS2=3), tabmap('shrink', 23, 4, 2, 1, ROWS2=2, VF_ROWS_B=2)]


def tabfile(n, tpl, var=0, **kw):
    if 'PAD' in kw:
        p = kw['PAD']
        return Job('%s%d' % (n, p), 'tabfile', defs=dict(TPL=tpl, VAR=var, CAP=64 + p, VF_SHAPE=100 + p, VF_TRUNC_ALLOC=None, VF_SSCANF=None, VF_LOCALE_HOOK=None, **kw),
                   unwind=p + 24, hints={r'parse_table\.\d+': 12, r'expect_row\.\d+': 7, r'put\.\d+': 30}, wrap=('table_init', 'table_put', 'table_free'), timeout=600,
                   solver='cadical', cbmc=fs(164 + p), bounds='lines padded by PAD / 2 blanks, in harness/tabfile.c')
    return Job('%s%d' % (n, var), 'tabfile', defs=dict(TPL=tpl, VAR=var, CAP=64, VF_SHAPE=100, VF_TRUNC_ALLOC=None, VF_SSCANF=None, VF_LOCALE_HOOK=None, **kw),
               unwind=24, hints={r'parse_table\.\d+': 12, r'put\.\d+': 60, r'expect_row\.\d+': 7}, wrap=('table_init', 'table_put', 'table_free'),
               solver='cadical', cbmc=fs(128), bounds='layout %d, variant %d in harness/tabfile.c' % (tpl, var))


@check('P24')
def _(T):
    return [tabfile('hex', 1), tabfile('dquotes', 2), tabfile('quotes', 2, Q="'\\''")] + [tabfile('default', 3, i) for i in range(5)] + \
        [tabfile('qdefault', 3, 4, Q="'\\''")] + [tabfile('lang', 4, i) for i in range(3)] + [tabfile('faults', 5, i) for i in range(3)] + \
        [tabfile('noise', 6, i) for i in range(5)] + [tabfile('size', 7), tabfile('long', 8, PAD=1600 if T else 400)]


# ---- inline ---------------------------------------------------------------
def lines(name, ll, nl, filed, fail):
    n = sum(ll) + len(ll)
    return Job(name, 'inline', defs=dict(PROP=27, N=n, LINES=','.join(map(str, ll)), NL=nl, FILED=filed, FAIL=fail, CAP=n + 8, VF_TRUNC_ALLOC=None,
               VF_OUT_MAX=3 * n + 8, VF_SHAPE=n + 8), unwind=n + 4, lunwind=4 * n + 8, solver='cadical', wrap=('sequence_run_filters',),
               bounds='lines of %s bytes' % (ll,))


@check('P27')
def _(T):
    return [lines('l1', (2, 0, 2), 1, 0, 0), lines('l2', (1, 3), 0, 1, 0), lines('l3', (2, 1), 1, 0, 1)] + \
        ([lines('l4', (4, 1, 2, 1), 1, 1, 1), lines('l5', (6,), 0, 0, 1)] if T else [])


def inl(n, chunk, **kw):
    return Job('chunks%d-%d' % (chunk, n), 'inline', defs=dict(PROP=28, N=n, CAP=chunk + 16, VF_ALIGN_RIGHT=None, VF_CHECK_FREE=None),
               rdefs=('-DVF_INLINE_BUF_SIZE=(INLINE_BUF_PADDING+%d)' % chunk,), unwind=n + 2, lunwind=n + 2, solver='cadical',
               wrap=('sequence_run_filters',), cbmc=NOFS, safe=True, timeout=3000, bounds='inputs of up to N bytes, a buffer for %d' % (chunk - 1), **kw)


@check('P28')
def _(T):
    return [inl(9, 6), inl(8, 3)] if T else [inl(8, 6), inl(7, 3)]


# ---- configuration --------------------------------------------------------
@check('P29')
def _(T):
    return [Job('choose', 'choose', defs=dict(K=4, CAP=12), unwind=12, solver='cadical', bounds='up to K sequences')]


def cfload(n, h=0, x=0, **kw):
    big = 2 in (h, x)
    return Job('%s%d%d' % (n, h, x), 'cfload', defs=dict(CAP=260, HOMEK=h, XDGK=x, VF_GETENV_HOOK=None, VF_TRUNC_ALLOC=None, **kw), unwind=30,
               hints={r'(vf_vfmt.*|snprintf|main|strlen)\.\d+': 290 if big else 30}, solver='cadical', wrap=('parse_config_file', 'spoof_config_file'), cbmc=fs(300),
               bounds='HOME/XDG_CONFIG_HOME: 0 unset, 1 up to 3 bytes, 2 too long: %d %d' % (h, x))


@check('P30')
def _(T):
    return [cfload('search', h, x) for h, x in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2))] + [cfload('dashf', 1, 1, DASHF=None)]


BT = tuple('load_builtin_%s_table' % x for x in ('safe', 'iso8859_1', 'unicode', 'cp1252'))


def tabload(n, **kw):
    return Job(n, 'tabload', defs=dict(CAP=260, **kw), unwind=50, solver='cadical', wrap=BT + ('parse_table',), cbmc=fs(300), bounds='names of up to 4 bytes or known ones')


@check('P32')
def _(T):
    return [tabload('filter'), tabload('sequence', SEQ2=None)]


@check('P34')
def _(T):
    return [Job('n%d' % n, 'flist', defs=dict(K=n, COUNT=n, CAP=4, VF_PTRS=16), unwind=n + 3, solver='cadical', timeout=3000, bounds='K names of one byte')
            for n in ((3, 16, 17, 33, 49) if T else (3, 16, 17))]


MAINSTUBS = ('parse_options_getopt', 'config_file_load', 'sequence_choose_default', 'dump_config_file', 'sequence_review', 'parse_file', 'parse_dir', 'parse_inline')


def mainp(n, k, inline, **kw):
    return Job(n, 'mainp', defs=dict(K=k, INLINE=inline, CAP=4, VF_PTRS=16, VF_OUT_MAX=80, **kw), unwind=2 * k + 6, lunwind=24, solver='cadical', wrap=MAINSTUBS,
               bounds='%d paths' % k)


@check('P07')
def _(T):
    return [mainp('files', 3 if T else 2, 0), mainp('inline', 2, 1), mainp('stdin', 0, 1), mainp('none', 1, 0, EXITS=None), mainp('inline-none', 1, 1, EXITS=None)]


def options(form, free=2, larg='', tag='', argv0='detox', bin=0, **kw):
    n = sum({'l': 1, 'o': 0}.get(c, free - 1) for c in form) + 2
    if 'l' not in form:
        kw['VF_NOLONG'] = None
    return Job('%s%s%s' % (form, larg, tag), 'options', defs=dict(FORM=q(form), FREE=free, LARG=q(larg), ARGV0=q(argv0), INLINEBIN=bin, VF_OPT=None, VF_GETENV_HOOK=None, CAP=14, VF_PTRS=16,
               VF_OUT_HEAD=None, VF_OUT_MAX=8, **kw), unwind=14, hints={r'(strlen|strchr|strcmp|vf_streq|vf_basename)\.\d+': 16, r'parse_options_getopt\.0': n}, solver='cadical', timeout=1500,
               bounds='arguments %s (f: up to %d free bytes, l: %s)' % (form, free, larg))


LONGS = ['--dry-run', '--help', '--verbose', '--inline', '--recursive', '--special', '--rec', '--s', '--h', '--bogus', '--inlinex', '--inline=x']


@check('P33')
def _(T):
    return [options('f', 3), options('ff', 2), options('fo', 3), options('ffo', 2)] + [options('l', 1, x) for x in LONGS] + \
        [options('lf', 2 if T else 1, '--recursive'), options('fl', 2 if T else 1, '--inline'), options('fl', 2 if T else 1, '--dry-run'), options('f', 2, tag='-inline', argv0='/b/inline-detox', bin=1)]


def grammar(n, f1, f2=None, strn=1, wrong=0):
    nf = 1 if f2 is None else 2
    toks = max(len(f1), len(f2 or ''))
    esc = lambda x: q(x.replace('"', '\\"'))
    return Job(n, 'grammar', defs=dict(FILE1=esc(f1), FILE2=esc(f2 or ''), NFILES=nf, STRN=strn, WRONG=wrong, CAP=8, VF_PTRS=16, VF_OUT_HEAD=None, VF_OUT_MAX=4),
               unwind=24, hints={r'yyparse\.\d+': 4 * toks + 10, r'reference\.\d+': toks + 2, r'memset\.\d+': 200}, solver='cadical', wrap=('yylex',), cbmc=fs(300), timeout=600,
               bounds='token skeleton %s %s' % (f1, f2 or ''))


FORMS = ['u', 'l', 'w', 'w{}', 'w{r;}', 'm', 'm{}', 'm{L0;}'] + [c + x for c in 'itf' for x in ('', '{}', '{n$;}', '{b";}')]
BAD = ['s${};', 's{u;};', 'u;', 's${u};', 's${u;}', 's${u;};}', 'g{};', 'g{$;};', 's${m{L$;};};', 's${w{L0;};};', 's${i{n;};};', 's$u;};', 's${s${u;};};', 's${u{};};', 's${m{L0};};', 's0{u;};', 's${w{r;}};', 'g${n$;};',
       's${f{n$;b$;};};', 's${', 's${;};']


@check('P31')
def _(T):
    n = 2 if T else 1
    return [grammar('forms1', 's${%s};' % ''.join(f + ';' for f in FORMS[:10]), None, 2), grammar('forms2', 's"{%s};' % ''.join(f + ';' for f in FORMS[10:]), None, 2),
            grammar('same', 's${u;};s"{l;w;};s${m{L0;};};', None, n), grammar('three', 's${u;};s"{l;};s${w;};s${f;t;};', None, n),
            grammar('files', 's${u;};s"{l;};g{n$;n";};', 's${f;};g{n$;};s"{w;};', n), grammar('files2', 'g{n$;};', 's${f;};', n), grammar('files3', 's${u;};', 's"{i;};g{n$;};', n),
            grammar('empty', '', None), grammar('empty2', 's${u;};', '')] + \
        [grammar('bad%d' % i, b, None, 1, 1) for i, b in enumerate(BAD)]


def oom(n, part, allocs, unwind=24, hints=None, wrap=(), cap=8, fsn=300, **kw):
    return Job(n, 'oom', defs=dict(PART=part, ALLOCS=allocs, CAP=cap, VF_OOM=None, VF_OUT_HEAD=None, VF_OUT_MAX=8, **kw), rdefs=('-DVF_OOM',), unwind=unwind, hints=hints or {},
               solver='cadical', wrap=wrap, cbmc=fs(fsn), timeout=300, bounds='one failing allocation of up to ALLOCS')


@check('P35')
def _(T):
    f = lambda n, e, **kw: oom('filter-' + n, 4, 3, FILTER=e, cap=3 * 2 + 2, fsn=4, unwind=10, VF_TRUNC_ALLOC=None, **kw)
    return [oom('file', 1, 8, unwind=10, N=4 if T else 3, cap=12, VF_TRUNC_ALLOC=None), oom('dir', 2, 10, unwind=10, cap=16, VF_TRUNC_ALLOC=None), oom('inline', 3, 12, unwind=12, cap=16, VF_TRUNC_ALLOC=None)] + \
        [f('safe', 'clean_safe(name,&sf_table)'), f('iso', 'clean_iso8859_1(name,&sf_table)'), f('utf_8', 'clean_utf_8(name,&sf_table)'), f('uncgi', 'clean_uncgi(name)'),
         f('wipeup', 'clean_wipeup(name,nd_bool())'), f('max', 'clean_max_length(name,nd_range(0,5))'), f('lower', 'clean_lower(name)')] + \
        [oom('table', 5, 10, VF_ROWS_A=2, VF_ROWS_B=3), oom('list', 6, 24, unwind=20), oom('spoof', 7, 120, unwind=130, cap=24), oom('config', 8, 60, unwind=60, wrap=('yylex',)),
         oom('options', 9, 12, VF_OPT=None), oom('search', 10, 4, unwind=40, cap=260, EXPLICIT=0, wrap=('parse_config_file', 'spoof_config_file')),
         oom('search-f', 10, 4, unwind=40, cap=260, EXPLICIT=1, wrap=('parse_config_file', 'spoof_config_file')), *[oom('tablefile%d' % i, 11, 6, FAILAT=i, unwind=40, cap=64, fsn=128, wrap=('table_init', 'table_put', 'table_free'), VF_SSCANF=None, VF_SHAPE=100, VF_TRUNC_ALLOC=None) for i in (1, 2, 3, 4)],
         oom('builtin', 12, 100, unwind=60, VF_ROWS_A=256)]


KEYWORDS = ['builtin', 'filename', 'ignore', 'iso8859_1', 'length', 'lower', 'max_length', 'remove_trailing', 'safe', 'sequence', 'uncgi', 'utf_8', 'wipeup']


def lexer(n, pre, k, post='\n;;', calls=1, toks=2, more={}, read=0):
    L = len(pre) + k + len(post)
    c = lambda x: q(x.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n'))
    d = {'PRE': c(pre), 'K': k, 'POST': c(post), 'CALLS': calls, 'FREE(c)': '(void)0', 'DIGITS': len(pre) + k + 1, 'CAP': L + 8, 'VF_FLEX': None, 'VF_OUT_HEAD': None, 'VF_OUT_MAX': 4}
    d.update(more)
    h = {r'realloc.*|strcpy.*|yyrestart.*': 1, r'yylex\.\d+': 1, r'yylex\.0': 5, r'yylex\.1': L, r'yylex\.8': toks, r'vf_vfmt.*': 1}
    if read:
        d['READ'] = None
        h[r'.*idx\.\d+'] = 8
    return Job(n, 'lexer', defs=d, unwind=L + 4, hints=h, solver='cadical', cbmc=fs(L + 64 if read else 64), timeout=800,
               rdefs=('-Dstrdup=vf_lex_strdup', '-Datoi=vf_lex_atoi', '-Dprintf=vf_lex_printf', '-DECHO=((void)0)') + (('-DYY_BUF_SIZE=%d' % (L + 6), '-DYY_READ_BUF_SIZE=%d' % (L + 6)) if read else ()),
               summary={} if read else {'yy_get_next_buffer': 'vf_no_refill', 'yy_get_previous_state': 'vf_no_refill', 'yy_fatal_error': 'vf_no_fatal', 'yy_try_NUL_trans': 'vf_no_nul'},
               bounds='%s, then K free bytes, then %s; the first CALLS words' % (d['PRE'], d['POST']))


@check('P39')
def _(T):
    n = 3 if T else 2
    return [lexer('word-' + w, w[:-1], n, toks=n - 1) for w in KEYWORDS] + [lexer('case-' + w, w, 0, toks=1, more={'ANYCASE': None}) for w in KEYWORDS] + \
        [lexer('any', '', n, toks=n + 2), lexer('two', '{', n, calls=3, toks=n + 2), lexer('string', '"', 8 if T else 5, toks=1), lexer('string2', 'safe"', n - 1, calls=3, toks=2), lexer('name', 'a', 5 if T else 3, toks=1),
         lexer('number', '0', 4 if T else 3, toks=2), lexer('number8', '1234567', 2, toks=2), lexer('comment', ';#', n, calls=2, toks=6), lexer('blank', '\n \t', n - 1, toks=6),
         lexer('whole', 'sequence "a b" {\n\tSafe{filename "/t"; }; # c }\nMAX_length { length 032; };\n};# end', 0, '', calls=19, toks=9, read=1)]
