#!/usr/bin/env python3
"""
Driver: decides one property (see checks.py) by bounded symbolic execution of
/repo's current C sources with CBMC, replays every counterexample against the
same sources compiled with gcc + AddressSanitizer, and writes the evidence.

  run.py ID [--tier quick|thorough] [--job NAME] [--keep] [-v]

exit 0: held within the bounds; exit 1 + VIOLATION line: broken (reproduced);
exit 2: no answer (model limit, time-out, counterexample that doesn't replay).
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
LIB = os.path.join(VERIF, 'lib')
HARN = os.path.join(VERIF, 'harness')
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

TOOLS = {'check_table.c', 'escape_utf_8.c', 'generate_builtin_table.c'}
YACC_SHA = '1a6a8cb9815ec2bc3114a3b4fd2e42c097fe54a3d3e658ae091b3ff152f39823'
LEX_SHA = '29040c7332d82598d35ad4dcc558916e79f52df505c815e976d2e911077a39df'
CFLAGS = ['-D__NO_CTYPE', '-DDATADIR="/usr/local/share"', '-DSYSCONFDIR="/usr/local/etc"',
          '-DYY_NO_INPUT', '-DYY_NO_UNPUT']
MEMCAP_KB = 8 * 1024 * 1024

verbose = False


def log(*a):
    if verbose:
        print(*a, file=sys.stderr, flush=True)


def run(cmd, timeout=None, env=None, cwd=None, mem=None, stdin=None):
    """run a command in its own process group; returns (rc, stdout, stderr), rc None on time-out"""
    pre = (lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_AS, (mem * 1024, mem * 1024))) if mem else None
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                         env=env, cwd=cwd, start_new_session=True, preexec_fn=pre)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')


class NoAnswer(Exception):
    pass


class Job:
    """One symbolic execution.

    harness  file in harness/ (without .c)
    defs     {macro: value} for the harness and the models
    rdefs    [flag] extra flags for the repository's sources
    wrap     functions replaced by the harness' __wrap_ functions, in the
             symbolic execution and in the native replay (stubs)
    summary  {function: harness function} replaced in the symbolic execution
             only; a lemma job of the same check shows they are equal
    ladder   list of overrides of defs, largest bound first; a rung that runs
             out of its time falls back to the next
    unwind   default loop bound (expression over defs allowed as str)
    hints    {regex on loop id: bound}; only speeds up, bounds grow on demand
    safe     also decide all of CBMC's memory-safety checks
    """

    def __init__(self, name, harness, defs=None, rdefs=(), ladder=None, unwind=12, hints=None, safe=False,
                 timeout=240, lunwind=None, solver=None, maxunwind=5000, gen=None, cbmc=(), tools=(), hang=10, note='',
                 bounds='', wrap=(), summary=None):
        self.__dict__.update(locals())
        self.defs = dict(defs or {})
        self.ladder = ladder or [{}]
        self.hints = hints or {}


class Context:
    def __init__(self, tmp):
        self.tmp = tmp
        self.lock = threading.Lock()
        self.cache = {}
        self.src = os.path.join(tmp, 'src')
        shutil.copytree(SRC, self.src)
        self._grammar()
        self.names = sorted(f for f in os.listdir(self.src) if f.endswith('.c'))
        self.core = [f for f in self.names if f not in TOOLS]

    def _grammar(self):
        def sha(f):
            return hashlib.sha256(open(os.path.join(self.src, f), 'rb').read()).hexdigest()
        if sha('config_file_yacc.y') != YACC_SHA:
            rc, o, e = run(['bison', '-y', '-d', '-o', 'config_file_yacc.c', 'config_file_yacc.y'], cwd=self.src, timeout=60)
            if rc != 0:
                raise NoAnswer('bison failed: ' + e)
        if sha('config_file_lex.l') != LEX_SHA:
            rc, o, e = run(['flex', '-i', '-o', 'config_file_lex.c', 'config_file_lex.l'], cwd=self.src, timeout=60)
            if rc != 0:
                raise NoAnswer('flex failed: ' + e)

    def once(self, key, fn):
        with self.lock:
            if key not in self.cache:
                self.cache[key] = cf.Future()
                mine = True
            else:
                mine = False
            fut = self.cache[key]
        if mine:
            try:
                fut.set_result(fn())
            except BaseException as e:
                fut.set_exception(e)
        return fut.result()

    def compile(self, kind, path, flags, redirect):
        """kind: 'goto' or 'native'"""
        key = (kind, path, tuple(flags), redirect)

        def fn():
            h = hashlib.sha1(repr(key).encode()).hexdigest()[:12]
            out = os.path.join(self.tmp, 'obj', '%s.%s.%s' % (os.path.basename(path), h, 'gb' if kind == 'goto' else 'o'))
            os.makedirs(os.path.dirname(out), exist_ok=True)
            if kind == 'goto':
                cmd = ['goto-cc', '-DVF_CBMC', '-w']
            else:
                cmd = ['gcc', '-g', '-O1', '-fno-omit-frame-pointer', '-w', '-fsanitize=address', '-std=gnu17',
                       '-fno-builtin']
            cmd += ['-I', LIB, '-I', self.src] + list(flags)
            if redirect:
                cmd += ['-include', os.path.join(LIB, 'vf_redirect.h')]
            cmd += ['-c', path, '-o', out]
            rc, o, e = run(cmd, timeout=120)
            if rc != 0:
                raise NoAnswer('compiling %s failed:\n%s%s' % (path, o, e))
            return out
        return self.once(key, fn)


def dflags(d):
    return ['-D%s' % k if v is None else '-D%s=%s' % (k, v) for k, v in sorted(d.items())]


def build(ctx, job, defs, kind):
    """link a harness with the repository's sources; returns the binary's path"""
    objs = []
    rfl = CFLAGS + list(job.rdefs)
    for f in ctx.core + list(job.tools):
        fl = rfl
        if f == 'detox.c':
            fl = rfl + ['-Dmain=detox_main']
        elif f in TOOLS:
            fl = rfl + ['-Dmain=%s_main' % f[:-2]]
        objs.append(ctx.compile(kind, os.path.join(ctx.src, f), fl, True))
    hfl = CFLAGS + dflags(defs) + ['-I', ctx.tmp]
    mods = ['vf_common.c', 'vf_io.c', 'vf_fs.c', 'vf_opt.c']
    mods.append('cbmc_libc.c' if kind == 'goto' else 'vf_native.c')
    mfl = CFLAGS + dflags(defs)
    if kind == 'native':
        mfl = mfl + ['-UVF_OUT_MAX', '-DVF_OUT_MAX=100000']
        hfl = hfl + ['-UVF_OUT_MAX', '-DVF_OUT_MAX=100000']
    for m in mods:
        objs.append(ctx.compile(kind, os.path.join(LIB, m), mfl, False))
    objs.append(ctx.compile(kind, os.path.join(HARN, job.harness + '.c'), hfl, False))
    h = hashlib.sha1(repr((job.name, kind, sorted(defs.items()))).encode()).hexdigest()[:10]
    out = os.path.join(ctx.tmp, 'bin-%s-%s' % (re.sub(r'\W', '_', job.name), h))
    if kind == 'goto':
        rc, o, e = run(['goto-cc'] + objs + ['-o', out + '.gb'], timeout=120)
        if rc != 0:
            raise NoAnswer('goto-cc link failed: ' + o + e)
        rep = ['%s:__wrap_%s' % (f, f) for f in job.wrap] + ['%s:%s' % kv for kv in (job.summary or {}).items()]
        if rep:
            rc, o, e = run(['goto-instrument'] + sum((['--replace-calls', r] for r in rep), []) + [out + '.gb', out + '.r.gb'], timeout=120)
            if rc != 0:
                raise NoAnswer('goto-instrument failed: ' + o + e)
            os.replace(out + '.r.gb', out + '.gb')
        rc, o, e = run(['goto-instrument', '--drop-unused-functions', '--slice-global-inits', out + '.gb', out + '.s.gb'], timeout=120)
        if rc != 0:
            raise NoAnswer('goto-instrument failed: ' + o + e)
        return out + '.s.gb'
    rc, o, e = run(['gcc', '-fsanitize=address', '-g'] + ['-Wl,--wrap=' + f for f in job.wrap] + objs + ['-o', out + '.exe', '-lm'], timeout=120)
    if rc != 0:
        raise NoAnswer('native link failed: ' + o + e)
    return out + '.exe'


def show_loops(gb):
    rc, o, e = run(['cbmc', '--show-loops', gb], timeout=120)
    return re.findall(r'^Loop ([^\s:]+):', o, re.M)


def list_functions(gb):
    rc, o, e = run(['goto-instrument', '--list-symbols', gb], timeout=120)
    return o


def repo_functions(gb, ctx):
    """functions of the repository's sources that are part of the encoded program"""
    rc, o, e = run(['cbmc', '--show-loops', gb], timeout=60)
    rc, o, e = run(['goto-instrument', '--show-properties', gb], timeout=60)
    return o


def dec(v):
    b = v.get('binary')
    if b is None:
        d = str(v.get('data', '0'))
        return 1 if d == 'TRUE' else 0 if d == 'FALSE' else int(re.sub(r'[a-zA-Z].*$', '', d) or 0)
    n = int(b, 2)
    t = v.get('type', '')
    if len(b) > 1 and b[0] == '1' and not ('unsigned' in t or 'size_t' in t or 'bool' in t.lower()):
        n -= 1 << len(b)
    return n


def trace_inputs(trace):
    return [dec(s['values'][0]) for s in trace if s.get('stepType') == 'input' and s.get('values')]


def native(ctx, job, defs, inputs, outdir=None, timeout=20):
    """replay an assignment natively; returns (verdict, text)
    verdict: 'fail' (assertion/sanitizer/crash), 'ok', 'assume', 'hang', 'model'"""
    exe = build(ctx, job, defs, 'native')
    fd, fn = tempfile.mkstemp(dir=ctx.tmp)
    os.write(fd, ('\n'.join(str(i) for i in inputs) + '\n').encode())
    os.close(fd)
    last = ('ok', '')
    for fill in ('190', '1', '0'):
        env = {'VF_INPUTS': fn, 'PATH': '/usr/bin:/bin', 'LC_ALL': 'C',
               'ASAN_OPTIONS': 'detect_leaks=0:exitcode=98:max_malloc_fill_size=100000000:malloc_fill_byte=%s:'
                               'detect_stack_use_after_return=0:allocator_may_return_null=1' % fill}
        rc, o, e = run([exe], timeout=timeout, env=env, cwd=ctx.tmp)
        if rc is None:
            last = ('hang', 'no end after %d s' % timeout)
        elif rc == 77:
            last = ('assume', e[-500:])
        elif rc == 78:
            last = ('model', e[-500:])
        elif rc == 0:
            last = ('ok', e[-500:])
        else:
            return 'fail', 'exit status %s\n%s' % (rc, e[:3000])
    return last


def cbmc(gb, job, unwind, uset, timeout):
    cmd = ['cbmc', gb, '--json-ui', '--verbosity', '8', '--trace', '--unwinding-assertions', '--no-standard-checks',
           '--drop-unused-functions', '--unwind', str(unwind), '--object-bits', str(job.defs.get('OBJBITS', 10))]
    if job.safe:
        cmd += ['--bounds-check', '--pointer-check', '--undefined-shift-check', '--div-by-zero-check']
    if uset:
        cmd += ['--unwindset', ','.join('%s:%d' % kv for kv in sorted(uset.items()))]
    if job.solver:
        cmd += ['--sat-solver', job.solver]
    cmd += list(job.cbmc)
    t = time.time()
    rc, o, e = run(cmd, timeout=timeout, mem=MEMCAP_KB)
    dt = time.time() - t
    if rc is None:
        return None
    try:
        msgs = json.loads(o)
    except ValueError:
        raise NoAnswer('cbmc gave no result (rc %s): %s %s' % (rc, o[-800:], e[-800:]))
    res = None
    st = {'solver_s': 0.0, 'queries': 0, 'steps': 0, 'vars': 0, 'clauses': 0, 'wall_s': dt, 'cmd': ' '.join(cmd)}
    err = ''
    for m in msgs:
        if 'result' in m:
            res = m['result']
        t = m.get('messageText', '')
        if m.get('messageType') == 'ERROR':
            err += t + '\n'
        x = re.match(r'Runtime Solver: ([\d.e+-]+)s', t)
        if x:
            st['solver_s'] += float(x.group(1))
            st['queries'] += 1
        x = re.match(r'size of program expression: (\d+) steps', t)
        if x:
            st['steps'] = int(x.group(1))
        x = re.match(r'(\d+) variables, (\d+) clauses', t)
        if x:
            st['vars'] = max(st['vars'], int(x.group(1)))
            st['clauses'] = max(st['clauses'], int(x.group(2)))
    if res is None:
        raise NoAnswer('cbmc gave no result (rc %s): %s %s' % (rc, err, e[-800:]))
    return res, st


def ev(expr, defs):
    if isinstance(expr, int):
        return expr
    return int(eval(expr, {}, {k: int(v) for k, v in defs.items() if re.fullmatch(r'-?\d+', str(v))}))


def run_job(ctx, job, deadline):
    notes = []
    for i, rung in enumerate(job.ladder):
        defs = dict(job.defs)
        defs.update(rung)
        left = deadline - time.time()
        if left < 5:
            raise NoAnswer('%s: out of time' % job.name)
        tmo = min(job.timeout, left)
        r = run_rung(ctx, job, defs, tmo)
        if r is not None:
            r['notes'] = notes
            return r
        notes.append('rung %s did not finish in %d s' % (rung or defs, tmo))
        log(job.name, notes[-1])
    raise NoAnswer('%s: %s' % (job.name, '; '.join(notes)))


def run_rung(ctx, job, defs, tmo):
    t0 = time.time()
    if job.gen:
        ctx.once(('gen', job.gen), lambda: job.gen(ctx))
    gb = build(ctx, job, defs, 'goto')
    base = ev(job.unwind, defs)
    rnames = repo_function_names(ctx)
    loops = show_loops(gb)
    uset = {}
    if job.lunwind is not None:
        # loops of the models and the harness; `unwind` is for the repository's own loops
        for l in loops:
            if l.rsplit('.', 1)[0] not in rnames or l.startswith('main.'):
                uset[l] = ev(job.lunwind, defs)
    loops += list(rnames)
    for pat, b in job.hints.items():
        for l in loops:
            if re.fullmatch(pat, l):
                uset[l] = ev(b, defs)
    total = {'solver_s': 0.0, 'queries': 0}
    rounds = 0
    while True:
        rounds += 1
        left = tmo - (time.time() - t0)
        if left <= 0:
            return None
        r = cbmc(gb, job, base, uset, left)
        if r is None:
            return None
        res, st = r
        total['solver_s'] += st['solver_s']
        total['queries'] += st['queries']
        failed = [p for p in res if p['status'] != 'SUCCESS']
        unw = [p for p in failed if '.unwind.' in p['property'] or '.recursion' in p['property']]
        real = [p for p in failed if p not in unw and p.get('description') != 'VF_REACH'
                and not p.get('description', '').startswith('VFMODEL') and 'no-body' not in p['property']]
        nobody = [p for p in failed if 'no-body' in p['property']]
        model = [p for p in failed if p.get('description', '').startswith('VFMODEL')]
        reach = [p for p in res if p.get('description') == 'VF_REACH']
        log(job.name, 'round', rounds, 'failed', [(p['property'], p.get('description')) for p in failed], 'steps', st['steps'],
            'clauses', st['clauses'], 'solver %.1f wall %.1f' % (st['solver_s'], st['wall_s']))
        viol = None
        unconf = []
        for p in sorted(real, key=lambda p: not p.get('description', '').startswith('VF ')) + model + unw:
            inputs = trace_inputs(p.get('trace', []))
            if p in unw and p['property'] not in [q['property'] for q in unw[:2]]:
                continue
            v, text = native(ctx, job, defs, inputs, timeout=job.hang)
            log('   replay', p['property'], p.get('description'), v, inputs[:40], text[:2000] if v == 'fail' else '')
            if v == 'fail' or (v == 'hang' and p in unw):
                viol = {'job': job.name, 'defs': defs, 'property': p['property'], 'description': p.get('description'),
                        'location': p.get('sourceLocation', {}), 'inputs': inputs, 'verdict': v, 'text': text}
                break
            unconf.append('%s (%s): replay says %s' % (p['property'], p.get('description'), v))
        if viol:
            return dict(ok=False, violation=viol, stats=st, total=total, res=res, defs=defs, uset=uset, base=base)
        if nobody:
            raise NoAnswer('%s: no model for %s' % (job.name, ', '.join(p.get('description', '') for p in nobody)))
        if unw:
            grown = False
            for p in unw:
                m = re.match(r'(.*)\.unwind\.(\d+)$', p['property'])
                if not m:
                    continue
                # a static function that occurs twice is reported under its plain name
                same = [l for l in loops if l.endswith('.' + m.group(2)) and l.split('.')[0].split('$')[0] == m.group(1).split('$')[0]]
                for l in same or ['%s.%s' % (m.group(1), m.group(2))]:
                    cur = uset.get(l, base)
                    if cur < job.maxunwind:
                        uset[l] = min(job.maxunwind, cur * 2 + 2 if cur > 2 else cur + 1)
                        grown = True
            for p in unw:
                m = re.match(r'(.*)\.recursion$', p['property'])
                if m and uset.get(m.group(1), base) < 200:
                    uset[m.group(1)] = uset.get(m.group(1), base) * 2
                    grown = True
            if not grown:
                raise NoAnswer('%s: loop bound not reached: %s' % (job.name, [p['property'] for p in unw]))
            continue
        if real:
            raise NoAnswer('%s: counterexample does not replay: %s' % (job.name, '; '.join(unconf)))
        if model:
            raise NoAnswer('%s: model limit: %s' % (job.name, '; '.join(unconf)))
        break
    if not reach or all(p['status'] == 'SUCCESS' for p in reach):
        raise NoAnswer('%s: vacuous (end of the harness is not reachable)' % job.name)
    # push one witness of every reachability marker through the real code, natively
    validated = 0
    samples = []
    for p in reach:
        if p['status'] == 'SUCCESS':
            continue
        inputs = trace_inputs(p.get('trace', []))
        v, text = native(ctx, job, defs, inputs, timeout=job.hang)
        samples.append({'job': job.name, 'witness_inputs': inputs[:64], 'native': v})
        if v == 'ok':
            validated += 1
        elif v == 'fail':
            viol = {'job': job.name, 'defs': defs, 'property': 'witness', 'location': {},
                    'description': 'a passing path fails natively', 'inputs': inputs, 'verdict': v, 'text': text}
            return dict(ok=False, violation=viol, stats=st, total=total, res=res, defs=defs, uset=uset, base=base)
        else:
            raise NoAnswer('%s: witness does not replay natively: %s %s' % (job.name, v, text))
    rc, o, e = run(['goto-instrument', '--reachable-call-graph', gb], timeout=60)
    funcs = set(re.findall(r'[\w$]+', o))
    return dict(ok=True, stats=st, total=total, res=res, defs=defs, uset=uset, base=base, validated=validated,
                samples=samples, funcs=funcs, wall=time.time() - t0)


def repo_function_names(ctx):
    names = {}
    for f in ctx.names:
        try:
            txt = open(os.path.join(ctx.src, f), errors='replace').read()
        except OSError:
            continue
        for m in re.finditer(r'^[A-Za-z_][\w\s\*]*?\b(\w+)\s*\([^;{]*\)\s*\n?\{', txt, re.M):
            names.setdefault(m.group(1), f)
    return names


def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            if l.startswith('finding: property=%s ' % pid):
                out.append(l[len('finding: '):].strip())
    except OSError:
        pass
    return out


def main():
    global verbose
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--job')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    verbose = a.v
    import checks
    chk = checks.CHECKS[a.id]
    t0 = time.time()
    budget = 780 if a.tier == 'quick' else 6 * 3600
    jobs = chk.jobs(a.tier)
    if a.job:
        jobs = [j for j in jobs if re.search(a.job, j.name)]
    tmp = tempfile.mkdtemp(prefix='vf-%s-' % a.id)
    rc = 0
    try:
        ctx = Context(tmp)
        results, errors = {}, {}
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            futs = {ex.submit(run_job, ctx, j, t0 + budget): j for j in jobs}
            for f in cf.as_completed(futs):
                j = futs[f]
                try:
                    results[j.name] = f.result()
                    log('== %s ok=%s %.1fs' % (j.name, results[j.name]['ok'], time.time() - t0))
                except NoAnswer as e:
                    errors[j.name] = str(e)
                    log('== %s NO ANSWER %s' % (j.name, e))
        viols = [(j, results[j.name]['violation']) for j in jobs if j.name in results and not results[j.name]['ok']]
        write_evidence(a, chk, ctx, jobs, results, errors, viols, time.time() - t0)
        for k in known_findings(a.id):
            print('KNOWN-FINDING: ' + k)
        if viols:
            for j, v in viols:
                path = save_replay(a.id, ctx, j, v)
                print('job %s: %s %s' % (j.name, v['description'], v['location'].get('function', '')))
                print('  ' + v['text'].strip().replace('\n', '\n  ')[:1500])
                print('VIOLATION property=%s replay=%s' % (a.id, path), flush=True)
            rc = 1
        elif errors:
            for n, e in errors.items():
                print('NO ANSWER %s: %s' % (n, e[:2000]))
            rc = 2
        else:
            print('%s held: %d jobs, %.1f s' % (a.id, len(jobs), time.time() - t0))
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            print('kept', tmp)
    sys.exit(rc)


def save_replay(pid, ctx, job, v):
    d = os.path.join(VERIF, 'replays', '%s-%s' % (pid, re.sub(r'\W', '_', job.name)))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    json.dump(v, open(os.path.join(d, 'violation.json'), 'w'), indent=1)
    open(os.path.join(d, 'inputs.txt'), 'w').write('\n'.join(str(i) for i in v['inputs']) + '\n')
    open(os.path.join(d, 'README'), 'w').write(
        'python3 /verif/replay.py %s   rebuilds harness/%s.c natively (gcc, ASan) against the current /repo\n'
        'and runs it on inputs.txt; a non-zero exit reproduces the violation.\n' % (d, job.harness))
    return d


def write_evidence(a, chk, ctx, jobs, results, errors, viols, wall):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    names = repo_function_names(ctx)
    jl, obligations, discharged, samples, funcs = [], 0, 0, [], set()
    queries, solver, validated = 0, 0.0, 0
    for j in jobs:
        r = results.get(j.name)
        if not r:
            jl.append({'job': j.name, 'outcome': 'no answer', 'why': errors.get(j.name, '')[:500]})
            continue
        props = [p for p in r['res'] if p.get('description') != 'VF_REACH']
        ok = sum(1 for p in props if p['status'] == 'SUCCESS')
        obligations += len(props)
        discharged += ok
        queries += r['total']['queries']
        solver += r['total']['solver_s']
        validated += r.get('validated', 0)
        samples += r.get('samples', [])[:1]
        fs = sorted('%s:%s' % (names[f], f) for f in r.get('funcs', ()) if f in names and f != 'main')
        funcs |= set(fs)
        jl.append({'job': j.name, 'outcome': 'held' if r['ok'] else 'violated', 'bounds': j.bounds, 'macros': r['defs'],
                   'unwind': r['base'], 'unwindset': r['uset'], 'assertions': len(props), 'discharged': ok,
                   'symex_steps': r['stats']['steps'], 'sat_variables': r['stats']['vars'],
                   'sat_clauses': r['stats']['clauses'], 'solver_queries': r['total']['queries'],
                   'solver_s': round(r['total']['solver_s'], 2), 'notes': r.get('notes', [])})
    evd = {
        'property': a.id, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': chk.explain,
            'obligations': obligations, 'discharged': discharged,
            'functions_encoded': sorted(funcs), 'jobs': jl,
            'solver_queries': queries, 'solver_time_s': round(solver, 2),
            'witness_paths_replayed_natively': validated,
            'samples': samples,
            'checker_cmd': 'cbmc 6.11 (SAT back end), --unwinding-assertions; see jobs[].unwind',
        },
        'assumptions': chk.assumptions, 'wall_s': round(wall, 2), 'violations': len(viols),
    }
    json.dump(evd, open(os.path.join(VERIF, 'evidence', a.id + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
