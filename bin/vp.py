#!/usr/bin/env python3
"""Runner for the contract obligations of one property.

  vp.py PROP            run the check of PROP (tier from VERIF_TIER, default quick)
  vp.py --list          list the obligations
  vp.py --only OB PROP  run a single obligation (debugging)
  vp.py --replay FILE   re-run a saved replay file against /repo

See DESIGN.md for what an obligation is and how a verdict is reached.
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, hashlib, signal, threading
from concurrent.futures import ThreadPoolExecutor, as_completed, FIRST_COMPLETED, wait

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SRC = REPO + '/src'
sys.path.insert(0, VERIF + '/bin')

CONF = {
    'zstd': ['-DWITH_ZSTD'],
    'lzip': ['-DHAVE_LZLIB_DEVEL'],
}
BASE = ['-D_XOPEN_SOURCE=700', '-std=gnu99', '-DDRPM_VERIFY', '-DVP_VERIFIER', '-D__NO_CTYPE']
CHECKS = ['--slice-formula', '--drop-unused-functions']

# --------------------------------------------------------------------------
# source preparation: the loop contracts stand in /repo as DRPM_LOOP(...) right
# before the loop; the verifier's front end wants them behind the loop header.
# Nothing else of the text is touched, no line is added or removed.

def _skip_ws_comments(s, i):
    while i < len(s):
        if s[i].isspace():
            i += 1
        elif s.startswith('//', i):
            j = s.find('\n', i)
            i = len(s) if j < 0 else j
        elif s.startswith('/*', i):
            j = s.find('*/', i)
            i = len(s) if j < 0 else j + 2
        else:
            break
    return i


def _match_paren(s, i, opn='(', cls=')'):
    assert s[i] == opn
    depth = 0
    while i < len(s):
        c = s[i]
        if c in '"\'':
            q = c
            i += 1
            while i < len(s) and s[i] != q:
                if s[i] == '\\':
                    i += 1
                i += 1
        elif s.startswith('//', i):
            j = s.find('\n', i)
            i = len(s) if j < 0 else j
            continue
        elif s.startswith('/*', i):
            j = s.find('*/', i)
            i = len(s) if j < 0 else j + 2
            continue
        elif c == opn:
            depth += 1
        elif c == cls:
            depth -= 1
            if depth == 0:
                return i
        i += 1
    return -1


def annotate(text):
    """returns (text with contracts moved behind the loop headers, number moved, number dropped)"""
    out, moved, dropped = text, 0, 0
    start = 0
    while True:
        m = re.compile(r'\bDRPM_LOOP\s*\(').search(out, start)
        if not m:
            return out, moved, dropped
        line_start = out.rfind('\n', 0, m.start()) + 1
        if out[line_start:m.start()].lstrip().startswith(('#', '//', '*', '/*')):
            start = m.end()
            continue
        p = m.end() - 1
        e = _match_paren(out, p)
        if e < 0:
            start = m.end()
            continue
        body = out[p + 1:e]
        nl = body.count('\n')
        clause = re.sub(r'\s*\n\s*', ' ', body).strip()
        k = _skip_ws_comments(out, e + 1)
        lm = re.compile(r'(for|while)\b\s*').match(out, k)
        if not lm or lm.end() >= len(out) or out[lm.end()] != '(':
            out = out[:m.start()] + '\n' * nl + out[e + 1:]
            dropped += 1
            start = m.start()
            continue
        ce = _match_paren(out, lm.end())
        out = (out[:m.start()] + '\n' * nl + out[e + 1:ce + 1] + ' ' + clause + ' ' + out[ce + 1:])
        moved += 1
        start = m.start()
        out = _own_exits(out, out.index(clause, m.start()) + len(clause))


_EXITS = [0]


def _own_exits(s, k):
    """A goto that leaves the loop whose body starts at s[k:] goes through a label of its own:
    the verifier puts the end-of-loop bookkeeping in front of the target, which other paths must not run through."""
    k = _skip_ws_comments(s, k)
    if k >= len(s) or s[k] != '{':
        return s
    e = _match_paren(s, k, '{', '}')
    if e < 0:
        return s
    body = s[k:e]
    f = re.compile(r'^\}', re.M).search(s, e)
    if not f or not re.search(r'(return\b[^;{}]*|goto\s+\w+)\s*;\s*$', s[:f.start()]):
        return s
    tail = []

    def sub(m):
        label = m.group(1)
        if re.search(r'__vp\d+$', label) or re.search(r'^\s*%s\s*:' % re.escape(label), body, re.M):
            return m.group(0)
        _EXITS[0] += 1
        tail.append('%s__vp%d: goto %s;' % (label, _EXITS[0], label))
        return 'goto %s__vp%d;' % (label, _EXITS[0])
    body = re.sub(r'\bgoto\s+(\w+)\s*;', sub, body)
    return s[:k] + body + s[e:f.start()] + ' '.join(tail) + s[f.start():]


def prepare(work):
    d = work + '/src'
    os.makedirs(d, exist_ok=True)
    tot = {}
    for f in sorted(os.listdir(SRC)):
        if f.endswith('.c') or f.endswith('.h'):
            t = open(SRC + '/' + f, errors='surrogateescape').read()
            t2, mv, dr = annotate(t)
            tot[f] = (mv, dr)
            open(d + '/' + f, 'w', errors='surrogateescape').write(t2)
    return d, tot

# --------------------------------------------------------------------------
# running tools

_procs = set()
_plock = threading.Lock()


def run(cmd, timeout, cwd=None, env=None, stop=None, stop2=None, mem_gb=12, combine=True):
    """returns (rc or None on timeout, output, seconds)"""
    t0 = time.time()
    pre = 'ulimit -v %d; exec "$@"' % (mem_gb * 1024 * 1024) if mem_gb else 'exec "$@"'
    try:
        p = subprocess.Popen(['bash', '-c', pre, 'x'] + cmd, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT if combine else subprocess.DEVNULL,
                             cwd=cwd, env=env, start_new_session=True)
    except OSError as e:
        return 127, str(e), 0.0
    with _plock:
        _procs.add(p)
    out = []

    def rd():
        out.append(p.stdout.read())
    th = threading.Thread(target=rd, daemon=True)
    th.start()
    rc = None
    while True:
        try:
            rc = p.wait(0.1)
            break
        except subprocess.TimeoutExpired:
            if time.time() - t0 > timeout or (stop is not None and stop.is_set()) or (stop2 is not None and stop2.is_set()):
                break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    th.join(5)
    with _plock:
        _procs.discard(p)
    s = b''.join(x for x in out if x).decode('utf-8', 'replace')
    return rc, s, time.time() - t0

# --------------------------------------------------------------------------

LINE = re.compile(r'^\[([^\]]*)\] (?:file \S+ )?(?:line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)\s*$')


class Result:
    def __init__(self, ob):
        self.ob = ob
        self.status = 'error'     # proved | failed | undecided | error
        self.props = 0
        self.ok = 0
        self.failed = []
        self.reach = 0
        self.solver = ''
        self.solver_s = 0.0
        self.wall = 0.0
        self.log = ''
        self.cmd = ''


def parse_cbmc(out):
    props = {}
    for l in out.splitlines():
        m = LINE.match(l)
        if m:
            props[m.group(1) + ' ' + m.group(2)] = m.group(3)
    return props


SOLVERS = {
    'sat': [],
    'cadical': ['--sat-solver', 'cadical'],
    'cvc5': ['--cvc5'],
    'z3': ['--z3'],
}


def build_goto(ob, work, src):
    """returns (path or None, log)"""
    d = tempfile.mkdtemp(prefix='ob_', dir=work)
    a, b = d + '/a.gb', d + '/b.gb'
    cmd = (['goto-cc', '--function', ob['harness']] + BASE + CONF[ob.get('conf', 'zstd')] +
           ob.get('defs', []) + ['-I' + VERIF + '/include', '-I' + src, '-I' + VERIF + '/h',
                                 VERIF + '/h/' + ob['src']] +
           [x.replace('$SRC', src) for x in ob.get('link', [])] + ['-o', a])
    rc, out, _ = run(cmd, 120)
    log = ' '.join(cmd) + '\n' + out
    if rc != 0:
        return None, log
    if ob.get('preunwind'):
        # loops closed by complete unwinding: done before the contract instrumentation sees them
        cmd = ['goto-instrument', '--unwindset', ','.join(ob['preunwind']), '--unwinding-assertions', a, a]
        rc, out, _ = run(cmd, 120)
        log += ' '.join(cmd) + '\n' + out[-3000:]
        if rc != 0:
            return None, log
    if ob.get('enforce') or ob.get('replace') or ob.get('loops'):
        cmd = ['goto-instrument', '--dfcc', ob['harness']]
        if ob.get('enforce'):
            cmd += ['--enforce-contract', ob['enforce']]
        for r in ob.get('replace', []):
            cmd += ['--replace-call-with-contract', r]
        if ob.get('loops'):
            cmd += ['--apply-loop-contracts']
        cmd += ob.get('gi', []) + [a, b]
        rc, out, _ = run(cmd, 120)
        log += ' '.join(cmd) + '\n' + out[-3000:]
        if rc != 0:
            return None, log
    else:
        b = a
    return b, log


def discharge(ob, work, src, cancel=None, deadline=None):
    r = Result(ob)
    t0 = time.time()
    if cancel is not None and cancel.is_set():
        r.status = 'skipped'
        return r
    if deadline is not None and t0 > deadline - 5:
        r.status = 'undecided'
        r.log = 'not reached within the time of this tier'
        return r
    gb, log = build_goto(ob, work, src)
    if gb is None:
        r.status = 'error'
        r.log = log
        r.wall = time.time() - t0
        return r
    base = ['cbmc', gb] + CHECKS + ob.get('checks', [])
    if ob.get('unwind'):
        base += ['--unwind', str(ob['unwind']), '--unwinding-assertions']
    if ob.get('unwindset'):
        base += ['--unwindset', ','.join(ob['unwindset']), '--unwinding-assertions']
    ids = []
    if ob.get('select') or ob.get('each'):
        # a variant that decides only the obligations whose text matches; the others are decided by the other variants
        rc, out, _ = run(base[:2] + ob.get('checks', []) + ['--show-properties'], 120)
        for m in re.finditer(r'^Property (\S+):\n((?:  .*\n)+)', out, re.M):
            if re.search(ob.get('select', '.'), m.group(2)):
                ids.append(m.group(1))
        if not ob.get('each'):
            base += [x for i in ids for x in ('--property', i)]
    timeout = ob.get('timeout', 200)
    if deadline is not None:
        timeout = max(5, min(timeout, deadline - time.time()))
    solvers = ob.get('solvers', ['sat'])
    def race(base):
        """the solvers side by side on one formula: (solver, seconds, output) of the first that decides, or Nones and what was said"""
        stop = threading.Event()
        res, said = (None, 0, ''), []

        def one(s):
            rc, out, secs = run(base + SOLVERS[s], timeout, stop=stop, stop2=cancel)
            return s, rc, out, secs
        with ThreadPoolExecutor(len(solvers)) as ex:
            futs = [ex.submit(one, s) for s in solvers]
            for f in as_completed(futs):
                s, rc, out, secs = f.result()
                if stop.is_set():
                    continue
                said.append('%s: rc=%s %.0fs\n%s' % (s, rc, secs, out[-2000:]))
                if rc in (0, 10) and parse_cbmc(out) and not any(
                        v in ('UNKNOWN', 'ERROR') for v in parse_cbmc(out).values()):
                    stop.set()
                    res = (s, secs, out)
        return res, '\n'.join(said)
    if ob.get('each'):
        # one formula per obligation: what a solver can decide one by one but not all together
        with ThreadPoolExecutor(ob['each']) as ex:
            rs = list(ex.map(lambda i: race(base + ['--property', i]), ids))
        outs = [x[0][2] for x in rs if x[0][0]]
        said = '\n'.join(x[1] for x in rs if not x[0][0])
        broken = any(v == 'FAILURE' and 'REACH' not in n for o in outs for n, v in parse_cbmc(o).items())
        if outs and (broken or len(outs) == len(ids)):
            r.solver = '+'.join(sorted({x[0][0] for x in rs if x[0][0]}))
            r.solver_s = sum(x[0][1] for x in rs)
            r.log = '\n'.join(outs)
            r.cmd = ' '.join(base) + ' --property ... (%d obligations, one formula each)' % len(ids)
    else:
        (r.solver, r.solver_s, r.log), said = race(base)
        r.cmd = ' '.join(base + SOLVERS[r.solver]) if r.solver else ''
    r.wall = time.time() - t0
    if not r.solver:
        r.status = 'skipped' if cancel is not None and cancel.is_set() else 'undecided'
        r.log = log + said
        return r
    props = parse_cbmc(r.log)
    undecided = []
    for name, st in props.items():
        if 'REACH' in name:
            if st == 'FAILURE':
                r.reach += 1
            else:
                undecided.append(name + ' (vacuous: not reachable)')
            continue
        r.props += 1
        if st == 'SUCCESS':
            r.ok += 1
        elif 'unwinding assertion' in name or 'recursion unwinding' in name:
            undecided.append(name)
        else:
            r.failed.append(name)
    if undecided:
        # the bound of a loop that used to be closed is not closed any more,
        # or the end of the harness is not reached: not a proof, not a refutation
        r.status = 'undecided'
        r.log = 'undecided: ' + '; '.join(undecided[:5]) + '\n' + r.log
        if r.failed and not ob.get('strict'):
            pass
        if r.failed and not any('vacuous' in u for u in undecided):
            r.status = 'failed'
    elif r.failed:
        r.status = 'failed'
        if all(re.search(r'\.(loop_)?assigns\.|is assignable|Check assigns clause', n) for n in r.failed):
            # only the frame annotation (names of locals a loop may write) does not fit the
            # text any more; every semantic obligation passed: out of reach, not refuted
            r.status = 'undecided'
            r.log += '\nframe annotation does not fit: ' + '; '.join(r.failed[:4])
    elif r.props == 0 or (r.reach == 0 and not ob.get('noreach')):
        r.status = 'undecided'
        r.log = 'vacuous: no obligations or no reachability marker\n' + r.log
    else:
        r.status = 'proved'
    return r

# --------------------------------------------------------------------------
# concrete inputs: a case file x/*.c defines  void vp_case(void)  that draws its
# inputs from a byte string; natively it runs /repo's code under ASan+UBSan,
# under the verifier the byte string is symbolic (bounded).

LIBS = ['-lrpm', '-lrpmio', '-lcrypto', '-lz', '-lbz2', '-llzma', '-lzstd', '-llz']
SAN = ['-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize=shift-base,function,pointer-overflow',
       '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']


def native_build(case, work, fuzz):
    """returns (binary, log); case: {'src','omit':[files the case includes itself],'conf'}"""
    d = tempfile.mkdtemp(prefix='nat_', dir=work)
    flags = ['-D_XOPEN_SOURCE=700', '-std=gnu99', '-w', '-I' + SRC, '-I' + VERIF + '/include',
             '-I' + VERIF + '/x'] + CONF[case.get('conf', 'zstd')] + SAN + case.get('defs', [])
    if fuzz:
        flags += ['-fsanitize=fuzzer-no-link', '-DVP_FUZZ']
    objs, jobs = [], []
    files = [SRC + '/' + f for f in sorted(os.listdir(SRC))
             if f.endswith('.c') and f not in case.get('omit', [])] if case.get('link_all', True) else []
    files.append(VERIF + '/x/' + case['src'])
    with ThreadPoolExecutor(8) as ex:
        for f in files:
            o = d + '/' + os.path.basename(f) + '.o'
            objs.append(o)
            jobs.append(ex.submit(run, ['clang'] + flags + ['-c', f, '-o', o], 120))
    log = ''
    for j in jobs:
        rc, out, _ = j.result()
        log += out
        if rc != 0:
            return None, log
    exe = d + '/case'
    rc, out, _ = run(['clang'] + flags + (['-fsanitize=fuzzer'] if fuzz else []) + objs +
                     case.get('ldflags', []) + LIBS + ['-o', exe], 120)
    log += out
    return (exe if rc == 0 else None), log


def san_env(leaks):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=%d:allocator_may_return_null=1:max_allocation_size_mb=3000:exitcode=77:abort_on_error=0' % leaks
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=77'
    return e


def native_run(exe, data, work, leaks=0, timeout=20):
    fd, p = tempfile.mkstemp(dir=work)
    os.write(fd, data)
    os.close(fd)
    d = tempfile.mkdtemp(prefix='cwd_', dir=work)
    rc, out, _ = run([exe, p], timeout, cwd=d, env=san_env(leaks), mem_gb=0)
    shutil.rmtree(d, ignore_errors=True)
    os.unlink(p)
    return rc, out


def cbmc_bytes(case, work, src, nbytes, unwind, timeout):
    """bounded search for a failing input with the verifier itself"""
    if not nbytes:
        return None
    d = tempfile.mkdtemp(prefix='cx_', dir=work)
    a = d + '/a.gb'
    rc, out, _ = run(['goto-cc', '--function', 'vp_main'] + BASE + CONF[case.get('conf', 'zstd')] +
                     case.get('defs', []) + ['-DVP_N=%d' % nbytes, '-I' + VERIF + '/include', '-I' + src,
                      '-I' + VERIF + '/x', VERIF + '/x/' + case['src']] + ['-o', a], 120)
    if rc != 0:
        return None
    rc, out, _ = run(['cbmc', a, '--unwind', str(unwind), '--no-unwinding-assertions', '--trace', '--json-ui',
                      '--stop-on-fail', '--sat-solver', 'cadical'] + case.get('cbmc', []), timeout, combine=False)
    if rc != 10:
        return None
    vals = {}
    for m in re.finditer(r'"lhs": "VP_IN\[(\d+)l*\]".{0,600}?"data": "(\d+)"', out, re.S):
        vals[int(m.group(1))] = int(m.group(2)) & 255
    if not vals:
        try:
            js = json.loads(out)
        except ValueError:
            return None
        for el in js:
            tr = el.get('trace') or (el.get('result') and next((r.get('trace') for r in el['result'] if r.get('trace')), None))
            for st in tr or []:
                lhs = st.get('lhs', '')
                m = re.match(r'VP_IN\[(\d+)', lhs)
                if m and 'data' in st.get('value', {}):
                    try:
                        vals[int(m.group(1))] = int(st['value']['data']) & 255
                    except ValueError:
                        pass
                elif lhs == 'VP_IN' and 'elements' in st.get('value', {}):
                    for e in st['value']['elements']:
                        try:
                            vals[e['index']] = int(e['value']['data']) & 255
                        except (KeyError, ValueError):
                            pass
    return bytes(vals.get(i, 0) for i in range(nbytes)) if vals else None


def find_input(case, work, src, seed, secs):
    """search for a concrete input that makes the real code break the property.
    returns (data, output, how) or None"""
    exe, log = native_build(case, work, False)
    if exe is None:
        return None, 'native build failed:\n' + log[-2000:]
    leaks = case.get('leaks', 0)

    def bad(rc):
        return rc is not None and rc != 0
    corp = VERIF + '/corpus/' + case.get('corpus', case['src'][:-2])
    seeds = []
    if os.path.isdir(corp):
        for f in sorted(os.listdir(corp)):
            seeds.append(open(corp + '/' + f, 'rb').read())
    for s in seeds + [b'']:
        rc, out = native_run(exe, s, work, leaks)
        if bad(rc):
            return (s, out, 'stored input'), ''
    res = []
    with ThreadPoolExecutor(2) as ex:
        def f1():
            dat = cbmc_bytes(case, work, src, case.get('cx_bytes', 0), case.get('cx_unwind', 20), secs)
            if dat is not None:
                rc, out = native_run(exe, dat, work, leaks)
                if bad(rc):
                    return dat, out, "verifier's counterexample"

        def f2():
            fexe, log = native_build(case, work, True)
            if fexe is None:
                return None
            d = tempfile.mkdtemp(prefix='fz_', dir=work)
            os.makedirs(d + '/c')
            for i, s in enumerate(seeds):
                open(d + '/c/s%d' % i, 'wb').write(s)
            env = san_env(leaks)
            run([fexe, d + '/c', '-seed=%d' % (seed + 1), '-fork=6', '-max_total_time=%d' % secs,
                 '-max_len=%d' % case.get('max_len', 4096), '-artifact_prefix=' + d + '/', '-timeout=10',
                 '-rss_limit_mb=4000', '-use_value_profile=1'] + case.get('fz', []),
                secs + 20, cwd=d, env=env, mem_gb=0)
            for f in sorted(os.listdir(d)):
                if f.startswith(('crash-', 'leak-')):
                    dat = open(d + '/' + f, 'rb').read()
                    rc, out = native_run(exe, dat, work, leaks)
                    if bad(rc):
                        return dat, out, 'guided search after the obligation failed'
        for f in as_completed([ex.submit(f1), ex.submit(f2)]):
            if f.result():
                res.append(f.result())
    return (res[0] if res else None), ''


def load():
    import obligations
    return obligations


def scan_assumptions():
    """mechanical scan for assumptions in the harnesses"""
    n = 0
    for f in sorted(os.listdir(VERIF + '/h')):
        n += len(re.findall(r'__CPROVER_assume|VP_ASSUME', open(VERIF + '/h/' + f).read()))
    return n


def check(prop, only=None, verbose=False):
    O = load()
    P = O.PROPS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    violations = []
    try:
        src, ann = prepare(work)
        obs = [o for o in O.OBS if prop in o['props'] and (not only or o['id'] == only)
               and (tier == 'thorough' or not o.get('thorough'))]
        results = []
        with ThreadPoolExecutor(P.get('jobs', 7)) as ex:
            cancel = threading.Event()      # a refuted obligation decides the check: no need for the others
            deadline = t0 + (560 if tier == 'quick' else 3400)
            futs = [ex.submit(discharge, o, work, src, cancel, deadline) for o in obs]
            for f in as_completed(futs):
                r = f.result()
                results.append(r)
                if r.status == 'failed':
                    cancel.set()
                if r.status == 'skipped':
                    continue
                print('  %-34s %-9s %4d/%-4d reach %d  %6.1fs %s' % (
                    r.ob['id'], r.status, r.ok, r.props, r.reach, r.wall, r.solver), flush=True)
                if verbose or only:
                    if r.status != 'proved':
                        print('\n'.join(r.failed[:30]))
                        if r.status in ('error', 'undecided'):
                            print(r.log[-600:])
        results.sort(key=lambda r: r.ob['id'])
        failed = [r for r in results if r.status == 'failed']
        weak = [r for r in results if r.status in ('undecided', 'error')]
        outdir = VERIF + '/out/' + prop
        shutil.rmtree(outdir, ignore_errors=True)
        os.makedirs(outdir)
        bounded_runs = []
        # bounded stand-ins: always for cases marked so, and for every obligation out of reach on this tree
        cases = []
        for r in failed + weak:
            for c in r.ob.get('cases', P.get('cases', [])):
                if c not in cases:
                    cases.append(c)
        for c in P.get('always', []):
            if c not in cases:
                cases.append(c)
        found = None
        secs = P.get('search_s', 60) if tier == 'quick' else P.get('search_s', 60) * 3
        if not only:
            for cname in cases:
                c = O.CASES[cname]
                need_search = bool(failed or weak)
                tt = time.time()
                if need_search and time.time() - t0 < 600:
                    res, why = find_input(c, work, src, seed, min(secs, max(20, 780 - (time.time() - t0))))
                else:
                    res, why, n = stored_inputs(c, work, seed)
                    bounded_runs.append({'case': cname, 'executions': n, 'kind': 'bounded stand-in (stored and generated inputs)'})
                if why:
                    print('  case %s: %s' % (cname, why[:1500]))
                if need_search:
                    bounded_runs.append({'case': cname, 'kind': 'guided search', 'seconds': round(time.time() - tt, 1)})
                if res:
                    found = (cname, res)
                    break
        if found:
            cname, (dat, out, how) = found
            path = outdir + '/replay.json'
            names = [r.ob['id'] + ': ' + n for r in failed for n in r.failed[:5]] or \
                    ['bounded stand-in ' + cname + (' (obligations not decided: %s)' % ', '.join(r.ob['id'] for r in weak) if weak else '')]
            json.dump({'property': prop, 'failed_obligations': names, 'case': cname, 'how': how,
                       'input_hex': dat.hex(), 'observed': out[-6000:],
                       'replay_cmd': 'python3 %s/bin/vp.py --replay %s' % (VERIF, path)}, open(path, 'w'), indent=1)
            violations.append('VIOLATION property=%s replay=%s' % (prop, path))
            for n in names[:8]:
                print('  failed obligation: ' + n)
        elif failed:
            path = outdir + '/failed-obligation.txt'
            with open(path, 'w') as f:
                for r in failed:
                    f.write('obligation %s (function under contract: %s)\ncommand: %s\nfailed:\n  %s\n\nverifier output:\n%s\n\n' % (
                        r.ob['id'], r.ob.get('fn', ''), r.cmd, '\n  '.join(r.failed), r.log[-20000:]))
            for r in failed:
                for n in r.failed[:4]:
                    print('  failed obligation: %s: %s' % (r.ob['id'], n))
            violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        for r in weak:
            print('  not decided on this tree, bounded stand-in used: %s: %s' % (r.ob['id'], r.log.strip().splitlines()[-1][:300] if r.log.strip() else r.status))
        for k in O.KNOWN:
            if k['property'] == prop and not k.get('fixed'):
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        full = [r for r in results if not r.ob.get('bounded')]
        bnd = [r for r in results if r.ob.get('bounded')]
        cov = {
            'obligations': sum(r.props for r in full),
            'discharged': sum(r.ok for r in full),
            'checker_cmd': 'goto-cc + goto-instrument --dfcc (contracts, loop contracts) + cbmc 6.11, driven by bin/vp.py %s' % prop,
            'trusted_base': O.TRUSTED_COMMON + P.get('trusted', []),
            'functions_under_contract': sorted({f for r in full if r.status == 'proved' for f in r.ob.get('fn', '').split(',') if f}),
            'obligation_groups': [{'id': r.ob['id'], 'functions': r.ob.get('fn', ''), 'status': r.status,
                                   'checks': r.props, 'discharged': r.ok, 'backend': r.solver,
                                   'solver_s': round(r.solver_s, 2), 'reachability_markers_hit': r.reach,
                                   'scope': r.ob.get('bounded') and ('BOUNDED: ' + r.ob['bounded']) or r.ob.get('scope', 'unbounded'),
                                   'failed': r.failed[:10]} for r in results],
            'bounded_obligations': sum(r.props for r in bnd),
            'bounded_discharged': sum(r.ok for r in bnd),
            'solver_seconds': round(sum(r.solver_s for r in results), 1),
            'loop_contracts_attached': sum(v[0] for v in ann.values()),
            'loop_contracts_not_attached': sum(v[1] for v in ann.values()),
            'bounded_runs': bounded_runs,
            'assume_statements_in_harnesses': scan_assumptions(),
        }
        level = P.get('level', 'proof')
        if level != 'proof':
            cov['explanation'] = P.get('explanation', '')
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
              'assumptions': P.get('assumptions', []) + ['not decided on this tree, bounded stand-in only: ' + r.ob['id'] for r in weak],
              'wall_s': round(time.time() - t0, 1), 'violations': len(violations)}
        if not only:
            os.makedirs(VERIF + '/evidence', exist_ok=True)
            json.dump(ev, open(VERIF + '/evidence/%s.json' % prop, 'w'), indent=1)
        print('%s: %d/%d obligations discharged in %d groups, %d groups not decided, %.0f s' % (
            prop, cov['discharged'], cov['obligations'], len(results), len(weak), time.time() - t0))
        for v in violations:
            print(v)
        return 1 if violations else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def stored_inputs(case, work, seed):
    exe, log = native_build(case, work, False)
    if exe is None:
        return None, 'native build failed:\n' + log[-2000:], 0
    corp = VERIF + '/corpus/' + case.get('corpus', case['src'][:-2])
    n = 0
    todo = [b'']
    if os.path.isdir(corp):
        for f in sorted(os.listdir(corp)):
            todo.append(open(corp + '/' + f, 'rb').read())
    import random
    rnd = random.Random(seed)
    for _ in range(case.get('random', 0)):
        todo.append(bytes(rnd.getrandbits(8) for _ in range(rnd.randrange(case.get('max_len', 256)))))
    with ThreadPoolExecutor(8) as ex:
        for s, (rc, out) in zip(todo, ex.map(lambda d: native_run(exe, d, work, case.get('leaks', 0), case.get('timeout', 60)), todo)):
            n += 1
            if rc is not None and rc != 0:
                return (s, out, 'bounded stand-in'), '', n
    return None, '', n


def replay(path):
    O = load()
    j = json.load(open(path))
    work = tempfile.mkdtemp(prefix='vp_replay_')
    try:
        c = O.CASES[j['case']]
        exe, log = native_build(c, work, False)
        if exe is None:
            print(log)
            return 2
        rc, out = native_run(exe, bytes.fromhex(j['input_hex']), work, c.get('leaks', 0), 120)
        print(out)
        print('exit status', rc, '-> property', 'broken' if rc else 'held on this input')
        return 1 if rc else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        return replay(a[1])
    if a and a[0] == '--list':
        for o in load().OBS:
            print('%-36s %-20s %s' % (o['id'], ','.join(o['props']), o.get('fn', '')))
        return 0
    only = None
    if a and a[0] == '--only':
        only = a[1]
        a = a[2:]
        if not a:
            O = load()
            a = [next(o for o in O.OBS if o['id'] == only)['props'][0]]
    return check(a[0], only)


if __name__ == '__main__':
    try:
        sys.exit(main())
    finally:
        for p in list(_procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
