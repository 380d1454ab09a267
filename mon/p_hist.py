"""Results depend on the input alone: not on history, interface or uninitialized memory."""
import os, random, re, shutil, subprocess, tempfile, json
from concurrent.futures import ThreadPoolExecutor
from . import core, build as B, ftext as F
from . import p_edit, p_prog, p_scan, p_stmt
from .core import Check, Crash, run_cases, encode


class Harvest(Exception):
    pass


def harvest(mod, fn, key, n):
    """n of the cases which another check would run"""
    class Stub(object):
        def __init__(self, pid, rule):
            self.rng = random.Random('%s-%s' % (pid, key))

        def build(self, what=None):
            pass

        def scale(self, q, t):
            return n * 2

        def run(self, cases, *a, **k):
            raise Harvest(cases)

        def __getattr__(self, a):
            return lambda *x, **k: None
    old = mod.Check
    mod.Check = Stub
    try:
        fn()
    except Harvest as e:
        return [c for c, _ in e.args[0]][:n]
    finally:
        mod.Check = old
    return []


def valgrind_run(binary, cases, timeout=600):
    """all cases in one process under memcheck; returns (observations, problem)"""
    d = tempfile.mkdtemp(prefix='flprmon')
    try:
        p = os.path.join(d, 'in')
        with open(p, 'w') as f:
            f.write('\n'.join(encode(c) for c in cases) + '\n')
        with open(os.path.join(d, 'o'), 'wb') as fo, open(os.path.join(d, 'e'), 'wb') as fe:
            q = subprocess.Popen(['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--child-silent-after-fork=yes',
                                  binary, p], cwd=d, env=core.ENV, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe)
            try:
                rc = q.wait(timeout=timeout)
            except subprocess.TimeoutExpired:   # no time for the rest
                q.kill()
                q.wait()
                rc = 0
        with open(os.path.join(d, 'o'), encoding='latin-1') as f:
            out = f.read()
        with open(os.path.join(d, 'e'), encoding='latin-1') as f:
            err = f.read()
        obs = [None] * len(cases)
        for l in out.split('\n')[:-1]:
            k, t, js = l.partition('\t')
            if t:
                obs[int(k)] = json.loads(js)
        if rc == 0:
            return obs, None, None
        at = [int(x) for x in re.findall(r'@@CASE (\d+)', err)]
        k = err.rfind('@@CASE')
        msg = re.findall(r'==\d+== (.*)', err[k:]) or [err[-200:]]
        fr = [m[:80] for m in msg if 'FLPR' in m][:2]
        return obs, (at[-1] if at else 0), 'memcheck (rc %d): %s %s' % (rc, msg[0], ' < '.join(fr))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def ddiff(a, b, path=''):
    if type(a) != type(b):
        return '%s: %r / %r' % (path, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return ddiff(a.get(k), b.get(k), path + '.' + k)
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return ddiff(x, y, '%s[%d]' % (path, i))
        return '%s: length %d / %d' % (path, len(a), len(b))
    return '%s: %s / %s' % (path, F.show(a), F.show(b))


def c05():
    ck = Check('C05', 'Scans, parses, statement parses, edits and line operations, each run alone in a fresh process and then '
               'again (a) after long random histories of other and hostile inputs in one process, (b) through the other '
               'interfaces (lines, stream, named file, constructor and read_file, an object used before, a moved object), '
               '(c) in an uninstrumented build under valgrind, which also watches for uninitialized values. The observations (text, lines, tokens, statements, '
               'trees) must be identical. Non-trivial: the observation is not a rejection.')
    ck.build()
    try:
        plain = B.build(('driver',), 'plain')['driver']
    except B.BuildError as e:
        print('BUILD FAILED\n%s' % e)
        raise SystemExit(3)
    rng = ck.rng
    n = ck.scale(90, 900)
    key = str(ck.seed)
    probes = []
    for mod, fn, k in ((p_edit, p_edit.c14, n), (p_edit, p_edit.c15, n), (p_stmt, p_stmt.c08, n), (p_stmt, p_stmt.c09, n),
                       (p_prog, p_prog.c10, n), (p_prog, p_prog.c11, n), (p_prog, p_prog.c13, n), (p_scan, p_scan.c12, n)):
        probes += harvest(mod, fn, key, k)
    rng.shuffle(probes)

    def problem(case, obs):
        if isinstance(obs, Crash):
            return 'abnormal termination: %s' % obs.get('sig')
        return None
    fresh = run_cases(ck.driver, probes, chunk=1)
    ok = []
    for c, o in zip(probes, fresh):
        if o is None:
            continue
        p = problem(c, o)
        ck.seen('\0'.join(c), not p and 'exc' not in o)
        ck.count('fresh_process')
        if p:
            ck.violation(p, [c], o)
        else:
            ok.append((c, o))
            ck.sample(c[-1][:200])
    # (a) histories
    for rep in range(ck.scale(3, 8)):
        order = list(range(len(ok))) + [rng.randrange(len(ok)) for _ in range(len(ok) // 2)]
        rng.shuffle(order)
        res = run_cases(ck.driver, [ok[k][0] for k in order], chunk=200)
        for pos, (k, o) in enumerate(zip(order, res)):
            if o is None:
                continue
            c, want = ok[k]
            ck.count('history_compared')
            p = problem(c, o) or (None if o == want else 'result depends on what was processed before: ' + ddiff(want, o))
            if p:
                lo = pos // 200 * 200
                ck.violation('after %d other inputs: %s' % (pos - lo, p), [ok[j][0] for j in order[lo:pos + 1]], o)
    # (b) interfaces
    var, meta = [], []
    for i in range(ck.scale(500, 6000)):
        form = rng.choice(('free', 'fixed'))
        lc = 0 if form == 'free' else rng.choice((72, 72, 0, 100))
        ext = rng.choice(('f90', 'f90', 'F90')) if form == 'free' else rng.choice(('f', 'F'))
        if rng.random() < .5:
            pl, _ = p_scan.gen_doc(rng, form, lc)
            text = F.text_of(pl, final=rng.random() < .9)
        elif rng.random() < .8:
            text = F.text_of(p_prog.gen(rng, form, lc, size=rng.choice((4, 12)))[4])
        else:
            text = '\n'.join(p_scan.hostile_text(rng))
        if rng.random() < .3:
            prev = F.text_of(p_scan.gen_doc(rng, form, lc)[0])
        else:
            prev = '\n'.join(p_scan.hostile_text(rng)) + '\n'
        nm = 'd%d.%s' % (i, ext)
        t = rng.choice((form, 'auto'))
        w = rng.choice(('mvp', 'vp', 'mv'))
        base = ('scan', form, str(lc), nm, w, text)
        vs = [('scan', t, str(lc), nm, w + 'L', text), ('scan', t, str(lc), nm, w + 'F', text),
              ('scan', t, str(lc), nm, w + rng.choice(('R', 'RL', 'RF')), text, rng.choice(('f', 'f90')), prev)]
        base2 = ('parse', form, str(lc), nm, 'tv', '', text)
        vs2 = [('parse', t, str(lc), nm, 'tvW', '', text), ('parse', t, str(lc), nm, 'tvN', '', text),
               ('parse', t, str(lc), nm, 'tvM', '', text), ('parse', t, str(lc), nm, 'tvRW', '', text, prev)]
        for b, v in ((base, vs), (base2, vs2)):
            var.append(b)
            meta.append(None)
            k = len(var) - 1
            for x in v:
                var.append(x)
                meta.append(k)
    res = run_cases(ck.driver, var, chunk=160)
    for c, m, o in zip(var, meta, res):
        if o is None:
            continue
        p = problem(c, o)
        if m is None:
            ck.seen('\0'.join(c), not p and o.get('ok'))
        elif not p:
            ck.count('interface_compared')
            if res[m] is not None and res[m] != o and not isinstance(res[m], Crash):
                p = 'result depends on the interface (%s %s instead of %s): %s' % (c[0], c[4], var[m][4], ddiff(res[m], o))
        if p:
            ck.violation(p, [var[m], c] if m is not None else [c], o)
    # (c) memcheck
    work = ok + [(c, o) for c, o, m in zip(var, res, meta) if o is not None and not problem(c, o)]
    rng.shuffle(work)
    work = work[:ck.scale(1600, 12000)]
    step = len(work) // 8 + 1
    jobs = [work[k:k + step] for k in range(0, len(work), step)]
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda j: valgrind_run(plain, [c for c, _ in j], ck.scale(300, 3000)), jobs))
    for j, (obs, at, prob) in zip(jobs, outs):
        if prob:
            ck.violation(prob, [c for c, _ in (j if at is None else j[at:at + 1])])
        for (c, want), o in zip(j, obs or []):
            if o is None:
                continue
            ck.count('memcheck_compared')
            if o != want:
                ck.violation('result differs in an uninstrumented build: ' + ddiff(want, o), [c], o)
    ck.finish()
