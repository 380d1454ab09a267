"""Controller: runs batches of cases on the monitored driver, attributes crashes,
collects violations, writes replays and evidence."""
import json, os, subprocess, sys, tempfile, time, hashlib, shutil, random, threading
from concurrent.futures import ThreadPoolExecutor
from . import build as B

VERIF = B.VERIF
ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=4096:malloc_fill_byte=190:'
                       'detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=0:'
                       'hard_rss_limit_mb=3000:detect_container_overflow=1:check_initialization_order=1')
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=78'
ENV['LC_ALL'] = 'C'


def seed():
    return int(os.environ.get('VERIF_SEED', '1') or '1')


def tier():
    t = os.environ.get('VERIF_TIER', 'quick')
    return t if t in ('quick', 'thorough') else 'quick'


_ESC = {}
for _i in range(256):
    _c = chr(_i)
    _ESC[_c] = _c if 32 <= _i < 127 and _c != '%' else '%%%02x' % _i


def esc(s):
    return ''.join(_ESC[c] for c in s)


def encode(case):
    """case: tuple of strings (latin-1)"""
    return '\t'.join(esc(str(x)) for x in case)


class Crash(dict):
    """Observation standing for abnormal termination of a case."""
    pass


def summarize(err):
    """A stable one-line signature for an abnormal termination."""
    sig = ''
    for line in err.split('\n'):
        if 'Assertion' in line and 'failed' in line:
            sig = 'assert: ' + line.strip()[-160:]
            break
        if 'ERROR: AddressSanitizer' in line:
            p = line.split('AddressSanitizer:')[1].strip()
            sig = 'asan: ' + p.split(' on ')[0].split(' (')[0][:80]
            break
        if 'runtime error:' in line:
            sig = 'ubsan: ' + line.split('runtime error:')[1].strip()[:100]
            break
        if line.startswith('Error: attempt to') or 'Error: attempt to' in line:
            sig = 'libstdc++ debug mode: ' + line.strip()[:120]
            break
        if 'terminate called' in line:
            sig = 'terminate: ' + err[err.index('terminate called'):][:160].replace('\n', ' ')
            break
    frames = []
    for line in err.split('\n'):
        line = line.strip()
        if line.startswith('#') and ' in ' in line:
            fn = line.split(' in ', 1)[1]
            if '/flpr/' in fn or 'FLPR' in fn:
                frames.append(fn.split(' /')[0][:60])
            if len(frames) >= 2:
                break
    if frames:
        sig += ' @ ' + ' < '.join(frames)
    return sig


class Effort:
    """Stop early when there is enough evidence or no time left."""
    t0 = time.time()
    limit = None
    hangs = 0
    crashes = 0

    @classmethod
    def enough(cls):
        return cls.hangs >= 5 or cls.crashes >= 250

    @classmethod
    def over(cls):
        if cls.limit is None:
            cls.limit = float(os.environ.get('VERIF_LIMIT', 560 if tier() == 'quick' else 6000))
        return cls.enough() or time.time() - cls.t0 > cls.limit


def _run_chunk(binary, lines, base, timeout, results, stop_early=True):
    """Run encoded lines; fill results[base+i] with parsed observation or Crash."""
    d = tempfile.mkdtemp(prefix='flprmon')
    try:
        path = os.path.join(d, 'in')
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        start = 0
        restarts = 0
        while start < len(lines):
            if stop_early and Effort.over():
                break
            errp = os.path.join(d, 'err')
            with open(errp, 'wb') as ef:
                p = subprocess.Popen([binary, path, str(start)], stdin=subprocess.DEVNULL,
                                     stdout=subprocess.PIPE, stderr=ef, env=ENV, cwd=d)
            last = [time.time()]
            hung = [False]
            stop = threading.Event()

            def watch():
                while not stop.wait(0.5):
                    if time.time() - last[0] > timeout:
                        hung[0] = True
                        p.kill()
                        return
            th = threading.Thread(target=watch)
            th.start()
            done = False
            cur = start
            for raw in p.stdout:
                last[0] = time.time()
                if raw == b'END\n':
                    done = True
                    break
                k, _, js = raw.partition(b'\t')
                try:
                    results[base + int(k)] = json.loads(js.decode('latin-1'))
                    cur = int(k) + 1
                except ValueError:
                    break
            p.stdout.close()
            rc = p.wait()
            stop.set()
            th.join()
            if done and cur >= len(lines):
                if rc != 0:   # e.g. error during static destruction
                    results[base + len(lines) - 1] = Crash(rc=rc, at_exit=True, sig='at exit rc=%d' % rc,
                                                           err=open(errp, 'rb').read()[-3000:].decode('latin-1'))
                break
            with open(errp, 'rb') as f:
                err = f.read().decode('latin-1')
            mark = err.rfind('@@CASE %d\n' % cur)
            if mark >= 0:
                err = err[mark:]
            c = Crash(rc=rc, hang=hung[0], err=err[:6000])
            c['sig'] = 'hang' if hung[0] else (summarize(err) or 'exit/signal rc=%d: %s' % (rc, err.split('\n', 1)[-1].strip()[-200:]))
            c['first'] = start
            Effort.hangs += hung[0]
            Effort.crashes += 1
            results[base + cur] = c
            start = cur + 1
            restarts += 1
            if restarts > 400:
                for k in range(start, len(lines)):
                    results[base + k] = None
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_cases(binary, cases, chunk=150, jobs=8, timeout=20, stop_early=True):
    lines = [encode(c) for c in cases]
    results = [None] * len(lines)
    starts = list(range(0, len(lines), chunk))
    with ThreadPoolExecutor(jobs) as ex:
        fs = [ex.submit(_run_chunk, binary, lines[s:s + chunk], s, timeout, results, stop_early) for s in starts]
        for f in fs:
            f.result()
    return results


class Check:
    """Accumulates the evidence and verdict of one property check."""

    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.t0 = time.time()
        self.n = 0
        self.distinct = set()
        self.samples = []
        self.viol = []
        self.known_hit = {}
        self.counters = {}
        self.tier = tier()
        self.seed = seed()
        self.rng = random.Random('%s-%d' % (pid, self.seed))
        self.known = load_known(pid)
        self.assumptions = []
        self.driver = None
        self.max_keep = 25

    def thorough(self):
        return self.tier == 'thorough'

    def scale(self, q, t):
        return t if self.thorough() else q

    def build(self, what=('driver',)):
        try:
            self.bins = B.build(what)
        except B.BuildError as e:
            print('BUILD FAILED\n%s' % e)
            sys.exit(3)
        self.driver = self.bins.get('driver')
        return self.bins

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def seen(self, key, nontrivial=True):
        self.n += 1
        if nontrivial:
            self.distinct.add(hashlib.md5(key.encode('latin-1', 'replace')).digest()[:8])

    def violation(self, msg, case, obs=None, expect=None, extra=None):
        """case: list of encoded-able tuples which reproduce it"""
        for k in self.known:
            if known_match(k, msg, case):
                self.known_hit[k['id']] = k
                self.count('known_finding_hits')
                return
        self.viol.append((msg, case, obs, expect, extra))

    def run(self, cases, oracle, chunk=150, timeout=20, confirm=True):
        """cases: list of (case_tuple, meta). oracle(meta, obs) -> list of messages.
        Crash observations are violations unless oracle_crash handles them."""
        res = run_cases(self.driver, [c for c, _ in cases], chunk=chunk, timeout=timeout)
        first = None
        for i, ((case, meta), obs) in enumerate(zip(cases, res)):
            if obs is None:
                self.count('not_run')
                continue
            msgs = self.judge(case, meta, obs, oracle)
            if not msgs:
                continue
            replay = [case]
            if confirm and len(self.viol) < self.max_keep and not Effort.over() and not obs.get('hang'):
                solo = run_cases(self.driver, [case], timeout=timeout, stop_early=False)[0]
                m2 = self.judge(case, meta, solo, oracle)
                if not m2:
                    # depends on what was processed before in the same process
                    lo = (i // chunk) * chunk
                    replay = [c for c, _ in cases[lo:i + 1]]
                    msgs = ['[only after earlier cases in the same process] ' + m for m in msgs]
                else:
                    obs, msgs = solo, m2
            for m in msgs[:3]:
                self.violation(m, replay, obs)
        return res

    def judge(self, case, meta, obs, oracle):
        if isinstance(obs, Crash):
            return ['abnormal termination: %s' % obs.get('sig')]
        if 'exc' in obs:
            if obs['exc'].startswith('norule '):    # a helper rule this tree does not declare
                self.count('rule_not_declared')
                return []
            return ['uncaught exception from library: %s' % obs['exc']]
        try:
            return oracle(meta, obs)
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError) as e:
            return ['what was observed makes no sense: %s %s' % (type(e).__name__, e)]

    def finish(self):
        for k in self.known_hit.values():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        rd = os.path.join(VERIF, 'replays', self.pid)
        if os.path.isdir(rd):
            shutil.rmtree(rd)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
              'coverage': {'evaluations': self.n, 'distinct_nontrivial': len(self.distinct),
                           'rule': self.rule, 'samples': self.samples, 'monitor_events': self.counters},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shown = set()
        if self.viol:
            os.makedirs(rd, exist_ok=True)
            for i, (msg, case, obs, expect, extra) in enumerate(self.viol):
                short = msg[:60]
                if short in shown and i > 0:
                    continue
                shown.add(short)
                if len(shown) > 12:
                    break
                p = os.path.join(rd, 'v%03d.json' % i)
                with open(p, 'w') as f:
                    json.dump({'property': self.pid, 'message': msg, 'cases': case, 'observed': obs,
                               'expected': expect, 'extra': extra}, f, indent=1, default=str)
                print('VIOLATION property=%s replay=%s' % (self.pid, p))
                print('   ' + msg[:600])
        print('%s %s: evaluations=%d distinct=%d violations=%d events=%s wall=%.1fs' % (
            self.pid, self.tier, self.n, len(self.distinct), len(self.viol), json.dumps(self.counters),
            time.time() - self.t0))
        if not self.viol and (self.n == 0 or len(self.distinct) < 2):
            print('check observed nothing')
            sys.exit(4)
        sys.exit(1 if self.viol else 0)


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get('findings', []) if k['property'] == pid]


def known_match(k, msg, case):
    """A finding is identified by the exact case and by the message it produces."""
    if k.get('message_contains') and k['message_contains'] not in msg:
        return False
    if k.get('case') is not None:
        return [list(c) for c in case] == [list(c) for c in k['case']]
    return False
