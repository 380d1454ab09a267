"""What executions keep and cost: memory and file handles (C21), work and memory as the input grows (C22)."""
import os, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import build as B, core, ftext as F
from . import p_cont, p_edit, p_ext, p_proc, p_prog, p_scan, p_stmt
from .core import Check, Crash
from .p_hist import harvest


# ------------------------------------------------------------------ C21

def c21():
    ck = Check('C21', 'Operations of every kind (scans, parses, statement parses, edits, line operations, conversions, procedure '
               'views, extensions, container histories, named files, files which do not exist, malformed and hostile input) are '
               'each done five times in one process; the heap in use and the open file handles must not grow each time. '
               'Non-trivial: the input has at least 20 characters.')
    ck.build()
    rng = ck.rng
    n = ck.scale(120, 1500)
    key = 'leak%d' % ck.seed
    cases = []
    for mod, fn in ((p_edit, p_edit.c14), (p_edit, p_edit.c15), (p_stmt, p_stmt.c08), (p_stmt, p_stmt.c09), (p_prog, p_prog.c10),
                    (p_prog, p_prog.c11), (p_prog, p_prog.c13), (p_scan, p_scan.c12), (p_proc, p_proc.c16), (p_ext, p_ext.c18),
                    (p_cont, p_cont.c17)):
        got = harvest(mod, fn, key, n)
        ck.count('from_' + fn.__name__, len(got))
        cases += got
    for i in range(n):
        form = rng.choice(('free', 'fixed'))
        lc = 0 if form == 'free' else 72
        nm = 'f%d.%s' % (i, 'f90' if form == 'free' else 'f')
        text = F.text_of(p_scan.gen_doc(rng, form, lc)[0]) if rng.random() < .6 else '\n'.join(p_scan.hostile_text(rng)) + '\n'
        prog = F.text_of(p_prog.gen(rng, form, lc, size=rng.choice((4, 12)))[4])
        cases += [('scan', form, str(lc), nm, 'mvF', text), ('scan', form, str(lc), nm, 'mL', text),
                  ('scan', form, str(lc), 'no/such/' + nm, 'mF', text),
                  ('parse', form, str(lc), nm, 'tvN', 'c3', prog), ('parse', form, str(lc), nm, 'W', '', prog),
                  ('parse', form, str(lc), 'no/such/' + nm, 'N', '', prog), ('parse', form, str(lc), nm, 'RW', 'e', prog, text)]
    rng.shuffle(cases)

    def oracle(meta, obs):
        ck.seen('\0'.join(meta), sum(map(len, meta[1:])) > 20)
        ck.count('repetitions', 5)
        ck.count('kept_bytes', max(obs['kept'], 0))
        ck.sample(meta[-1][:150])
        m = []
        if obs['kept'] > 0:
            m.append('%s: each time %d bytes are not released' % (meta[0], obs['kept']))
        if obs['fds'] > 0:
            m.append('%s: each time %d files stay open' % (meta[0], obs['fds']))
        return m
    ck.run([(('leak',) + tuple(c), tuple(c)) for c in cases], oracle, chunk=40, timeout=60)
    ck.finish()


# ------------------------------------------------------------------ C22

def _p(body):
    return 'program p\n' + body + 'end\n'


# many lines: work in proportion to their number
LINES = dict(
    assign=lambda n: _p('x = a + b*c(i)\n' * n), comments=lambda n: _p('! comment\n' * 8 * n), blank=lambda n: _p('\n' * 8 * n),
    decl=lambda n: _p('integer :: x(10)\n' * n), use=lambda n: _p('use m\n' * 2 * n),
    labels=lambda n: _p(''.join('%d x = 1\n' % (i % 99999 + 1) for i in range(n))),
    mixed=lambda n: _p('! c\nx = & ! d\n  & 1; call f(x)\n\n' * (n // 2)),
    loops=lambda n: _p('do i=1,2\nx=1\nend do\n' * (n // 4)), ifs=lambda n: _p('if(a) then\nx=1\nelse\ny=2\nend if\n' * (n // 4)),
    labdo=lambda n: _p(''.join('do %d i=1,2\nx=1\n%d continue\n' % (i % 99999 + 1, i % 99999 + 1) for i in range(n // 4))),
    cases=lambda n: _p('select case(i)\n' + ''.join('case(%d)\nx=1\n' % i for i in range(n // 4)) + 'end select\n'),
    procs=lambda n: 'subroutine s\nx=1\nend subroutine\n' * (n // 3), mods=lambda n: 'module m\nend module\n' * (n // 2),
    inner=lambda n: 'module m\ncontains\n' + 'subroutine s\nx=1\nend subroutine\n' * (n // 3) + 'end module\n',
    types=lambda n: 'module m\ntype t\n' + 'integer :: x\n' * n + 'end type\nend\n',
    ifaces=lambda n: 'module m\ninterface\n' + 'subroutine s\nend subroutine\n' * (n // 2) + 'end interface\nend\n',
    enums=lambda n: _p('enum, bind(c)\n' + 'enumerator a\n' * n + 'end enum\n'),
    macros=lambda n: _p('#if x\n' * 8 * n), includes=lambda n: _p("include 'a'\n" * 4 * n),
    literal=lambda n: _p('!#flpr    literal\n' + 'a\n' * 8 * n + '!#flpr    literal\n'),
)
FIXED = dict(
    assign=lambda n: '      program p\n' + '      x = a + b*c(i)\n' * n + '      end\n',
    mixed=lambda n: '      program p\n' + 'c c\n      x =\n     & 1; call f(x)\n\n' * (n // 2) + '      end\n',
)
# a statement or nest of this size: work at most in proportion to its square
DEEP = dict(
    continued=lambda n: _p('x = a &\n' + '+ b &\n' * n + '+c\n'), sum=lambda n: _p('x = a ' + '+ b' * n + '\n'),
    compound=lambda n: _p('x=1;' * n + '\n'), string=lambda n: _p("x = '" + 'a' * n * 8 + "'\n"), args=lambda n: _p('call f(' + 'a,' * n + 'a)\n'),
    data=lambda n: _p('data x /' + '1,' * n + '1/\n'), fmt=lambda n: _p('1 format(' + 'i3,' * n + 'i3)\n'),
    nestif=lambda n: _p('if (a) then\n' * (n // 4) + 'x=1\n' + 'end if\n' * (n // 4)),
    nestblock=lambda n: _p('block\n' * (n // 4) + 'x=1\n' + 'end block\n' * (n // 4)),
    nestdo=lambda n: _p('do i=1,2\n' * (n // 4) + 'x=1\n' + 'end do\n' * (n // 4)),
    shared=lambda n: _p('do 1 i=1,2\n' * (n // 4) + '1 continue\n'),
)
# brackets within brackets, well formed and not
_B = (('x = ', '(', 'a', ')', ''), ('x = ', '[1,', 'a', ']', ''), ('x = ', '(/1,', 'a', '/)', ''), ('call f(', 'g(', 'a', ')', ')'),
      ('x = ', 'a%f(', 'a', ')', ''), ('write(*,*) ', '(', 'a', ',i=1,2)', ''), ('x = [', '(', 'a', ',i=1,2)', ']'),
      ('data ', '(', 'a(i)', ',i=1,2)', '/1/'), ('1 format(', '2(', 'i3', ')', ')'), ('x = ', '.not.', 'a', '', ''), ('x = ', 'a**', 'a', '', ''),
      ('x = ', 'a(1)(', '1:2', ')', ''), ('x = a(1:', 'b(', '1', ')', ')'), ('x = ', 't(c=', '1', ')', ''), ('allocate(a(', 'a(', '1', ')', '))'),
      ('integer(kind=', 'k(', '1', ')', ') :: x(2)'), ('integer :: x(', 'k(', '1', ')', ')'), ('character(len=', 'k(', '1', ')', ') :: x'),
      ('if (', 'k(', '1', ')', ') x = 1'), ('x(', 'k(', '1', ')', ':) => y'), ('x[', 'k(', '1', ')', '] = y'), ('', 'k(', '1', ')', '%z = y'),
      ('do i = ', 'k(', '1', ')', ', 2\nend do'), ('where (', 'k(', '1', ')', ') x = 1'), ('forall (i = ', 'k(', '1', ')', ':2) x = 1'),
      ('select case (', 'k(', '1', ')', ')\nend select'), ('read(', 'k(', '1', ')', ', *) x'), ('parameter (x = ', 'k(', '1', ')', ')'),
      ('goto (1, 2), ', 'k(', '1', ')', ''), ('print *, ', 'k(', '1', ')', ''), ('stop ', '(', '1', ')', ''), ('deallocate(', 'k(', '1', ')', ')'),
      ('associate (x => ', 'k(', '1', ')', ')\nend associate'), ('type(t(', 'k(', '1', ')', ')) :: x'), ('x => ', 'k(', '1', ')', ''))


def c22():
    ck = Check('C22', 'Inputs of one shape and growing size: long files of one kind of line or construct (10000, then four times as '
               'many lines), long statements and deep nests, brackets within brackets (well formed and damaged). Processor time and '
               'memory of the release build, child by child, must grow in proportion (lines) or at most with the square (one '
               'statement or nest); twice the depth of brackets must not multiply the time. Non-trivial: the bigger input needs '
               'at least 10 ms.')
    try:
        drv = B.build(('driver',), 'fast')['driver']
    except B.BuildError as e:
        print('BUILD FAILED\n%s' % e)
        raise SystemExit(3)
    rng = ck.rng
    d = tempfile.mkdtemp(prefix='flprcost')
    seq = [0]

    def child(case, limit):
        """user time and maximal size of a process which does nothing else"""
        seq[0] += 1
        w = os.path.join(d, 'r%d' % seq[0])
        os.mkdir(w)
        try:
            with open(os.path.join(w, 'in'), 'w') as f:
                f.write(core.encode(case) + '\n')
            with open(os.path.join(w, 'o'), 'wb') as fo, open(os.path.join(w, 'e'), 'wb') as fe:
                p = subprocess.Popen(['bash', '-c', 'ulimit -s unlimited 2>/dev/null; ulimit -t %d; exec "$0" in' % limit, drv],
                                     cwd=w, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe)
                _, st, ru = os.wait4(p.pid, 0)
                p.returncode = st
            with open(os.path.join(w, 'o')) as f:
                out = f.read()
            if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (24, 9) and ru.ru_utime > limit - 1:
                return float(ru.ru_utime), ru.ru_maxrss / 1024., 'slow'
            if '"n"' not in out:
                with open(os.path.join(w, 'e')) as f:
                    return 0., 0., 'ended abnormally (%d): %s %s' % (st, out[:200], f.read()[-200:])
            return ru.ru_utime, ru.ru_maxrss / 1024., None
        finally:
            shutil.rmtree(w, ignore_errors=True)

    def judge(job):
        """the two sizes; again, alone, before they are called too costly"""
        name, small, big, factor = job
        why, seen = None, None
        for attempt in range(4):
            t0, m0, e0 = child(small, 60)
            if e0 and e0 != 'slow':
                return job, e0, None
            limit = factor * max(t0, .02) + .3
            t1, m1, e1 = child(big, int(limit) + 2)
            if e1 and e1 != 'slow':
                return job, e1, None
            seen = (t0, t1, m0, m1)
            if t1 > limit:
                why = 'takes %.2f s, and %s%.2f s for the bigger input' % (t0, 'more than ' if e1 else '', t1)
            elif m1 > factor * m0 + 60:
                why = 'takes %.0f MB, and %.0f MB for the bigger input' % (m0, m1)
            else:
                return job, None, seen
            time.sleep(.2)
        return job, why, seen

    jobs = []
    scale = ck.scale(1, 2)
    for nm in sorted(LINES):
        f = LINES[nm]
        n = rng.choice((9000, 10000, 11000)) * scale
        for what in ('stmts', 'emit', 'indent'):
            jobs.append(('%s of %s' % (what, nm), ('work', 'free', '0', what, f(n)), ('work', 'free', '0', what, f(4 * n)), 8))
    for nm in sorted(FIXED):
        f = FIXED[nm]
        for what in ('stmts', 'indent', 'conv'):
            jobs.append(('%s of fixed %s' % (what, nm), ('work', 'fixed', '72', what, f(10000 * scale)),
                         ('work', 'fixed', '72', what, f(40000 * scale)), 8))
    for nm in ('assign', 'labels', 'loops', 'mixed'):
        f = LINES[nm]
        for what in ('isolate', 'label', 'replace', 'append', 'insert', 'emplace', 'rebuild'):
            n = 8000 * scale
            jobs.append(('%s in %s' % (what, nm), ('work', 'free', '0', what, f(n)), ('work', 'free', '0', what, f(4 * n)), 8))
    for nm in ('procs', 'inner', 'mods'):
        f = LINES[nm]
        jobs.append(('visit of ' + nm, ('work', 'free', '0', 'visit', f(9000 * scale)), ('work', 'free', '0', 'visit', f(36000 * scale)), 8))
    for nm in sorted(DEEP):
        f = DEEP[nm]
        n = 300 * scale
        for what in ('stmts', 'indent', 'rebuild'):
            jobs.append(('%s of %s' % (what, nm), ('work', 'free', '0', what, f(n)), ('work', 'free', '0', what, f(4 * n)), 24))
    for a, o, m, c, z in _B:
        for k, mid in (('', m), ('damaged ', ') ' + m), ('open ', '( ' + m)):
            def f(n):
                return _p(a + o * n + mid + c * n + z + '\n')
            what = 'any'
            jobs.append(('%snest %s%s' % (k, a, o), ('work', 'free', '0', what, f(8)), ('work', 'free', '0', what, f(24)), 30))
    rng.shuffle(jobs)
    try:
        with ThreadPoolExecutor(6) as ex:
            res = list(ex.map(judge, jobs))
        for k, (job, why, seen) in enumerate(res):
            if why and seen:   # once more, with nothing else running
                job, why, seen = judge(job)
            name, small, big, factor = job
            ck.seen(name + '\0' + small[3], bool(seen) and seen[1] >= .01)
            ck.count('growth_' + ('lines' if factor == 8 else 'square' if factor == 24 else 'brackets'))
            if seen:
                ck.count('cpu_ms', int(1000 * (seen[0] + seen[1])))
                if seen[1] >= .05:
                    ck.sample('%s: %.2f s / %.2f s, %.0f / %.0f MB' % ((name,) + seen))
            if why:
                ck.violation('%s: %s' % (name, why), [small, big], dict(seen=seen))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ck.finish()
