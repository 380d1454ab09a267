"""Input and output which fails (C23)."""
import os, shutil, tempfile
from . import core
from . import ftext as F
from . import p_prog, p_scan, p_tool as T
from .core import Check, Crash

KINDS = ('directory', 'broken', 'dangling', 'loop', 'missing', 'unknown', 'noext')


def make_unreadable(d, kind, base):
    """-> name of something in directory d which cannot be read as a source file"""
    n = base + ('.txt' if kind == 'unknown' else '' if kind == 'noext' else '.f90')
    p = os.path.join(d, n)
    if kind == 'directory':
        os.mkdir(p)
    elif kind == 'broken':
        os.symlink('/proc/self/mem', p)     # reading at the beginning is an input/output error
    elif kind == 'dangling':
        os.symlink('nothing', p)
    elif kind == 'loop':
        os.symlink(n, p)
    elif kind in ('unknown', 'noext'):
        with open(p, 'w') as f:
            f.write('end\n')
    return n


def c23():
    ck = Check('C23', 'Generated sources are read from streams which deliver them in pieces of any size, or break down at any '
               'place; things which are not readable files are read by the library and the tools; the tools write to full, '
               'closed and limited outputs. Reading must be refused, with nothing left of the part read, exactly if the '
               'source could not be read to its end; a tool must say if its output is not all there, exactly then, and '
               'module must keep the original. Non-trivial: the fault was met.')
    bins = ck.build(('driver', 'apps'))
    rng = ck.rng
    streams(ck, rng)
    unreadable(ck, bins, rng)
    outputs(ck, bins, rng)
    module(ck, bins, rng)
    ck.finish()


def streams(ck, rng):
    cases = []
    for i in range(ck.scale(4000, 30000)):
        form = rng.choice(('free', 'free', 'fixed'))
        lc = 0 if form == 'free' else 72
        if rng.random() < .5:
            pl, _ = p_scan.gen_doc(rng, form, lc)
            well = False
        else:
            pl = p_prog.gen(rng, form, lc, size=rng.choice((4, 12)))[4]
            well = True
        text = F.text_of(pl, final=rng.random() < .8 or not pl[-1].raw) if pl else ''
        want = F.expected_out(pl, form)
        fail = -1
        if rng.random() < .6:
            ends = [k + 1 for k, c in enumerate(text) if c == '\n']
            fail = rng.choice((0, len(text), rng.randint(0, len(text)), rng.choice(ends or [0]), rng.choice(ends or [0])))
        piece = rng.choice((1, 2, 7, 64, 1 << 20))
        nm = p_scan.name_for(rng, form)
        cases.append((('broken', form, str(lc), nm, str(piece), str(fail), text), (text, want, fail, well)))

    def oracle(meta, obs):
        text, want, fail, well = meta
        ck.seen('%d %s' % (fail, text), fail >= 0)
        ck.count('streams_broken' if fail >= 0 else 'streams_in_pieces')
        ck.sample('%d %s' % (fail, text[:150]))
        m = []
        if fail >= 0:
            if obs['ok']:
                m.append('accepted, although reading failed behind %d of %d characters' % (fail, len(text)))
            elif obs['out'] or obs['n']:
                m.append('lines or statements are left of a source which could not be read')
            if obs['pok'] or obs['pn'] or obs['ptree'] or obs['pout']:
                m.append('a parsed file is made of part of a source')
        else:
            if not obs['ok'] or obs['out'] != want:
                m.append('a source delivered in pieces is read differently: ' + (p_scan.diff(want, obs['out']) if obs['ok'] else 'refused'))
            if well and not (obs['pok'] and obs['pn'] and obs['ptree'] and obs['pout'] == want):
                m.append('a parsed file of a source delivered in pieces is not the whole source')
        if not obs['ok2'] or obs['out2'] != want:
            m.append('read again, the source is read differently: ' + (p_scan.diff(want, obs['out2']) if obs['ok2'] else 'refused'))
        return m
    ck.run(cases, oracle)


def unreadable(ck, bins, rng):
    d = tempfile.mkdtemp(prefix='flprfault')
    try:
        cases = []
        for kind in KINDS:
            n = os.path.join(d, make_unreadable(d, kind, kind))
            cases.append((('unreadable', n), kind))

        def oracle(kind, obs):
            ck.seen('library ' + kind, True)
            ck.count('unreadable_' + kind)
            if obs['ok'] or obs['n'] or obs['pok'] or obs['qret'] or obs['qok'] or obs['qn']:
                return ['%s: accepted as a source file: %s' % (kind, obs)]
        ck.run(cases, oracle)
    finally:
        shutil.rmtree(d)
    runs = []
    for i in range(ck.scale(3, 30)):
        for kind in KINDS:
            for tool in ('flpr-format', 'caliper', 'parse_files', 'module', 'module -f', 'parse_files -f'):
                if tool[-2:] == '-f' and kind in ('unknown', 'noext'):
                    continue
                s = T.source(rng, 'free', 0)
                n = 'bad' + ('.txt' if kind == 'unknown' else '' if kind == 'noext' else '.f90')
                a = {'flpr-format': ['-o', n, 'good.f90'], 'caliper': [n], 'parse_files': [n, 'good.f90'],
                     'module': ['foo', 'mod', n], 'module -f': ['-f', n, 'mod', 'good.f90'],
                     'parse_files -f': ['-f', n, 'good.f90']}[tool]
                r = T.Run(tool.split()[0], a, {'good.f90': s.text})
                r.prepare = lambda d, kind=kind: make_unreadable(d, kind, 'bad')
                r.what, r.kind, r.s = tool, kind, s
                runs.append(r)
    T.run_tools(bins, runs)
    for r in runs:
        ck.seen('%s %s' % (r.what, r.kind) + r.s.text, True)
        ck.count('tool_' + r.what.replace(' ', ''))
        m = None
        want = {'flpr-format': 2, 'caliper': 2, 'parse_files': 0}.get(r.what, 1)
        # a list is a readable file, even if it is an odd one, unless it cannot be opened
        opened = r.what[-2:] == '-f' and r.kind in ('directory', 'broken')
        if r.died:
            m = r.died
        elif r.rc != want and not opened:
            m = 'exit status %d, expected %d' % (r.rc, want)
        elif r.after.get('good.f90') != r.s.text:
            m = 'another file was changed'
        elif not r.err.strip() and not opened:
            m = 'nothing is said'
        elif r.what == 'parse_files' and r.out.count('read/scan FAILED') != 1:
            m = 'not reported: ' + F.show(r.out)
        elif r.what == 'flpr-format' and ('"%s"' % r.args[1] not in r.err or not r.out):
            m = 'the file is not named, or the other file not formatted'
        if m:
            ck.violation('%s, %s: %s' % (r.what, r.kind, m), [r.case()], dict(out=r.out, err=r.err[-1500:]))


def outputs(ck, bins, rng):
    """flpr-format and caliper write to somewhere which does not take it all"""
    runs = []
    for i in range(ck.scale(120, 1500)):
        tool = rng.choice(('flpr-format', 'caliper'))
        form = rng.choice(('free', 'fixed'))
        s = T.source(rng, form, 0, size=rng.choice((6, 15, 60)))
        nm = T.name_of(rng, form, 0)
        r = T.Run(tool, (rng.choice((['-o'], ['-of'], [], ['-oi'])) if tool == 'flpr-format' else []) + [nm], {nm: s.text})
        runs.append(r)
    T.run_tools(bins, runs)
    second = []
    for r in runs:
        if r.died:
            ck.violation(r.died, [r.case()], dict(err=r.err[-1500:]))
            continue
        for how in ('/dev/full', 'closed', 'limit', 'enough'):
            if how == 'limit' and not r.out:
                continue
            q = T.Run(r.tool, r.args, r.files)
            if how == 'limit':
                q.limit = rng.choice((0, len(r.out) - 1, rng.randrange(len(r.out)), len(r.out) - 1))
            elif how == 'enough':
                q.limit = len(r.out)
            else:
                q.sink = how
            q.r, q.how = r, how
            second.append(q)
    T.run_tools(bins, second)
    for q in second:
        ck.seen('%s %s %s' % (q.how, q.limit, list(q.files.values())), bool(q.r.out) and q.how != 'enough')
        ck.count('output_' + q.how.replace('/dev/', ''))
        m = None
        if q.died:
            m = q.died
        elif q.how == 'enough' or not q.r.out:
            ck.count('output_complete')
            if q.rc != q.r.rc or q.out != q.r.out or q.err != q.r.err:
                m = 'all of the output was written, but exit status %d, expected %d; %s' % (q.rc, q.r.rc, F.show(q.err))
        elif q.rc == 0:
            m = 'exit status 0, although %s' % ('only %d of %d bytes were written' % (len(q.out), len(q.r.out)) if q.limit is not None
                                                else 'nothing could be written')
        elif not q.err.strip():
            m = 'nothing is said'
        elif q.limit is not None and not q.r.out.startswith(q.out):
            m = 'other output was written'
        if not m and q.after != q.files:
            m = 'files were changed'
        if m:
            ck.violation('%s, output %s %s: %s' % (q.tool, q.how, '' if q.limit is None else q.limit, m), [q.case()],
                         dict(out=q.out, err=q.err[-1500:]))


def module(ck, bins, rng):
    runs = []
    for i in range(ck.scale(120, 1500)):
        form = rng.choice(('free', 'fixed'))
        s = T.with_unique_comments(lambda: T.Src2(rng, form, size=rng.choice((10, 20, 40))))
        nm = T.name_of(rng, form, 0)
        runs.append(T.Run('module', ['foo', 'mod', nm], {nm: s.text}))
    T.run_tools(bins, runs)
    second = []
    for r in runs:
        nm = r.args[-1]
        if r.died:
            ck.violation(r.died, [r.case()], dict(err=r.err[-1500:]))
            continue
        new = r.after[nm]
        for how in ('limit', 'enough', 'nobackup'):
            q = T.Run(r.tool, r.args, r.files)
            q.r, q.how, q.changed = r, how, nm + '.bak' in r.after
            if how == 'nobackup':
                def prep(d, nm=nm):
                    os.makedirs(os.path.join(d, nm + '.bak', 'x'))
                q.prepare = prep
            else:
                q.limit = len(new) if how == 'enough' else rng.choice((0, len(new) - 1, rng.randrange(len(new))))
            second.append(q)
    T.run_tools(bins, second)
    for q in second:
        nm, old = q.args[-1], list(q.files.values())[0]
        ck.seen('module %s %s %s' % (q.how, q.limit, old), q.changed)
        ck.count('module_' + q.how + ('' if q.changed else '_unchanged'))
        m = None
        if q.died:
            m = q.died
        elif q.how == 'enough' or not q.changed:
            if q.rc or q.after != q.r.after:
                m = 'exit status %d, files %s' % (q.rc, sorted(q.after))
        elif not q.rc or not q.err.strip():
            m = 'exit status 0, or nothing said'
        elif q.how == 'nobackup' and q.after != q.files:
            m = 'the original could not be kept, but the file was changed'
        elif q.how == 'limit' and q.after.get(nm + '.bak') != old:
            m = 'the original was not kept'
        if m:
            ck.violation('module, %s %s: %s' % (q.how, '' if q.limit is None else q.limit, m), [q.case()],
                         dict(after=q.after, err=q.err[-1500:]))
