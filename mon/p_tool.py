"""The command-line tools: flpr-format, parse_files, flpr_show_cst, ext_demo (C19), module, caliper (C20)."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import core
from . import ftext as F
from . import prog as P
from . import p_prog as Q
from . import p_proc as PR
from .core import Check, Crash
from .p_edit import with_unique_comments, comments_of
from .p_scan import diff


class Run(object):
    """one run of a tool in a directory of its own"""

    def __init__(self, tool, args, files=None, stdin=''):
        self.tool, self.args, self.files, self.stdin = tool, args, dict(files or {}), stdin
        self.rc = self.out = self.err = self.after = None
        self.died = None
        self.prepare = None     # called with the directory before the run
        self.sink = None        # where the output goes: '/dev/full', 'closed', or None for a pipe
        self.limit = None       # no file can grow beyond this

    def case(self):
        return (self.tool, json.dumps(self.args), json.dumps(self.files), self.stdin)


def run_tools(bins, runs, timeout=60):
    def one(r):
        if core.Effort.enough():
            r.rc, r.out, r.err, r.after, r.died = -1, '', '', {}, 'not run: many other runs died'
            return
        d = tempfile.mkdtemp(prefix='flprtool')
        try:
            for n, t in r.files.items():
                with open(os.path.join(d, n), 'wb') as f:
                    f.write(t.encode('latin-1'))
            if r.prepare:
                r.prepare(d)
            cmd, to = [bins[r.tool]] + r.args, subprocess.PIPE
            if r.limit is not None:
                cmd = ['sh', '-c', 'trap "" XFSZ; exec prlimit --fsize=%d -- "$@"' % r.limit, 'sh'] + cmd
                to = open(os.path.join(d, 'stdout'), 'wb')
            elif r.sink == 'closed':
                cmd = ['sh', '-c', 'exec "$@" >&-', 'sh'] + cmd
            elif r.sink:
                to = open(r.sink, 'wb')
            p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=to, stderr=subprocess.PIPE, cwd=d, env=core.ENV)
            if to != subprocess.PIPE:
                to.close()
            try:
                out, err = p.communicate(r.stdin.encode('latin-1'), timeout=timeout)
                out = out or b''
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
                out = out or b""
                r.died = 'hang'
            r.rc, r.out, r.err = p.returncode, out.decode('latin-1'), err.decode('latin-1')
            if r.rc < 0 or r.rc in (77, 78) or 'runtime error:' in r.err or 'ERROR: AddressSanitizer' in r.err:
                core.Effort.hangs += r.died == 'hang'
                core.Effort.crashes += 1
                r.died = r.died or core.summarize(r.err) or 'exit/signal rc=%d' % r.rc
            r.after = {}
            for n in os.listdir(d):
                if os.path.islink(os.path.join(d, n)) or not os.path.isfile(os.path.join(d, n)):
                    continue
                with open(os.path.join(d, n), 'rb') as f:
                    r.after[n] = f.read().decode('latin-1')
            if r.limit is not None:
                r.out = r.after.pop('stdout')
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, runs))
    return runs


def reread(ck, texts):
    """texts: (text, form, lc, indent spec) -> observations of the driver"""
    uniq = {}
    for t in texts:
        uniq.setdefault(t, len(uniq))
    cases = [('parse', form, str(lc), 'x.f90' if form == 'free' else 'x.f', '', spec, text) for text, form, lc, spec in uniq]
    res = core.run_cases(ck.driver, cases, chunk=60, stop_early=False)
    return [res[uniq[t]] for t in texts]


TAGGED = re.compile(r' #u\d+\.')


def comments_in(text):
    return TAGGED.findall(text)


def specials(el):
    return [F.norm_tabs(p.raw).strip() for e in el for p in e.plines if e.cat not in 'TF' and p.raw.strip()]


def lines_in_order(want, text):
    """first line of want which text does not have, in order"""
    ls = [l.strip() for l in text.split('\n')]
    i = 0
    for w in want:
        try:
            i = ls.index(w, i) + 1
        except ValueError:
            return w
    return None


class Src(object):
    """a generated source file"""
    prog = P.Prog

    def __init__(self, rng, form, lc, plain=False, prepare=None, **kw):
        self.p = self.prog(rng, size=kw.pop('size', rng.choice((6, 15, 30))), **kw)
        self.tree = self.p.program()
        if prepare:
            prepare(self.p)
        self.form, self.lc = form, lc
        items = self.p.items(form, compound=0 if plain else rng.choice((0, .15, .4)))
        if not plain and rng.random() < .5:
            for it in items:
                if isinstance(it, F.Line) and rng.random() < .15:
                    it.trail_semi = rng.choice((0, 1, 2))
                    if form == 'free' and not it.label:
                        it.lead_semi = rng.choice((0, 0, 1, 2))
                    if len(it.stmts) > 1:
                        it.dbl = {rng.randrange(len(it.stmts) - 1): 1}
        st = dict(p_cont=rng.choice((0., .08, .2)), p_split=rng.choice((0, .02)), max_line=rng.choice((60, 100, 132)))
        self.pl, self.el = F.do_layout(items, rng, form, lc, **st)
        self.text = F.text_of(self.pl)
        self.printed = F.expected_out(self.pl, form)
        self.stmts = [(e[0], e[4]) for e in F.expected_stmts(self.el)]
        self.comments = comments_of(self.el)
        self.specials = specials(self.el)


def source(rng, form, lc, **kw):
    return with_unique_comments(lambda: Src(rng, form, lc, **kw))


BAD = ['subroutine s\n  x = 1\n', 'program p\nif (x) then\nend program\n', 'end do\nend\n', 'x = = 1\nend\n']


def c19():
    ck = Check('C19', 'The installed tools are run on generated files. flpr-format with every combination of options: the '
               'text it writes, read again, must have the statements, labels, comments and special lines of the input, one '
               'statement per line, no empty statements in free form, the requested indentation, and formatting it again '
               'must write nothing; output, silence and exit status as documented. parse_files, flpr_show_cst and ext_demo '
               'must report what the file contains. Non-trivial: at least four statements.')
    bins = ck.build(('driver', 'apps'))
    rng = ck.rng
    fmt(ck, bins, rng)
    files(ck, bins, rng)
    show(ck, bins, rng)
    demo(ck, bins)
    misuse(ck, bins)
    ck.finish()


def name_of(rng, form, k):
    return 'in%d.%s' % (k, rng.choice(('f90', 'F90') if form == 'free' else ('f', 'F')))


def join_lines(text, form, rng):
    """text with some pairs of plain neighbours, well apart, made into compound lines -> text or None"""
    ls = text.split('\n')
    plain = lambda l: re.match(r' {%d}[ ]*[A-Za-z][^!&\'";#\t]*$' % (0 if form == 'free' else 6), l) and not re.match(r' *include\b', l, re.I)
    cont = lambda l: form == 'fixed' and len(l) > 5 and l[:5] == '     ' and l[5] not in ' 0' or \
        form == 'free' and l.lstrip()[:1] == '&'
    c = [i for i in range(1, len(ls) - 2) if plain(ls[i]) and plain(ls[i + 1]) and not cont(ls[i + 2]) and
         not ls[i - 1].rstrip().endswith(('&', '\\')) and
         len(ls[i].rstrip()) + len(ls[i + 1].lstrip()) + 2 <= 72]
    if not c:
        return None
    for i in sorted(rng.sample(c, min(len(c), rng.choice((1, 1, 3)))), reverse=True):
        if i + 1 < len(ls) and plain(ls[i]) and plain(ls[i + 1]):
            ls[i:i + 2] = [ls[i].rstrip() + '; ' + ls[i + 1].lstrip()]
    return '\n'.join(ls)


def fmt(ck, bins, rng):
    runs = []
    for i in range(ck.scale(900, 9000)):
        n = 1 if rng.random() < .85 else rng.randint(2, 3)
        opts = set(o for o in 'fiovt' if rng.random() < .4)
        if rng.random() < .1:
            opts.add('e')
        if rng.random() < .08:
            opts.add('q')
        forms = [rng.choice(('free', 'free', 'fixed')) for _ in range(n)]
        col72 = 'i' not in opts and rng.random() < .5 and all(f == 'fixed' for f in forms)
        if col72:
            opts.add('c')
        elif rng.random() < .3 and all(f == 'free' for f in forms):
            opts.add('c')       # no effect on free form
        srcs = []
        for f in forms:
            lc = 0 if f == 'free' else 72 if col72 else 0
            srcs.append(source(rng, f, lc, plain=rng.random() < .2))
        names = [name_of(rng, f, k) for k, f in enumerate(forms)]
        fs = {nm: s.text for nm, s in zip(names, srcs)}
        order = list(names)
        bad = None
        if rng.random() < .1:
            bad = rng.choice(('missing', 'malformed'))
            bn = 'bad.f90'
            if bad == 'malformed':
                fs[bn] = rng.choice(BAD)
            order.insert(rng.randint(0, n), bn)
        o = sorted(opts)
        rng.shuffle(o)
        r = Run('flpr-format', (['-' + x for x in o] if rng.random() < .5 else ['-' + ''.join(o)] if o else []) + order, fs)
        r.srcs, r.names, r.opts, r.bad = srcs, names, opts, bad
        runs.append(r)
    run_tools(bins, runs)
    # what a file turns into: alone in its run, or taken out of the common output
    again, texts = [], []
    for r in runs:
        r.parts = None
        if len(r.srcs) == 1 and r.bad != 'malformed':
            r.parts = [r.out]
        else:
            a = []
            for nm, s in zip(r.names, r.srcs):
                q = Run('flpr-format', [x for x in r.args if x[0] == '-'] + [nm], {nm: s.text})
                a.append(q)
            r.alone = a
            again += a
    run_tools(bins, again)
    second = []
    for r in runs:
        if r.parts is None:
            r.parts = [q.out for q in r.alone]
        r.eff, r.eform = [], []
        for s, o in zip(r.srcs, r.parts):
            eff = o if o else s.text
            form = 'free' if 'f' in r.opts and o else s.form
            if form == 'free':
                spec = 'e0'
            else:
                spec = 'f4'
            texts.append((eff, form, s.lc if form == 'fixed' else 0, spec))
            r.eff.append(eff)
            r.eform.append(form)
        r.second = []
        if 'q' not in r.opts:
            for nm, eff, form in zip(r.names, r.eff, r.eform):
                nm2 = 'again.' + ('f90' if form == 'free' else 'f')
                q = Run('flpr-format', ['-' + x for x in sorted(r.opts - set('ovt'))] + [nm2], {nm2: eff})
                r.second.append(q)
                second.append(q)
                q.joined = None
                j = join_lines(eff, form, rng) if 'i' in r.opts and 'c' not in r.opts else None
                if j:
                    q.joined = Run('flpr-format', ['-' + x for x in sorted(r.opts - set('ovt'))] + [nm2], {nm2: j})
                    second.append(q.joined)
    run_tools(bins, second)
    obs = iter(reread(ck, texts))
    for r in runs:
        m = judge_fmt(ck, r, [next(obs) for _ in r.srcs])
        for x in m[:3]:
            ck.violation('flpr-format %s: %s' % (' '.join(r.args), x), [r.case()], dict(rc=r.rc, out=r.out, err=r.err[-1500:]))


def judge_fmt(ck, r, obs):
    ck.seen(' '.join(r.args) + ''.join(s.text for s in r.srcs), sum(len(s.stmts) for s in r.srcs) > 3)
    ck.count('format_runs')
    ck.count('format_opt_' + ''.join(sorted(r.opts - set('ovt'))))
    ck.sample('%s: %s' % (r.args, r.srcs[0].text[:200]))
    if r.died:
        return [r.died]
    m = []
    want_rc = 2 if r.bad else 0
    if r.rc != want_rc:
        return ['exit status %d, expected %d' % (r.rc, want_rc)]
    if r.bad:
        ck.count('format_bad_' + r.bad)
        if 'Error formating file "bad.f90"' not in r.err:
            m.append('the file that could not be formatted is not named')
    for nm in r.names:
        if 'Error formating file "%s"' % nm in r.err:
            return ['a well-formed file was not accepted']
    if set(r.after) - {'bad.f90'} != set(r.names) or any(r.after[nm] != s.text for nm, s in zip(r.names, r.srcs)):
        m.append('an input file was changed, or another file made')
    if 'q' in r.opts:
        i = max((k for k, a in enumerate(r.args) if a[0] == '-' and 'q' in a), default=0)
        seq = ''.join(a[1:] for a in r.args if a[0] == '-')
        tail = seq[seq.index('q'):]
        ck.count('format_quiet')
        if 'o' not in tail and r.out:
            m.append('quiet, but wrote output')
        if not set('vt') & set(tail) and not r.bad and r.err:
            m.append('quiet, but wrote messages: ' + F.show(r.err))
        if 'o' not in tail:
            return m
    if r.opts & set('vt') and 'q' not in r.opts:
        for w in ('read_file', 'make_stmts', 'build_parse_tree') + (('indent',) if 'i' in r.opts else ()):
            if 'Performing ' + w + '... ' not in r.err:
                m.append('phase %s is not shown' % w)
    elif not r.bad and 'q' not in r.opts and r.err:
        m.append('messages without -v: ' + F.show(r.err))
    if len(r.srcs) > 1 and not r.bad and r.out != ''.join(r.parts):
        m.append('the output for several files is not the output for each of them in turn')
    if r.bad and r.bad != 'malformed' and r.out != ''.join(r.parts):
        m.append('another file which cannot be read changes the output')
    for k, (s, out, eff, form, o) in enumerate(zip(r.srcs, r.parts, r.eff, r.eform, obs)):
        who = r.names[k] + ': '
        ck.count('format_written' if out else 'format_nothing_to_do')
        if out and out == s.text and 'o' not in r.opts and not (s.form == 'fixed' and 'f' in r.opts):
            m.append(who + 'nothing changed, but output was written')
        if out and 'i' not in r.opts and ';' not in s.text and not (s.form == 'fixed' and 'f' in r.opts):
            ck.count('format_nothing_to_do')
            if out != s.printed:
                m.append(who + 'nothing to do, but the text changed: ' + diff(s.printed, out))
        if not out and 'o' in r.opts and s.stmts:
            m.append(who + 'no output with -o')
        if not out and s.form == 'fixed' and 'f' in r.opts:
            m.append(who + 'fixed form was not converted')
        if isinstance(o, Crash) or not o.get('good'):
            m.append(who + 'the output is no longer a well-formed program: ' + F.show(eff, 600))
            continue
        got = [(x['label'], x['toks']) for x in o['stmts']]
        if got != s.stmts:
            j = next((j for j in range(min(len(got), len(s.stmts))) if got[j] != s.stmts[j]), min(len(got), len(s.stmts)))
            m.append(who + 'statement %d (label, tokens): input %s, output %s' % (
                j, F.show(s.stmts[j]) if j < len(s.stmts) else 'none', F.show(got[j]) if j < len(got) else 'none'))
        if any(x['comp'] for x in o['stmts']):
            m.append(who + 'compound statements are left')
        ck.count('format_statements', len(got))
        c = comments_in(eff)
        if c != s.comments:
            m.append(who + 'comments: input %s, output %s' % (F.show(s.comments), F.show(c)))
        ck.count('format_comments', len(c))
        x = lines_in_order(s.specials, eff)
        if x is not None:
            m.append(who + 'line %s is lost' % F.show(x))
        if form == 'free' and o['semis']:
            m.append(who + 'empty statements are left')
        # a comment which was between the lines of a statement may have ended up behind it
        calm = (lambda t: re.sub(r'(?m)^ +!', '!', t)) if ';' in s.text else (lambda t: t)
        if 'i' in r.opts and o.get('ind1') and calm(eff) != calm(o['iout']):
            m.append(who + 'the output is not indented: %s' % diff(eff, o['iout']))
        if 'q' not in r.opts:
            q = r.second[k]
            if q.died or q.rc or q.out and calm(q.out) != calm(eff):
                m.append(who + 'formatting the output again: %s' % (
                    q.died or 'exit status %d' % q.rc if q.died or q.rc else diff(eff, q.out)))
            if q.joined and (not o.get('ind1') or calm(eff) == calm(o['iout'])):
                ck.count('format_joined_again')
                q = q.joined
                calm = lambda t: re.sub(r'(?m)^(?: *!|[*cC]).*$| +$', lambda x: re.sub(r'\s+', ' ', x.group()).strip(), t)
                if q.died or q.rc or calm(q.out) != calm(eff):
                    m.append(who + 'formatting the output with two lines joined: %s' % (
                        q.died or 'exit status %d' % q.rc if q.died or q.rc else diff(eff, q.out)))
    return m


# ------------------------------------------------------------------ parse_files

def files(ck, bins, rng):
    runs = []
    for i in range(ck.scale(150, 1500)):
        n = rng.choice((1, 1, 2, 4))
        fs, exp, args = {}, [], []
        for k in range(n):
            nm = name_of(rng, 'free', k)
            z = rng.random()
            if z < .1:
                exp.append((nm, None, None))
            elif z < .25:
                fs[nm] = rng.choice(BAD)
                exp.append((nm, fs[nm], None))
            else:
                form = rng.choice(('free', 'fixed'))
                nm = name_of(rng, form, k)
                s = source(rng, form, 0)
                fs[nm] = s.text
                exp.append((nm, s.text, s))
        listed = rng.randint(0, n) if rng.random() < .5 else 0
        if listed:
            fs['list'] = ''.join(nm + '\n' for nm, _, _ in exp[:listed])
            args = ['-f', 'list']
        r = Run('parse_files', args + [nm for nm, _, _ in exp[listed:]], fs)
        r.exp = exp
        runs.append(r)
    run_tools(bins, runs)
    for r in runs:
        ck.seen('parse_files' + ''.join(r.files.values()), True)
        ck.count('parse_files_runs')
        if r.died:
            ck.violation('parse_files: ' + r.died, [r.case()], dict(err=r.err[-1500:]))
            continue
        want = ''
        for nm, text, s in r.exp:
            want += "Processing: '%s'\n\tscanning...\n" % nm
            if text is None:
                want += '\tread/scan FAILED\n'
                continue
            if s is None:
                nl = text.count('\n')
                want += '\tscan created %d logical lines from %d input text lines.\n\tparsing...\n' % (nl, nl)
                want += '\tparsing FAILED\n'
            else:
                want += '\tscan created %d logical lines from %d input text lines.\n\tparsing...\n' % (len(s.el), len(s.pl))
                want += '\troot rule "program" has %d branches. \n' % len(s.tree[1])
        want += 'done.\n'
        if r.rc or r.out != want:
            ck.violation('parse_files: exit status %d, %s' % (r.rc, diff(want, r.out)), [r.case()], dict(out=r.out))


# ------------------------------------------------------------------ flpr_show_cst

def render(t):
    """a statement tree as it is printed"""
    return t[0] + (' <' + ''.join(render(k) + ' ' for k in t[3:]) + '>' if len(t) > 3 else '')


def line_text(toks):
    s = ''
    for i, t in enumerate(toks):
        if i and F.gap_kind(toks[i - 1], t) != 'N':
            s += ' '
        s += t.text
    return s


def show(ck, bins, rng):
    tags = core.run_cases(ck.driver, [('stmttags',)])[0]
    if isinstance(tags, Crash):
        ck.violation('list of tags: ' + tags['sig'], [('stmttags',)], tags)
        return
    labels = [l for l, t in tags['tags'] if t == 5]
    runs, cases = [], []
    for i in range(ck.scale(60, 600)):
        p = P.Prog(rng, size=rng.choice((4, 10)))
        p.program()
        k = rng.randrange(len(p.st))
        st = p.st[k:k + rng.randint(1, 6)]
        if rng.random() < .5:
            st.insert(rng.randint(0, len(st)), P.S(F.lex(rng.choice(('x x = 3', 'foo bar', 'a =', ') b'))), 0, '?'))
        pl, el = F.do_layout([F.Line([s.toks], s.label) for s in st], rng, 'free', 0, p_cont=.1)
        if not all(q.raw for q in pl):
            continue
        r = Run('flpr_show_cst', [], {}, F.text_of(pl) + rng.choice(('', '\nnot read\n')))
        r.st = st
        r.first = [1 + sum(len(e.plines) for e in el[:j]) for j, e in enumerate(el) if e.cat == 'F']
        r.at = len(cases)
        cases += [('stmt', 'free', '0', line_text(s.toks)) + tuple('@' + l for l in labels) for s in st]
        runs.append(r)
    run_tools(bins, runs)
    obs = core.run_cases(ck.driver, cases, chunk=20, stop_early=False)
    for r in runs:
        ck.seen('show' + r.stdin, len(r.st) > 1)
        ck.count('show_cst_runs')
        m = None
        if r.died or r.rc:
            m = r.died or 'exit status %d' % r.rc
        else:
            want = []
            for j, s in enumerate(r.st):
                o = obs[r.at + j]
                if isinstance(o, Crash):
                    m = o['sig']
                    break
                n = 0
                for res in o['res']:
                    t = res[0]['t']
                    if t:
                        n += 1
                        want.append('%d: %s' % (n, render(t)))
                ck.count('show_cst_trees', n)
                if not n:
                    want.append('Unrecognized: Line:%d:' % r.first[j])
            got = [l[:l.index(':', 19) + 1] if l.startswith('Unrecognized: Line:') else l for l in r.out.split('\n')[:-1]]
            if not m and got != want:
                m = diff('\n'.join(want) + '\n', '\n'.join(got) + '\n')
        if m:
            ck.violation('flpr_show_cst: ' + m, [r.case()], dict(out=r.out, err=r.err[-1500:]))


def demo(ck, bins):
    r = run_tools(bins, [Run('ext_demo', [])])[0]
    w = '(unknown file):1: '
    want = ('Default parser recognizes "write-stmt" from "%swrite(*,100) a,b"\n'
            'Default parser DOES NOT recognize "%swrite(*,100), a,b"\n'
            'Extended parser recognizes "write-stmt" from "%swrite(*,100), a,b"\n'
            'Extended parser recognizes "my-write-stmt" from "%swrite(*,100), a,b"\n') % (w, w, w, w)
    ck.seen('ext_demo', True)
    ck.count('ext_demo_runs')
    if r.died or r.rc or r.out != want:
        ck.violation('ext_demo: %s' % (r.died or diff(want, r.out)), [r.case()], dict(out=r.out, err=r.err[-1500:]))


# ------------------------------------------------------------------ module, caliper

def misuse(ck, bins):
    """command lines and inputs which cannot be served"""
    f = {'a.f90': 'x = 1\nend\n', 'a.txt': 'x = 1\nend\n', 'noext': 'end\n', 'empty.f90': '', 'c.f90': '! c\n'}
    no = "Processing: '%s'\n\tscanning...\n\tread/scan FAILED\n"
    for tool, a, stdin, rc, out, err in (
            ('flpr-format', [], '', 1, '', 'usage'), ('flpr-format', ['-z', 'a.f90'], '', 1, '', 'usage'),
            ('flpr-format', ['-oz', 'a.f90'], '', 1, '', 'usage'), ('flpr-format', ['-o'], '', 1, '', 'usage'),
            ('flpr-format', ['-o', 'a.txt'], '', 2, '', '"a.txt"'), ('flpr-format', ['-o', 'noext'], '', 2, '', '"noext"'),
            ('flpr-format', ['--', '-o'], '', 2, '', '"-o"'), ('flpr-format', ['-o', 'empty.f90'], '', 0, '', None),
            ('flpr-format', ['-o', 'c.f90'], '', 0, '! c\n', None),
            ('flpr-format', ['-o', 'noext', 'a.f90', 'a.txt'], '', 2, f['a.f90'], '"a.txt"'),
            ('parse_files', ['-z', 'a.f90'], '', 1, '', 'unknown option'), ('parse_files', ['-f'], '', 1, '', 'unknown option'),
            ('parse_files', ['-f', 'missing'], '', 1, '', '"missing"'), ('parse_files', ['-f', 'empty.f90'], '', 1, '', 'error'),
            ('parse_files', [], '', 0, 'done.\n', None), ('parse_files', ['a.txt', 'noext'], '', 0, no % 'a.txt' + no % 'noext' + 'done.\n', '"a.txt"'),
            ('flpr_show_cst', [], '', 1, '', 'No lines'), ('flpr_show_cst', [], '\nx = 1\n', 1, '', 'No lines'),
            ('flpr_show_cst', [], "x = 'abc\n", 2, '', 'scan failed'), ('flpr_show_cst', [], 'x = 1\ny = "\n', 2, '', 'scan failed'),
            ('flpr_show_cst', [], '! only this\n', 0, '', 'Enter')):
        r = run_tools(bins, [Run(tool, a, f, stdin)])[0]
        ck.count('misuse')
        ck.seen('%s %s %s' % (tool, a, stdin), True)
        m = r.died
        if not m and r.rc != rc:
            m = 'exit status %d, expected %d' % (r.rc, rc)
        elif not m and r.out != out:
            m = 'wrote %s, expected %s' % (F.show(r.out), F.show(out))
        elif not m and (err not in r.err if err else r.err):
            m = 'message is %s' % F.show(r.err)
        elif not m and r.after != r.files:
            m = 'files were changed'
        if m:
            ck.violation('%s %s: %s' % (tool, a, m), [r.case()], dict(out=r.out, err=r.err))


def used_module(toks):
    i = 1
    if toks[i].text == ',':
        i += 2
    if toks[i].text == '::':
        i += 1
    return toks[i].text.lower()


def action_at(toks):
    """where the action of an IF statement starts"""
    d = 0
    for i, t in enumerate(toks):
        d += (t.text == '(') - (t.text == ')')
        if d == 0 and i:
            return i + 1


def called(toks):
    """name which a CALL statement, or one inside an IF statement, invokes; None if there is none"""
    at = action_at(toks) if toks[0].tag == 'IF' else 0
    if toks[at].tag != 'CALL':
        return None
    d, nm = 0, None
    for t in toks[at + 1:]:
        if t.text in '([':
            d += 1
        elif t.text in ')]':
            d -= 1
        elif d == 0 and t.text != '%':
            nm = t.text.lower()
    return nm


def add_calls(p, rng):
    """more CALL, RETURN and USE statements, also with elaborate designators"""
    call = lambda: 'call ' + rng.choice(('foo', 'Foo', 'a%foo', 'a(2)%foo(1)', 'a(1)%b(2)%FOO', 'a[1]%foo()', 'bar', 'bar',
                                         'foo%bar', 'foo(1)%bar', 'foo(bar, "foo")', 'bar(foo)', 'a(foo)%b', 'c', 'b',
                                         'a%b%c%bar(foo(1))', 'call', 'if(call)', 'a%foo(*10)'))
    cond = lambda: 'if (' + rng.choice(('a', 'foo(1) == 2', 'call', '.not. (a)', "')' == b")) + ') '
    for s in p.st:
        if s.kind == 'call-stmt' and rng.random() < .6:
            s.toks = F.lex(call())
        elif s.kind == 'if-stmt' and rng.random() < .6:
            s.toks = F.lex(cond() + rng.choice((call(), call(), 'return', 'return', 'x = foo(2)', 'stop')))
        elif s.kind == 'return-stmt':
            s.toks = s.toks[:1]
        elif s.kind == 'use-stmt' and rng.random() < .8:
            s.toks = F.lex('use ' + rng.choice(('my_mod', ':: My_Mod', ', non_intrinsic :: MY_MOD', 'other, only: my_mod',
                                                'my_mod, only: x', 'my_mod2', ', intrinsic :: other', 'zmod', 'use',
                                                'x, my_mod => zmod')))
    for s in p.st:
        if s.kind == 'if-stmt' and Q.inner_action(s.toks) == 'return-stmt':
            s.toks = s.toks[:action_at(s.toks) + 1]      # alternate returns cannot become jumps


class Calls(P.Prog):
    """programs rich in CALL, IF and RETURN statements, some with labels around those the tools would like to have"""
    def __init__(self, rng, **kw):
        P.Prog.__init__(self, rng, **kw)
        self.step = (1, 7)
        if rng.random() < .25:
            self.lab, self.step = rng.choice((9990, 9994, 9996, 9997)), (1, rng.choice((1, 1, 2)))

    def newlab(self):
        self.lab += self.rng.randint(*self.step)
        return self.lab

    def action(self, label=None, exclude=()):
        k = self.rng.choice(('call-stmt', 'return-stmt', 'if-stmt', 'if-stmt', '', '', '', ''))
        if k and k not in exclude:
            return self.s(k, 'action-stmt', label)
        return P.Prog.action(self, label, exclude)


class Src2(Src):
    prog = Calls

    def __init__(self, rng, form, **kw):
        Src.__init__(self, rng, form, 0, prepare=lambda p: add_calls(p, rng), **kw)
        self.first = {}      # statement -> ELine, and the other way round
        self.line = []
        for li, e in enumerate(self.el):
            if e.cat == 'F':
                for q in e.item.stmts:
                    if q:
                        self.line.append(li)

    def kept(self, dirty, broken):
        """printed lines which may not change: dirty statements have another text, lines are broken in front of others"""
        bad = set(self.line[i] for i in dirty)
        bad |= set(self.line[i] for i in broken if i and i < len(self.line) and self.line[i - 1] == self.line[i])
        return [(q.raw if self.form == 'free' else F.norm_tabs(q.printed))
                for li, e in enumerate(self.el) if li not in bad for q in e.plines]


def exact_lines(want, text):
    """first wanted line which is missing or out of order; comments in front of an inserted statement are indented with it"""
    norm = lambda l: ' '.join(l.split()) if l.lstrip()[:1] == '!' else l
    ls = [norm(l) for l in text.split('\n')]
    want = [norm(l) for l in want]
    i = 0
    for w in want:
        try:
            i = ls.index(w, i) + 1
        except ValueError:
            return w
    return None


def pos_of(reg, r, last=False):
    """index in front of which a statement at the end of region r goes"""
    if reg.get(r):
        return reg[r][-1] + 1
    return min(reg[q][0] for q in range(r + 1, 8) if reg.get(q))


def module_model(s, names, mod):
    """-> (expected statements, untouched lines, procedures changed)"""
    ins, n, calls = {}, 0, 0
    for node, internal, _ in PR.visits(s.tree):
        if internal:
            continue
        reg, _ = PR.regions(node)
        if PR.EXEC not in reg:
            continue
        hit = [i for i in reg[PR.EXEC] if s.p.st[i].kind in ('call-stmt', 'if-stmt') and called(s.p.st[i].toks) in names]
        if not hit:
            continue
        calls += 1
        if any(used_module(s.p.st[i].toks) == mod.lower() for i in reg.get(PR.USES, [])):
            continue
        ins[pos_of(reg, PR.USES)] = (0, ['use', mod])
        n += 1
    exp = []
    for i, st in enumerate(s.stmts):
        if i in ins:
            exp.append(ins[i])
        exp.append(st)
    return exp, s.kept([], ins), n, calls


def caliper_model(s):
    """-> (expected statements with the label of the end call left open, untouched lines, procedures, checks)"""
    ins, rep, ends, n, skipped = {}, {}, [], 0, 0
    dirty, broken = [], []
    st = s.p.st
    for k, (node, internal, _) in enumerate(PR.visits(s.tree)):
        if internal:
            continue
        reg, _ = PR.regions(node)
        if PR.EXEC not in reg:
            continue
        name = ''
        if PR.BEGIN in reg:
            b = st[reg[PR.BEGIN][0]].toks
            at = PR.name_at(b)
            name = b[at].text
            d, pure = 0, False
            for t in b[:at - 1]:
                d += (t.text == '(') - (t.text == ')')
                pure |= d == 0 and t.tag in ('PURE', 'ELEMENTAL')
            if pure:
                skipped += 1
                continue
        n += 1
        ex = reg[PR.EXEC]
        quote = lambda w: ['call', 'caliper_' + w, '(', "'%s'" % name, ')']
        ins.setdefault(ex[0], []).append((0, quote('begin')))
        broken.append(ex[0])
        is_ret = lambda i: st[i].kind == 'return-stmt'
        in_if = lambda i: st[i].kind == 'if-stmt' and Q.inner_action(st[i].toks) == 'return-stmt'
        final = is_ret(ex[-1])
        conv = [i for i in ex[:-1] if is_ret(i)] + [i for i in ex if in_if(i)]
        mark = ('end', k)
        lab = st[ex[-1]].label if final else 0
        used = set(st[i].label for i in PR.idx(node) if st[i].label)
        label = mark if conv and not lab else lab
        ends.append((mark, used))
        if final:
            rep[ex[-1]] = (label, quote('end'))
            dirty.append(ex[-1])
        else:
            ins.setdefault(ex[-1] + 1, []).insert(0, (label, quote('end')))
            broken.append(ex[-1] + 1)
        for i in conv:
            t = [x.text for x in st[i].toks]
            rep[i] = (st[i].label, (t[:-1] if in_if(i) else []) + ['go', 'to', label])
            dirty.append(i)
    exp = []
    for i, x in enumerate(s.stmts):
        exp += ins.get(i, [])
        exp.append(rep.get(i, x))
    exp += ins.get(len(s.stmts), [])
    return exp, s.kept(dirty, broken), n, dict(ends), skipped, len(dirty)


def unify(exp, got, used):
    """compare statements, learning the labels chosen by the tool -> message"""
    bind = {}
    for (l, t), (gl, gt) in zip(exp, got):
        if isinstance(l, tuple):
            bind[l] = gl
    for k, v in bind.items():
        if not 0 < v <= 99999 or v in used[k]:
            return 'label %d chosen for the end of the procedure is %s' % (v, 'in use' if v in used[k] else 'not valid')
    if len(set(bind)) and len(exp) == len(got):
        pass
    val = lambda x: str(bind.get(x, x)) if not isinstance(x, str) else x
    e2 = [(bind.get(l, l) if isinstance(l, tuple) else l, [val(x) for x in t]) for l, t in exp]
    if e2 != got:
        j = next((j for j in range(min(len(got), len(e2))) if got[j] != e2[j]), min(len(got), len(e2)))
        return 'statement %d (label, tokens): expected %s, written %s' % (
            j, F.show(e2[j]) if j < len(e2) else 'none', F.show(got[j]) if j < len(got) else 'none')
    return None


def written(ck, s, text, exp, kept, used, o):
    """judge a rewritten file"""
    if isinstance(o, Crash) or not o.get('good'):
        return ['the file written is no longer a well-formed program: ' + F.show(text, 800)]
    m = []
    x = unify(exp, [(q['label'], q['toks']) for q in o['stmts']], used)
    if x:
        m.append(x)
    ck.count('statements_written', len(o['stmts']))
    c = comments_in(text)
    if c != s.comments:
        m.append('comments: input %s, output %s' % (F.show(s.comments), F.show(c)))
    ck.count('comments_written', len(c))
    x = exact_lines(kept, text) if text != s.text else None
    if x is not None:
        m.append('line %s was changed or lost' % F.show(x))
    ck.count('lines_untouched', len(kept))
    return m


def c20():
    ck = Check('C20', 'The module and caliper tools are run on generated files of both forms. module: exactly the procedures '
               'which invoke a requested name and do not use the module get the USE statement, behind their other USE '
               'statements; the original is kept. caliper: begin and end calls around each execution part, every RETURN '
               'leads to the end call, with a free label. All other statements, labels, comments and lines stay. '
               'Non-trivial: a procedure was changed.')
    bins = ck.build(('driver', 'apps'))
    rng = ck.rng
    runs = []
    for i in range(ck.scale(1600, 16000)):
        form = rng.choice(('free', 'free', 'fixed'))
        tool = rng.choice(('module', 'caliper'))
        names, fs, order, srcs = ['foo'], {}, [], []
        nfiles = rng.choice((1, 1, 1, 2)) if tool == 'module' else 1
        for k in range(nfiles):
            s = with_unique_comments(lambda: Src2(rng, form, size=rng.choice((10, 20, 40))))
            nm = name_of(rng, form, k)
            fs[nm] = s.text
            srcs.append(s)
            order.append(nm)
        bad = None
        if rng.random() < .1:
            bad = rng.choice(BAD)
            if tool == 'module':
                order.insert(rng.randint(0, len(order)), 'bad.f90')
                fs['bad.f90'] = bad
            else:
                order, fs, srcs = ['bad.f90'], {'bad.f90': bad}, []
        if tool == 'module':
            mod = rng.choice(('my_mod', 'My_Mod', 'zmod'))
            if rng.random() < .4:
                names = rng.sample(['foo', 'bar', 'zork', 'b', 'call'], rng.randint(0, 3))
                fs['calls'] = rng.choice((' ', '\n')).join(x.swapcase() if rng.random() < .5 else x for x in names) + '\n'
                a = ['-f', 'calls', mod]
            else:
                names = [rng.choice(('foo', 'foo', 'bar', 'c', 'b'))]
                a = [rng.choice((names[0], names[0].upper())), mod]
        else:
            mod, a = '', []
        r = Run(tool, a + order, fs)
        r.srcs, r.order, r.names, r.mod, r.bad, r.form = srcs, [x for x in order if x != 'bad.f90'], set(names), mod, bad, form
        runs.append(r)
    run_tools(bins, runs)
    texts = []
    for r in runs:
        r.new = []
        if r.died:
            continue
        for nm, s in zip(r.order, r.srcs):
            r.new.append(r.after.get(nm, '') if r.tool == 'module' else r.out)
            texts.append((r.new[-1], r.form, 0, ''))
    obs = iter(reread(ck, texts))
    for r in runs:
        m = judge_edit(ck, r, [next(obs) for _ in r.new])
        for x in m[:3]:
            ck.violation('%s: %s' % (r.tool, x), [r.case()], dict(rc=r.rc, out=r.out, err=r.err[-1500:], after=r.after))
    # command lines which cannot be served
    for tool, a, rc in (('module', [], 1), ('module', ['a', 'b'], 1), ('module', ['-z', 'a', 'b', 'c'], 1),
                        ('module', ['a', 'b', 'missing.f90'], 1), ('caliper', [], 1), ('caliper', ['missing.f90'], 2),
                        ('caliper', ['a.f90', 'b.f90'], 1)):
        r = run_tools(bins, [Run(tool, a)])[0]
        ck.count('refused')
        if r.died or r.rc != rc or r.out or r.after:
            ck.violation('%s %s: %s' % (tool, a, r.died or 'exit status %d, expected %d; files %s' % (r.rc, rc, sorted(r.after))),
                         [r.case()], dict(out=r.out, err=r.err))
    ck.finish()


def judge_edit(ck, r, obs):
    ck.count(r.tool + '_runs')
    ck.sample('%s %s' % (r.tool, r.args))
    if r.died:
        ck.seen(json.dumps(r.files), True)
        return [r.died]
    m = []
    if r.tool == 'module':
        if r.rc:
            return ['exit status %d' % r.rc]
        if r.bad and (r.after.get('bad.f90') != r.bad or 'bad.f90.bak' in r.after):
            m.append('a malformed file was touched')
        other = set(r.after) - set(r.files) - set(nm + '.bak' for nm in r.order)
        if other:
            m.append('other files were made: %s' % sorted(other))
        changed = 0
        for nm, s, text, o in zip(r.order, r.srcs, r.new, obs):
            exp, kept, n, calls = module_model(s, r.names, r.mod)
            ck.count('module_uses_added', n)
            ck.count('module_uses_present', calls - n)
            changed += n
            who = '%s (%s %s): ' % (nm, r.args[:3], '')
            bak = r.after.get(nm + '.bak')
            if bak is not None and bak != s.text:
                m.append(who + 'the original was not kept: ' + diff(s.text, bak))
            if n and bak is None:
                m.append(who + 'no copy of the original was kept')
            if not calls and (bak is not None or text != s.text):
                m.append(who + 'a file without such a call was touched')
            m += [who + x for x in written(ck, s, text, exp, kept, {}, o)]
        ck.seen(json.dumps(r.files) + str(r.args), changed > 0)
        return m
    if r.after != r.files:
        m.append('files were changed')
    if r.bad:
        ck.seen(r.bad, False)
        if r.rc != 2 or r.out:
            m.append('a malformed file: exit status %d, output %s' % (r.rc, F.show(r.out)))
        return m
    s = r.srcs[0]
    exp, kept, n, used, skipped, dirty = caliper_model(s)
    ck.seen(s.text, n > 0)
    ck.count('caliper_procedures', n)
    ck.count('caliper_skipped', skipped)
    ck.count('caliper_returns', dirty)
    if r.rc != (0 if n else 2):
        return m + ['exit status %d with %d procedures to change' % (r.rc, n)]
    if not n:
        if r.out:
            m.append('nothing to do, but output was written')
        return m
    return m + written(ck, s, r.out, exp, kept, used, obs[0])
