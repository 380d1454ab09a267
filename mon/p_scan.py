"""Scanner-level properties: round trip, classification, tokens, statements."""
from . import ftext as F
from .core import Check

HOSTILE = ["'", '"', '&', '!', ';', ' ', '  ', '\t', '#', '0', '7', 'x', 'end', 'if(', ')', '1.e', '.and.', '.', '%', '\\',
           '\xe9', '\xff', '$', '@', '`', '{', '^', '?', '_', '1_', "''", '!#flpr', 'include "', 'C', '*', '\x01', '\x0c', '::',
           '999999', '(/', '/)', '=', '==', '=>', 'format(', '\x7f', '<', '>', '|']


def hostile_text(rng, lines=None):
    out = []
    for _ in range(lines or rng.randint(1, 8)):
        out.append(''.join(rng.choice(HOSTILE) for _ in range(rng.choice((0, 1, 2, 4, 8, 16)))))
    return out


def gen_doc(rng, form, lc, **kw):
    while True:
        items = F.rnd_items(rng, form, **kw)
        try:
            return F.do_layout(items, rng, form, lc, p_cont=rng.choice((0., .08, .3)), p_split=rng.choice((0, .02, .15)),
                               max_line=rng.choice((40, 80, 132, 400)))
        except F.Retry:         # a long literal which has no place to be broken at the last column
            pass


def name_for(rng, form):
    return 'x.f90' if form == 'free' else 'x.f'


# ------------------------------------------------------------------ C01 / C02

def c01():
    ck = Check('C01', 'Generated free-form documents (token soup, continuations, split tokens, comments, directives, '
               'literal blocks, labels) and hostile character lines; non-trivial: at least one continuation, '
               'directive, comment or hostile line. Output, output after statement construction and after a second '
               'scan must equal the input byte for byte.')
    ck.build()
    rng = ck.rng
    cases = []
    for i in range(ck.scale(12000, 40000)):
        if rng.random() < .75:
            pl, _ = gen_doc(rng, 'free', 0)
            lines = [p.raw for p in pl]
            kind = 'doc'
        else:
            lines = hostile_text(rng)
            kind = 'hostile'
        eol = '\r\n' if rng.random() < .12 else '\n'
        final = rng.random() < .9
        text = eol.join(lines) + (eol if final and lines else '')
        want = text if text.endswith('\n') or not text else text + '\n'
        opts = rng.choice(('', 'm', 'm', 'Lm')) + ('A' if kind == 'doc' else '')
        if 'L' in opts:
            want = ''.join(l + '\n' for l in _split(text))
        typ = rng.choice(('free', 'free', 'auto'))
        case = ('scan', typ, str(rng.choice((0, 72, 132))), 'x.f90', opts, text)
        cases.append((case, (kind, want, opts)))

    def oracle(meta, obs):
        kind, want, opts = meta
        ck.seen(want, len(want) > 12)
        ck.count('scans_' + kind)
        if not obs['ok']:
            if kind == 'hostile':       # malformed text may be refused
                ck.count('hostile_refused')
                return []
            return ['free-form source was rejected']
        ck.count('bytes_compared', len(want))
        out = []
        if obs['out'] != want:
            out.append('output differs from input: ' + diff(want, obs['out']))
        if obs['otherwise']:
            out.append(obs['otherwise'])
        if 'sout' in obs and obs['sout'] != want:
            out.append('output after building statements differs from input: ' + diff(want, obs['sout']))
        ck.sample(want[:200])
        return out
    ck.run(cases, oracle)
    ck.finish()


def _split(text):
    t = text.split('\n')
    if t and t[-1] == '':
        t.pop()
    return t


def diff(a, b):
    al, bl = a.split('\n'), b.split('\n')
    for k in range(max(len(al), len(bl))):
        x = al[k] if k < len(al) else None
        y = bl[k] if k < len(bl) else None
        if x != y:
            return 'line %d expected %s observed %s' % (k + 1, F.show(x), F.show(y))
    return 'same'


def c02():
    ck = Check('C02', 'Generated fixed-form documents (last column 72/80/132/unlimited, labels, continuation marks, '
               'identification fields, tabs, comments, directives); non-trivial: a document with Fortran text. '
               'Output must equal the input except for the documented normalisations (tabs in the control columns '
               'become blanks, text past the last column becomes a comment).')
    ck.build()
    rng = ck.rng
    cases = []
    for i in range(ck.scale(12000, 40000)):
        lc = rng.choice((72, 72, 72, 0, 80, 132))
        pl, _ = gen_doc(rng, 'fixed', lc)
        if rng.random() < .25:      # tabs in the control columns
            for p in pl:
                if rng.random() < .4 and F.tabify(p, rng, lc):
                    ck.count('tabbed_lines')
        eol = '\r\n' if rng.random() < .08 and all(len(p.raw) < 60 for p in pl) else '\n'
        text = F.text_of(pl, eol)
        want = F.expected_out(pl, 'fixed').replace('\n', eol)
        opts = rng.choice(('', 'm', 'Lm'))
        case = ('scan', rng.choice(('fixed', 'fixed', 'auto')), str(lc), 'x.f', opts, text)
        cases.append((case, (want, lc)))

    def oracle(meta, obs):
        want, lc = meta
        ck.seen(want, len(want) > 12)
        ck.count('scans_lc%d' % lc)
        if not obs['ok']:
            return ['fixed-form source was rejected']
        ck.count('bytes_compared', len(want))
        out = []
        if obs['out'] != want:
            out.append('output differs: ' + diff(want, obs['out']))
        if obs['otherwise']:
            out.append(obs['otherwise'])
        if 'sout' in obs and obs['sout'] != want:
            out.append('output after building statements differs: ' + diff(want, obs['sout']))
        ck.sample(want[:200])
        return out
    ck.run(cases, oracle)
    ck.finish()


# ------------------------------------------------------------------ C03 / C04 / C06

def _docs(ck, nq, nt, opts, oracle, **kw):
    rng = ck.rng
    cases = []
    for i in range(ck.scale(nq, nt)):
        form = rng.choice(('free', 'free', 'fixed'))
        lc = 0 if form == 'free' else rng.choice((72, 72, 0, 100))
        pl, el = gen_doc(rng, form, lc, **kw)
        o = opts + rng.choice(('', '', 'L'))
        eol = '\r\n' if form == 'free' and 'L' not in o and rng.random() < .1 and not kw.get('nocrlf') else '\n'
        cases.append((('scan', form, str(lc), name_for(rng, form), o, F.text_of(pl, eol)), (form, pl, el)))

    def orc(meta, obs):
        form, pl, el = meta
        ck.seen(F.text_of(pl), any(e.cat == 'F' for e in el))
        ck.count('documents_' + form)
        ck.count('physical_lines', len(pl))
        ck.count('logical_lines', len(el))
        ck.sample(F.text_of(pl)[:300])
        if not obs['ok']:
            return ['source was rejected']
        return oracle(form, pl, el, obs)
    ck.run(cases, orc)


def c03():
    ck = Check('C03', 'Generated free- and fixed-form documents whose grouping into logical lines, classification, '
               'labels and field boundaries are known by construction; non-trivial: contains Fortran text.')
    ck.build()

    def oracle(form, pl, el, obs):
        for p in pl:
            ck.count('class_' + p.cls)
        m = F.cmp_lines(el, obs['lines'], form, ('group', 'class'))
        if obs['info']:
            m.append(obs['info'])
        if obs['n'] != len(pl):
            m.append('number of input lines %d, expected %d' % (obs['n'], len(pl)))
        if obs['fixed'] != (form == 'fixed'):
            m.append('reported form is wrong')
        if obs['pp'] != any(e.cat == 'flprpp' for e in el):
            m.append('has_flpr_pp %s' % obs['pp'])
        return m
    _docs(ck, 9000, 40000, 'v', oracle)
    ck.finish()


def c04():
    ck = Check('C04', 'Generated statements (token soup over every lexical class) under random layouts: the token '
               'sequence, kinds, text and positions observed must be those the layout was made from.')
    ck.build()

    def oracle(form, pl, el, obs):
        for e in el:
            ck.count('tokens', len(e.toks))
            ck.count('tokens_across_lines', sum(1 for t in e.toks if t[3] != t[5]))
            for t in e.toks:
                ck.count('kind ' + t[0].tag)
        ck.count('lines_built_alone', obs['nctor'])
        if obs['ctor']:
            return 'a logical line made of the same text alone differs: ' + obs['ctor']
        ck.count('lines_rendered', obs['nrender'])
        if obs['render']:
            return obs['render']
        return F.cmp_lines(el, obs['lines'], form, ('tok', 'pos'))
    _docs(ck, 9000, 40000, 'vpk', oracle)
    ck.finish()


def c06():
    ck = Check('C06', 'Generated documents with compound lines, labels, stray semicolons, comment and directive lines '
               'between statements; the statement sequence observed must be the one the document was made from.')
    ck.build()

    def oracle(form, pl, el, obs):
        exp = F.expected_stmts(el)
        ck.count('statements', len(exp))
        ck.count('compound_members', sum(1 for e in exp if e[1]))
        ck.count('labelled', sum(1 for e in exp if e[0]))
        ck.count('prefix_lines', sum(len(e[2]) for e in exp))
        return F.cmp_stmts(exp, obs['stmts']) + F.cmp_lines(el, obs['slines'], form, ('group', 'stmt'))
    _docs(ck, 9000, 40000, 'm', oracle)
    ck.finish()


# ------------------------------------------------------------------ C12

def c12():
    ck = Check('C12', 'Generated fixed-form documents are converted in memory to free form and the converted text is read '
               'again as free form; non-trivial: contains Fortran text. Tokens, labels, grouping, line numbers, comments '
               'and directives must be those of the original.')
    ck.build()
    rng = ck.rng
    cases = []
    for i in range(ck.scale(9000, 40000)):
        lc = rng.choice((72, 72, 72, 0, 80, 132))
        form = 'free' if rng.random() < .05 else 'fixed'
        pl, el = gen_doc(rng, form, lc)
        cases.append((('scan', form, str(lc), 'x.f', rng.choice(('vcr', 'vcrm', 'Lvcr')), F.text_of(pl)), (form, lc, pl, el)))

    def comment_of(raw, form):
        raw = F.norm_tabs(raw) if form == 'fixed' else raw
        b = raw.lstrip(' \t\r')
        return (len(raw) - len(b), b[1:])

    def oracle(meta, obs):
        form, lc, pl, el = meta
        src = F.text_of(pl)
        ck.seen(src, any(e.cat == 'F' for e in el))
        ck.count('documents_' + form)
        ck.sample(src[:300])
        if not obs['ok']:
            return ['source was rejected']
        m = []
        if form == 'free':
            if obs['conv'] or obs['cout'] != obs['out']:
                m.append('conversion of free-form source changed something')
            return m
        if bool(pl) != obs['conv'] or (pl and obs['cfixed']):
            m.append('conversion reported %s, still fixed: %s' % (obs['conv'], obs['cfixed']))
        if obs['again'] or obs['aout'] != obs['cout']:
            m.append('a second conversion changed something')
        m += F.cmp_lines(el, obs['clines'], 'free', ('group', 'tok'))
        if any('x' in l[7] for o in obs['clines'] for l in o['layout']):
            m.append('a converted line is still marked as fixed format')
        if not obs['rok']:
            return m + ['converted text is not readable as free form']
        if 'stmts' in obs:
            m += F.cmp_stmts(F.expected_stmts(el), obs['stmts'])
        if obs['rout'] != obs['cout']:
            m.append('converted text is not reproduced: ' + diff(obs['cout'], obs['rout']))
        ck.count('converted_lines', len(pl))
        g = F.cmp_lines(el, obs['rlines'], 'free', ('group', 'tok', 'stmt'))
        if g:
            return m + ['converted text read as free form: ' + x for x in g] + ['converted: ' + F.show(obs['cout'], 600)]
        for e, o, c in zip(el, obs['rlines'], obs['clines']):
            nf = sum(1 for p in e.plines if 'F' in p.cls)
            for k, (p, l, q) in enumerate(zip(e.plines, o['layout'], c['layout'])):
                ctx = 'line %r became %r: ' % (p.raw, l[8])
                got = set(l[7]) - {'d', 'n'}
                want = set(p.cls) - {'n'}
                if got != want:
                    m.append(ctx + 'classified %s, expected %s' % (''.join(sorted(got)), ''.join(sorted(want))))
                    continue
                if (set(q[7]) - {'d', 'n'}) != want or ('F' in want and q[7] != l[7]):
                    m.append(ctx + 'in memory classified %s, read as %s' % (q[7], l[7]))
                if 'F' in want:
                    ck.count('fortran_lines')
                    inchar = l[6] != 0
                    wr = p.right
                    if inchar and wr:
                        ck.count('identification_in_character_context')
                        wr = ''                 # no comment can follow in an open character context
                    b = wr.strip()
                    if b[:1] == '&':
                        b = '!' + b[1:] if b[1:].strip() else ''
                    gr = l[5].strip()
                    if gr[:1] == '&':
                        gr = gr[1:].strip()
                    if gr != b:
                        m.append(ctx + 'trailing comment %r, expected %r' % (gr, b))
                    if (l[3], q[3]) != (p.main, p.main):
                        m.append(ctx + 'Fortran text %r, expected %r' % (l[3], p.main))
                elif p.cls in ('c', 'P'):
                    ck.count('comment_lines')
                    if comment_of(p.raw, 'fixed') != comment_of(l[8], 'free'):
                        m.append(ctx + 'comment changed')
                elif p.cls in ('p', 'i'):
                    if l[8] != F.norm_tabs(p.raw):
                        m.append(ctx + 'directive changed')
                elif l[8].strip():
                    m.append(ctx + 'blank line changed')
        return m
    ck.run(cases, oracle)
    ck.finish()
