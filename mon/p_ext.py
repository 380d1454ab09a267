"""Grammar extensions: registered statement parsers extend the language, and only extend it."""
from . import ftext as F
from . import prog as P
from . import p_prog as Q
from .core import Check
from .p_scan import diff

WORDS = ['frobnicate', 'zapit', 'quux', 'declarify', 'wombat', 'grok_it', 'xyzzy', 'plugh2']


def label(k):
    return 'ext-%d-stmt' % k if k % 2 == 0 else '<client-extension+%d>' % (k + 2)


class Ext(object):
    """slot k, as registered"""
    def __init__(self, k, shape, word='', n=0):
        self.k, self.shape, self.word, self.n = k, shape, word, n

    def define(self):
        return 'd%d:%s:%s:%d' % (self.k, self.shape, self.word, self.n)

    def text(self, r):
        nm = lambda: r.choice(('alpha', 'b1', 'call_', 'x', 'zz9', 'data', 'write'))
        if self.shape == 'names':
            return self.word + ' ' + ', '.join(nm() for _ in range(r.randint(1, 3)))
        if self.shape == 'hand':
            return self.word + ' ' + r.choice(('alpha', 'b1', 'x', 'y_9'))
        if self.shape == 'exprs':
            return self.word + ': ' + ', '.join(r.choice(('1', 'a + b', 'f(x)', '"it''s ; !"', '.not. l', '2.5e3', 'x%y'))
                                                for _ in range(r.randint(0, 3)))
        if self.shape in ('wcomma', 'wstd'):
            return 'write(' + r.choice(('*,*', 'u, "(a)"', '*,100')) + '), ' + ', '.join(
                r.choice(('a', '1', '(b(i), i=1,2)', '"t"')) for _ in range(r.randint(0, 2)))
        return 'call ' + r.choice(('5 6', '= )', 'x (', '"s" alpha', '.and. q'))


class EProg(P.Prog):
    """a program which uses extension statements"""
    def __init__(self, rng, acts, specs, p_ext, **kw):
        P.Prog.__init__(self, rng, **kw)
        self.acts, self.specs, self.p_ext = acts, specs, p_ext
        self.used = set()
        self.kinds = {}

    def ext(self, e):
        self.used.add(e.k)
        return F.lex(e.text(self.rng))

    def action(self, label_=None, exclude=()):
        r = self.rng
        if self.acts and r.random() < self.p_ext:
            e = r.choice(self.acts)
            if r.random() < .3 and 'if-stmt' not in exclude:
                c = r.choice(('a', 'x < 1', 'f(")") .or. l'))
                n = self.raw(F.lex('if (' + c + ') ' + e.text(r)), 'action-stmt', 'if-stmt', label_)
                self.kinds[n[1]] = kind(e)
                self.used.add(e.k)
                return n
            return self.raw(self.ext(e), 'action-stmt', kind(e), label_)
        return P.Prog.action(self, label_, exclude)

    def spec_construct(self, first):
        r = self.rng
        if self.specs and r.random() < self.p_ext:
            e = r.choice(self.specs)
            return self.raw(self.ext(e), 'other-specification-stmt', 'other-specification-stmt')
        return P.Prog.spec_construct(self, first)


def kind(e):
    return 'write-stmt' if e.shape == 'wstd' else label(e.k)


def c18():
    ck = Check('C18', 'Programs which use statements of registered extensions (action and specification statements, built '
               'with the combinators or by hand, under client tags or standard ones, inside IF statements, labelled DO '
               'loops and every construct), together with extensions which fail after taking tokens, never match, are '
               'shadowed by an earlier one or would also accept standard statements. The program tree must be the '
               'one generated; without the extension the program must be reported malformed, after clearing too; a '
               'program of standard statements must have the same tree whatever is registered. Labels and types of '
               'client tags against a model. Non-trivial: at least four statements.')
    ck.build()
    rng = ck.rng
    cases = []
    n = ck.scale(2200, 30000)
    while len(cases) < n:
        words = rng.sample(WORDS, 8)
        ks = list(range(8))
        rng.shuffle(ks)
        acts, specs, deco = [], [], []
        for _ in range(rng.randint(0, 3)):
            s = rng.choice(('names', 'hand', 'exprs', 'wcomma', 'wstd', 'anycall'))
            if s in ('wcomma', 'wstd', 'anycall') and any(x.shape[0] == s[0] for x in acts):
                continue
            acts.append(Ext(ks.pop(), s, words.pop()))
        for _ in range(rng.randint(0, 2)):
            specs.append(Ext(ks.pop(), rng.choice(('names', 'hand', 'exprs')), words.pop()))
        mode = rng.choice(('use', 'use', 'use', 'std', 'missing'))
        p = EProg(rng, [] if mode == 'std' else acts, [] if mode == 'std' else specs, rng.choice((.2, .5)),
                  size=rng.choice((6, 15, 40)))
        tree = p.program()
        if mode == 'missing' and not p.used:
            continue
        # registrations, in an order which may not matter
        reg = [('a', e) for e in acts] + [('s', e) for e in specs]
        while ks and rng.random() < .5:
            e = Ext(ks.pop(), rng.choice(('greedy', 'greedy', 'never')), '', rng.choice((1, 2, 3, 50)))
            reg.append((rng.choice('as'), e))
        rng.shuffle(reg)
        # a later one of the same shape and word is shadowed by the first
        if ks and acts and rng.random() < .4:
            o = rng.choice(acts)
            if o.shape in ('names', 'hand', 'exprs', 'wcomma', 'wstd', 'anycall'):
                reg.append(('a', Ext(ks.pop(), o.shape, o.word)))
        if rng.random() < .2 and reg:
            reg.append(rng.choice(reg))     # registered twice
        defs = [e.define() for _, e in reg]
        full = [w + str(e.k) for w, e in reg]
        some = None
        if mode == 'missing':
            lost = rng.choice(sorted(p.used))
            shape = next(e for e in acts + specs if e.k == lost)
            some = [w + str(e.k) for w, e in reg if (e.shape, e.word) != (shape.shape, shape.word)
                    and not (shape.shape in ('wcomma', 'wstd', 'anycall') and e.shape == shape.shape)]
            if rng.random() < .3:
                some = []
        a, b = full, full
        ra = rb = 'good'
        if mode == 'missing':
            if rng.random() < .5:
                a, ra = some, 'bad'
            else:
                b, rb = some, 'bad'
        elif mode == 'std':
            b = [] if rng.random() < .5 else list(reversed(full))
        form = rng.choice(('free', 'free', 'fixed'))
        lc = 0 if form == 'free' else 72
        pl, el = F.do_layout(p.items(form), rng, form, lc, p_cont=rng.choice((0., .1)), p_split=rng.choice((0, .05)))
        opts = rng.choice(('', 'r', 't', 't'))
        cases.append((('ext', '|'.join(defs + a), '|'.join(['C'] + b), form, str(lc), 'x.f90' if form == 'free' else 'x.f', opts,
                       '', F.text_of(pl)), (p, tree, form, pl, el, ra, rb, mode, acts, specs)))

    def oracle(meta, obs):
        p, tree, form, pl, el, ra, rb, mode, acts, specs = meta
        ck.seen(F.text_of(pl), len(p.st) > 3)
        ck.count('program_' + mode)
        ck.sample(F.text_of(pl)[:300])
        m = []
        want = F.expected_out(pl, form)
        for which, o, e in zip(('first', 'second'), obs['runs'], (ra, rb)):
            if not o['ok']:
                return ['source was rejected']
            ck.count('extension_calls', sum(c for c, _ in o['calls']))
            ck.count('extension_matches', sum(c for _, c in o['calls']))
            if e == 'bad':
                ck.count('reported_malformed')
                if o['good']:
                    m.append('%s run: a program with a statement of no registered extension was accepted' % which)
            elif not o['good']:
                m.append('%s run (%s): a well-formed program was not recognized' % (which, mode))
            else:
                x = P.compare(tree, Q.strip_trees(o['tree'])) or Q.kinds(p, o['tree'])
                if x:
                    m.append('%s run (%s): %s' % (which, mode, x))
                    continue
                x = roots(p, o['tree'])
                if x:
                    m.append(x)
                shared = sum(1 for _ in P.leaves(tree)) - len(p.st)
                if o['badhook'] != 2 * shared or o['badrange']:
                    m.append('links between statements and tree: %s' % F.show([o['badhook'], o['badrange']]))
                m += F.cmp_stmts(F.expected_stmts(el), o['stmts'])
                if 'rebuild' in o:
                    ck.count('trees_rebuilt', len(p.st))
                    if o['rebuild']:
                        m.append('rebuilt statement tree differs: %s' % F.show(o['rebuild'][0]))
                    got = {i: k for i, k in o['iftag']}
                    exp = {i: '-' + p.kinds.get(i, Q.inner_action(s.toks) if i not in p.kinds else '')
                           for i, s in enumerate(p.st) if s.kind == 'if-stmt'}
                    if got != exp:
                        m.append('kind of the action in IF statements: %s, expected %s' % (F.show(got), F.show(exp)))
            if o['out'] != want:
                m.append('source text changed by parsing: ' + diff(want, o['out']))
        return m
    ck.run(cases, oracle, chunk=60)

    # ---------------------------------------------------------- client tags
    cases = []
    base = 40
    for i in range(ck.scale(300, 3000)):
        base += rng.randint(1, 6)
        width = rng.randint(1, 12)
        offs = list(range(base, base + width))
        base += width
        rng.shuffle(offs)
        ops, exp, have = [], [], {}
        for o in offs:
            if rng.random() < .7:
                lab = rng.choice(('my-stmt', 'tag', '', 'a b', '<x>')) + str(o) * rng.randint(0, 1)
                ty = rng.randint(0, 5)
                ops.append('r:%d:%s:%d' % (o, lab, ty))
                exp.append(True)
                have[o] = (lab, ty)
            for q in rng.sample(offs, min(len(offs), 3)) + [base + 1000]:
                ops.append('q:%d' % q)
                lab, ty = have.get(q, ('<client-extension+%d>' % q, 4))
                exp.append([lab, ty, lab, ty == 4])
        cases.append((('tags',) + tuple(ops), (ops, exp)))

    def oracle2(meta, obs):
        ops, exp = meta
        ck.seen('tags' + '|'.join(ops), len(ops) > 3)
        ck.count('tag_queries', len(ops))
        got = [x[:4] if isinstance(x, list) else x for x in obs['r']]
        for o, e, g in zip(ops, exp, got):
            if e != g:
                return ['client tag %s: %s, expected %s' % (o, F.show(g), F.show(e))]
        return [] if len(got) == len(exp) else ['answers missing']
    ck.run(cases, oracle2, chunk=100, confirm=False)
    ck.finish()


def roots(p, o):
    """the statement tree of a leaf starts with the right tags"""
    if len(o) == 4 and isinstance(o[2], str):
        t = o[3]
        k = p.st[o[1]].kind
        if o[0] == 'action-stmt' and t[0] == 'action-stmt':
            if len(t) != 4 or t[3][0] != k:
                return 'statement %d: tree starts %s, expected action-stmt/%s' % (o[1], F.show(t), k)
        return None
    if len(o) == 4:
        for x in o[3]:
            m = roots(p, x)
            if m:
                return m
    return None
