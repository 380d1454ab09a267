"""Statement-level properties: acceptance, concrete syntax trees, rejection."""
from . import ftext as F, peg, f2018
from .core import Check

RULE_OF = {l: r for l, r in peg.DISPATCH.items()}
ACTION = [l for l in f2018.STMTS if l in peg.ACTION and l != 'macro-stmt']
ENTRY = [r for r in peg.RULES if r in
         set(l.strip()[2:-1] for l in open(f2018.os.path.join(f2018.os.path.dirname(f2018.os.path.dirname(
             f2018.os.path.abspath(__file__))), 'harness', 'rules.list')) if l.startswith('R('))]


def lead_ok(toks):
    t = toks[0].text
    return not (t[0].isdigit() or t.lower() == 'include')


def simple(rng, toks):
    """one physical line"""
    pl, el = F.do_layout([F.Line([toks])], rng, 'free', 0, p_cont=0, p_split=0, p_tcomment=0, p_trail=0,
                         max_line=10 ** 6, tabs=0)
    return 'free', 0, F.text_of(pl).rstrip('\n')


def fancy(rng, toks, others=()):
    """random layout of a (possibly compound) line; others: further statements. -> form, last_col, text, index of toks"""
    stmts = list(others)
    k = rng.randint(0, len(stmts)) if stmts else 0
    stmts.insert(k, toks)
    form = rng.choice(('free', 'free', 'fixed'))
    lc = 0 if form == 'free' else rng.choice((72, 72, 0, 100))
    pl, el = F.do_layout([F.Line(stmts)], rng, form, lc, p_cont=rng.choice((0., .1, .4)), p_split=rng.choice((0, .03, .15)),
                         max_line=rng.choice((40, 80, 132)))
    return form, lc, F.text_of(pl).rstrip('\n'), k


def shape(t):
    """structure of an observed tree: list of violated structural rules"""
    out = []

    def walk(n, depth):
        kids = n[3:]
        if kids:
            p = None
            tot = 0
            for k in kids:
                if k[2]:
                    if p is not None and k[1] != p:
                        out.append('branches of %s do not follow each other' % n[0])
                    if p is None and k[1] != n[1]:
                        out.append('%s does not begin with its first branch' % n[0])
                    p = k[1] + k[2]
                tot += k[2]
                walk(k, depth + 1)
            if tot != n[2]:
                out.append('%s covers %d tokens, its branches %d' % (n[0], n[2], tot))
        elif n[2] > 1:
            out.append('leaf %s holds %d tokens' % (n[0], n[2]))
    walk(t, 0)
    return out[:2]


def leaves(t):
    if len(t) == 3:
        return [t]
    return [x for k in t[3:] for x in leaves(k)]


def labels_of(toks, t):
    """every leaf is labelled as its token (a keyword may serve as a name)"""
    out = []
    for l in leaves(t):
        if l[2] == 1:
            tk = toks[l[1]]
            if l[0] != tk.tag and not (l[0] == 'name' and peg.is_name(tk.tag)):
                out.append('token %s is leaf <%s>' % (F.show(tk.text), l[0]))
    return out[:2]


def _take(meta, obs, k=0):
    """tokens as expected? -> message list"""
    toks = meta['toks']
    if obs['nstmt'] != meta.get('n', 1):
        return ['%d statements on the line, expected %d' % (obs['nstmt'], meta.get('n', 1))]
    return []


def c07():
    ck = Check('C07', 'Statements drawn from the Fortran 2018 statement syntax (mon/f2018.bnf, transcribed from the '
               'standard), names may be keywords, under random layouts and as members of compound lines; each must be '
               'accepted by its rule, to its last token, under its own label, and be told apart by the action-stmt rule.')
    ck.build()
    rng = ck.rng
    G = f2018.Gen(rng)
    cases = []
    for i in range(ck.scale(30000, 300000)):
        lab = f2018.STMTS[i % len(f2018.STMTS)]
        G.s.kwnames = rng.choice((0, 0, .1))
        toks = G.stmt(lab)
        if len(toks) > 110:
            continue
        n, k = 1, 0
        x = rng.random()
        if x < .4:
            form, lc, text = simple(rng, toks)
        else:
            oth = [G.stmt(rng.choice(f2018.STMTS)) for _ in range(rng.choice((0, 0, 1, 2)))]
            oth = [o for o in oth if len(o) < 40]
            n = len(oth) + 1
            form, lc, text, k = fancy(rng, toks, oth)
        rules = ['@' + lab]
        amb = None
        if lab in ACTION and G.s.kwnames == 0 and lab in ('call-stmt', 'assignment-stmt', 'pointer-assignment-stmt', 'if-stmt', 'goto-stmt',
                                                        'return-stmt', 'allocate-stmt', 'deallocate-stmt', 'print-stmt', 'read-stmt',
                                                        'write-stmt', 'stop-stmt', 'continue-stmt', 'where-stmt', 'forall-stmt',
                                                        'nullify-stmt', 'open-stmt', 'close-stmt', 'exit-stmt', 'cycle-stmt',
                                                        'computed-goto-stmt', 'arithmetic-if-stmt', 'backspace-stmt', 'rewind-stmt',
                                                        'inquire-stmt', 'flush-stmt', 'wait-stmt', 'endfile-stmt', 'error-stop-stmt',
                                                        'sync-all-stmt', 'sync-images-stmt', 'sync-memory-stmt', 'sync-team-stmt',
                                                        'event-post-stmt', 'event-wait-stmt', 'form-team-stmt', 'lock-stmt',
                                                        'unlock-stmt', 'fail-image-stmt'):
            rules.append('action_stmt')
            amb = lab
        cases.append((('stmt', form, str(lc), text) + tuple(rules), dict(lab=lab, toks=toks, n=n, k=k, text=text, amb=amb)))

    def oracle(m, obs):
        ck.seen(m['lab'] + m['text'])
        ck.count('label ' + m['lab'])
        ck.sample(m['text'][:160])
        r = _take(m, obs)
        if r:
            return r
        x = obs['res'][0][m['k']]
        nt = len(m['toks'])
        ck.count('tokens', nt)
        if x['t'] is None:
            return ['%s not accepted: %s' % (m['lab'], F.show(m['text']))]
        if x['t'][0] != m['lab']:
            r.append('%s accepted as %s: %s' % (m['lab'], x['t'][0], F.show(m['text'])))
        if x['used'] != nt or x['t'][2] != nt:
            r.append('%s: %d of %d tokens consumed, %d covered: %s' % (m['lab'], x['used'], nt, x['t'][2], F.show(m['text'])))
        if m['amb']:
            y = obs['res'][1][m['k']]
            if y['t'] is None:
                r.append('%s not accepted as an action statement: %s' % (m['lab'], F.show(m['text'])))
            elif y['t'][0] != m['lab'] and (len(y['t']) < 4 or y['t'][3][0] != m['lab']):
                r.append('%s recognized as %s by action-stmt: %s' % (m['lab'], y['t'][:4], F.show(m['text'])))
            ck.count('action_dispatch')
        return r
    ck.run(cases, oracle)
    ck.finish()


def c08():
    ck = Check('C08', 'Statements drawn from the Fortran 2018 syntax and from the reference grammar, random layouts; the '
               'observed tree must equal the tree predicted by the reference grammar (labels, branches, token ranges), '
               'cover every token once and in order, and be the same for two different layouts.')
    ck.build()
    rng = ck.rng
    G = f2018.Gen(rng)
    S = peg.Sampler(rng)
    cases = []
    for i in range(ck.scale(30000, 300000)):
        if rng.random() < .5:
            lab = f2018.STMTS[i % len(f2018.STMTS)]
            G.s.kwnames = rng.choice((0, 0, .1))
            toks = G.stmt(lab)
            rule = RULE_OF[lab]
        else:
            rule = ENTRY[i % len(ENTRY)]
            toks = S.stmt(rule)
            lab = None
        if not toks or len(toks) > 110 or not lead_ok(toks):
            continue
        try:
            used, t = peg.predict(rule, toks)
        except RuntimeError:
            continue
        if t is None:
            continue
        n, k = 1, 0
        if rng.random() < .4:
            form, lc, text = simple(rng, toks)
        else:
            oth = [G.stmt(rng.choice(f2018.STMTS)) for _ in range(rng.choice((0, 0, 1)))]
            n = len(oth) + 1
            form, lc, text, k = fancy(rng, toks, oth)
            if k:
                continue
        cases.append((('stmt', form, str(lc), text, rule), dict(rule=rule, toks=toks, n=n, k=k, text=text, used=used, t=t)))

    def oracle(m, obs):
        ck.seen(m['rule'] + m['text'], len(m['toks']) > 1)
        ck.count('trees_compared')
        ck.count('rule ' + m['rule'])
        r = _take(m, obs)
        if r:
            return r
        x = obs['res'][0][m['k']]
        if x['t'] is None:
            return ['%s not accepted: %s' % (m['rule'], F.show(m['text']))]
        r += shape(x['t'])
        r += labels_of(m['toks'], x['t'])
        if x['used'] != m['used']:
            r.append('%s: consumed %d tokens, expected %d: %s' % (m['rule'], x['used'], m['used'], F.show(m['text'])))
        if x['t'] != m['t']:
            r.append('%s: tree differs from the reference for %s: %s' % (m['rule'], F.show(m['text']), tdiff(m['t'], x['t'])))
        ck.sample(m['text'][:160])
        return r
    ck.run(cases, oracle)
    ck.finish()


def tdiff(a, b, path=''):
    if a[:3] != b[:3]:
        return 'at %s expected %s observed %s' % (path, a[:3], b[:3])
    if len(a) != len(b):
        return 'at %s/%s expected branches %s observed %s' % (path, a[0], [x[0] for x in a[3:]], [x[0] for x in b[3:]])
    for x, y in zip(a[3:], b[3:]):
        if x != y:
            return tdiff(x, y, path + '/' + a[0])
    return 'same'


INSERT = ('(', ')', ',', '=', 'name', '::', ':', '*', '=>', '[', ']', '%', 'int-literal-constant', 'END', 'ONLY', '/', 'IF', 'char-literal-constant')


def mutate(rng, S, toks):
    toks = list(toks)
    for _ in range(rng.choice((1, 1, 2, 3))):
        if not toks:
            break
        k = rng.randrange(len(toks))
        m = rng.random()
        if m < .35 and len(toks) > 1:
            del toks[k]
        elif m < .7:
            toks[k:k] = S.tok(rng.choice(INSERT))
        elif m < .8:
            toks[k:] = []
        elif k:
            toks[k], toks[k - 1] = toks[k - 1], toks[k]
    toks = F.clean_soup(toks)
    if not toks or any(t.nosp for t in toks) or any(t.tag == 'significand' for t in toks) or not lead_ok(toks):
        return None
    for t in toks:
        if t.text.lower() in F.SMASH_WORDS:
            return None
    return peg.mark_smash([F.Tok(t.text, t.tag, t.nosp) for t in toks])


SUBST = INSERT + ('..', '.NOT.', 'significand', 'NULL', 'KIND', 'TO', 'THEN', 'NONE', 'WHILE', 'defined-operator', '.TRUE.', '+', '//', '==')


def damage(rng, S, toks, how, k):
    """one systematic change at token k -> tokens or None"""
    toks = list(toks)
    if how == 'del':
        if len(toks) < 2 or (k + 1 < len(toks) and toks[k + 1].nosp) or toks[k].nosp:
            return None
        del toks[k]
    elif how == 'dup':
        if toks[k].nosp or (k + 1 < len(toks) and toks[k + 1].nosp):
            return None
        toks.insert(k, toks[k])
    elif how == 'sub':
        if toks[k].nosp or (k + 1 < len(toks) and toks[k + 1].nosp):
            return None
        toks[k:k + 1] = S.tok(rng.choice(SUBST))
    elif how == 'ins':
        if toks[k].nosp:
            return None
        toks[k:k] = S.tok(rng.choice(SUBST))
    elif how == 'swap':
        if not k or any(t.nosp for t in toks[k - 1:k + 2]):
            return None
        toks[k - 1], toks[k] = toks[k], toks[k - 1]
    elif how == 'cut':
        if toks[k].nosp:
            return None
        toks = toks[:k]
    new = F.clean_soup(toks)
    if not toks or [t.text for t in new] != [t.text for t in toks] or not lead_ok(new):
        return None
    if any(t.text.lower() in F.SMASH_WORDS for t in new):
        return None
    return peg.mark_smash([F.Tok(t.text, t.tag, t.nosp) for t in new])


def c09():
    ck = Check('C09', 'Conforming statements damaged by token insertion, deletion, transposition, truncation and '
               'parenthesis imbalance, and statements offered to rules of other statements; non-conforming ones must be '
               'refused with the stream left at its place; everything must agree with the reference grammar.')
    ck.build()
    rng = ck.rng
    G = f2018.Gen(rng)
    S = peg.Sampler(rng)
    cases = []
    slabels = [l for l in peg.DISPATCH if l in f2018.STMTS]
    for i in range(ck.scale(14000, 160000)):
        lab = f2018.STMTS[i % len(f2018.STMTS)]
        rule = RULE_OF[lab]
        toks = G.stmt(lab) if rng.random() < .6 else S.stmt(rule)
        if not toks or len(toks) > 80 or not lead_ok(toks):
            continue
        x = rng.random()
        must = None
        if x < .25:
            # parenthesis imbalance: never conforming
            par = [q for q, t in enumerate(toks) if t.text in '()']
            toks = [F.Tok(t.text, t.tag, t.nosp) for t in toks]
            if par and rng.random() < .6:
                q = rng.choice(par)
                if q + 1 < len(toks) and toks[q + 1].nosp:
                    continue
                del toks[q]
            else:
                toks.append(F.sym(')'))
            if not toks or not lead_ok(toks):
                continue
            soup = F.clean_soup(toks)
            if [t.text for t in soup] != [t.text for t in toks]:
                continue
            peg.mark_smash(toks)
            must = 'unbalanced'
        elif x < .75:
            toks = mutate(rng, S, toks)
            if not toks:
                continue
        else:
            rule = RULE_OF[rng.choice(slabels)] if rng.random() < .6 else rng.choice(('action_stmt', 'other_specification_stmt'))
        try:
            used, t = peg.predict(rule, toks)
        except RuntimeError:
            continue
        if rng.random() < .6:
            form, lc, text = simple(rng, toks)
        else:
            form, lc, text, _ = fancy(rng, toks)
        cases.append((('stmt', form, str(lc), text, rule), dict(rule=rule, toks=toks, text=text, used=used, t=t, must=must)))

    # every single-token change of short statements
    G.brief = True
    done = set()
    for i in range(ck.scale(24, 240) * len(f2018.STMTS)):
        lab = f2018.STMTS[i % len(f2018.STMTS)]
        rule = RULE_OF[lab]
        base = G.stmt(lab)
        if len(base) > 24 or not lead_ok(base):
            continue
        for k in range(len(base)):
            for how in ('del', 'dup', 'sub', 'ins', 'swap', 'cut'):
                if how in ('sub', 'ins', 'swap') and rng.random() < .6:
                    continue
                toks = damage(rng, S, base, how, k)
                if not toks:
                    continue
                key = (rule, tuple(t.tag if t.tag in ('name', 'int-literal-constant') else t.text for t in toks))
                if key in done:
                    continue
                done.add(key)
                try:
                    used, t = peg.predict(rule, toks)
                except RuntimeError:
                    continue
                form, lc, text = simple(rng, toks)
                ck.count('systematic ' + how)
                cases.append((('stmt', form, str(lc), text, rule), dict(rule=rule, toks=toks, text=text, used=used, t=t, must=None)))

    def oracle(m, obs):
        ck.seen(m['rule'] + m['text'])
        if obs['toks'] != [t.text for t in m['toks']]:
            ck.count('not_judged_other_tokens')
            return []
        x = obs['res'][0][0] if obs['nstmt'] else None
        if x is None:
            return []
        acc = x['t'] is not None
        ck.count('accepted' if acc else 'refused')
        r = []
        if m['must'] and acc and x['eol']:
            r.append('unbalanced statement accepted by %s: %s' % (m['rule'], F.show(m['text'])))
        if not acc and x['used'] != 0:
            r.append('%s refused %s but left the stream at token %d' % (m['rule'], F.show(m['text']), x['used']))
        if acc != (m['t'] is not None):
            r.append('%s %s, reference grammar says %s: %s' % (m['rule'], 'accepts' if acc else 'refuses', 'refuse' if acc else 'accept',
                                                              F.show(m['text'])))
        elif acc and (x['used'] != m['used'] or x['t'] != m['t']):
            r.append('%s: tree/extent differs for %s: %s' % (m['rule'], F.show(m['text']), tdiff(m['t'], x['t'])))
        if acc:
            r += shape(x['t'])
        ck.sample(m['text'][:160])
        return r
    ck.run(cases, oracle)
    ck.finish()
