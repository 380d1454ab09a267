"""Editing operations (C14), compound lines (C15), procedure views (C16)."""
from . import ftext as F
from .core import Check
from .p_scan import gen_doc, diff

SEP = '\x01'


class MS(object):
    """model of one statement"""

    def __init__(self, toks, label, prefix, grp, lead, embedded):
        self.toks, self.label, self.prefix, self.grp = toks, label, prefix, grp
        self.lead, self.embedded = lead, embedded


def model_of(el, form='free'):
    out, pre = [], []
    for i, e in enumerate(el):
        st = [s for s in e.item.stmts if s] if e.cat == 'F' else []
        if not st:
            pre.append('\n'.join(F.norm_tabs(p.printed) if form == 'fixed' else p.raw for p in e.plines))
            continue
        emb = any('F' not in p.cls for p in e.plines)
        for k, s in enumerate(st):
            out.append(MS(list(s), e.label if k == 0 else 0, pre if k == 0 else [], i, e.item.lead_semi, emb))
        pre = []
    return out


def soup(rng, n):
    """n or more tokens which may start anywhere in a statement"""
    t = F.no_include(rng, n)
    return t


def render(toks, rng):
    """one line of text"""
    s = ''
    for i, t in enumerate(toks):
        if i:
            g = F.gap_kind(toks[i - 1], t)
            s += '' if g == 'N' else ' ' * (rng.randint(1, 2) if g == 'S' else rng.choice((0, 1, 1)))
        s += t.text
    return s


def boundaries(toks):
    """token indices at which text can be inserted"""
    return [i for i in range(1, len(toks)) if not toks[i].nosp]


def same_group(M, a, b):
    return 0 <= a < len(M) and 0 <= b < len(M) and M[a].grp == M[b].grp


class Editor(object):
    """makes random operations and applies them to the model"""

    def __init__(self, rng, M, form):
        self.rng, self.M, self.form = rng, M, form
        self.nextgrp = 10000

    def fresh(self):
        self.nextgrp += 1
        return self.nextgrp

    def m_split(self, n):
        M = self.M
        if not same_group(M, n - 1, n):
            return False
        g, new = M[n].grp, self.fresh()
        k = n
        while k < len(M) and M[k].grp == g:
            M[k].grp = new
            M[k].lead = 0
            k += 1
        return True

    def m_isolate(self, n):
        r = self.m_split(n)
        if same_group(self.M, n, n + 1):
            r = self.m_split(n + 1) or r
        return r

    def op(self, kinds):
        """-> (op fields, checks) or None"""
        rng, M = self.rng, self.M
        if not M:
            return None
        k = rng.choice(kinds)
        n = rng.randrange(len(M))
        if rng.random() < .5:       # prefer compound lines
            c = [i for i in range(len(M)) if same_group(M, i, i + 1) or same_group(M, i, i - 1)]
            if c:
                n = rng.choice(c)
        s = M[n]
        if k in ('split', 'isolate'):
            g = s.grp
            ret = self.m_split(n) if k == 'split' else self.m_isolate(n)
            return (k, [k, n], dict(ret=ret, touched=n if ret else None))
        if k in ('emplace', 'emplace_ap'):
            nt = soup(rng, rng.choice((1, 3, 6)))
            text = (' ' * 6 if self.form == 'fixed' else '') + render(nt, rng)
            if k == 'emplace' or not s.prefix:
                self.m_split(n)
                new = MS(nt, 0, [], self.fresh(), 0, False)
            else:
                new = MS(nt, 0, s.prefix, self.fresh(), 0, False)
                s.prefix = []
            M.insert(n, new)
            return (k, [k, n, 'assignment-stmt', text], dict(at=n, touched=n, newtext=text))
        if k == 'replace':
            nt = soup(rng, rng.choice((1, 3, 6, 14)))
            b = [0] + boundaries(nt)
            cut = sorted(rng.sample(b[1:], min(len(b) - 1, rng.choice((0, 0, 1, 2)))))
            parts = [nt[i:j] for i, j in zip([0] + cut, cut + [len(nt)])]
            self.m_isolate(n)
            s.toks = nt
            s.lead = 0
            return (k, [k, n, 'assignment-stmt', (' \n' if self.form == 'fixed' else '\n').join(render(p, rng) for p in parts)], dict(touched=n, loses=True))
        if k == 'substr':
            b = [0] + boundaries(s.toks) + [len(s.toks)]
            i = rng.randrange(len(b) - 1)
            j = rng.randrange(i + 1, len(b)) if rng.random() < .3 else i + 1
            nt = soup(rng, rng.choice((1, 2, 4)))
            text = render(nt, rng)
            if b[i] > 0:
                text = ' ' + text
            if b[j] < len(s.toks):
                text += ' '
            self.m_isolate(n)
            s.toks = s.toks[:b[i]] + nt + s.toks[b[j]:]
            return (k, [k, n, b[i], b[j] - b[i], text], dict(touched=n))
        if k == 'insert':
            b = boundaries(s.toks) + [len(s.toks)]
            i = rng.choice(b)
            nt = soup(rng, rng.choice((1, 2, 4)))
            text = ' ' + render(nt, rng) + (' ' if i < len(s.toks) else '')
            self.m_isolate(n)
            s.toks = s.toks[:i] + nt + s.toks[i:]
            return (k, [k, n, i - 1, text], dict(touched=n))
        if k == 'append':
            nt = soup(rng, rng.choice((1, 2, 4)))
            self.m_isolate(n)
            s.toks = s.toks + nt
            return (k, [k, n, ' ' + render(nt, rng)], dict(touched=n))
        if k == 'label':
            v = rng.choice((0, 1, 20, 300, 99999, s.label, 1))
            ret = v != s.label
            if v or s.label:
                if not s.label:
                    self.m_split(n)
                s.label = v
            return (k, [k, n, v], dict(ret=ret, touched=n if ret else None))
        if k == 'conv':
            for s in M:
                s.prefix = [None] * len(s.prefix)
            ret, self.form = self.form == 'fixed', 'free'
            return (k, [k], dict(ret=ret, conv=ret, touched=None))
        raise ValueError(k)


def check_state(M, st, ck, comments, prev=None, info=None):
    """compare an observed state with the model -> messages"""
    m = []
    obs = st['st']
    a = [(s.label, [t.text for t in s.toks]) for s in M]
    b = [(o[0], o[3]) for o in obs]
    if a != b:
        k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
        return ['statement %d (label, tokens): expected %s, observed %s' % (
            k, F.show(a[k]) if k < len(a) else 'none', F.show(b[k]) if k < len(b) else 'none')]
    lines = st['lines']
    # compound numbering and line grouping
    k = 0
    while k < len(M):
        e = k
        while e < len(M) and M[e].grp == M[k].grp:
            e += 1
        lls = set(o[2] for o in obs[k:e])
        want = [0] if e == k + 1 else list(range(1, e - k + 1))
        got = [o[1] for o in obs[k:e]]
        if len(lls) != 1 or min(lls) < 0:
            m.append('statements %d..%d are on logical lines %s, expected one' % (k, e - 1, sorted(lls)))
        if got != want:
            m.append('statements %d..%d: compound numbers %s, expected %s' % (k, e - 1, got, want))
        if e < len(M) and obs[e][2] <= obs[k][2]:
            m.append('statement %d is on logical line %d, after one on line %d' % (e, obs[e][2], obs[k][2]))
        ll = lines[obs[k][2]] if 0 <= obs[k][2] < len(lines) else None
        if ll and 'srange' in ll and ll['srange'] != [[t.text for t in s.toks] for s in M[k:e]]:
            m.append('logical line %d has statements %s' % (obs[k][2], F.show(ll['srange'])))
        if ll and ll['label'] != M[k].label:
            m.append('logical line %d has label %d, expected %d' % (obs[k][2], ll['label'], M[k].label))
        k = e
    for s, o in zip(M, obs):
        p = ['\n'.join(l[8] for l in lines[i]['layout']) for i in o[4]]
        if len(p) != len(s.prefix) or any(y not in (None, x) for x, y in zip(p, s.prefix)):
            m.append('prefix of statement %s: expected %s, observed %s' % (F.show(o[3], 80), F.show(s.prefix), F.show(p)))
    # the text says the same as the tokens
    if st['re'] is None:
        m.append('the text can no longer be read: ' + F.show(st['out']))
    else:
        re_, rout = st['re']
        c = [(o[0], o[3]) for o in re_]
        if c != a:
            k = next((k for k in range(min(len(a), len(c))) if a[k] != c[k]), min(len(a), len(c)))
            m.append('the text read again differs at statement %d (label, tokens): expected %s, read %s; text %s' % (
                k, F.show(a[k]) if k < len(a) else 'none', F.show(c[k]) if k < len(c) else 'none', F.show(st['out'], 500)))
        if rout != st['out']:
            m.append('edited text is not reproduced when read again')
    # token placement
    for i, l in enumerate(lines):
        for t in l['toks']:
            b0, c0, b1, c1 = t[5:9]
            lay = l['layout']
            if not (0 <= b0 <= b1 < len(lay)):
                m.append('token %r is placed on lines %d..%d of %d' % (t[1], b0, b1, len(lay)))
                continue
            if b0 == b1:
                txt = lay[b0][3][c0:c1]
            else:
                txt = lay[b0][3][c0:] + ''.join(x[3] for x in lay[b0 + 1:b1]) + lay[b1][3][:c1]
            if txt != t[1]:
                m.append('token %r of logical line %d is placed at %s, where the text is %r' % (t[1], i, (b0, c0, b1, c1), txt))
                break
            ck.count('placements')
    for c in comments:
        if c not in st['out']:
            m.append('comment %r was lost: %s' % (c, F.show(st['out'], 500)))
            break
    # everything outside the touched line is as it was
    if prev is not None:
        pt = [''.join(x[8] + '\n' for x in l['layout']) for l in prev['lines'] if not l.get('sup')]
        nt = [''.join(x[8] + '\n' for x in l['layout']) for l in lines if not l.get('sup')]
        if ''.join(nt) != st['out']:
            m.append('printed text is not that of the lines')
        if info.get('conv'):
            pass
        elif info.get('touched') is None:
            if prev['out'] != st['out']:
                m.append('text changed although nothing was to be done: ' + diff(prev['out'], st['out']))
        else:
            own = [o[2] for o in obs]
            pown = [o[2] for o in prev['st']]
            first = next((i for i in range(min(len(pt), len(nt))) if pt[i] != nt[i]), min(len(pt), len(nt)))
            tail = 0
            while tail < min(len(pt), len(nt)) - first and pt[-1 - tail] == nt[-1 - tail]:
                tail += 1
            info['changed'] = len(pt) - first - tail
            if len(pt) - first - tail > 1:
                m.append('%d logical lines changed: %s -> %s' % (len(pt) - first - tail, F.show(pt[first:len(pt) - tail]),
                                                                 F.show(nt[first:len(nt) - tail])))
    return m


_uniq = [0]


def with_unique_comments(fn):
    old = F.comment_text

    def ct(rng):
        _uniq[0] += 1
        return old(rng).rstrip(' \\&\t') + ' #u%d.' % _uniq[0]
    F.comment_text = ct
    try:
        return fn()
    finally:
        F.comment_text = old


def comments_of(el):
    out = []
    for e in el:
        for p in e.plines:
            i = p.raw.rfind(' #u')
            if i >= 0 and p.cls[:1] in 'cF':
                out.append(p.raw[i:].rstrip())
    return out


ALL = ('split', 'isolate', 'emplace', 'emplace_ap', 'replace', 'substr', 'insert', 'append', 'label')


def c14(kinds=ALL, n=None, steps=None, pfixed=.3):
    ck = Check('C14', 'Histories of editing operations (split, isolate, insert above or below the comments, replace a statement '
               'or part of it, insert after a token, append, set or clear the label) on generated free-form documents; after '
               'every step the statements, their lines, labels, comments and token places must be those of a model, and the '
               'text, read again, must say the same. Non-trivial: at least one operation was done.')
    ck.build()
    rng = ck.rng
    cases = []
    for i in range(n or ck.scale(6000, 40000)):
        form = 'fixed' if rng.random() < pfixed else 'free'
        # only these keep to the columns of fixed form
        lc = 72 if form == 'fixed' and rng.random() < .4 else 0
        kinds1 = ('split', 'isolate', 'label') if lc else kinds
        pl, el = with_unique_comments(lambda: gen_doc(rng, form, lc, stmtgen=F.no_include, n=rng.choice((1, 2, 3, 5))))
        M = model_of(el, form)
        import copy
        states = [copy.deepcopy(M)]
        ed = Editor(rng, M, form)
        ops, infos = [], []
        for _ in range(steps or rng.choice((1, 2, 4, 8))):
            o = ed.op(('conv',) if ed.form == 'fixed' and rng.random() < .1 else kinds1)
            if o:
                ops.append(SEP.join(str(x) for x in o[1]))
                infos.append((o[0], o[2]))
                states.append(copy.deepcopy(M))
        if ops:
            cases.append((('edit', form, str(lc), 'x.f90', 'rvp', F.text_of(pl)) + tuple(ops),
                          (F.text_of(pl) + '|'.join(ops), states, infos, comments_of(el))))

    def oracle(meta, obs):
        key, states, infos, com = meta
        ck.seen(key, True)
        ck.sample(key[:300])
        if not obs['ok']:
            return ['source was rejected']
        m = check_state(states[0], obs['init'], ck, com)
        if m:
            return ['before any operation: ' + x for x in m]
        prev = obs['init']
        for k, (name, info) in enumerate(infos):
            st = obs['steps'][k]
            ck.count('op_' + name)
            if 'ret' in info and st['ret'] != info['ret']:
                m.append('returned %s, expected %s' % (st['ret'], info['ret']))
            if 'at' in info and st['at'] != info['at']:
                m.append('returned position %s, expected %s' % (st['at'], info['at']))
            m += check_state(states[k + 1], st, ck, com, prev, info)
            if m:
                return ['step %d %s: %s' % (k, name, x) for x in m]
            prev = st
        return m
    ck.run(cases, oracle, chunk=60)
    ck.finish()


# ------------------------------------------------------------------ C15

def glue_ok(a, b):
    """can token b directly follow token a (in the text) without being read differently?"""
    if b.nosp or getattr(b, 'smash', False):
        return False
    if b.text[0] in '\'"' and (a.text[-1].isalnum() or a.text[-1] in '_\'"'):
        return False
    return F.gap_kind(a, b) == 'O' and a.text[-1] not in './*=<>' and b.text[0] not in './*=<>'


def starts_oddly(toks):
    """would the scanner read the first token as a label or an include line?"""
    return bool(toks) and (toks[0].text[0].isdigit() or toks[0].text.lower() == 'include')


class LEditor(object):
    """random operations on one logical line"""

    def __init__(self, rng, form, e):
        self.rng, self.form = rng, form
        self.toks = [r[0] for r in e.toks]
        self.recs = list(e.toks)        # None when the layout is no longer known
        self.label = e.label
        self.comments = comments_of([e])
        self.placed = True
        self.changed_text = False

    def bnd(self):
        t = self.toks
        return [i for i in range(1, len(t)) if not t[i].nosp and not getattr(t[i], 'smash', False)]

    def op(self, kinds):
        rng, t = self.rng, self.toks
        k = rng.choice(kinds)
        if k == 'fromfrags':
            self.recs = None
            return [k], dict(ret=True)
        if k == 'rmempty':
            new = []
            for x in t:
                if x.text == ';' and (not new or new[-1].text == ';'):
                    continue
                new.append(x)
            while new and new[-1].text == ';':
                new.pop()
            ret = len(new) != len(t)
            if ret and starts_oddly(new):
                return None
            self.toks = new
            if ret:
                self.recs = None
            return [k], dict(ret=ret, same=not ret)
        if k in ('rmfrag', 'replfrag'):
            if self.recs is None:
                return None
            c = []
            for i, x in enumerate(t):
                r = self.recs[i]
                if r[3] != r[5] or x.nosp or getattr(x, 'smash', False) or x.text == ';':
                    continue
                n = t[i + 1] if i + 1 < len(t) else None
                p = t[i - 1] if i else None
                if n is not None and (n.nosp or getattr(n, 'smash', False)):
                    continue
                if k == 'replfrag':
                    if x.text[0].isalpha() and x.text[-1] not in '\'"' and \
                            not (p and p.text[-1] in '.' and not r[7]) and not (n and n.text[0] in '.\'"'):
                        c.append(i)
                else:
                    sp = r[7] or (n is not None and self.recs[i + 1][7])
                    if (p is None or n is None or sp or glue_ok(p, n)) and not (p is None and n is not None and (
                            n.text[0].isdigit() or n.text.lower() == 'include')) and \
                            not (p is not None and n is not None and n.text[0] in '\'"') and r[7] is not None and len(t) > 1:
                        c.append(i)
            if not c:
                return None
            i = rng.choice(c)
            self.recs = None
            if k == 'replfrag':
                nm = rng.choice(('q', 'zz_1', 'long_name_number_2'))
                self.toks = t[:i] + [F.word(nm)] + t[i + 1:]
                return [k, i, 'name', nm], dict(ret=True)
            self.toks = t[:i] + t[i + 1:]
            return [k, i], dict(ret=True)
        if k == 'comment':
            _uniq[0] += 1
            tx = rng.choice(('note', 'a ! b', "it's")) + ' #u%d.' % _uniq[0]
            self.comments = self.comments + [tx]
            return [k, tx], dict(ret=True)
        if k == 'lead':
            return [k, rng.choice((0, 1, 2, 4, 7, 12, 30)), rng.choice((0, 2, 5))], dict(lead=True)
        if k == 'label':
            v = rng.choice((0, 1, 20, 300, 99999, self.label))
            ret = v != self.label
            self.label = v
            return [k, v], dict(ret=ret, same=not ret)
        if k in ('insbef', 'insaft'):
            nt = soup(rng, rng.choice((1, 2, 4)))
            b = self.bnd()
            if k == 'insaft':
                b = b + [len(t)]
            if not b:
                return None
            i = rng.choice(b)
            self.toks = t[:i] + nt + t[i:]
            self.recs = None
            return [k, i - (k == 'insaft'), ' ' + render(nt, rng) + ' '], dict(ret=True)
        if k == 'replsub':
            b = [0] + self.bnd() + [len(t)]
            i = rng.randrange(len(b) - 1)
            j = rng.randrange(i + 1, len(b)) if rng.random() < .4 else i + 1
            nt = soup(rng, rng.choice((1, 2, 4)))
            self.toks = t[:b[i]] + nt + t[b[j]:]
            self.recs = None
            return [k, b[i], b[j] - b[i], (' ' if b[i] else '') + render(nt, rng) + ' '], dict(ret=True)
        if k == 'repltext':
            if any(x.text == ';' for x in t):
                return None
            nt = soup(rng, rng.choice((1, 3, 6, 14)))
            b = [0] + boundaries(nt)
            cut = sorted(rng.sample(b[1:], min(len(b) - 1, rng.choice((0, 0, 1, 2, 3)))))
            parts = [nt[i:j] for i, j in zip([0] + cut, cut + [len(nt)])]
            self.toks = nt
            self.recs = None
            self.placed = True
            return [k, (' \n' if self.form == 'fixed' else '\n').join(render(p, rng) for p in parts)], dict(ret=True)
        if k == 'split':
            b = [i for i in self.bnd() if not t[i].text[0].isdigit() and t[i].text.lower() != 'include' and t[i].text != ';']
            b += [i for i in range(1, len(t)) if t[i].text == ';' and any(x.text != ';' for x in t[i:]) and
                  t[i - 1].text != ';'] * 2
            if not b:
                return None
            i = rng.choice(b)
            rest = list(t[i:])
            while rest and rest[0].text == ';':
                rest.pop(0)
            if starts_oddly(rest):
                return None
            self.toks = t[:i]
            self.recs = None
            return [k, i - 1], dict(ret=True, new=[x.text for x in rest])
        if k in ('copy', 'copyassign', 'move', 'moveassign', 'init'):
            return [k], dict(ret=True, same=True)
        raise ValueError(k)

    def snap(self):
        return ([x.text for x in self.toks], self.label, list(self.comments), self.placed)


def stmts_of(texts):
    out, cur = [], []
    for x in texts:
        if x == ';':
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(x)
    return out + ([cur] if cur else [])


def check_ll(o, texts, label, comments, placed, ck, lstrip=False):
    m = []
    ll = o['ll']
    got = [t[1] for t in ll['toks']]
    re_ = o['re']
    if lstrip:
        while got and got[0] == ';':
            got = got[1:]
    if got != texts:
        return ['tokens: expected %s, observed %s' % (F.show(texts), F.show(got))]
    if ll['label'] != label:
        m.append('label %d, expected %d' % (ll['label'], label))
    if 'srange' in ll and ll['srange'] != stmts_of(texts):
        m.append('statements: %s, expected %s' % (F.show(ll['srange']), F.show(stmts_of(texts))))
    if 'srange' in ll and not lstrip and ll['nsemi'] != texts.count(';'):
        m.append('%d semicolons counted, expected %d' % (ll['nsemi'], texts.count(';')))
    if re_ is None:
        m.append('text can no longer be read: ' + F.show(o['out']))
    else:
        if lstrip and re_:
            while re_[0][1] and re_[0][1][0] == ';':
                re_[0][1].pop(0)
        if re_ != ([[label, texts]] if texts else []):
            m.append('text read again gives %s, expected %s; text %s' % (F.show(re_, 500), F.show([label, texts], 500), F.show(o['out'], 500)))
    for c in comments:
        if c not in o['out']:
            m.append('comment %r was lost: %s' % (c, F.show(o['out'], 500)))
            break
    if placed:
        lay = ll['layout']
        for t in ll['toks']:
            b0, c0, b1, c1 = t[5:9]
            if not (0 <= b0 <= b1 < len(lay)):
                m.append('token %r is placed on lines %d..%d of %d' % (t[1], b0, b1, len(lay)))
                break
            txt = lay[b0][3][c0:c1] if b0 == b1 else lay[b0][3][c0:] + ''.join(x[3] for x in lay[b0 + 1:b1]) + lay[b1][3][:c1]
            if txt != t[1]:
                m.append('token %r is placed at %s, where the text is %r' % (t[1], (b0, c0, b1, c1), txt))
                break
            ck.count('placements')
    return m


LALL = ('fromfrags', 'rmempty', 'rmfrag', 'replfrag', 'comment', 'lead', 'label', 'insbef', 'insaft', 'replsub', 'repltext',
        'split', 'copy', 'copyassign', 'move', 'moveassign', 'init')
LFIX = tuple(k for k in LALL if k not in ('fromfrags', 'rmempty'))


def c15(kinds=None, n=None, steps=None, pfixed=.3):
    ck = Check('C15', 'Operations on one logical line (rebuild the text, remove empty statements, replace or remove a token, '
               'insert or replace text, split, label, comment, indent, copy, move), singly and in sequences: tokens, '
               'statements, label, comments and token places must be those of a model, and the printed text, read '
               'again, must have the same tokens and label.')
    ck.build()
    rng = ck.rng
    cases = []
    for i in range(n or ck.scale(16000, 60000)):
        form = 'fixed' if rng.random() < pfixed else 'free'
        pl, el = with_unique_comments(lambda: gen_doc(rng, form, 0, stmtgen=F.no_include, n=2))
        el = [e for e in el if e.cat == 'F' and e.toks and any(s for s in e.item.stmts)]
        if not el:
            continue
        e = el[0]
        ed = LEditor(rng, form, e)
        states = [ed.snap()]
        ops, infos = [], []
        for _ in range(steps or rng.choice((1, 1, 2, 4))):
            o = ed.op(kinds or (LFIX if form == 'fixed' else LALL))
            if o and ed.toks:
                ops.append(SEP.join(str(x) for x in o[0]))
                infos.append((o[0][0], o[1]))
                states.append(ed.snap())
        if ops:
            text = '\n'.join(p.raw for p in e.plines)
            cases.append((('ll', form, '0', 'vp' + ('x' if form == 'fixed' else '') + 'r0', text) + tuple(ops),
                          (text + '|'.join(ops), states, infos)))

    def oracle(meta, obs):
        key, states, infos = meta
        ck.seen(key, True)
        ck.sample(key[:300])
        m = check_ll(obs['init'], *states[0], ck)
        if m:
            return ['before any operation: ' + x for x in m]
        prev = obs['init']
        for k, (name, info) in enumerate(infos):
            st = obs['steps'][k]
            ck.count('op_' + name)
            if st.get("attr"):
                m.append("what the line says about itself is lost: " + st["attr"])
            if 'ret' in info and st['ret'] != info['ret']:
                m.append('returned %s, expected %s' % (st['ret'], info['ret']))
            if info.get('lead') and st['ret'] != (st['out'] != prev['out']):
                m.append('returned %s, text changed: %s' % (st['ret'], st['out'] != prev['out']))
            if info.get('same') and st['out'] != prev['out']:
                m.append('text changed: ' + diff(prev['out'], st['out']))
            tx, lab, com, placed = states[k + 1]
            com = list(com)
            if 'new' in info:
                m += ['split off: ' + x for x in check_ll(st['new'], info['new'], 0, [], placed, ck, True)] if 'new' in st else [
                    'nothing was split off']
                both = (st['new']['out'] if 'new' in st else '') + st['out']
                com2 = [c for c in com if c in st['out']]
                for c in com:
                    if c not in both:
                        m.append('comment %r was lost' % c)
                for s in states[k + 1:]:
                    s[2][:] = [c for c in s[2] if c in com2 or c not in com]
                com = com2
            m += check_ll(st, tx, lab, com, placed, ck)
            if m:
                return ['step %d %s: %s' % (k, name, x) for x in m]
            prev = st
        return m
    ck.run(cases, oracle, chunk=60)
    ck.finish()
