"""Procedure views and procedure edits (C16)."""
import copy
from . import ftext as F
from . import prog as P
from .core import Check
from .p_scan import diff
from .p_prog import gen
from .p_edit import (SEP, MS, Editor, model_of, render, check_state, with_unique_comments, comments_of, same_group, starts_oddly)

BEGIN, USES, IMPORTS, IMPLICITS, DECLS, EXEC, CONTAINED, END = range(8)
KINDS = {'function-subprogram', 'subroutine-subprogram', 'main-program', 'separate-module-subprogram'}
TYPE = {'function-subprogram': 'function', 'subroutine-subprogram': 'subroutine', 'main-program': 'program',
        'separate-module-subprogram': 'procedure'}


def isleaf(n):
    return isinstance(n[1], int)


def visits(tree):
    """the procedures in the order of their visit: (node, internal, module)"""
    out = []

    def proc(n, internal, module):
        out.append((n, internal, module))
        for k in n[1]:
            if k[0] == 'internal-subprogram-part':
                for q in k[1][1:]:
                    proc(q[1][0], True, module)
    for pu in tree[1]:
        u = pu[1][0]
        if u[0] == 'external-subprogram':
            proc(u[1][0], False, False)
        elif u[0] == 'main-program':
            proc(u, False, False)
        elif u[0] == 'module':
            for k in u[1]:
                if k[0] == 'module-subprogram-part':
                    for q in k[1][1:]:
                        proc(q[1][0], False, True)
    return out


def idx(n):
    return sorted(set(x[1] for x in P.leaves(n)))


def regions(n):
    """region -> statement indices, region -> label of its node"""
    reg, cur = {}, {}

    def add(r, k, node):
        reg.setdefault(r, []).extend(idx(k))
        cur[r] = node
    kids = n[1]
    last = len(kids) - 1
    for i, k in enumerate(kids):
        if isleaf(k):
            add(BEGIN if i == 0 and i != last else END, k, k[0])
        elif k[0] == 'specification-part':
            for q in k[1]:
                if q[0] == 'use-stmt':
                    add(USES, q, k[0])
                elif q[0] == 'import-stmt':
                    add(IMPORTS, q, k[0])
                elif q[0] == 'implicit-part':
                    add(IMPLICITS, q, q[0])
                else:
                    add(DECLS, q, k[0])
        elif k[0] == 'execution-part':
            add(EXEC, k, k[0])
        else:
            add(CONTAINED, k, k[0])
    return reg, cur


def name_at(toks):
    """position of the procedure name in the statement which begins a procedure"""
    d = 0
    ks = [t.text.lower() for t in toks]
    for i, t in enumerate(toks):
        if t.text in '([':
            d += 1
        elif t.text in ')]':
            d -= 1
        elif d == 0 and t.tag in ('SUBROUTINE', 'FUNCTION', 'PROGRAM', 'PROCEDURE'):
            return i + 1
    raise ValueError(ks)


class Model(object):
    """what a Procedure should look like"""

    def __init__(self, M, node, ed):
        self.M, self.ed, self.kind = M, ed, node[0]
        reg, self.cur = regions(node)
        self.reg = {r: [M[i] for i in v] for r, v in reg.items()}

    def headless(self):
        return self.kind == 'main-program' and not self.reg.get(BEGIN)

    def begin(self):
        return self.reg[BEGIN][0]

    def end(self):
        return self.reg[END][0]

    def name(self):
        if self.headless():
            return ''
        s = self.begin()
        return s.toks[name_at(s.toks)].text

    def view(self):
        at = {id(s): i for i, s in enumerate(self.M)}
        return dict(name=self.name(), headless=self.headless(), main=self.kind == 'main-program',
                    reg={str(r): [at[id(s)] for s in v] for r, v in sorted(self.reg.items()) if v})

    def pos(self, r, w):
        """-> (index of the statement, position in the region)"""
        v = self.reg.get(r, [])
        if v and w != 'e':
            k = 0 if w == 'b' else len(v) - 1 if w == 'l' else int(w)
            return self.index(v[k]), k
        for q in range(r + 1, 8):
            if self.reg.get(q):
                return self.index(self.reg[q][0]), len(v)
        raise ValueError

    def index(self, s):
        return next(i for i, x in enumerate(self.M) if x is s)

    def put(self, r, w, toks, above, kind):
        n, k = self.pos(r, w)
        s = self.M[n]
        if above or not s.prefix:
            self.ed.m_split(n)
            new = MS(toks, 0, [], self.ed.fresh(), 0, False)
        else:
            new = MS(toks, 0, s.prefix, self.ed.fresh(), 0, False)
            s.prefix = []
        self.M.insert(n, new)
        self.reg.setdefault(r, []).insert(k, new)
        new.kind = kind
        return n

    def rename_in(self, s, i, name):
        if getattr(s, 'broken', {}).get(i):
            self.ed.m_isolate(self.index(s))
            s.broken = {}
        s.toks = s.toks[:i] + [F.word(name)] + s.toks[i + 1:]

    def rename(self, name):
        if name == self.name():
            return False
        if self.headless():
            self.put(BEGIN, 'e', F.lex('program ' + name), False, 'program-stmt')
            return True
        self.rename_in(self.begin(), name_at(self.begin().toks), name)
        e = self.end()
        if len(e.toks) == 3:
            self.rename_in(e, 2, name)
        return True

    def complete(self):
        e = self.end()
        add = []
        if len(e.toks) == 1:
            add.append(TYPE[self.kind])
        if len(e.toks) < 3 and not self.headless():
            add.append(self.name())
        if not add:
            return False
        self.ed.m_isolate(self.index(e))
        e.toks = e.toks + [F.word(x) for x in add]
        return True


def args(toks, lo):
    """names of dummy arguments"""
    if lo >= len(toks) or toks[lo].text != '(':
        return []
    out = []
    for i in range(lo + 1, len(toks)):
        if toks[i].text == ')':
            return out
        if toks[i].tag == 'name':
            out.append(i)
    return out


def statement(p, rng, form):
    """(kind, tokens) of a statement to add"""
    for _ in range(50):
        k = rng.choice(('assignment-stmt', 'call-stmt', 'use-stmt', 'type-declaration-stmt', 'continue-stmt', 'print-stmt',
                        'implicit-stmt', 'parameter-stmt', 'if-stmt', 'write-stmt', 'return-stmt', 'goto-stmt'))
        t = p.toks(k)
        if not starts_oddly(t) and len(t) < 30:
            return k, t
    return 'continue-stmt', F.lex('continue')


def split_names(el):
    """for every statement: which of its tokens are broken across lines"""
    out = []
    for e in el:
        if e.cat != 'F':
            continue
        cur = []
        for r in list(e.toks) + [None]:
            if r is None or r[0].text == ';':
                if cur:
                    out.append({i: q[3] != q[5] for i, q in enumerate(cur)})
                cur = []
            else:
                cur.append(r)
    return out


def script(p, rng, md, form, k, nested, steps):
    """operations on procedure k -> (script entries, expected views)"""
    ops, exp = [], []
    edited = False
    for _ in range(steps):
        kind = rng.choice(('rename', 'rename', 'cend', 'emplace', 'emplace', 'emplace', 'replace', 'substr', 'insert', 'touch',
                           'move', 'again', 'clear'))
        info = {}
        if kind in ('again', 'clear') and edited:
            continue
        if kind == 'rename':
            nm = rng.choice(('q', 'zz_1', 'Renamed_Procedure_99', md.name() or 'pp', (md.name() or 'pp').swapcase(), 'procedure',
                             'if'))
            was = md.name()
            info['ret'] = md.rename(nm)
            info['rename'] = True
            f = [nm]
        elif kind == 'cend':
            info['ret'] = md.complete()
            info['touched'] = info['ret'] or None
            f = []
        elif kind == 'emplace':
            r = rng.choice((USES, IMPORTS, IMPLICITS, DECLS, DECLS, EXEC, EXEC, EXEC, CONTAINED, BEGIN))
            v = md.reg.get(r, [])
            if r == BEGIN:
                if not v:
                    continue
                w = 'e'
            elif r == CONTAINED and nested:
                w = 'b'
            else:
                w = rng.choice(('b', 'l', 'e', str(rng.randrange(len(v))))) if v else rng.choice('be')
            if w == 'l' and not v:
                continue
            sk, t = statement(p, rng, form)
            above = rng.random() < .5
            info['at'] = md.put(r, w, t, above, sk)
            info['rreg'] = r
            info['touched'] = True
            f = [r, w, sk, (' ' * 6 if form == 'fixed' else '') + render(t, rng), '1' if above else '0']
        else:
            c = []
            if kind in ('replace', 'substr', 'insert'):
                for r in (USES, IMPORTS, IMPLICITS, DECLS, EXEC):
                    for n, s in enumerate(md.reg.get(r, [])):
                        c.append((r, n, s))
                if kind == 'substr' and md.reg.get(BEGIN):
                    c.append((BEGIN, 0, md.begin()))
                if not c:
                    continue
                r, n, s = rng.choice(c)
                w = str(n)
                at = md.index(s)
            if kind == 'replace':
                sk, t = statement(p, rng, form)
                md.ed.m_isolate(at)
                s.toks, s.lead, s.broken, s.kind = t, 0, {}, sk
                f = [r, w, sk, render(t, rng)]
                info['touched'] = True
            elif kind == 'substr':
                lo = name_at(s.toks) + 1 if r == BEGIN else 0
                c = [i for i in range(lo, len(s.toks)) if s.toks[i].tag == 'name' and not s.toks[i].nosp and
                     not getattr(s.toks[i], 'smash', False) and
                     not (i + 1 < len(s.toks) and (s.toks[i + 1].nosp or s.toks[i + 1].text[0] in '\'"'))
                     ]
                if r == BEGIN:
                    c = args(s.toks, lo)
                if not c or r != BEGIN and s.kind not in ('assignment-stmt', 'call-stmt', 'print-stmt', 'write-stmt'):
                    continue
                i = rng.choice(c)
                md.ed.m_isolate(at)
                s.toks = s.toks[:i] + [F.word('zq_1')] + s.toks[i + 1:]
                if hasattr(s, 'broken'):
                    s.broken = {}
                f = [r, w, i, 1, (' ' if i else '') + 'zq_1' + (' ' if i + 1 < len(s.toks) else '')]
                info['touched'] = True
            elif kind == 'insert':
                x = [t.text.lower() for t in s.toks]
                if x[:4] == ['print', '*', ',', 'x'] and len(x) == 4:
                    add = ', yy + 1'
                elif x[:2] == ['call', 'foo'] and len(x) == 2:
                    add = '(1, x)'
                else:
                    continue
                md.ed.m_isolate(at)
                f = [r, w, len(x) - 1, add]
                s.toks = s.toks + F.lex(add.strip())
                info['touched'] = True
            else:
                f = []
                info['ret'] = True
                info['touched'] = None
        if kind in ('rename', 'cend', 'emplace', 'replace', 'substr', 'insert'):
            edited = True
        ops.append(SEP.join(str(x) for x in [k, kind] + f))
        exp.append((kind, info, md.view(), copy.deepcopy(md.M)))
    return ops, exp


def facts(want, got, what):
    m = []
    for k in ('name', 'headless', 'main'):
        if want[k] != got[k]:
            m.append('%s: %s is %r, expected %r' % (what, k, got[k], want[k]))
    if want['reg'] != got['reg']:
        for r in range(8):
            a, b = want['reg'].get(str(r)), got['reg'].get(str(r))
            if a != b:
                m.append('%s: region %d holds statements %s, expected %s' % (what, r, F.show(b), F.show(a)))
                break
    return m


def c16(n=None, steps=None):
    ck = Check('C16', 'Generated programs are visited procedure by procedure: order, kind, internal and module flags, names, '
               'labels, regions and their nodes must be those the program was generated from. One procedure is then edited '
               '(rename, complete the END statement, add, replace or change a statement of a region, re-ingest, move); after '
               'each step its regions, name and the whole file must be those of a model and the text, read again, must say '
               'the same. Non-trivial: at least one procedure was visited.')
    ck.build()
    rng = ck.rng
    cases = []
    for i in range(n or ck.scale(4000, 25000)):
        p, tree, form, lc, pl, el = with_unique_comments(lambda: gen(rng, None, 0, size=rng.choice((6, 15, 30))))
        vs = visits(tree)
        text = F.text_of(pl)
        ops, exp, k, states = [], [], None, None
        if vs and rng.random() < .75:
            k = rng.randrange(len(vs))
            M = model_of(el, form)
            for s, b, q in zip(M, split_names(el), p.st):
                s.broken, s.kind = b, q.kind
            base = copy.deepcopy(M)
            ed = Editor(rng, M, form)
            md = Model(M, vs[k][0], ed)
            nested = any(c[0] == 'internal-subprogram-part' and len(c[1]) > 1 for c in vs[k][0][1])
            ops, exp = script(p, rng, md, form, k, nested, steps or rng.choice((1, 2, 4, 7)))
        cases.append((('proc', form, '0', 'x.f90' if form == 'free' else 'x.f', 'rvpt' if ops else '', text) + tuple(ops),
                      (p, tree, vs, k, exp, comments_of(el), text, ops)))

    def oracle(meta, obs):
        p, tree, vs, k, exp, com, text, ops = meta
        ck.seen(text + '|'.join(ops), len(vs) > 0)
        ck.sample(text[:200] + '|'.join(ops))
        if not obs['ok'] or not obs.get('good'):
            return ['a well-formed program was not recognized']
        got = obs['visits']
        want = [(n[0], a, b) for n, a, b in vs]
        seen = [(o['kind'], o['internal'], o['module']) for o in got]
        if want != seen:
            return ['procedures visited: %s, expected %s' % (F.show(seen), F.show(want))]
        if obs['vret'] != (len(vs) > 1):
            return ['visit() returned %s' % obs['vret']]
        m = []
        for i, (o, (node, a, b)) in enumerate(zip(got, vs)):
            ck.count('visit ' + node[0] + (' internal' if a else '') + (' in module' if b else ''))
            if o['before'] or not o['ok']:
                return ['procedure %d was %s' % (i, 'initialized before it was ingested' if o['before'] else 'not ingested')]
            if k is not None and i > k:
                # an earlier procedure was edited
                continue
            reg, cur = regions(node)
            first = None if BEGIN not in reg else p.st[reg[BEGIN][0]]
            w = dict(name=first.toks[name_at(first.toks)].text if first else '', headless=first is None,
                     main=node[0] == 'main-program', reg={str(r): v for r, v in reg.items()})
            m += facts(w, o, 'procedure %d' % i)
            for r in reg:
                ck.count('region %d' % r)
            lab = [p.st[j].label for j in idx(node) if p.st[j].label]
            if o['labels'] != lab:
                m.append('procedure %d: labels %s, expected %s' % (i, F.show(o['labels']), F.show(lab)))
            if o['cursors'] != {str(r): v for r, v in cur.items()}:
                m.append('procedure %d: nodes of the regions: %s, expected %s' % (i, F.show(o['cursors']), F.show(cur)))
        if m or k is None:
            return m[:3]
        prev = None
        for j, (o, (kind, info, view, M)) in enumerate(zip(got[k]['ops'], exp)):
            ck.count('op_' + kind)
            what = 'step %d %s' % (j, ops[j].replace(SEP, ' '))
            for q in ('ret', 'at', 'rreg'):
                if q in info and o.get(q) != info[q]:
                    m.append('%s: %s %s, expected %s' % (what, q, o.get(q), info[q]))
            if o.get('cleared') is False:
                m.append('%s: still initialized after clear()' % what)
            m += facts(view, o, what)
            if not m:
                m += [what + ': ' + x for x in check_state(M, o, ck, com, prev if not info.get('rename') else None, info)]
            if o['tbad']:
                m.append('%s: %d statement trees do not cover their statement' % (what, o['tbad']))
            ck.count('trees', o['tgood'])
            if m:
                return m[:3]
            prev = o
        if k is not None and obs['out'] != (prev['out'] if prev else obs['out']):
            m.append('text changed after the last operation')
        return m
    ck.run(cases, oracle, chunk=60)
    ck.finish()
