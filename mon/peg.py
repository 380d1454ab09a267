"""Reference statement grammar: an interpreter which predicts the tree of a
statement, and a sampler which makes statements from the rules.

The rules (stmt_grammar.json) are data: a snapshot of the documented grammar
(rule names and labels follow Fortran 2018 R-numbers), independent of the tree
under test."""
import json, os
from . import ftext as F

_d = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stmt_grammar.json')))
RULES, DISPATCH, ACTION = _d['rules'], _d['dispatch'], set(_d['action'])
H = '<HOIST>'


def is_name(tag):
    return tag == 'name' or (tag.lower() in F.KEYWORDS and tag.isupper())


class Node(object):
    __slots__ = ('label', 'kids', 'first', 'n')

    def __init__(self, label, kids=None, first=-1, n=0):
        self.label, self.first, self.n = label, first, n
        self.kids = kids if kids is not None else []

    def cover(self):
        ks = [k for k in self.kids if k.n]
        if ks:
            self.first = ks[0].first
            self.n = sum(k.n for k in ks)

    def dump(self):
        return [self.label, self.first if self.n else -1, self.n] + [k.dump() for k in self.kids]


def hoist(parent, donor):
    if donor is None:
        return
    if donor.label == H:
        parent.kids += donor.kids
    else:
        parent.kids.append(donor)


class Peg(object):
    """Interprets the rules over a token list. pos is the stream position."""

    def __init__(self, toks, lo=0, hi=None, steps=None):
        self.t = toks
        self.lo = lo
        self.hi = len(toks) if hi is None else hi
        self.pos = lo
        self.steps = steps if steps is not None else [0]
        self.base = 0

    def tag(self, k=0):
        p = self.pos + k
        return self.t[p].tag if p < self.hi else 'BAD'

    def leaf(self, label):
        n = Node(label, None, self.pos, 1)
        self.pos += 1
        return n

    # returns (node or None, match)
    def ev(self, e):
        o = e[0]
        if o == 'tok':
            if self.pos < self.hi and self.t[self.pos].tag == e[1]:
                return self.leaf(e[1]), True
            return None, False
        if o == 'rule':
            mark = self.pos
            st = self.rule(e[1])
            if st is None:
                self.pos = mark
            return st, st is not None
        if o == 'seq':
            mark = self.pos
            root = Node(e[1])
            for x in e[2:]:
                st, m = self.ev(x)
                hoist(root, st)
                if not m:
                    self.pos = mark
                    return None, False
            root.cover()
            return root, True
        if o == 'alts':
            for x in e[2:]:
                st, m = self.ev(x)
                if m:
                    root = Node(e[1])
                    hoist(root, st)
                    root.cover()
                    return root, True
            return None, False
        if o == 'opt':
            st, m = self.ev(e[1])
            return st, True
        if o == 'star':
            root = Node(H)
            while True:
                p = self.pos
                st, m = self.ev(e[1])
                hoist(root, st)
                if not m:
                    break
                if self.pos == p:
                    raise RuntimeError('star does not advance')
            root.cover()
            return root, True
        if o == 'list':
            return self.ev(['seq', e[1], e[2], ['star', ['seq', H, ['tok', ','], e[2]]]])
        if o == 'tag':
            st, m = self.ev(e[2])
            if st is not None:
                root = Node(e[1], None, st.first, st.n)
                hoist(root, st)
                root.cover()
                return root, m
            return None, m
        if o == 'neg':
            st, m = self.ev(e[1])
            return st, not m
        if o == 'peek':
            return None, self.tag() == e[1]
        if o == 'eol':
            return None, self.pos >= self.hi
        if o == 'name':
            if self.pos < self.hi and is_name(self.tag()):
                return self.leaf('name'), True
            return None, False
        if o == 'letter':
            if self.pos < self.hi and is_name(self.tag()) and len(self.t[self.pos].text) == 1:
                return self.leaf('name'), True
            return None, False
        if o == 'literal':
            if self.pos < self.hi and is_name(self.tag()) and self.t[self.pos].text.lower() == e[1]:
                return self.leaf('name'), True
            return None, False
        raise ValueError(o)

    def rule(self, name):
        self.steps[0] += 1
        if name in RULES:
            st, m = self.ev(RULES[name])
            return st if m or st is not None else None
        return getattr(self, 'r_' + name)()

    def r_expr(self):
        if self.tag() in ('*', '/'):
            return None
        mark = self.pos
        depth = 1
        root = Node('expr')
        while True:
            t = self.tag()
            if t == '(' or t == '[':
                depth += 1
            elif t == ')' or t == ']':
                depth -= 1
                if not depth:
                    break
            elif t == 'BAD':
                if depth > 1:
                    self.pos = mark
                    return None
                break
            elif depth == 1:
                if t == ',' or t == ':':
                    break
                if t == '=':
                    self.pos = mark
                    return None
            if t == 'significand':
                root.kids.append(self.rule('real_literal_constant'))
            else:
                root.kids.append(self.leaf(t))
        if not root.kids:
            return None
        root.cover()
        return root

    def r_consume_parens(self):
        if self.tag() != '(':
            return None
        mark = self.pos
        root = Node(H)
        depth = 0
        while True:
            t = self.tag()
            if t == '(':
                depth += 1
            elif t == ')':
                depth -= 1
            elif t == 'BAD':
                self.pos = mark
                return None
            root.kids.append(self.leaf(t))
            if not depth:
                break
        root.cover()
        return root

    def r_list_name(self):
        if is_name(self.tag()) and self.tag(1) in ('BAD', '=>', ':', ',', ')'):
            return self.leaf('name')
        return None

    def r_procedure_designator(self):
        start = self.pos
        end = self.hi
        if end > self.lo and self.t[end - 1].tag == ')':
            depth, p = 1, end - 1
            while depth and p > self.lo:
                p -= 1
                if self.t[p].tag == '(':
                    depth -= 1
                elif self.t[p].tag == ')':
                    depth += 1
            # without a match the stream is left at its beginning
            end = p
        if end < start:
            return None
        sub = Peg(self.t, start, end, self.steps)
        st = sub.rule('designator_tail_')
        if st is not None:
            self.pos = end
        return st


def predict(rule, toks):
    """-> (used tokens, tree dump or None)"""
    p = Peg(toks)
    st = p.rule(rule)
    if st is None:
        return 0, None
    return p.pos, st.dump()


# ------------------------------------------------------------------ sampler

_cost = {}


def _compute_costs():
    big = 10 ** 6
    special = {'expr': 1, 'consume_parens': 2, 'list_name': 1, 'procedure_designator': 1}
    _cost.update({r: big for r in RULES})
    _cost.update(special)

    def c(e):
        o = e[0]
        if o in ('tok', 'name', 'letter', 'literal'):
            return 1
        if o == 'rule':
            return _cost[e[1]]
        if o == 'seq':
            return sum(c(x) for x in e[2:])
        if o == 'alts':
            return min(c(x) for x in e[2:])
        if o in ('opt', 'star', 'neg', 'peek', 'eol'):
            return 0
        if o in ('list', 'tag'):
            return c(e[2])
        raise ValueError(o)
    globals()['_c'] = c
    ch = True
    while ch:
        ch = False
        for r, e in RULES.items():
            v = min(big, c(e))
            if v < _cost[r]:
                _cost[r] = v
                ch = True


_compute_costs()

TEXT = {v: k for k, v in F.SYMBOLS.items() if not k.startswith('.')}
TEXT.update({'.NOT.': '.not.', '.AND.': '.and.', '.OR.': '.or.', '.EQV.': '.eqv.', '.NEQV.': '.neqv.'})

SNAMES = ['x', 'y', 'i', 'n', 'foo', 'bar_1', 'e1', 'd2', 'abc', 'Xyz', 'tau', 'h2o', 'z9', 'obj', 'mat', 'k', 'Q', 'alpha', 'mod_a']


def kw(w, rng):
    r = rng.random()
    return F.word(w.lower() if r < .6 else w.upper() if r < .8 else w.capitalize())


class Sampler(object):
    def __init__(self, rng, maxdepth=7, kwnames=0.04):
        self.rng = rng
        self.maxdepth = maxdepth
        self.kwnames = kwnames
        self.uses = {}

    def name(self):
        r = self.rng
        if r.random() < self.kwnames:
            return F.word(r.choice(('data', 'real', 'type', 'in', 'kind', 'stat', 'end', 'if', 'call', 'format', 'len', 'result',
                                    'unit', 'to', 'out', 'file', 'save', 'name', 'go', 'do', 'where', 'print')))
        return F.word(r.choice(SNAMES))

    def tok(self, label):
        r = self.rng
        if label == 'int-literal-constant':
            return [F.integer(r.choice(('0', '1', '10', '42', '99999', '3_4')) if r.random() < .8 else str(r.randint(1, 99999)))]
        if label == 'char-literal-constant':
            return [F.rnd_string(r)]
        if label == 'significand':
            return [F.Tok(r.choice(('1.', '1.5', '.5')), 'significand')]
        if label == 'exponent-letter':
            return [F.Tok(r.choice('eEdD'), label, True)]
        if label == 'exponent':
            return [F.Tok(r.choice(('5', '-3', '+10')), label, True)]
        if label == '_':
            return [F.Tok('_', '_', True)]
        if label == 'kind-param':
            return [F.Tok(r.choice(('8', 'dp')), label, True)]
        if label == 'defined-operator':
            return [F.sym(r.choice(('.x.', '.cross.', '.E.')))]
        if label == 'name':
            return [self.name()]
        if label in ('.TRUE.', '.FALSE.'):
            return [F.sym(label.lower() + r.choice(('', '', '_1', '_lk')))]
        if label in F.SYMBOLS and label.startswith(".."):
            return [F.sym("..")]
        if label in TEXT:
            return [F.sym(TEXT[label])]
        return [kw(label, r)]

    def expr(self, d=0):
        """an expression without a top-level comma, colon or equals sign"""
        r = self.rng
        out = self.operand(d)
        for _ in range(r.choice((0, 0, 0, 1, 1, 2)) if d < 3 else 0):
            out.append(F.sym(r.choice(('+', '-', '*', '/', '**', '//', '==', '/=', '<', '<=', '>', '>=', '.and.', '.or.', '.eqv.', '.x.',
                                       '.eq.', '.NE.'))))
            out += self.operand(d + 1)
        return out

    def operand(self, d):
        r = self.rng
        x = r.random()
        if x < .35 or d > 3:
            return [self.name()] if r.random() < .6 else [F.integer(str(r.randint(0, 120)))]
        if x < .45:
            return F.rnd_real(r)
        if x < .52:
            return [F.rnd_string(r)]
        if x < .57:
            return [F.sym(r.choice(('.true.', '.false.')))]
        if x < .75:      # reference with arguments
            out = [self.name(), F.sym('(')]
            for k in range(r.choice((0, 1, 1, 2))):
                if k:
                    out.append(F.sym(','))
                y = r.random()
                if y < .15:
                    out += [self.name(), F.sym('=')]
                    out += self.expr(d + 1)
                elif y < .25:
                    out += self.expr(d + 1) + [F.sym(':')] + self.expr(d + 1)
                else:
                    out += self.expr(d + 1)
            out.append(F.sym(')'))
            if r.random() < .2:
                out += [F.sym('%'), self.name()]
            return out
        if x < .82:
            return [self.name(), F.sym('%')] + [self.name()]
        if x < .88:
            return [F.sym('(')] + self.expr(d + 1) + [F.sym(')')]
        if x < .93:
            return [F.sym('[')] + self.expr(d + 1) + [F.sym(',')] + self.expr(d + 1) + [F.sym(']')]
        if x < .96:
            return [F.sym(r.choice(('-', '+', '.not.', '.x.')))] + self.operand(d + 1)
        return [F.sym('[')] + [F.sym('('), self.name(), F.sym(','), self.name(), F.sym('=')] + self.expr(d + 2) + [F.sym(',')] + \
            self.expr(d + 2) + [F.sym(')'), F.sym(']')]

    def parens(self):
        r = self.rng
        out = [F.sym('(')]
        n = r.choice((0, 1, 1, 2, 3))
        for k in range(n):
            if k:
                out.append(F.sym(','))
            y = r.random()
            if y < .3:
                out += [r.choice((kw('unit', r), kw('file', r), kw('iostat', r), kw('err', r), kw('fmt', r))), F.sym('=')]
                out += self.expr(1)
            elif y < .45:
                out.append(F.sym('*'))
            else:
                out += self.expr(1)
        out.append(F.sym(')'))
        return out

    def rule(self, name, d=0):
        r = self.rng
        if name == 'expr':
            return self.expr(min(d // 2, 3))
        if name == 'consume_parens':
            return self.parens()
        if name == 'list_name':
            return [self.name()]
        if name == 'procedure_designator':
            out = []
            for _ in range(r.choice((0, 0, 0, 1, 2))):
                out += self.rule('part_ref', d + 2) + [F.sym('%')]
            return out + [self.name()]
        return self.ev(RULES[name], d + 1)

    def ev(self, e, d):
        r = self.rng
        o = e[0]
        if o == 'tok':
            return self.tok(e[1])
        if o == 'rule':
            return self.rule(e[1], d)
        if o == 'seq':
            out = []
            for x in e[2:]:
                out += self.ev(x, d)
            return out
        if o == 'alts':
            alts = e[2:]
            if d > self.maxdepth:
                m = min(_c(x) for x in alts)
                alts = [x for x in alts if _c(x) == m]
            elif r.random() < .5:        # one which was taken least
                u = self.uses.setdefault(id(e), [0] * len(alts))
                m = min(u)
                i = r.choice([k for k, x in enumerate(u) if x == m])
                u[i] += 1
                return self.ev(alts[i], d)
            return self.ev(r.choice(alts), d)
        if o == 'opt':
            return self.ev(e[1], d) if r.random() < (.5 if d < self.maxdepth else .1) else []
        if o == 'star':
            out = []
            while r.random() < (.4 if d < self.maxdepth else .05) and len(out) < 40:
                out += self.ev(e[1], d)
            return out
        if o == 'list':
            out = self.ev(e[2], d)
            while r.random() < (.4 if d < self.maxdepth else .05) and len(out) < 60:
                out += [F.sym(',')] + self.ev(e[2], d)
            return out
        if o == 'tag':
            return self.ev(e[2], d)
        if o == 'name':
            return [self.name()]
        if o == 'letter':
            return [F.word(r.choice('abchioz'))]
        if o == 'literal':
            return [F.word(e[1])]
        return []

    def stmt(self, rule):
        toks = self.rule(rule)
        return mark_smash(toks)


def mark_smash(toks):
    for t in toks:
        t.smash = False
    i = 1
    while i < len(toks):
        a, b = toks[i - 1], toks[i]
        if (a.text.lower(), b.text.lower()) in F.SMASHED and a.tag.isupper() and b.tag.isupper() and not a.smash:
            b.smash = True
        i += 1
    return toks


STMT_RULES = sorted(set(DISPATCH.values()) - {'action_stmt', 'other_specification_stmt'})
