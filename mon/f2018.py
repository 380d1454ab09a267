"""Samples statements from the Fortran 2018 syntax in f2018.bnf."""
import os, re
from . import ftext as F
from .peg import Sampler, mark_smash, kw

_tok = re.compile(r"'([^']+)'|(@?[A-Za-z_][\w-]*)|([\[\]{}()|])")
RULES = {}


def _parse(text):
    toks = []
    for m in _tok.finditer(text):
        if m.group(1):
            toks.append(('sym', m.group(1)))
        elif m.group(2):
            w = m.group(2)
            if w[0] == '@':
                toks.append(('word', w[1:]))
            elif w.isupper():
                toks.append(('kw', w))
            else:
                toks.append(('rule', w))
        else:
            toks.append((m.group(3), None))
    pos = [0]

    def alts(close):
        out, cur = [], []
        while pos[0] < len(toks):
            k, v = toks[pos[0]]
            if k == close:
                break
            pos[0] += 1
            if k == '|':
                out.append(cur)
                cur = []
            elif k in '[{(' and v is None:
                inner = alts({'[': ']', '{': '}', '(': ')'}[k])
                pos[0] += 1
                cur.append(({'[': 'opt', '{': 'star', '(': 'alt'}[k], inner))
            elif v is None:
                raise ValueError(text)
            else:
                cur.append((k, v))
        out.append(cur)
        return out
    r = alts(None)
    assert pos[0] == len(toks), text
    return r


for _l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'f2018.bnf')):
    _l = _l.strip()
    if _l and _l[0] != '#':
        _n, _b = _l.split(' = ', 1)
        assert _n not in RULES, _n
        RULES[_n] = _parse(_b)
STMTS = sorted(r for r in RULES if r.endswith('-stmt'))


class Gen(object):
    def __init__(self, rng):
        self.rng = rng
        self.s = Sampler(rng, kwnames=0)
        self.brief = False      # shortest expressions and lists
        self.uses = {}          # how often each alternative was taken

    def pick(self, alts):
        """one of the alternatives, half of the time one which was taken least"""
        if self.rng.random() < .5:
            u = self.uses.setdefault(id(alts), [0] * len(alts))
            m = min(u)
            i = self.rng.choice([k for k, x in enumerate(u) if x == m])
        else:
            i = self.rng.randrange(len(alts))
            u = self.uses.setdefault(id(alts), [0] * len(alts))
        u[i] += 1
        return alts[i]

    def rule(self, n, d=0):
        r = self.rng
        if n in RULES:
            return self.seq(self.pick(RULES[n]), d + 1)
        if n in ('name', 'plain-name') or n.endswith('-name'):
            return [self.s.name()]
        if n in ('expr', 'int-expr'):
            if self.brief:
                return [self.s.name()] if r.random() < .7 else [F.integer(str(r.randint(0, 120)))]
            return self.s.expr(1 if d < 4 else 2)
        if n == 'digits':
            return [F.integer(str(r.randint(0, 99)))]
        if n == 'label':
            return [F.integer(str(r.randint(1, 99999)))]
        if n == 'letter':
            return [F.word(r.choice('abchioz'))]
        if n == 'string':
            return [F.rnd_string(r)]
        if n == 'real':
            return F.rnd_real(r)
        if n == 'logical':
            return [F.sym(r.choice(('.true.', '.false.')))]
        if n == 'defop':
            return [F.sym(r.choice(('.x.', '.cross.', '.Plus.')))]
        if n.endswith('-list'):
            out = self.rule(n[:-5], d + 1)
            while r.random() < (.15 if self.brief else .4) and len(out) < 40:
                out += [F.sym(',')] + self.rule(n[:-5], d + 1)
            return out
        raise KeyError(n)

    def seq(self, items, d):
        r = self.rng
        out = []
        for k, v in items:
            if k == 'sym':
                out.append(F.sym(v))
            elif k == 'kw':
                out.append(kw(v, r))
            elif k == 'word':
                x = r.random()
                out.append(F.word(v.lower() if x < .6 else v))
            elif k == 'rule':
                out += self.rule(v, d)
            elif k == 'opt':
                if r.random() < .5:
                    out += self.seq(self.pick(v), d)
            elif k == 'star':
                while r.random() < (.2 if self.brief else .4) and len(out) < 50:
                    out += self.seq(self.pick(v), d)
            elif k == 'alt':
                out += self.seq(self.pick(v), d)
        return out

    def stmt(self, label):
        return mark_smash(self.rule(label))
