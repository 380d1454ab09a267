"""Generates Fortran programs together with the program tree they must have.

A node is [label, [kids]] or, for a statement, [label, index, kind]."""
from . import ftext as F
from . import f2018
from .peg import kw, mark_smash

OTHER_SPEC = ['access-stmt', 'allocatable-stmt', 'asynchronous-stmt', 'bind-stmt', 'codimension-stmt', 'dimension-stmt',
              'external-stmt', 'intent-stmt', 'intrinsic-stmt', 'namelist-stmt', 'optional-stmt', 'pointer-stmt',
              'protected-stmt', 'save-stmt', 'target-stmt', 'volatile-stmt', 'value-stmt', 'common-stmt',
              'equivalence-stmt']
ACTIONS = ['allocate-stmt', 'assignment-stmt', 'backspace-stmt', 'call-stmt', 'close-stmt', 'continue-stmt', 'cycle-stmt',
           'deallocate-stmt', 'endfile-stmt', 'error-stop-stmt', 'event-post-stmt', 'event-wait-stmt', 'exit-stmt',
           'fail-image-stmt', 'flush-stmt', 'form-team-stmt', 'goto-stmt', 'if-stmt', 'inquire-stmt', 'lock-stmt',
           'nullify-stmt', 'open-stmt', 'pointer-assignment-stmt', 'print-stmt', 'read-stmt', 'return-stmt', 'rewind-stmt',
           'stop-stmt', 'sync-all-stmt', 'sync-images-stmt', 'sync-memory-stmt', 'sync-team-stmt', 'unlock-stmt',
           'wait-stmt', 'where-stmt', 'write-stmt', 'computed-goto-stmt', 'forall-stmt', 'arithmetic-if-stmt']
SIMPLE = {'assignment-stmt': ['x = 1', 'y(i) = a + b*2', 's = "it''s; !"', 'z%p = .true.'],
          'call-stmt': ['call foo', 'call bar(x, 1)'], 'continue-stmt': ['continue'],
          'print-stmt': ['print *, x'], 'write-stmt': ['write(*,*) x']}
# statements which may not end a labelled DO loop (F2008 C815, C816)
NOT_TERM = {'arithmetic-if-stmt', 'cycle-stmt', 'error-stop-stmt', 'exit-stmt', 'goto-stmt', 'return-stmt', 'stop-stmt',
            'continue-stmt', 'computed-goto-stmt', 'fail-image-stmt', 'endfile-stmt'}


class S(object):
    __slots__ = ('toks', 'label', 'kind')

    def __init__(self, toks, label, kind):
        self.toks, self.label, self.kind = toks, label, kind


class Prog(object):
    def __init__(self, rng, size=30, depth=4, rich=.35, oldstyle=True, names=None):
        self.rng, self.size, self.depth, self.rich = rng, size, depth, rich
        self.g = f2018.Gen(rng)
        self.st = []
        self.lab = 10
        self.oldstyle = oldstyle
        self.names = names

    # -------------------------------------------------------------- statements
    def raw(self, toks, leaf, kind, label=None):
        r = self.rng
        if label is None:
            label = self.newlab() if r.random() < .06 else 0
        self.st.append(S(toks, label, kind))
        return [leaf, len(self.st) - 1, kind]

    def newlab(self):
        self.lab += self.rng.randint(1, 7)
        return self.lab

    def toks(self, kind):
        if kind in SIMPLE and self.rng.random() > self.rich:
            return F.lex(self.rng.choice(SIMPLE[kind]))
        for _ in range(20):
            t = self.g.stmt(kind)
            if len(t) < 60:
                return t
        return t

    def s(self, kind, leaf=None, label=None):
        return self.raw(self.toks(kind), leaf or kind, kind, label)

    def text(self, text, kind, leaf=None, label=None):
        return self.raw(F.lex(text), leaf or kind, kind, label)

    def room(self):
        return len(self.st) < self.size

    # -------------------------------------------------------------- units
    def program(self):
        r = self.rng
        kids = []
        while True:
            k = r.choice(('sub', 'fun', 'mod', 'main', 'sub'))
            if k == 'sub':
                u = ['external-subprogram', [self.subroutine(internal=True)]]
            elif k == 'fun':
                u = ['external-subprogram', [self.function(internal=True)]]
            elif k == 'mod':
                u = self.module()
            else:
                u = self.main()
            kids.append(['program-unit', [u]])
            if not self.room() or r.random() < .35:
                break
        return ['program', kids]

    def body(self, internal, execute=True):
        out = []
        out += self.spec_part(self.rng.random() < .2)
        if execute:
            out += self.exec_part()
        if internal and self.rng.random() < .35:
            out.append(self.internal_part())
        return out

    def subroutine(self, internal):
        return ['subroutine-subprogram', [self.s('subroutine-stmt')] + self.body(internal) + [self.s('end-subroutine-stmt')]]

    def function(self, internal):
        return ['function-subprogram', [self.s('function-stmt')] + self.body(internal) + [self.s('end-function-stmt')]]

    def main(self):
        k = [self.s('program-stmt')] if self.rng.random() < .7 else []
        if not k:
            # without a PROGRAM statement the first statement must not look like a new subprogram
            b = self.body(True) if self.rng.random() < .5 else self.exec_part()
        else:
            b = self.body(True)
        return ['main-program', k + b + [self.s('end-program-stmt')]]

    def module(self):
        r = self.rng
        k = [self.s('module-stmt')] + self.spec_part()
        if r.random() < .6:
            p = [self.s('contains-stmt')]
            while self.room() and r.random() < .6:
                q = r.random()
                if q < .4:
                    u = self.subroutine(True)
                elif q < .8:
                    u = self.function(True)
                else:
                    u = ['separate-module-subprogram', [self.s('mp-subprogram-stmt')] + self.body(True) +
                         [self.s('end-mp-subprogram-stmt')]]
                p.append(['module-subprogram', [u]])
            k.append(['module-subprogram-part', p])
        return ['module', k + [self.s('end-module-stmt')]]

    def internal_part(self):
        r = self.rng
        p = [self.s('contains-stmt')]
        while self.room() and r.random() < .6:
            p.append(['internal-subprogram', [self.subroutine(False) if r.random() < .5 else self.function(False)]])
        return ['internal-subprogram-part', p]

    # -------------------------------------------------------------- specification
    def spec_part(self, imports=False):
        r = self.rng
        k = []
        while r.random() < .3:
            k.append(self.s('use-stmt'))
        while imports and r.random() < .3:
            k.append(self.s('import-stmt'))
        q = r.random()
        if q < .4:
            k.append(['implicit-part', [['implicit-part-stmt', [self.text('implicit none', 'implicit-stmt')]]]])
        elif q < .5:
            p = []
            while r.random() < .4:
                p.append(['implicit-part-stmt', [self.s(r.choice(('parameter-stmt', 'format-stmt', 'entry-stmt')))]])
            p.append(['implicit-part-stmt', [self.s('implicit-stmt')]])
            k.append(['implicit-part', p])
        first = True
        while self.room() and r.random() < .7:
            k.append(self.declaration(first))
            first = False
        return [['specification-part', k]] if k else []

    def declaration(self, first=False):
        r = self.rng
        q = r.random()
        if q < .08 and not first:
            return ['declaration-construct', [self.s(r.choice(('format-stmt', 'entry-stmt')))]]
        if q < .14:
            return ['declaration-construct', [self.s('data-stmt')]]
        return ['declaration-construct', [['specification-construct', [self.spec_construct(first)]]]]

    def spec_construct(self, first):
        r = self.rng
        q = r.random()
        if q < .14:
            return self.derived_type()
        if q < .19:
            k = [self.s('enum-def-stmt'), self.s('enumerator-def-stmt')]
            while r.random() < .4:
                k.append(self.s('enumerator-def-stmt'))
            return ['enum-def', k + [self.s('end-enum-stmt')]]
        if q < .24:
            return self.s('generic-stmt')
        if q < .34:
            return self.interface()
        if q < .40 and not first:
            return self.s('parameter-stmt')
        if q < .46:
            return self.s('procedure-declaration-stmt')
        if q < .66:
            return self.s(r.choice(OTHER_SPEC), 'other-specification-stmt')
        if r.random() < self.rich:
            return self.s('type-declaration-stmt')
        return self.text(r.choice(('integer :: i, j', 'real(8) x', 'type(t) :: a', 'character(len=*), intent(in) :: c',
                                   'double precision d(3)', 'logical l')), 'type-declaration-stmt')

    def derived_type(self):
        r = self.rng
        k = [self.s('derived-type-stmt')]
        while r.random() < .2:
            k.append(self.s('type-param-def-stmt'))
        while r.random() < .25:
            k.append(self.s(r.choice(('private-components-stmt', 'sequence-stmt')), 'private-or-sequence'))
        c = []
        while r.random() < .6:
            c.append(self.s(r.choice(('data-component-def-stmt', 'data-component-def-stmt', 'proc-component-def-stmt')),
                            'component-def-stmt'))
        if c:
            k.append(['component-part', c])
        if r.random() < .3:
            p = [self.s('contains-stmt')]
            if r.random() < .3:
                p.append(self.s('binding-private-stmt'))
            while r.random() < .5:
                p.append(self.s(r.choice(('type-bound-procedure-stmt', 'type-bound-generic-stmt', 'final-procedure-stmt')),
                                'type-bound-proc-binding'))
            k.append(['type-bound-procedure-part', p])
        return ['derived-type-def', k + [self.s('end-type-stmt')]]

    def interface(self):
        r = self.rng
        k = [self.s('interface-stmt')]
        while r.random() < .5:
            if r.random() < .3:
                u = self.s('procedure-stmt')
            else:
                w = r.choice(('function', 'subroutine'))
                u = ['interface-body', [self.s(w + '-stmt')] + self.spec_part(True) + [self.s('end-%s-stmt' % w)]]
            k.append(['interface-specification', [u]])
        return ['interface-block', k + [self.s('end-interface-stmt')]]

    # -------------------------------------------------------------- execution
    def exec_part(self):
        r = self.rng
        if r.random() < .15:
            return []
        k = [self.executable(self.depth)]
        while self.room() and r.random() < .75:
            k.append(self.ep_construct(self.depth))
        return [['execution-part', k]]

    def ep_construct(self, d):
        r = self.rng
        if r.random() < .08:
            return ['execution-part-construct', [self.s(r.choice(('format-stmt', 'data-stmt', 'entry-stmt')))]]
        return ['execution-part-construct', [self.executable(d)]]

    def block(self, d, label='block'):
        r = self.rng
        k = []
        while self.room() and r.random() < .6:
            k.append(self.ep_construct(d - 1))
        return [[label, k]] if k else []

    def executable(self, d):
        return ['executable-construct', [self.exec_inner(d)]]

    def action(self, label=None, exclude=()):
        r = self.rng
        if r.random() < .5:
            k = r.choice([x for x in sorted(SIMPLE) if x not in exclude])
        else:
            k = r.choice([x for x in ACTIONS if x not in exclude])
        return self.s(k, 'action-stmt', label)

    def exec_inner(self, d):
        r = self.rng
        if d <= 0 or not self.room() or r.random() < .55:
            return self.action()
        k = r.choice(('associate', 'block', 'case', 'do', 'do', 'ldo', 'ldo', 'if', 'if', 'rank', 'type', 'where', 'forall'))
        if k == 'associate':
            return ['associate-construct', [self.s('associate-stmt')] + self.block(d) + [self.s('end-associate-stmt')]]
        if k == 'block':
            out = [self.s('block-stmt')]
            sp = []
            while r.random() < .25:
                sp.append(self.s('use-stmt'))
            while r.random() < .15:
                sp.append(self.s('import-stmt'))
            while r.random() < .4:
                sp.append(self.declaration())
            if sp:
                out.append(['block-specification-part', sp])
                b = self.block(d)
                # a FORMAT, DATA or ENTRY statement in front belongs to the specification part
                while b and len(b[0][1][0]) == 2 and isinstance(b[0][1][0][1][0][1], int):
                    sp.append(['declaration-construct', b[0][1][0][1]])
                    b[0][1].pop(0)
                    if not b[0][1]:
                        b = []
                out += b
            else:
                out += [x for x in self.block_noformat(d)]
            return ['block-construct', out + [self.s('end-block-stmt')]]
        if k == 'case':
            out = [self.s('select-case-stmt')]
            while r.random() < .6:
                out += [self.s('case-stmt')] + self.block(d)
            return ['case-construct', out + [self.s('end-select-stmt')]]
        if k == 'rank':
            out = [self.s('select-rank-stmt')]
            while r.random() < .6:
                out += [self.s('select-rank-case-stmt')] + self.block(d)
            return ['select-rank-construct', out + [self.s('end-select-rank-stmt')]]
        if k == 'type':
            out = [self.s('select-type-stmt')]
            while r.random() < .6:
                out += [self.s('type-guard-stmt')] + self.block(d)
            return ['select-type-construct', out + [self.s('end-select-type-stmt')]]
        if k == 'if':
            out = [self.s('if-then-stmt')] + self.block(d)
            while r.random() < .3:
                out += [self.s('else-if-stmt')] + self.block(d)
            if r.random() < .4:
                out += [self.s('else-stmt')] + self.block(d)
            return ['if-construct', out + [self.s('end-if-stmt')]]
        if k == 'where':
            return self.where(d)
        if k == 'forall':
            return self.forall(d)
        if k == 'do':
            return ['do-construct', [self.s('nonlabel-do-stmt', 'do-stmt')] + self.block(d) + [self.s('end-do-stmt')]]
        return self.label_do(d)

    def block_noformat(self, d):
        b = self.block(d)
        if b and isinstance(b[0][1][0][1][0][1], int):
            sp = []
            while b and isinstance(b[0][1][0][1][0][1], int):
                sp.append(['declaration-construct', b[0][1][0][1]])
                b[0][1].pop(0)
                if not b[0][1]:
                    b = []
            return [['block-specification-part', sp]] + b
        return b

    def where(self, d):
        r = self.rng

        def body():
            out = []
            while self.room() and r.random() < .55:
                q = r.random()
                if q < .6 or d <= 1:
                    out.append(['where-body-construct', [self.s('assignment-stmt')]])
                elif q < .8:
                    out.append(['where-body-construct', [self.s('where-stmt')]])
                else:
                    out.append(['where-body-construct', [self.where(d - 1)]])
            return out
        k = [self.s('where-construct-stmt')] + body()
        while r.random() < .3:
            k += [self.s('masked-elsewhere-stmt')] + body()
        if r.random() < .4:
            k += [self.s('elsewhere-stmt')] + body()
        return ['where-construct', k + [self.s('end-where-stmt')]]

    def forall(self, d):
        r = self.rng
        k = [self.s('forall-construct-stmt')]
        while self.room() and r.random() < .6:
            q = r.random()
            if q < .5 or d <= 1:
                u = self.s(r.choice(('assignment-stmt', 'pointer-assignment-stmt')), 'forall-assignment-stmt')
            elif q < .65:
                u = self.s('where-stmt')
            elif q < .8:
                u = self.s('forall-stmt')
            elif q < .9:
                u = self.where(d - 1)
            else:
                u = self.forall(d - 1)
            k.append(['forall-body-construct', [u]])
        return ['forall-construct', k + [self.s('end-forall-stmt')]]

    def do_head(self, lab):
        r = self.rng
        for _ in range(20):
            t = self.g.stmt('label-do-stmt')
            i = next(i for i, x in enumerate(t) if x.tag == 'int-literal-constant')
            if len(t) < 50:
                break
        t[i] = F.integer(str(lab))
        return self.raw(t, 'do-stmt', 'label-do-stmt')

    def label_do(self, d):
        r = self.rng
        lab = self.newlab()
        form = r.choice(('block', 'block', 'shared', 'action'))
        if not self.oldstyle:
            form = 'block'
        if form == 'shared':
            n = r.choice((2, 2, 3))
            heads, bodies = [], []
            for _ in range(n):
                heads.append(self.do_head(lab))
                bodies.append(self.block(d, 'do-body'))
            term = self.action(lab, NOT_TERM - {'continue-stmt'})
            # the loops all end on the same statement
            node = None
            for i in range(n - 1, -1, -1):
                kind = 'outer-shared-do-construct' if i == 0 else 'inner-shared-do-construct'
                b = bodies[i]
                if node is not None:
                    inner = ['execution-part-construct', [['executable-construct', [node]]]]
                    b = [['do-body', (b[0][1] if b else []) + [inner]]]
                node = ['nonblock-do-construct', [[kind, [heads[i]] + b + [['do-term-shared-stmt', [list(term)]]]]]]
            return node
        h = self.do_head(lab)
        b = self.block(d, 'block' if form == 'block' else 'do-body')
        if form == 'block':
            e = self.s(r.choice(('end-do-stmt', 'continue-stmt')), 'end-do', lab)
            return ['do-construct', [h] + b + [e]]
        e = self.action(lab, NOT_TERM)
        return ['nonblock-do-construct', [['action-term-do-construct', [h] + b + [['do-term-action-stmt', [e]]]]]]

    # -------------------------------------------------------------- source items
    def items(self, form, compound=.15, trivial=.15, special=.05):
        """Turn the statements into source items; records nothing about layout."""
        r = self.rng
        out = []
        i = 0
        while i < len(self.st):
            if r.random() < trivial:
                out.append(F.Trivial([F.blank_line(r) if r.random() < .4 else
                                      (F.free_comment_line(r) if form == 'free' else F.fixed_comment_line(r))
                                      for _ in range(r.randint(1, 3))]))
            if r.random() < special:
                out.append(F.Special('macro', r.choice(F.MACROS)))
            s = self.st[i]
            stmts = [s.toks]
            lab = s.label
            i += 1
            while i < len(self.st) and not self.st[i].label and r.random() < compound:
                stmts.append(self.st[i].toks)
                i += 1
            out.append(F.Line(stmts, lab, None, 0, 1 if r.random() < .02 else 0))
        if r.random() < trivial:
            out.append(F.Trivial([F.free_comment_line(r) if form == 'free' else F.fixed_comment_line(r)]))
        return out


def span(n):
    if isinstance(n[1], int):
        return n[1], n[1]
    a = [span(k) for k in n[1]]
    return min(x[0] for x in a), max(x[1] for x in a)


def compare(exp, obs, path=''):
    """exp as built here, obs as dumped by the driver; -> message or None"""
    if isinstance(exp[1], int):
        if len(obs) != 3:
            return '%s: expected statement %s, observed %s' % (path, exp, F.show(obs))
        if obs[0] != exp[0] or obs[1] != exp[1]:
            return '%s: expected %s for statement %d, observed %s for statement %s' % (path, exp[0], exp[1], obs[0], obs[1])
        return None
    p = path + '/' + exp[0]
    if len(obs) < 4 or obs[0] != exp[0]:
        return '%s: observed %s' % (p, F.show(obs))
    kids = [k for k in obs[3] if not empty(k)]
    if len(kids) != len(exp[1]):
        return '%s: expected children %s, observed %s' % (p, [k[0] for k in exp[1]], [k[0] for k in kids])
    for e, o in zip(exp[1], kids):
        m = compare(e, o, p)
        if m:
            return m
    a, b = span(exp)
    if (obs[2], obs[1]) != (a, b - a + 1):
        return '%s: covers %d statements from %d, expected %d from %d' % (p, obs[1], obs[2], b - a + 1, a)
    return None


def empty(k):
    if len(k) == 2 and k[1] == -1:
        return True
    return len(k) == 4 and k[1] == 0 and all(empty(x) for x in k[3])


def leaves(n):
    if isinstance(n[1], int):
        yield n
    else:
        for k in n[1]:
            for x in leaves(k):
                yield x
