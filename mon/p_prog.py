"""Program-level properties: structure, malformed programs, indentation."""
import re
from . import ftext as F
from . import prog as P
from .core import Check
from .p_scan import diff, hostile_text


def gen(rng, form=None, lc=None, size=None, style=None, **kw):
    form = form or rng.choice(('free', 'free', 'fixed'))
    lc = 0 if form == 'free' else (lc if lc is not None else rng.choice((72, 72, 0, 100)))
    p = P.Prog(rng, size=size or rng.choice((6, 15, 40)), **kw)
    tree = p.program()
    st = dict(p_cont=rng.choice((0., .08, .2)), p_split=rng.choice((0, .02, .1)), max_line=rng.choice((60, 100, 132)))
    st.update(style or {})
    pl, el = F.do_layout(p.items(form), rng, form, lc, **st)
    return p, tree, form, lc, pl, el


KW_ACTION = {'CALL': 'call-stmt', 'GO': 'goto-stmt', 'RETURN': 'return-stmt', 'STOP': 'stop-stmt', 'PRINT': 'print-stmt',
             'WRITE': 'write-stmt', 'ALLOCATE': 'allocate-stmt', 'CYCLE': 'cycle-stmt', 'EXIT': 'exit-stmt',
             'NULLIFY': 'nullify-stmt', 'WHERE': 'where-stmt', 'ERROR': 'error-stop-stmt', 'DEALLOCATE': 'deallocate-stmt'}


def inner_action(toks):
    """kind of the action statement inside an IF statement"""
    d = 0
    for i, t in enumerate(toks):
        if t.text == '(':
            d += 1
        elif t.text == ')':
            d -= 1
            if d == 0:
                rest = toks[i + 1:]
                break
    k = KW_ACTION.get(rest[0].tag)
    if k:
        return k
    d = 0
    for t in rest:
        if t.text in '([':
            d += 1
        elif t.text in ')]':
            d -= 1
        elif d == 0 and t.text in ('=', '=>'):
            return 'assignment-stmt' if t.text == '=' else 'pointer-assignment-stmt'
    return '?'


def c10():
    ck = Check('C10', 'Generated programs (all program units, specification and executable constructs of the program '
               'grammar, nested, labelled and shared DO loops; free and fixed form, random layout). The tree observed '
               'must be the one the program was generated from, node by node, with statement ranges, hooks and '
               'statement kinds; the source text must be unchanged. Non-trivial: more than three statements.')
    ck.build()
    rng = ck.rng
    cases = []
    for i in range(ck.scale(8000, 30000)):
        p, tree, form, lc, pl, el = gen(rng)
        opts = rng.choice(('', 'r', 't'))
        cases.append((('parse', form, str(lc), 'x.f90' if form == 'free' else 'x.f', opts, '', F.text_of(pl)),
                      (p, tree, form, pl, el)))

    def oracle(meta, obs):
        p, tree, form, pl, el = meta
        ck.seen(F.text_of(pl), len(p.st) > 3)
        ck.count('statements', len(p.st))
        nodes(tree, ck)
        ck.sample(F.text_of(pl)[:300])
        if not obs['ok']:
            return ['source was rejected']
        if not obs.get('good'):
            return ['a well-formed program was not recognized']
        m = []
        x = P.compare(tree, strip_trees(obs['tree']))
        if x:
            m.append('program tree: ' + x)
        else:
            bad = kinds(p, obs['tree'])
            if bad:
                m.append(bad)
        shared = sum(1 for _ in P.leaves(tree)) - len(p.st)
        if obs['badhook'] != 2 * shared:
            m.append('statement-to-node links: %d wrong, expected %d' % (obs['badhook'], 2 * shared))
        if obs['badrange']:
            m.append('statement ranges of leaves: %d wrong' % obs['badrange'])
        m += F.cmp_stmts(F.expected_stmts(el), obs['stmts'])
        want = F.expected_out(pl, form)
        if obs['pre'] != want or obs['out'] != want:
            m.append('source text changed by parsing: ' + diff(want, obs['out']))
        if 'rebuild' in obs:
            ck.count('trees_rebuilt', len(p.st))
            if obs['rebuild']:
                m.append('rebuilt statement tree differs: %s' % F.show(obs['rebuild'][0]))
            got = {i: k for i, k in obs['iftag']}
            exp = {i: '-' + inner_action(s.toks) for i, s in enumerate(p.st) if s.kind == 'if-stmt'}
            if got != exp:
                m.append('kind of the action in IF statements: %s, expected %s' % (F.show(got), F.show(exp)))
        return m
    ck.run(cases, oracle, chunk=60)
    ck.finish()


def nodes(n, ck):
    if isinstance(n[1], int):
        return
    ck.count('node ' + n[0])
    for k in n[1]:
        nodes(k, ck)


def strip_trees(o):
    """Leaves may carry their statement tree as a fourth element."""
    if len(o) == 4 and isinstance(o[2], str):
        return o[:3]
    if len(o) == 4:
        return o[:3] + [[strip_trees(k) for k in o[3]]]
    return o


def kinds(p, o):
    if len(o) >= 3 and isinstance(o[2], str):
        want = p.st[o[1]].kind if o[0] == 'action-stmt' else o[0]
        if o[2] != want:
            return 'statement %d has kind %s, expected %s' % (o[1], o[2], want)
        if len(o) == 4:
            return cover(o[3], len(p.st[o[1]].toks), o[1])
        return None
    if len(o) == 4:
        for k in o[3]:
            m = kinds(p, k)
            if m:
                return m
    return None


def cover(t, n, i):
    """every token of the statement appears exactly once, in order, as a leaf"""
    seq = []

    def walk(t):
        if len(t) == 3:
            seq.extend(range(t[1], t[1] + t[2]))
        else:
            for k in t[3:]:
                walk(k)
    walk(t)
    if seq != list(range(n)):
        return 'statement %d: tree leaves are tokens %s of %d' % (i, F.show(seq), n)
    return None


# ------------------------------------------------------------------ C11

CLOSERS = {'end-associate-stmt', 'end-block-stmt', 'end-select-stmt', 'end-select-rank-stmt', 'end-select-type-stmt',
           'end-if-stmt', 'end-where-stmt', 'end-forall-stmt', 'end-enum-stmt', 'end-interface-stmt', 'end-type-stmt',
           'end-do-stmt'}
UNIT_END = {'end-subroutine-stmt', 'end-function-stmt', 'end-program-stmt', 'end-module-stmt', 'end-mp-subprogram-stmt'}
STRAY = ['end if', 'end do', 'end select', 'end where', 'end forall', 'end associate', 'end interface', 'end enum', 'end type',
         'end block']
JUNK = [') (', '= 3', 'call', 'x x x', 'if (', 'do do = ,', 'integer', 'end x y', '(1)', 'a + b', 'use', ':: x', "'str'",
        'subroutine', 'print', 'select', 'goto 10 20', 'type', '%', '[1', 'x(1', 'if (a) then b', '1.e5', '.and.']


def group(kind):
    return 'end-select' if kind.startswith('end-select') else kind


def malform(p, rng):
    """Damage the program so that no reading of it is well formed."""
    st = p.st
    how = rng.choice(('drop', 'stray', 'junk', 'swap', 'trunc', 'order', 'order', 'order'))
    if how == 'order':
        return disorder(p, rng)
    if how == 'drop':
        c = [i for i, s in enumerate(st) if s.kind in CLOSERS and not s.label or s.kind in UNIT_END]
        i = rng.choice(c)
        # a main program needs nothing but its END, which another unit may take over
        ks = [s.kind for s in st]
        if st[i].kind in UNIT_END and ks.count('end-program-stmt') != ks.count('program-stmt'):
            return None
        del st[i]
    elif how == 'stray':
        st.insert(rng.randint(0, len(st)), P.S(F.lex(rng.choice(STRAY)), 0, 'stray'))
    elif how == 'junk':
        st.insert(rng.randint(0, len(st)), P.S(F.lex(rng.choice(JUNK)), 0, 'junk'))
    elif how == 'swap':
        c = [i for i, s in enumerate(st) if s.kind in CLOSERS and not s.label]
        if len(c) < 2:
            return None
        i, j = rng.sample(c, 2)
        if group(st[i].kind) == group(st[j].kind):
            return None
        st[i], st[j] = st[j], st[i]
    else:
        # losing the end of the file loses the END of the last program unit
        c = [i for i, s in enumerate(st) if s.kind in UNIT_END]
        tops = [i for i, s in enumerate(st) if s.kind in ('program-stmt', 'module-stmt')]
        if not tops:
            return None
        i = tops[-1]
        e = next((k for k in c if k > i and st[k].kind == ('end-program-stmt' if st[i].kind == 'program-stmt'
                                                            else 'end-module-stmt')), None)
        if e is None:
            return None
        del st[rng.randint(i + 1, e):]
    return how


MIXED = {'if-construct': ['case default', 'rank (1)', 'class default', 'contains', 'enumerator :: e'],
         'do-construct': ['else', 'case (1)', 'elsewhere', 'else if (a) then', 'contains', 'integer :: i'],
         'case-construct': ['else', 'elsewhere', 'rank (1)', 'class is (t)', 'contains'],
         'select-rank-construct': ['else', 'case default', 'class is (t)', 'type is (t)', 'contains'],
         'select-type-construct': ['else', 'case (1)', 'rank default', 'elsewhere', 'contains'],
         'associate-construct': ['else', 'case default', 'elsewhere', 'contains', 'integer :: i', 'implicit none'],
         'block-construct': ['else', 'case default', 'elsewhere', 'contains', 'implicit none'],
         'where-construct': ['call foo', 'continue', 'print *, x', 'else', 'if (a) b = 1', 'do i = 1, 2', 'contains',
                             'p => q', 'forall (i=1:2) a(i) = 1', 'stop', 'integer :: i'],
         'forall-construct': ['call foo', 'continue', 'print *, x', 'else', 'if (a) b = 1', 'elsewhere', 'contains', 'exit'],
         'enum-def': ['x = 1', 'integer :: i', 'call foo', 'contains', 'enum, bind(c)'],
         'interface-block': ['x = 1', 'integer :: i', 'contains', 'call foo', 'use m', 'implicit none', 'interface'],
         'derived-type-def': ['x = 1', 'call foo', 'enumerator :: e', 'implicit none', 'use m',
                              'external f', 'intent(in) :: a'],
         'module': ['x = 1', 'call foo', 'if (a) b = 1', 'module m2', 'program p2', 'enumerator :: e', 'return']}


def disorder(p, rng):
    """Statements where their construct or program unit cannot have them, or without those it must have."""
    opts, now = [], ['']

    def put(i, *texts):
        opts.append((i, texts, now[0]))

    def walk(t):
        if not isinstance(t[1], list):
            return
        kids, now[0] = t[1], t[0]
        leaf = [(k[2], k[1]) for k in kids if not isinstance(k[1], list)]
        kinds = [k for k, _ in leaf]
        subs = [k[0] for k in kids if isinstance(k[1], list)]
        first, last = (leaf[0][1], leaf[-1][1]) if leaf else (0, 0)
        at = dict(leaf)
        if t[0] in MIXED:
            put(last, *MIXED[t[0]])
        if t[0] == 'where-construct':
            if 'elsewhere-stmt' in kinds:
                put(last, 'elsewhere', 'elsewhere (a)', 'elsewhere (a > b) nm', 'elsewhere nm')
        elif t[0] == 'if-construct':
            if 'else-stmt' in kinds:
                put(last, 'else', 'else if (a) then', 'else nm', 'elseif (a(1) == 2) then')
        elif t[0] in ('case-construct', 'select-rank-construct', 'select-type-construct'):
            put(first + 1, 'x = 1', 'call foo', 'continue', 'if (a) b = 1')
        elif t[0] == 'derived-type-def':
            if 'component-part' in subs:
                c = next(k for k in kids if k[0] == 'component-part')
                put(c[1][-1][1] + 1, 'private', 'sequence', 'integer, kind :: k', 'integer, len :: l')
            b = next((k for k in kids if k[0] == 'type-bound-procedure-part'), None)
            if b:
                put(last, 'contains', 'integer :: c', 'sequence', 'integer, kind :: k', 'procedure(f), pointer :: q')
                if b[1][-1][2] in ('type-bound-procedure-stmt', 'type-bound-generic-stmt', 'final-procedure-stmt'):
                    put(last, 'private')
            else:
                put(last, 'generic :: g => f', 'final :: f', 'procedure :: f', 'procedure, pass :: f')
                if 'private-or-sequence' in [k[0] for k in kids] and not 'component-part' in subs:
                    put(last, 'integer, kind :: k')
        elif t[0] == 'enum-def':
            opts.append((first + 1, last, t[0]))
        elif t[0] in ('subroutine-subprogram', 'function-subprogram', 'separate-module-subprogram', 'main-program', 'module'):
            if t[0] == 'main-program' and kinds[0] != 'program-stmt':
                pass
            elif 'execution-part' in subs:
                put(last, 'integer :: i', 'use m', 'implicit none', 'interface', 'type :: t', 'external f',
                    'enum, bind(c)', 'import :: a')
            elif 'specification-part' in subs and 'internal-subprogram-part' not in subs and t[0] != 'module':
                sp = next(k for k in kids if k[0] == 'specification-part')
                if any(k[0] == 'declaration-construct' for k in sp[1]):
                    put(last, 'use m', 'implicit none')
            if 'internal-subprogram-part' in subs or 'module-subprogram-part' in subs:
                put(last, 'contains', 'x = 1', 'integer :: i', 'call foo')
        elif t[0] == 'block-construct' and 'block' in subs:
            put(last, 'integer :: i', 'use m', 'type :: t', 'external f')
        elif t[0] == 'do-construct' and p.st[first].kind == 'label-do-stmt' and p.st[last].kind == 'end-do-stmt':
            opts.append((last, None, t[0]))
        for k in kids:
            walk(k)
    walk(p.tree)
    if not opts:
        return None
    i, what, where = rng.choice(opts)
    if what is None:
        p.st[i].label = rng.choice((0, p.st[i].label + 3000, p.st[i].label * 10 % 100000))
        return 'end-label'
    if isinstance(what, int):
        del p.st[i:what]
        return 'order: nothing in ' + where
    what = rng.choice(what)
    p.st.insert(i, P.S(F.lex(what), 0, 'order'))
    return 'order: %s in %s' % (what, where)


def scramble(p, rng):
    """Arbitrary damage; the result may or may not be well formed."""
    st = p.st
    for _ in range(rng.randint(1, 4)):
        if not st:
            break
        k = rng.random()
        i = rng.randrange(len(st))
        if k < .25:
            del st[i]
        elif k < .45:
            st.insert(rng.randint(0, len(st)), P.S(list(st[i].toks), st[i].label, st[i].kind))
        elif k < .6:
            j = rng.randrange(len(st))
            st[i], st[j] = st[j], st[i]
        elif k < .75:
            del st[i].toks[rng.randrange(len(st[i].toks))]
            if not st[i].toks:
                del st[i]
        elif k < .85:
            st[i].label = rng.choice((0, 10, 20, 99999))
        else:
            t = st[i].toks
            F.fix_smash(t)
            st[i].toks = t[:rng.randint(1, len(t))]
    for s in st:
        F.fix_smash(s.toks)
        s.toks[:] = F.clean_soup(s.toks)
        # tokens of a real literal must keep their partners
        s.toks[:] = [t for k, t in enumerate(s.toks) if not (t.nosp and (k == 0 or not literal_part(s.toks[k - 1])))]
        if s.toks and (s.toks[0].text[0].isdigit() or s.toks[0].text.lower() == 'include'):
            s.toks.insert(0, F.word('x'))
    p.st = [s for s in st if s.toks]


def literal_part(t):
    return t.tag in ('significand', 'exponent-letter', 'exponent', '_')


def c11():
    ck = Check('C11', 'Programs damaged so that no reading is well formed (closing statement lost, stray or exchanged; '
               'junk statement; statements where their construct or unit cannot have them; truncated file) must be reported as such; arbitrarily damaged programs, hostile text '
               'and deeply nested input must be handled without memory errors, undefined behaviour, assertion '
               'failures, uncaught exceptions or hangs, leaving the text unchanged. Non-trivial: at least two lines.')
    ck.build()
    rng = ck.rng
    cases = []
    n = ck.scale(9000, 40000)
    while len(cases) < n:
        k = rng.random()
        form = rng.choice(('free', 'free', 'fixed'))
        lc = 0 if form == 'free' else 72
        how = None
        if k < .8:
            p = P.Prog(rng, size=rng.choice((6, 15, 30)))
            p.tree = p.program()
            if k < .5:
                how = malform(p, rng)
                if how is None:
                    continue
            else:
                scramble(p, rng)
            try:
                pl, _ = F.do_layout(p.items(form), rng, form, lc, p_split=0)
            except F.Retry:
                continue
            text = F.text_of(pl)
            want = F.expected_out(pl, form)
        elif k < .95:
            text = '\n'.join(hostile_text(rng, rng.randint(1, 12))) + '\n'
            want = None
        else:
            d = rng.choice((5, 20, 80))
            text = deep(rng, d)
            form, lc, want = 'free', 0, None
        cases.append((('parse', form, str(lc), 'x.f90' if form == 'free' else 'x.f', rng.choice(('', 't')),
                       rng.choice(('', 'c3')), text), (how, want, text)))

    def oracle(meta, obs):
        how, want, text = meta
        ck.seen(text, text.count('\n') > 1)
        ck.sample(text[:200])
        ck.count('damage_' + (how or 'arbitrary').split(':')[0])
        if not obs['ok']:
            ck.count('rejected_by_scanner')
            if want is not None and how:
                return ['source with %s damage was rejected by the scanner' % how]
            return []
        m = []
        if obs.get('good'):
            ck.count('well_formed')
            if how:
                m.append('a malformed program (%s) was accepted' % how)
        else:
            ck.count('reported_malformed')
            if not obs['tempty']:
                m.append('a tree was returned for a program which was reported malformed')
            if obs['ind']:
                m.append('indentation reported changes for a malformed program')
        if want is not None and (obs['pre'] != want or obs['out'] != want):
            m.append('text changed: ' + diff(want, obs['out']))
        return m
    ck.run(cases, oracle, chunk=60)
    ck.finish()


def deep(rng, d):
    k = rng.randrange(8)
    if k == 0:
        b = 'x = ' + '(' * d + '1' + ')' * (d - rng.choice((0, 0, 1)))
    elif k == 1:
        b = 'call s(' + 'f(' * d + '1' + ')' * (d + rng.choice((0, 1, 1)))
    elif k == 2:
        b = 'if (x) then\n' * d + 'y=1\n' + 'end if\n' * (d - rng.choice((0, 0, 1)))
    elif k == 3:
        b = ''.join('do %d i=1,2\n' % j for j in range(1, d + 1)) + \
            ''.join('%d continue\n' % j for j in range(d, rng.choice((0, 1)), -1))
    elif k == 4:
        b = 'do 10 i=1,2\n' * d + 'y=1\n' + rng.choice(('10 continue\n', '11 continue\n', '10 y = 2\n', '10 end do\n'))
    elif k == 5:
        b = 'block\n' * d + 'end block\n' * (d + rng.choice((0, -1, 1)))
    elif k == 6:
        b = 'where (m)\n' * d + 'a = 1\n' + 'end where\n' * d
    else:
        b = 'x = a' + ''.join(rng.choice((' + b', ' * c', ' ** d', ' // e', ' .and. f', ' == g', '%h', '(i)'))
                              for _ in range(4 * d))
    return b + '\nend\n'


# ------------------------------------------------------------------ C13

TABLES = {
    'c': lambda n: dict({k: n for k in ('block', 'execution-part', 'interface-specification', 'internal-subprogram',
                                        'module-subprogram', 'specification-part', 'where-body-construct',
                                        'derived-type-def', 'enum-def', 'case-construct')}, _cont=5),
    'f': lambda n: dict({k: n for k in ('block', 'interface-specification', 'internal-subprogram', 'module-subprogram',
                                        'where-body-construct', 'derived-type-def', 'enum-def', 'case-construct')}, _cont=5),
    'e': lambda n: {'block': 3, 'execution-part': 2, 'interface-specification': 3, 'internal-subprogram': 2,
                    'module-subprogram': 2, 'specification-part': 2, 'where-body-construct': 3, 'derived-type-def': 3,
                    'enum-def': 3, 'case-construct': 3, '_cont': 5}}
CUSTOM = ['block', 'execution-part', 'interface-specification', 'internal-subprogram', 'module-subprogram',
          'specification-part', 'where-body-construct', 'derived-type-def', 'enum-def', 'case-construct',
          'forall-body-construct', 'block-specification-part', 'component-part', 'interface-body', 'do-construct',
          'if-construct', 'module-subprogram-part', 'program-unit']
BEGIN_END = {'derived-type-def', 'enum-def', 'case-construct'}


def indents(n, table, cur, out):
    """required indentation of each statement"""
    if isinstance(n[1], int):
        out[n[1]] = cur
        return
    w = table.get(n[0], 0)
    for i, k in enumerate(n[1]):
        edge = n[0] in BEGIN_END and (i == 0 or i == len(n[1]) - 1)
        indents(k, table, cur if edge else cur + w, out)


def line_msg(p, out, s, form, first):
    """Judge one physical line after indentation by s columns. p: PLine before."""
    raw = p.raw if form == 'free' else F.norm_tabs(p.printed)
    if 'F' in p.cls:
        main = p.main
        right = p.right
        if form == 'fixed':
            if 'n' in p.cls or not first:
                return None if out == raw else 'continuation line changed'
            left = raw[:6]
            col = 6 + s
            if out[:6].rstrip() != left.rstrip():
                return 'control columns changed'
            ms = len(raw[:6]) + len(raw[6:]) - len(raw[6:].lstrip())
            main = raw[ms:]
            k = out[col:]
            if out[6:col].strip() or not k.startswith(main[:1]):
                return 'text does not start in column %d' % (col + 1)
            if main == k:
                return None
            # blanks in front of a trailing comment may differ
            if ''.join(main.split()) != ''.join(k.split()):
                return 'text changed'
            if not k.startswith(p.main):
                return 'Fortran text changed'
            return None
        left = raw[:p.main_start]
        lt = left.rstrip() if 'l' in p.cls else (left if 'n' in p.cls else '')
        if 'l' in p.cls:
            col = max(s, len(lt) + 1)
        elif 'n' in p.cls:
            lead = len(lt) - len(lt.lstrip(' '))
            col = max(s, p.main_start - lead)
        else:
            col = s
        # the model's text of a continuation line starts right after the ampersand or at its first character
        m0 = main.lstrip(' \t') if not lt and not first else main
        if out[:col].strip() != left.strip():
            return 'text in front of the statement changed or misplaced (expected text in column %d)' % (col + 1)
        if out[col:col + len(m0)] != m0:
            return 'Fortran text changed or not in column %d' % (col + 1)
        rest = out[col + len(m0):]
        tail = raw[p.main_start + len(main):]
        # a comment behind an ampersand may keep its column; an ampersand next to a token has to stay there
        amp = lambda x: re.sub(r'^&[ \t]+!', '&!', x.strip())
        if amp(rest) != amp(tail):
            return 'trailing text changed'
        if tail[:1] == '&' and rest[:1] != '&':
            return 'ampersand separated from the token in front of it'
        if tail[:1] in ' \t' and right and rest[:1] not in ' \t':
            return 'blank in front of the trailing text removed'
        if right and tail[:1] not in ' \t\r' and rest != tail and '!' not in right:
            return 'blank introduced in front of the continuation mark'
        return None
    if 'c' in p.cls:
        t = raw.lstrip(' \t')
        if t[0] != '!':
            return None if out == raw else 'fixed-form comment changed'
        if form == 'fixed' and s == 5:
            s = 6
        if out[:s].strip() or out[s:s + 1] != '!':
            return 'comment does not start in column %d' % (s + 1)
        if out[s + 1:].strip() != t[1:].strip():
            return 'comment text changed'
        if raw[:1] != '!' and out[s:] != t:
            return 'comment text changed'
        return None
    return None if out == raw else 'line which must not be indented changed'


def c13():
    ck = Check('C13', 'Generated programs are indented with each built-in table and with random per-construct tables. '
               'Each statement must end up at the indentation its path in the (known) program tree asks for, comments '
               'and continuation lines with it, other lines untouched; nothing but blanks outside the Fortran text may '
               'change; a second pass must change nothing and say so. Non-trivial: some line moved.')
    ck.build()
    rng = ck.rng
    cases = []
    while len(cases) < ck.scale(5000, 25000):
        form = rng.choice(('free', 'free', 'free', 'fixed'))
        kind = rng.choice('ceefs') if form == 'free' else rng.choice('fs')
        n = rng.choice((0, 1, 2, 3, 3, 4, 5, 8))
        if kind == 's':
            t = {k: rng.randint(0, 4) for k in CUSTOM if rng.random() < .5}
            t['_cont'] = rng.randint(0, 6)
            spec = 's%d,' % t['_cont'] + ','.join('%s=%d' % (k, v) for k, v in sorted(t.items()) if k[0] != '_')
        else:
            t = TABLES[kind](n)
            spec = kind + str(n)
        # unlimited fixed-form lines: with a column limit, indentation can push text over it
        p, tree, form, lc, pl, el = gen(rng, form, 0, oldstyle=kind != 's')
        cases.append((('parse', form, str(lc), 'x.f90' if form == 'free' else 'x.f', '', spec, F.text_of(pl)),
                      (p, tree, form, pl, el, t, spec)))

    def oracle(meta, obs):
        p, tree, form, pl, el, t, spec = meta
        if not obs.get('good'):
            ck.seen(F.text_of(pl), False)
            return ['a well-formed program was not recognized']
        before = obs['out']
        after = obs['iout']
        ck.seen(F.text_of(pl) + spec, before != after)
        ck.count('table_' + spec[0])
        ck.sample('%s: %s' % (spec, F.text_of(pl)[:200]))
        if obs['ind1'] != (before != after):
            return ['indent reported %s but the text %s' % (obs['ind1'], 'changed' if before != after else 'did not change')]
        m = []
        if obs['ind2'] or obs['iout2'] != after:
            m.append('indenting a second time: reported %s, %s' % (obs['ind2'], diff(after, obs['iout2'])))
        lines = after.split('\n')[:-1]
        if len(lines) != len(pl):
            return m + ['number of lines changed from %d to %d' % (len(pl), len(lines))]
        want = {}
        indents(tree, t, 0, want)
        # which logical line belongs to which statement
        exp = F.expected_stmts(el)
        need = {}
        for k, (lab, comp, prefix, li, toks) in enumerate(exp):
            if comp < 2:
                need[li] = (want[k], t['_cont'])
                for q in prefix:
                    need[q] = (want[k], t['_cont'] if el[q].cat == 'F' else 0)
        pos = 0
        moved = 0
        for li, e in enumerate(el):
            fpos = 0
            for j, q in enumerate(e.plines):
                out = lines[pos]
                pos += 1
                if li not in need:
                    if out != (q.raw if form == 'free' else F.norm_tabs(q.printed)):
                        m.append('line %d after the last statement changed' % pos)
                    continue
                s = need[li][0] + (need[li][1] if j else 0)
                x = line_msg(q, out, s, form, j == 0)
                if out != q.raw:
                    moved += 1
                if x:
                    m.append('line %d: %s: before %s, after %s (statement indentation %d, table %s)' % (
                        pos, x, F.show(q.raw), F.show(out), need[li][0], spec))
        ck.count('lines_moved', moved)
        ck.count('lines_judged', pos)
        return m[:4]
    ck.run(cases, oracle, chunk=60)
    ck.finish()
