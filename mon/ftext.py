"""Reference model of Fortran source text.

Statements are lists of Tok; the layout engines turn a list of items (logical
lines, comments, directives...) into free- or fixed-form source text and, at the
same time, the observations which a correct scanner has to make of that text."""
import random, re

KEYWORDS = set('''abstract acquired_lock all allocatable allocate assignment associate asynchronous
backspace bind block call case character class close codimension common complex concurrent contains
contiguous continue critical cycle data deallocate default deferred dimension do dowhile double
doubleprecision elemental else end entry enum enumerator eor equivalence err errmsg error event exit
extends external fail file final flush forall form format formatted function generic go id if image
images implicit import impure in include inout inquire integer intent interface intrinsic iomsg iostat
is kind len local local_init lock logical memory module mold name namelist new_index nopass
non_intrinsic non_overridable non_recursive none nullify only open operator optional out parameter
pass pointer post precision print private procedure program protected public pure quiet rank read real
recursive result return rewind save select sequence shared source stat stop submodule subroutine sync
target team team_number then to type unformatted unit unlock until_count use value volatile wait where
while write'''.split())

# adjacent keywords which may be written without a blank (F2018 6.3.2.2) and
# which the lexer presents as two tokens
SMASHED = {('go', 'to'), ('end', 'do'), ('else', 'if'), ('end', 'type'), ('end', 'file'),
           ('select', 'type'), ('else', 'where'), ('end', 'team'), ('end', 'select'), ('end', 'enum'),
           ('end', 'critical'), ('select', 'case'), ('end', 'function'), ('end', 'forall'),
           ('end', 'associate'), ('end', 'if'), ('end', 'submodule'), ('block', 'data'),
           ('end', 'subroutine'), ('end', 'where'), ('end', 'module'), ('end', 'procedure'),
           ('end', 'program'), ('end', 'block'), ('end', 'interface')}
SMASH_WORDS = {a + b: (a, b) for a, b in SMASHED}

SYMBOLS = {'(': '(', ')': ')', '[': '[', ']': ']', '+': '+', '-': '-', '=': '=', '..': '..', '::': '::',
           ':': ':', ';': ';', '/': '/', '%': '%', ',': ',', '**': '**', '*': '*', '|': '|', '//': '//',
           '=>': '=>', '==': '==', '/=': '/=', '<': '<', '<=': '<=', '>': '>', '>=': '>=',
           '.eq.': '==', '.ne.': '/=', '.lt.': '<', '.le.': '<=', '.gt.': '>', '.ge.': '>=',
           '.not.': '.NOT.', '.and.': '.AND.', '.or.': '.OR.', '.eqv.': '.EQV.', '.neqv.': '.NEQV.'}


class Tok(object):
    __slots__ = ('text', 'tag', 'nosp', 'smash')

    def __init__(self, text, tag, nosp=False):
        self.text, self.tag, self.nosp = text, tag, nosp
        self.smash = False      # may be glued to the previous token

    def __repr__(self):
        return '%s<%s>' % (self.text, self.tag)


def word(w):
    l = w.lower()
    if l in SMASH_WORDS:
        raise ValueError('smashed keyword %r' % w)
    return Tok(w, l.upper() if l in KEYWORDS else 'name')


def sym(s):
    l = s.lower()
    if l in SYMBOLS:
        return Tok(s, SYMBOLS[l])
    if re.match(r'\.(true|false)\.', l):
        return Tok(s, '.TRUE.' if l[1] == 't' else '.FALSE.')
    if re.match(r'\.[a-z]+\.$', l):
        return Tok(s, 'defined-operator')
    raise ValueError(s)


def integer(s):
    return Tok(s, 'int-literal-constant')


def string(s):
    return Tok(s, 'char-literal-constant')


def real(sig, letter=None, exp=None, kind=None):
    out = [Tok(sig, 'significand')]
    if letter:
        out.append(Tok(letter, 'exponent-letter', True))
        out.append(Tok(exp, 'exponent', True))
    if kind:
        out.append(Tok('_', '_', True))
        out.append(Tok(kind, 'kind-param', True))
    return out


_lex = re.compile(r'''
   (?P<ws>[ \t]+)
 | (?P<str>(?:[A-Za-z0-9_]+_)?(?:'(?:[^']|'')*'|"(?:[^"]|"")*"))
 | (?P<logic>\.(?:true|false)\.(?:_\w+)?)
 | (?P<dot>\.[A-Za-z]+\.)
 | (?P<real>(?:\d+\.(?![A-Za-z]+\.)\d*|\.\d+)(?:[edED][-+]?\d+)?(?:_\w+)?|\d+[edED][-+]?\d+(?:_\w+)?)
 | (?P<int>\d+(?:_\w+)?)
 | (?P<word>[A-Za-z]\w*)
 | (?P<sym>\.\.|::|\*\*|//|=>|==|/=|<=|>=|[()\[\]+\-=:;/%,*|<>])
 | (?P<bad>.)
''', re.X | re.I)
_realparts = re.compile(r'(\d+\.\d*|\.\d+|\d+)(?:([edED])([-+]?\d+))?(?:_(\w+))?$')


def lex(text):
    """Independent reference lexer for one statement (no continuations)."""
    out = []
    for m in _lex.finditer(text):
        k, t = m.lastgroup, m.group()
        if k == 'ws':
            continue
        if k == 'str':
            out.append(string(t))
        elif k in ('logic', 'dot', 'sym'):
            out.append(sym(t))
        elif k == 'real':
            out += real(*_realparts.match(t).groups())
        elif k == 'int':
            out.append(integer(t))
        elif k == 'word':
            l = t.lower()
            if l in SMASH_WORDS:
                n = len(SMASH_WORDS[l][0])
                a, b = word(t[:n]), word(t[n:])
                b.smash = True
                out += [a, b]
            else:
                out.append(word(t))
        else:
            out.append(Tok(t, '<UNKNOWN>'))
    for a, b in zip(out, out[1:]):
        if (a.text.lower(), b.text.lower()) in SMASHED and a.tag != 'char-literal-constant':
            b.smash = True
    return out


_W = re.compile(r'[A-Za-z0-9_]')


def gap_kind(a, b):
    """'N': no blank allowed, 'S': separator needed, 'O': optional"""
    if b.nosp:
        return 'N'
    x, y = a.text[-1], b.text[0]
    if b.smash:
        return 'O'
    if _W.match(x) and (_W.match(y)):
        return 'S'
    if x in '\'"' and y in '\'"':
        return 'S'
    if _W.match(x) and y in '\'"':
        # a name or number ending in '_' would become a kind prefix
        return 'S' if x == '_' else 'O'
    if a.tag == 'significand' and x == '.' and (y == '.' or _W.match(y)):
        return 'S'
    if a.tag in ('significand', 'int-literal-constant', 'exponent', 'kind-param') and y == '.' and len(b.text) > 1 \
            and (b.text[1].isdigit() or b.text[1] == '.'):
        return 'S'
    if a.tag in ('.TRUE.', '.FALSE.') and y == '_':
        return 'S'
    if x in '/*=:<>.' and y in '/*=:<>.' and not (x == '.' and len(a.text) > 2) and not (y == '.' and len(b.text) > 2 and x != '.'):
        return 'S'
    return 'O'


# ------------------------------------------------------------------ items

class Item(object):
    pass


class Line(Item):
    """A logical line: optional label and statements separated by semicolons"""

    def __init__(self, stmts, label=0, label_text=None, lead_semi=0, trail_semi=0, dbl=None):
        self.stmts = stmts          # list of list of Tok
        self.label = label
        self.label_text = label_text or (str(label) if label else '')
        self.lead_semi, self.trail_semi = lead_semi, trail_semi
        self.dbl = dbl or {}        # index -> extra semicolons after statement i

    def toks(self):
        out = [Tok(';', ';') for _ in range(self.lead_semi)]
        for i, s in enumerate(self.stmts):
            if i:
                out += [Tok(';', ';') for _ in range(1 + self.dbl.get(i - 1, 0))]
            out += s
        out += [Tok(';', ';') for _ in range(self.trail_semi)]
        return out

    def nsemi(self):
        return self.lead_semi + self.trail_semi + max(0, len(self.stmts) - 1) + \
            sum(v for k, v in self.dbl.items() if k < len(self.stmts) - 1)


class Trivial(Item):
    def __init__(self, lines):
        self.lines = lines


class Special(Item):
    """macro | include | flprpp | lit"""

    def __init__(self, kind, lines):
        self.kind, self.lines = kind, lines


class PLine(object):
    """expected physical line"""
    __slots__ = ('raw', 'cls', 'main', 'main_start', 'right', 'printed')

    def __init__(self, raw, cls, main='', main_start=0, right=''):
        self.raw, self.cls, self.main, self.main_start, self.right = raw, cls, main, main_start, right
        self.printed = raw


class ELine(object):
    """expected logical line"""

    def __init__(self, cat, plines, first, label=0, toks=None, item=None):
        self.cat, self.plines, self.first, self.label = cat, plines, first, label
        self.toks = toks or []      # (Tok, line, col, l0, c0, l1, c1, same-line pre spaces or None)
        self.item = item


class Style(object):
    def __init__(self, rng, **kw):
        self.rng = rng
        self.p_cont = kw.get('p_cont', 0.08)
        self.p_split = kw.get('p_split', 0.02)
        self.p_inter = kw.get('p_inter', 0.25)
        self.p_tcomment = kw.get('p_tcomment', 0.15)
        self.max_sp = kw.get('max_sp', 3)
        self.tabs = kw.get('tabs', 0.03)
        self.p_amp = kw.get('p_amp', 0.5)
        self.indent = kw.get('indent', None)
        self.p_deep = kw.get('p_deep', 0.01)
        self.p_trail = kw.get('p_trail', 0.1)
        self.max_line = kw.get('max_line', 120)
        self.inter_blank = kw.get('inter_blank', True)
        self.p_lead0 = kw.get('p_lead0', 0.3)
        self.p_zero = kw.get('p_zero', 0.05)
        self.p_blankcont = kw.get('p_blankcont', 0.05)

    def sp(self, lo=0):
        r = self.rng
        n = r.choice((lo, lo, max(lo, 1), max(lo, 1), max(lo, 1), r.randint(lo, max(lo, self.max_sp))))
        s = ' ' * n
        if n and r.random() < self.tabs:
            i = r.randrange(n)
            s = s[:i] + '\t' + s[i + 1:]
        return s


COMMENT_BITS = ["it's", 'say "hi"', 'a & b &', 'x = 1; y', '$omp parallel', '!!', 'caf\xe9', '', 'TODO: & ', '#if',
                "'open", '"open', 'call foo()', '100 continue', '\t tab', 'include "x"', '% \\']


def comment_text(rng):
    return '!' + ' ' * rng.randint(0, 2) + rng.choice(COMMENT_BITS) + (rng.choice(COMMENT_BITS) if rng.random() < .3 else '')


def free_comment_line(rng):
    c = comment_text(rng)
    if c.lower().startswith('!#flpr'):
        c = '! x'
    return ' ' * rng.choice((0, 0, 2, 5, 9)) + c


def blank_line(rng):
    return rng.choice(('', '', '', '   ', '\t', ' \t '))


def inter_lines(rng, style, fixed=False):
    out = []
    if rng.random() < style.p_inter:
        for _ in range(rng.randint(1, 3)):
            if style.inter_blank and rng.random() < .35:
                out.append(PLine(blank_line(rng), 'b'))
            else:
                out.append(PLine(fixed_comment_line(rng) if fixed else free_comment_line(rng), 'c'))
    return out


def split_points(t):
    """Positions at which a token's text may be broken by a continuation."""
    if len(t.text) < 2:
        return []
    pts = list(range(1, len(t.text)))
    if t.tag == 'char-literal-constant':
        q = t.text[-1]
        body = t.text.index(q)
        ok = []
        i = body + 1
        while i < len(t.text):
            # i is a possible break before text[i], unless inside a doubled delimiter
            ok.append(i)
            if t.text[i] == q and i + 1 < len(t.text) and t.text[i + 1] == q:
                i += 2
            else:
                i += 1
        return [p for p in ok if p < len(t.text)]
    if t.text[0] == '.' and t.tag not in ('significand',):
        return pts
    return pts


def layout_free(items, style):
    """-> (list of physical lines, list of ELine)"""
    rng = style.rng
    plines, elines = [], []

    def trivial(pl):
        if elines and elines[-1].cat == 'T':
            elines[-1].plines += pl
        else:
            elines.append(ELine('T', list(pl), len(plines) + 1))
        plines.extend(pl)

    for it in items:
        if isinstance(it, Trivial):
            trivial([PLine(l, 'b' if not l.strip(' \t\r') else 'c') for l in it.lines])
            continue
        if isinstance(it, Special):
            c = {'macro': 'p', 'include': 'i', 'flprpp': 'P', 'lit': 'L'}[it.kind]
            pl = [PLine(l, c) for l in it.lines]
            if it.kind == 'macro' or it.kind == 'include' or it.kind == 'flprpp':
                for k in range(1, len(pl)):
                    pl[k].cls = 'p'
            if it.kind == 'lit' and elines and elines[-1].cat == 'lit':
                elines[-1].plines += pl
            else:
                elines.append(ELine(it.kind, pl, len(plines) + 1))
            plines.extend(pl)
            continue
        toks = it.toks()
        first = len(plines) + 1
        mine = []
        ind = style.sp() if style.indent is None else ' ' * style.indent
        if rng.random() < style.p_deep:
            ind = ' ' * rng.choice((20, 50, 75, 90, 110, 125))
        cur = ind
        cls0 = 'F'
        if it.label:
            cur += it.label_text + (style.sp(1) or ' ')
            cls0 = 'Fl'
        start = len(cur)
        state = {'cur': cur, 'start': start, 'cls': cls0}
        recs = []

        def flush(right, rsp):
            main = state['cur'][state['start']:]
            raw = state['cur'] + rsp + right
            mine.append(PLine(raw, state['cls'] + ('d' if right[:1] == '&' else ''), main, state['start'], right))

        def newline(amp, pre, post=''):
            cur = pre + ('&' if amp else '')
            state['cls'] = 'F' + ('n' if amp else '')
            state['start'] = len(cur)
            state['cur'] = cur + post

        for i, t in enumerate(toks):
            pre = None
            if i:
                g = gap_kind(toks[i - 1], t)
                long = len(state['cur']) > style.max_line
                if g == 'N':
                    pre = 0
                    if rng.random() < style.p_split:        # inside a real literal
                        flush('&' + (' ' + comment_text(rng) if rng.random() < style.p_tcomment else ''), '')
                        mine.extend(inter_lines(rng, style))
                        newline(True, ' ' * rng.randint(0, 8))
                        pre = None
                elif (rng.random() < style.p_cont or long) and not t.text.lower() == 'include':
                    amp = rng.random() < style.p_amp
                    a, k, m = style.sp(), ' ' * rng.randint(0, 8), style.sp()
                    if g == 'S' and not a and not (amp and m) and not (not amp and k):
                        a = ' '
                    right = '&'
                    r = rng.random()
                    if r < style.p_tcomment:
                        right += style.sp() + comment_text(rng)
                    elif r < style.p_tcomment + style.p_trail:
                        right += style.sp(1)
                    flush(right, a)
                    mine.extend(inter_lines(rng, style))
                    if amp:
                        newline(True, k, m)
                    else:
                        newline(False, k)
                else:
                    s = style.sp(1 if g == 'S' else 0)
                    state['cur'] += s
                    pre = len(s)
            # place the token, possibly broken
            l0, c0 = len(mine), len(state['cur']) - state['start']
            fl, fc = first + len(mine), len(state['cur']) + 1
            pts = split_points(t) if rng.random() < style.p_split else []
            if pts:
                ws = [q for q in pts if t.text[q] in ' \t&' or t.text[q - 1] in ' \t&']
                if ws and rng.random() < .5:
                    pts = ws
                cut = sorted(rng.sample(pts, min(len(pts), rng.choice((1, 1, 2)))))
                pos = 0
                q = t.text.index(t.text[-1]) if t.tag == 'char-literal-constant' else None
                for p in cut:
                    state['cur'] += t.text[pos:p]
                    right = '&'
                    inchar = q is not None and p > q
                    if not inchar and rng.random() < style.p_tcomment:
                        right += style.sp() + comment_text(rng)
                    elif rng.random() < style.p_trail:
                        right += style.sp(1)
                    flush(right, '')
                    mine.extend(inter_lines(rng, style))
                    newline(True, ' ' * rng.randint(0, 8))
                    pos = p
                state['cur'] += t.text[pos:]
            else:
                state['cur'] += t.text
            recs.append((t, fl, fc, l0, c0, len(mine), len(state['cur']) - state['start'], pre))
        r = rng.random()
        if r < style.p_tcomment:
            flush(comment_text(rng), style.sp())
        elif r < style.p_tcomment + style.p_trail:
            flush('', style.sp(1))
        else:
            flush('', '')
        e = ELine('F', mine, first, it.label, recs, it)
        elines.append(e)
        plines.extend(mine)
    return plines, elines


# ------------------------------------------------------------------ fixed form

def fixed_comment_line(rng):
    k = rng.choice('Cc*!')
    c = comment_text(rng)[1:]
    if k == '!' and rng.random() < .4:
        n = rng.choice((0, 2, 4, 6, 8))
        return ' ' * n + '!' + c
    if c.startswith('#flpr'):
        c = ' x'
    return k + c


def layout_fixed(items, style, last_col=72):
    rng = style.rng
    plines, elines = [], []
    LC = last_col if last_col > 0 else 10 ** 6
    soft = last_col if last_col > 0 else 90

    def trivial(pl):
        if elines and elines[-1].cat == 'T':
            elines[-1].plines += pl
        else:
            elines.append(ELine('T', list(pl), len(plines) + 1))
        plines.extend(pl)

    for it in items:
        if isinstance(it, Trivial):
            trivial([PLine(l, 'b' if not l.strip(' \t\r') else 'c') for l in it.lines])
            continue
        if isinstance(it, Special):
            c = {'macro': 'p', 'include': 'i', 'flprpp': 'P'}[it.kind]
            pl = [PLine(l, c) for l in it.lines]
            for k in range(1, len(pl)):
                pl[k].cls = 'p'
            elines.append(ELine(it.kind, pl, len(plines) + 1))
            plines.extend(pl)
            continue
        toks = it.toks()
        first = len(plines) + 1
        mine, recs = [], []
        cls = 'F'
        if it.label:
            lt = it.label_text
            n = rng.randint(0, 5 - len(lt))
            ctl = ' ' * n + lt
            if rng.random() < style.p_zero:
                ctl = ctl.ljust(5) + '0'
            cls = 'Fl'
        else:
            ctl = '     0' if rng.random() < style.p_zero else ''
        ind = style.sp() if style.indent is None else ' ' * style.indent
        head = (ctl + ' ' * 6)[:6] + ind
        state = {'cur': head, 'start': len(head), 'cls': cls}

        def flush(last=False, inchar=False):
            cur = state['cur']
            main = cur[state['start']:]
            right = ''
            rsp = ''
            printed = None
            r = rng.random()
            if not inchar and r < style.p_tcomment and len(cur) < LC - 2:
                rsp = style.sp(1) if len(cur) < LC - 4 else ''
                right = comment_text(rng)
                if last_col > 0 and len(cur + rsp) + len(right) > LC:
                    pass            # the comment may run past the last column
                raw = cur + rsp + right
            elif last_col > 0 and r < style.p_tcomment + style.p_trail:
                # identification field past the last column
                if not inchar or len(cur) == LC:
                    rsp = ' ' * (LC - len(cur))
                    ident = rng.choice(('00010000', 'ABC  12', '  x', '!note', '   ', "don't", '"', '&1'))
                    raw = cur + rsp + ident
                    if not ident.strip():
                        right = ''
                        printed = cur + rsp
                    elif ident.strip()[0] in '&!':
                        right = ident
                    else:
                        right = '! ' + ident
                        printed = cur + rsp + right
                else:
                    raw = cur
            elif not inchar and r < style.p_tcomment + 2 * style.p_trail and len(cur) + 3 < LC:
                rsp = style.sp(1)
                raw = cur + rsp
            else:
                raw = cur
            p = PLine(raw, state['cls'], main, state['start'], right)
            if printed is not None:
                p.printed = printed
            mine.append(p)

        def newline(lead):
            state['cls'] = 'Fn'
            cur = '     ' + rng.choice('&&&1$+*xC!')
            state['cur'] = cur + lead
            state['start'] = len(state['cur'])

        for i, t in enumerate(toks):
            pre = None
            if i:
                g = gap_kind(toks[i - 1], t)
                s = style.sp(1 if g == 'S' else 0)
                over = len(state['cur']) + len(s) + len(t.text) > soft
                if g == 'N':
                    pre = 0
                    if rng.random() < style.p_split:        # inside a real literal
                        mine.append(PLine(state['cur'], state['cls'], state['cur'][state['start']:], state['start'], ''))
                        mine.extend(inter_lines(rng, style, True))
                        newline('')
                        pre = None
                elif (rng.random() < style.p_cont or over) and t.text.lower() != 'include':
                    flush()
                    mine.extend(inter_lines(rng, style, True))
                    if rng.random() < style.p_blankcont:
                        mine.append(PLine('     ' + rng.choice('&1x') + ' ' * rng.randint(0, 3), 'bn'))
                    # a separator is guaranteed by the indent of the next line
                    newline(style.sp(1) if g == 'S' else style.sp())
                else:
                    state['cur'] += s
                    pre = len(s)
            l0, c0 = len(mine), len(state['cur']) - state['start']
            fl, fc = first + len(mine), len(state['cur']) + 1
            text = t.text
            ischar = t.tag == 'char-literal-constant'
            if len(state['cur']) + len(text) > LC:
                # must be broken at the last column
                pts = set(split_points(t)) | ({len(text)} if not ischar else set())
                pos = 0
                while len(state['cur']) + len(text) - pos > LC:
                    p = pos + LC - len(state['cur'])
                    if p not in pts and p < len(text):
                        raise Retry()
                    state['cur'] += text[pos:p]
                    q = text.index(text[-1]) if ischar else 10 ** 9
                    flush(inchar=ischar and p > q)
                    mine.extend(inter_lines(rng, style, True))
                    newline('')
                    pos = p
                state['cur'] += text[pos:]
                if pos == 0 or pos >= len(text):
                    raise Retry()
            elif (not ischar or last_col == 0) and len(text) > 1 and rng.random() < style.p_split:
                p = rng.choice(split_points(t) if ischar else range(1, len(text)))
                ws = [q for q in split_points(t) if text[q] in ' \t' or text[q - 1] in ' \t'] if ischar else []
                if ws and rng.random() < .5:
                    p = rng.choice(ws)
                state['cur'] += text[:p]
                # no trailing blanks here: they would separate
                r = PLine(state['cur'], state['cls'], state['cur'][state['start']:], state['start'], '')
                mine.append(r)
                mine.extend(inter_lines(rng, style, True))
                newline('')
                state['cur'] += text[p:]
            else:
                state['cur'] += text
            if len(state['cur']) > LC:
                raise Retry()
            recs.append((t, fl, fc, l0, c0, len(mine), len(state['cur']) - state['start'], pre))
        flush(True)
        elines.append(ELine('F', mine, first, it.label, recs, it))
        plines.extend(mine)
    return plines, elines


class Retry(Exception):
    pass


def do_layout(items, rng, form, last_col=72, **kw):
    """Lay out, retrying when fixed form cannot break a token where needed."""
    for k in range(30):
        try:
            st = Style(rng, **kw)
            if form == 'free':
                return layout_free(items, st)
            return layout_fixed(items, st, last_col)
        except Retry:
            kw['p_split'] = kw.get('p_split', 0.02) / 2
    raise Retry()


def text_of(plines, eol='\n', final=True):
    s = eol.join(p.raw for p in plines)
    if plines and final:
        s += eol
    return s


def norm_tabs(raw):
    """Documented normalisation: tabs reaching into the control columns become 6-blank blocks."""
    p = raw.find('\t')
    if p < 0 or p >= 6:
        return raw
    e = p
    while e < len(raw) and raw[e] == '\t':
        e += 1
    return raw[:p] + ' ' * (6 * (e - p)) + raw[e:]


def tabify(p, rng, lc):
    """Put one or more tabs into the control columns of a fixed-form line, if that leaves its meaning alone."""
    raw = p.raw
    if p.right or len(p.printed) != len(raw) or '\t' in raw[:12]:
        return False
    if p.cls == 'F':
        if raw[5:6] not in (' ', '') or not raw[:5].strip(' 0123456789') == '':
            return False
        lab = len(raw[:6].rstrip())
        if lab and raw[:lab].lstrip() != raw[:lab]:
            return False
        n = len(raw) - len(raw[max(lab, 0):].lstrip(' ')) - lab
        if n < 6 - lab:
            return False
        at = lab if lab else rng.choice((0, 0, 0, 1, 3))
        new = raw[:lab] + ' ' * (at - lab) + '\t' * rng.choice((1, 1, 1, 2, 3, 7)) + \
            (' ' * rng.choice((0, 0, 1, 4))) + raw[lab + n:]
    elif p.cls == 'c' and len(raw) > 1 and raw[0] != ' ':
        new = raw[0] + '\t' * rng.choice((1, 2, 6)) + raw[1:]
    else:
        return False
    if lc and len(norm_tabs(new)) > lc:
        return False
    p.raw = p.printed = new
    return True


def expected_out(plines, form):
    if form == 'free':
        return ''.join(p.raw + '\n' for p in plines)
    return ''.join(norm_tabs(p.printed) + '\n' for p in plines)


# ------------------------------------------------------------------ random material

NAMES = ['x', 'y', 'i', 'n', 'foo', 'bar_1', 'e1', 'd2', 'E', 'd', 'abc', 'Xyz', 'a_long_variable_name', 'h2o', 'if',
         'data', 'end', 'format', 'real', 'type', 'z9_', 'do', 'endx', 'callx', 'goto_', 'INTEGER', 'Name', 'kind', 'x__y',
         'selectcasex', 'dd', 'ee', 'in', 'out']
OPS = ['+', '-', '*', '/', '**', '//', '==', '/=', '<', '<=', '>', '>=', '.eq.', '.NE.', '.lt.', '.le.', '.gt.', '.ge.',
       '.and.', '.or.', '.eqv.', '.neqv.', '.not.', '.AND.', '.cross.', '.x.', '.e.', '.d.']
PUNCT = ['(', ')', '[', ']', '=', '::', ':', '%', ',', '=>', '|', '..']


def rnd_string(rng):
    q = rng.choice('\'"')
    o = '"' if q == "'" else "'"
    body = ''.join(rng.choice(['a', 'B', ' ', '  ', '!', '&', ';', o, q + q, '1', '\xe9', '%', '\\', '/', '(', 'end', '\t', '#'])
                   for _ in range(rng.choice((0, 1, 2, 5, 9))))
    if rng.random() < .1:       # mostly white space
        body = ''.join(rng.choice((' ', ' ', '\t', '  ', 'a', '&', q + q)) for _ in range(rng.choice((3, 6, 20))))
    elif rng.random() < .04:    # longer than what fits on a line
        n = rng.choice((40, 90, 130, 200, 400))
        while len(body) < n:
            body += rng.choice(('a', ' text ', ' a b', q + q, o, ' ! ', '&', 'xyzzy', ';', '  '))
    k = rng.choice(['', '', '', '', 'kk_', '1_'])
    return string(k + q + body + q)


def rnd_real(rng):
    kind = rng.choice([None, None, None, '8', 'dp', 'd', 'e1', 'real64'])
    f = rng.choice(('1.', '1.5', '.5', '0.', '12.345', '100', '3'))
    if f.isdigit():
        return real(f, rng.choice('eEdD'), rng.choice(('5', '-3', '+10', '0')), kind)
    if rng.random() < .5:
        return real(f, rng.choice('eEdD'), rng.choice(('5', '-3', '+10', '0')), kind)
    return real(f, kind=kind)


def rnd_tok(rng):
    """one random lexical element -> list of Tok"""
    r = rng.random()
    if r < .33:
        if rng.random() < .01:
            return [word(rng.choice('nN') + '_123456789' * rng.choice((3, 5, 6)))]
        return [word(rng.choice(NAMES))]
    if r < .45:
        return [word(rng.choice(sorted(KEYWORDS)))]
    if r < .55:
        return [integer(rng.choice(('0', '1', '42', '007', '1_8', '10_ik', '99999')))]
    if r < .63:
        return rnd_real(rng)
    if r < .70:
        return [rnd_string(rng)]
    if r < .73:
        return [sym(rng.choice(('.true.', '.FALSE.', '.true._1', '.false._lk')))]
    if r < .77:
        a, b = rng.choice(sorted(SMASHED))
        if rng.random() < .3:
            a, b = a.upper(), b.upper()
        return [word(a), _sm(b)]
    if r < .90:
        return [sym(rng.choice(OPS))]
    return [sym(rng.choice(PUNCT))]


def _sm(b):
    t = word(b)
    t.smash = True
    return t


def clean_soup(toks):
    """Avoid sequences whose lexical reading is ambiguous in the model."""
    out = []
    drop = False
    for t in toks:
        if out:
            a = out[-1]
            if t.text == '_' and a.tag not in ('significand', 'exponent'):
                continue
            # '(/' style and '..' next to other dots: keep apart by construction
            if (a.text == '..' and (t.text[0] == '.' or t.text[0].isdigit())) or (t.text == '..' and a.text[-1] in '.0123456789'):
                drop = True
                continue
            if drop and t.nosp:
                continue
        drop = False
        out.append(t)
    return out


def fix_smash(toks):
    """b.smash is only meaningful right after its partner, and only if the pair
    glued together is not part of a longer word"""
    for i, t in enumerate(toks):
        if t.smash:
            if i == 0 or (toks[i - 1].text.lower(), t.text.lower()) not in SMASHED or toks[i - 1].tag == 'char-literal-constant':
                t.smash = False
    return toks


def rnd_stmt(rng, maxlen=14):
    """A token soup statement (not necessarily a Fortran statement)"""
    n = rng.choice((1, 2, 3, 5, 8, maxlen))
    toks = []
    while len(toks) < n:
        toks += rnd_tok(rng)
    toks = fix_smash(clean_soup(toks))
    # a statement must not begin like a label, an include line or a continuation
    if toks[0].text[0].isdigit() or toks[0].text.lower() == 'include':
        toks.insert(0, word('x'))
        toks = fix_smash(toks)
    return toks


MACROS = [['#define A 1'], ['#if defined(X) && \\', '    defined(Y)'], ['#endif'], ['#'], ['#define M(a) \\', '  a + \\', '', ][:3],
          ["#error don't & do"], ['#define S "a'], ['#define Q \\   ', 'x = 1']]
INCLUDES = [['include "foo.h"'], ["  INCLUDE 'bar.inc' ! why"], ['include"x"']]


def rnd_include(rng):
    q = rng.choice('\'"')
    return (' ' * rng.choice((0, 0, 1, 3)) + rng.choice(('include', 'INCLUDE', 'Include', 'iNCLUDE')) + ' ' * rng.choice((0, 1, 1, 2, 3, 7)) + q +
            rng.choice(('a.h', 'b/c.inc', 'x y', "it''s" if q == "'" else 'it""s', '')) + q + rng.choice(('', '', '  ', ' ! why', '! "', '\t')))


def rnd_like_include(rng):
    """statements which only look like INCLUDE lines"""
    x = rng.random()
    if x < .5:
        return [word(rng.choice(('include', 'INCLUDE', 'Include')))] + \
            rng.choice(([sym('='), string("'a'")], [sym('('), string('"b"'), sym(')'), sym('='), integer('1')], [sym('%'), word('x'), sym('='), string("'c'")]))
    return [word(rng.choice(('include_', 'includes', 'inclu', 'include1', 'xinclude'))), rng.choice((string("'a'"), string('"b"'), sym('=')))]


def no_include(rng, maxlen=14):
    """for editing checks: a string put behind `include` may make an INCLUDE line of a statement's line"""
    while True:
        t = rnd_stmt(rng, maxlen)
        if not any(x.text.lower() == 'include' for x in t):
            return t


def rnd_items(rng, form, n=None, stmtgen=rnd_stmt, specials=True, labels=True, compound=True, literal=True, like_include=True):
    items = []
    n = n or rng.choice((1, 2, 3, 5, 8, 12))
    for _ in range(n):
        r = rng.random()
        if r < .12:
            items.append(Trivial([blank_line(rng) if rng.random() < .4 else
                                  (free_comment_line(rng) if form == 'free' else fixed_comment_line(rng))
                                  for _ in range(rng.randint(1, 3))]))
        elif r < .17 and specials:
            items.append(Special('macro', rng.choice(MACROS)))
        elif r < .19 and specials:
            inc = rng.choice(INCLUDES) if rng.random() < .3 else [rnd_include(rng)]
            items.append(Special('include', inc if form == 'free' else ['      ' + x.strip() for x in inc]))
        elif r < .21 and specials:
            items.append(Special('flprpp', [rng.choice(('!#flpr hello', '!#flprx', '  !#flpr  opt & y')) if form == 'free'
                                            else rng.choice(('!#flpr hello', 'C#flpr yes', '*#flpr z'))]))
        elif r < .23 and specials and literal and form == 'free':
            body = [rng.choice(('x = &', 'any "text', '', '#if', '! c', "don't", '   10',
                                '!#flpr hello', '  !#flpr    other', '!#flprliteral', 'x !#flpr    literal')) for _ in range(rng.randint(0, 4))]
            items.append(Special('lit', [' !#flpr    literal'] + body + ['!#flpr    literal']))
        else:
            k = rng.choice((1, 1, 1, 1, 2, 3)) if compound else 1
            stmts = [rnd_like_include(rng) if like_include and stmtgen is rnd_stmt and rng.random() < .03 else stmtgen(rng) for _ in range(k)]
            for s in stmts[1:]:
                pass
            lab = 0
            lt = None
            if labels and rng.random() < .2:
                lab = rng.choice((1, 10, 100, 999, 12345, 99999, 7))
                lt = str(lab)
                if rng.random() < .2:
                    lt = lt.rjust(rng.randint(len(lt), 5), '0')
            ls = rng.choice((1, 2)) if compound and rng.random() < .04 else 0
            ts = rng.choice((1, 2)) if compound and rng.random() < .1 else 0
            dbl = {rng.randrange(k): 1} if compound and rng.random() < .1 else {}
            items.append(Line(stmts, lab, lt, ls, ts, dbl))
    return items


# ------------------------------------------------------------------ comparison

CAT = {'T': 4, 'F': 4, 'macro': 2, 'include': 0, 'flprpp': 3, 'lit': 1}


def show(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def cmp_lines(elines, obs, form, what=('group', 'class', 'tok', 'pos', 'stmt')):
    """Compare expected logical lines with an observed 'lines' dump."""
    msgs = []
    if len(elines) != len(obs):
        k = next((i for i, (e, o) in enumerate(zip(elines, obs))
                  if len(e.plines) != len(o['layout'])), min(len(elines), len(obs)))
        return ['logical lines: expected %d, observed %d (first difference at logical line %d: %s)' % (
            len(elines), len(obs), k, show([p.raw for p in elines[k].plines]) if k < len(elines) else '-')]
    for i, (e, o) in enumerate(zip(elines, obs)):
        ctx = 'logical line %d %s: ' % (i, show([p.raw for p in e.plines], 200))
        if 'group' in what:
            n = len(e.plines)
            if len(o['layout']) != n or o['start'] != e.first or o['end'] != e.first + n:
                msgs.append(ctx + 'expected physical lines [%d,%d), observed [%d,%d) with %d lines' % (
                    e.first, e.first + n, o['start'], o['end'], len(o['layout'])))
                break
            nums = [l[0] for l in o['layout']]
            if nums != list(range(e.first, e.first + n)):
                msgs.append(ctx + 'file line numbers %s' % nums)
            if o['cat'] != CAT[e.cat]:
                msgs.append(ctx + 'category %d, expected %d' % (o['cat'], CAT[e.cat]))
            if o['label'] != e.label:
                msgs.append(ctx + 'label %d, expected %d' % (o['label'], e.label))
        if 'class' in what:
            for p, l in zip(e.plines, o['layout']):
                got = set(l[7]) - {'x'}
                want = set(p.cls)
                if 'F' not in want:
                    got -= {'d'}
                lead = (l[9] - 1 if 'F' in want else len(l[8]) - len(l[8].lstrip(' \t\r')) if want == {'c'} else 0)
                if l[11] != max(lead, 0):
                    msgs.append(ctx + 'line %r: leading spaces %d, expected %d' % (p.raw, l[11], lead))
                if got != want:
                    msgs.append(ctx + 'line %r classified %s, expected %s' % (p.raw, ''.join(sorted(got)), ''.join(sorted(want))))
                elif 'F' in want:
                    if (l[3].rstrip(' \t\r') if l[3][-1:] == '\r' else l[3]) != p.main:
                        msgs.append(ctx + 'line %r: Fortran text %r, expected %r' % (p.raw, l[3], p.main))
                    elif l[5].rstrip('\r') != p.right:
                        msgs.append(ctx + 'line %r: trailing text %r, expected %r' % (p.raw, l[5], p.right))
                    elif l[9] != (p.main_start + 1 if p.main else 0):
                        msgs.append(ctx + 'line %r: text column %d, expected %d' % (p.raw, l[9], p.main_start + 1))
        ot = o['toks']
        if 'tok' in what or 'pos' in what:
            a = [(t[0].text, t[0].tag) for t in e.toks]
            b = [(t[1], t[0]) for t in ot]
            if a != b:
                k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
                msgs.append(ctx + 'token %d: expected %s, observed %s' % (
                    k, a[k] if k < len(a) else 'end', b[k] if k < len(b) else 'end'))
                continue
            for t, u in zip(e.toks, ot):
                if u[4] != t[0].text.translate(LOWER):
                    msgs.append(ctx + 'lower-case text %r of token %r' % (u[4], u[1]))
                    break
        if 'pos' in what:
            for t, u in zip(e.toks, ot):
                if (u[2], u[3]) != (t[1], t[2]):
                    msgs.append(ctx + 'token %r at %s, expected %s' % (u[1], (u[2], u[3]), (t[1], t[2])))
                    break
            if ot and len(ot[0]) > 5:
                for k, (t, u) in enumerate(zip(e.toks, ot)):
                    if tuple(u[5:9]) != tuple(t[3:7]):
                        msgs.append(ctx + 'token %r text placement %s, expected %s' % (u[1], u[5:9], t[3:7]))
                        break
                    if t[7] is not None:
                        if u[9] != t[7] or ot[k - 1][10] != t[7]:
                            msgs.append(ctx + 'token %r: blanks before %d (after previous %d), expected %d' % (
                                u[1], u[9], ot[k - 1][10], t[7]))
                            break
        if 'stmt' in what and 'nsemi' in o:
            want = [[t.text for t in s] for s in e.item.stmts if s] if e.cat == 'F' else []
            if o['srange'] != want:
                msgs.append(ctx + 'statements %s, expected %s' % (show(o['srange']), show(want)))
            ns = e.item.nsemi() if e.cat == 'F' else 0
            if o['nsemi'] != ns:
                msgs.append(ctx + 'semicolons %d, expected %d' % (o['nsemi'], ns))
            if o['comp'] != (len(want) > 1):
                msgs.append(ctx + 'is_compound %s with %d statements' % (o['comp'], len(want)))
            if e.cat == 'F' and want and o['empty'] != (ns > len(want) - 1):
                msgs.append(ctx + 'has_empty_statements %s with %d statements, %d semicolons' % (o['empty'], len(want), ns))
    return msgs


LOWER = {i: i + 32 for i in range(65, 91)}


def expected_stmts(elines):
    """(label, compound, prefix line indices, line index, token texts)"""
    out = []
    prefix = []
    for i, e in enumerate(elines):
        st = [s for s in e.item.stmts if s] if e.cat == 'F' else []
        if not st:
            prefix.append(i)
            continue
        for k, s in enumerate(st):
            out.append((e.label if k == 0 else 0, 0 if len(st) == 1 else k + 1, prefix if k == 0 else [], i, [t.text for t in s]))
        prefix = []
    return out


def cmp_stmts(exp, obs):
    if len(exp) != len(obs):
        return ['statements: expected %d, observed %d' % (len(exp), len(obs))]
    for k, (e, o) in enumerate(zip(exp, obs)):
        got = (o['label'], o['comp'], o['prefix'], o['ll'], o['toks'])
        if tuple(e) != got:
            return ['statement %d: expected (label, compound, prefix, line, tokens) %s, observed %s' % (k, show(e), show(got))]
        if not o.get('inside', True):
            return ['statement %d: token range is not inside its line' % k]
    return []
