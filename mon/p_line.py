"""Operations on one physical line (C24)."""
import re
from . import ftext as F
from .core import Check

SEP = '\x01'


def gen_main(rng, form, prev_od):
    """(text between the left part and the trailing part, delimiter left open)"""
    def lit(q):
        o = '"' if q == "'" else "'"
        return ''.join(rng.choice(('a', 'b c', '!', '& x', o, q + q, '  ', '1', '&!')) for _ in range(rng.choice((0, 1, 3, 6))))
    out = ''
    if prev_od:     # the rest of a character literal
        out += lit(prev_od) + prev_od
        if rng.random() < .5:
            return out, ''
    k = rng.randint(1, 5)
    for i in range(k):
        t = rng.choice(('x', 'y = 1', '(a)', 'call f', ', b', '+ 2', 'end if', '%z', '1.0e5', '/', 'a_name'))
        if rng.random() < .25:
            q = rng.choice('\'"')
            t = q + lit(q) + q
        out += (rng.choice(('', ' ', '  ')) if out else '') + t
    if out[0].isdigit() or out[0] in '&!#' or out.lower().startswith('include'):
        out = 'z' + out
    od = ''
    if rng.random() < .15:
        od = rng.choice('\'"')
        out += ' ' + od + lit(od).replace(od, '').replace('&', '+')
        if form == 'fixed':
            out += '.'
    return out, od


def gen_free(rng):
    r = rng.random()
    if r < .1:
        c = rng.choice(('! note', '!', '!x & y', "! don't", '!      far', '!        far out'))
        return dict(kind='comment', cont=rng.random() < .3, raw=' ' * rng.choice((0, 0, 1, 4, 8)) + c, text=c, od='', prev_od='')
    if r < .2:
        k, raw = rng.choice((('pp', '#define a "'), ('pp', '#if 1 & ! x'), ('include', "include 'a'"), ('include', '  INCLUDE "b" ! c'),
                             ('flpr', '!#flpr hello'), ('flpr', '  !#flpr x'), ('lit', '!#flpr    literal'), ('blank', ''), ('blank', '   ')))
        return dict(kind=k, raw=raw, cont=False, od='', prev_od='')
    prev_cont = rng.random() < .45
    prev_od = rng.choice('\'"') if prev_cont and rng.random() < .4 else ''
    amp = prev_cont and (bool(prev_od) or rng.random() < .6)
    main, od = gen_main(rng, 'free', prev_od)
    label = rng.choice((1, 10, 999, 12345)) if not prev_cont and rng.random() < .35 else 0
    ind = ' ' * rng.choice((0, 0, 1, 2, 5, 9))
    gap = ' ' * rng.choice((0, 1, 3, 7) if not label else (1, 2, 3, 8))
    if amp:
        left = ind + '&'
        gap = '' if prev_od else gap
    elif label:
        left = ind + str(label)
    else:
        left, gap = '', ind
    contd = bool(od) or rng.random() < .35
    com = '' if od else rng.choice(('', '', '! note', '!', '!! a & b', "! it's", '!x  '))
    if od:
        tail = '&' + rng.choice(('', '', '  '))
    elif contd:
        tail = ' ' * rng.choice((0, 1, 2, 5)) + '&' + (' ' * rng.choice((0, 1, 2, 6)) + com if com else '')
    else:
        tail = (' ' * rng.choice((0, 1, 2, 3, 5, 12)) + com) if com else ' ' * rng.choice((0, 0, 0, 2))
    return dict(kind='fortran', cont=prev_cont, amp=amp, label=label, main=main, od=od, prev_od=prev_od, contd=contd, com=com,
                raw=left + gap + main + tail)


def gen_fixed(rng):
    r = rng.random()
    if r < .1:
        c = rng.choice(('! note', 'C note', '* x', 'c      far', '!      far', '!         far out', "! don't"))
        return dict(kind='comment', raw=(' ' * rng.choice((0, 1, 4, 6, 9)) if c[0] == '!' else '') + c, text=c, od='', prev_od='', lc=72)
    if r < .18:
        k, raw = rng.choice((('pp', '#define a "'), ('include', "      include 'a'"), ('flpr', '!#flpr hello'), ('flpr', 'C#flpr x'),
                             ('blank', ''), ('blank', '   ')))
        return dict(kind=k, raw=raw, od='', prev_od='', lc=72)
    cont = rng.random() < .4
    prev_od = rng.choice('\'"') if cont and rng.random() < .4 else ''
    main, od = gen_main(rng, 'fixed', prev_od)
    label = rng.choice((1, 10, 999, 12345)) if not cont and rng.random() < .4 else 0
    lt = ''
    if cont:
        lead = '     ' + rng.choice('&1x+*!')
    elif label:
        ls = str(label)
        lead = (' ' * rng.randint(0, 5 - len(ls)) + ls).ljust(5) + rng.choice('    0')
    else:
        lead = rng.choice(('      ', '      ', '     0'))
    gap = '' if prev_od else ' ' * rng.choice((0, 1, 3, 7, 9))
    body = lead + gap + main
    lc = rng.choice((72, 72, 0, 132))
    com = ''
    past = False
    if od:
        lc = rng.choice((0, len(body)))
        if lc and rng.random() < .5:
            com = rng.choice(('SEQ0001', '& x', 'a ! b'))
            past = True
            body += com
    elif lc and len(body) < lc - 1 and rng.random() < .3:
        body = body.ljust(lc)
        com = rng.choice(('SEQ0001', '&', '&  ! c', '!x', '00010 ! z', '  tail'))
        past = True
        body += com
    elif rng.random() < .6 and (not lc or len(body) < lc - 3):
        com = rng.choice(('! note', '!', '!! a & b', "! it's"))
        g = ' ' * rng.choice((0, 1, 2, 3, 5, 12))
        if lc and len(body + g + com) > lc:
            g = ''
        body += g + com
        if lc and len(body) > lc and body.index(com, len(lead + gap + main)) >= lc:
            return gen_fixed(rng)
    elif lc and len(body) > lc:
        return gen_fixed(rng)
    if past and com.lstrip()[0] not in '&!':
        com = '! ' + com
    return dict(kind='fortran', cont=cont, label=label, main=main, od=od, prev_od=prev_od, contd=False, com=com, raw=body, lc=lc,
                past=past, zero=not cont and lead[5] == '0', cf=lead[5] if cont else '')


class Bad(Exception):
    pass


class Model:
    def __init__(self, form, d):
        self.fixed = form == 'fixed'
        self.__dict__.update(dict(amp=False, label=0, com='', contd=False, past=False, zero=False, cf=''))
        self.__dict__.update(d)
        self.unsure = False
        self.lost = False           # an open literal has lost its continuation

    def classes(self):
        k = self.kind
        s = set()
        if k == 'fortran':
            s.add('F')
            if self.contd:
                s.add('d')
            if self.amp or (self.fixed and self.cont):
                s.add('n')
            if self.label:
                s.add('l')
        elif k == 'comment':
            s |= set('ct')
            if not self.fixed and getattr(self, 'cont', False) and 'text' in self.__dict__ and not getattr(self, 'made', False):
                s.add('d')
        elif k == 'blank':
            s |= set('bt')
        else:
            s.add({'pp': 'p', 'include': 'i', 'flpr': 'P', 'lit': 'L'}[k])
        if self.fixed:
            s.add('x')
        return s

    def look(self, st, n_label=None):
        """where the parts of a Fortran line are in its text"""
        out = st['out']
        if self.fixed:
            left = '(?P<ctl>' + ('     ' + re.escape(self.cf) if self.cont else ' *%s *%s' % (self.label, '(?:(?<=^.....)0)?' if self.zero else '') if self.label else '     [ 0]') + ')'
        else:
            left = ('(?P<ctl> *&)' if self.amp else '(?P<ctl> *%s)(?= )' % self.label if self.label else '(?P<ctl>)')
        tail = re.escape(self.com.rstrip()) if self.com.strip() else ''
        if self.contd:
            tail = '(?P<amp>&) *(?P<com>%s)' % tail
        else:
            tail = '(?P<amp>)(?P<com>%s)' % tail
        m = re.fullmatch(left + '(?P<sp> *)(?P<main>' + re.escape(self.main.strip(' ') if not (self.od or self.prev_od) else self.main) +
                         ')(?P<gap> *)' + tail + ' *', out)
        if not m:
            raise Bad('the line reads %r' % out)
        if self.fixed and len(m.group('ctl')) != 6 and not (self.label and len(m.group('ctl') + m.group('sp')) >= 6):
            raise Bad('control columns: %r' % out)
        p = dict(main=m.start('main'), com=m.start('com') if self.com else -1, gap=len(m.group('gap')), sp=len(m.group('ctl') + m.group('sp')),
                 ctl=len(m.group('ctl')))
        if self.fixed and self.label and len(out) >= 6 and out[5] != ' 0'[self.zero]:
            raise Bad('column 6 of a labelled line: %r' % out)
        return p

    def generic(self, st, reread=True):
        f = st['f']
        cat = ''.join(f[:5])
        out = st['out']
        k = self.kind
        m = []
        if k == 'fortran' and self.fixed:
            cat = f[0].ljust(6) + ''.join(f[1:5])
        if out != cat:
            m.append('parts %r of text %r' % (f[:5], out))
        if set(f[7]) != self.classes():
            m.append('classes %r, should be %r: %r' % (f[7], ''.join(sorted(self.classes())), out))
        if f[6] != 7:
            m.append('line number %r' % f[6])
        if f[9] != len(out):
            m.append('size() is %d: %r' % (f[9], out))
        if k == 'fortran':
            p = self.look(st)
            at = f[8] - 1
            if out[at:].lstrip(' ') != out[p['main']:].lstrip(' ') or (not self.cont and at != p['main']):
                m.append('main_first_col() is %d: %r' % (f[8], out))
            if f[10] != f[8] - 1:
                m.append('get_leading_spaces() is %d, main_first_col() %d' % (f[10], f[8]))
        elif k == 'blank' and out.strip():
            m.append('blank line with text %r' % out)
        elif k == 'comment':
            if not self.fixed or out.lstrip(' ')[:1] == '!':
                if f[10] != len(out) - len(out.lstrip(' ')):
                    m.append('get_leading_spaces() of a comment is %d: %r' % (f[10], out))
        if 're' in st and reread and k != 'pp':
            # the text on its own is such a line
            r = st['re']
            if 'exc' in r:
                if not self.lost:
                    m.append('reading %r again: %s' % (out, r['exc']))
            elif not self.lost:
                a, b = set(r['f'][7]), set(f[7])
                if k == 'pp':
                    pass
                elif k in ('comment', 'blank'):
                    if a - set('d') != b - set('d'):
                        m.append('%r reads as %r instead of %r' % (out, r['f'][7], f[7]))
                else:
                    if a != b:
                        m.append('%r reads as %r instead of %r' % (out, r['f'][7], f[7]))
                    if k == 'fortran' and (r['f'][2].strip(' ') != f[2].strip(' ') or r['f'][4].strip() != f[4].strip() or
                                           r['f'][5] != f[5]):
                        m.append('%r reads as %r instead of %r' % (out, r['f'][2:6], f[2:6]))
        return m


def legal(rng, M):
    """the next operation"""
    ops = ['lead', 'swap']
    if M.kind == 'fortran':
        ops += ['unspace', 'lead']
        if not M.fixed:
            ops += ['cont'] + ([] if M.od else ['uncont'])     # an open literal has to be continued
        elif not M.od:
            ops += ['uncont']
        if not (M.amp or M.cont or getattr(M, 'cont', False)):
            ops += ['label', 'label']
    ops += ['cob'] if rng.random() < .4 else []
    ops += ['blank', 'pp'] if rng.random() < .12 else []
    o = rng.choice(ops)
    if o == 'lead':
        return (o, rng.choice((0, 1, 2, 3, 5, 6, 7, 8, 10, 14, 30)))
    if o == 'label':
        return (o, rng.choice((0, 0, 1, 7, 10, 999, 4321, 12345, 99999)))
    return (o,)


def advance(M, op):
    """what the model knows without looking at the result"""
    o = op[0]
    if o == 'uncont':
        if M.od and M.contd:
            M.lost = True
        if not M.fixed:
            M.contd = False
    elif o == 'cont':
        M.contd = True
    elif o == 'pp':
        M.kind = 'pp'
    elif o == 'blank':
        M.kind = 'blank'
    elif o == 'cob':
        if M.kind == 'comment':
            return
        if M.kind == 'fortran' and '!' in M.com:
            M.kind = 'comment'
            M.text = M.com[M.com.index('!'):]
            M.made = True
        else:
            M.kind = 'blank'
    elif o == 'label':
        M.label = op[1]
        M.zero = False


def step(M, op, prev, st):
    """messages about one operation; M is the state after it, prev the observation before"""
    o = op[0]
    m = []
    out, was = st['out'], prev['out']
    if o in ('swap', 'unspace') and out != was:
        m.append('the text became %r' % out)
    if o == 'swap' and st['f'] != prev['f']:
        m.append('%r became %r' % (prev['f'], st['f']))
    if o == 'unspace':
        if st['f'][2] != st['f'][2].strip(' '):
            m.append('main text %r' % st['f'][2])
        if st['f'][4] != prev['f'][4] or st['f'][0] != prev['f'][0]:
            m.append('%r became %r' % (prev['f'], st['f']))
    if o == 'pp' and out != was:
        m.append('the text became %r' % out)
    if o == 'blank' and out:
        m.append('the text is %r' % out)
    if o in ('lead', 'label'):
        if st['ret'] is False and out != was:
            m.append('reports no change: %r became %r' % (was, out))
    if o == 'cob' and op[-1] == 'made':
        if M.kind == 'comment':
            if out.lstrip(' ') != M.text and out.strip() != M.text.strip():
                m.append('the comment became %r' % out)
            elif len(out) - len(out.lstrip(' ')) != prev['p']['com'] + M.com.index('!'):
                m.append('the comment has moved: %r' % out)
        elif out:
            m.append('the text is %r' % out)
    if M.kind == 'comment' and o == 'lead':
        n = op[1]
        body = out.lstrip(' ')
        if was.lstrip(' ')[0] != '!':
            if out != was or st['ret']:
                m.append('a comment which has to start in column 1 became %r' % out)
        else:
            if M.fixed and n == 5:
                n = 6
            if len(out) - len(body) != n:
                m.append('asked for %d blanks: %r' % (n, out))
            wb = was.lstrip(' ')
            if body != wb and not (was[0] == '!' and re.match('! {5,}', was) and body[0] == '!' and body[1:].lstrip() == wb[1:].lstrip()):
                m.append('the comment became %r' % out)
            if st['ret'] != (out != was):
                m.append('returned %s: %r became %r' % (st['ret'], was, out))
    if M.kind in ('pp', 'include', 'flpr', 'lit', 'blank') and o == 'lead':
        if out != was or st['ret']:
            m.append('%r became %r' % (was, out))
    if M.kind == 'fortran':
        p, q = prev['p'], M.look(st)
        st['p'] = q
        if o in ('uncont', 'cont', 'unspace') and q['main'] != p['main']:
            m.append('the statement has moved: %r' % out)
        if o == 'uncont' and M.com and q['com'] != p['com']:
            m.append('the comment has moved: %r' % out)
        if o == 'cont' and M.com:
            if op[-1] == 'already':
                if not p['com'] <= q['com'] <= p['com'] + 1:
                    m.append('the comment has moved: %r' % out)
            elif p['gap'] > 2 and q['com'] != p['com'] or not p['com'] <= q['com'] <= p['com'] + 3:
                m.append('the comment has moved: %r' % out)
        if o == 'cont' and op[-1] == 'already' and out != was and not M.unsure:
            if prev['f'][3] or out.replace(' ', '') != was.replace(' ', ''):
                m.append('%r became %r' % (was, out))
        if o == 'lead':
            n = op[1]
            d = q['main'] - p['main']
            if M.fixed:
                want = p['main'] if M.cont else n + 6
            elif M.amp:
                ind = len(was) - len(was.lstrip(' '))
                at = p['main'] - (0 if not M.prev_od else 0)
                orig = prev['f'][8] - 1
                if orig < n:
                    want = p['main'] + n - orig
                else:
                    want = p['main'] - min(ind, orig - n)
            elif M.label:
                want = n if n > p['ctl'] else p['ctl'] + 1
            else:
                want = n
            if q['main'] != want:
                m.append('asked for %d blanks: %r became %r' % (n, was, out))
            if st['ret'] != (d != 0):
                m.append('returned %s: %r became %r' % (st['ret'], was, out))
            if M.com:
                if d <= 0 and q['com'] != p['com']:
                    m.append('the comment has moved: %r became %r' % (was, out))
                if d > 0 and not (q['com'] == p['com'] if p['gap'] > d else p['com'] <= q['com'] <= p['com'] + d):
                    m.append('the comment has moved: %r became %r' % (was, out))
            if not M.com and M.contd and d == 0 and out != was:
                m.append('%r became %r' % (was, out))
        if o == 'label':
            if M.fixed:
                if q['main'] != p['main']:
                    m.append('the statement has moved: %r became %r' % (was, out))
            else:
                a, b = prev['f'][0], st['f'][0]
                room = len(prev['f'][1])
                if len(b) - len(a) < room or len(b) <= len(a):
                    if q['main'] != p['main']:
                        m.append('the statement has moved: %r became %r' % (was, out))
                elif q['main'] != len(b) + 1:
                    m.append('label and statement: %r became %r' % (was, out))
            if st['ret'] is False and (op[1] or op[2]):
                m.append('set_label(%d) returned false' % op[1])
    return m


def c24():
    ck = Check('C24', 'One physical line of each kind and form, with and without label, continuation, character context, trailing comment '
               'or text behind the last column, goes through 1-6 random operations of File_Line. After each operation text, parts, '
               'classes, size and columns are compared with a model, and the text is read again. Non-trivial: the line is a Fortran line.')
    ck.build()
    rng = ck.rng
    cases = []
    for _ in range(ck.scale(40000, 600000)):
        form = rng.choice(('free', 'fixed'))
        d = gen_free(rng) if form == 'free' else gen_fixed(rng)
        M = Model(form, d)
        ops = []
        for _ in range(rng.randint(1, 6)):
            op = legal(rng, M)
            if op[0] == 'cont' and M.contd:
                op += ('already',)
            if op[0] == 'cob' and M.kind == 'fortran':
                op += ('made',)
            if op[0] == 'label':
                op += (M.label,)
            ops.append(op)
            advance(M, op)
        words = [SEP.join([o[0]] + ([str(o[1])] if o[0] in ('lead', 'label') else [])) for o in ops]
        if form == 'free':
            case = ('fl', 'free', d['prev_od'], '1' if d['cont'] else '0', '0', d['raw']) + tuple(words)
        else:
            case = ('fl', 'fixed', d['prev_od'], str(d['lc']), '-', d['raw']) + tuple(words)
        cases.append((case, (form, d, ops)))

    def oracle(meta, obs):
        form, d, ops = meta
        M = Model(form, d)
        ck.seen(form + '\0' + d['raw'] + repr(ops), d['kind'] == 'fortran')
        ck.sample('%s %r %s' % (form, d['raw'], ' '.join('%s' % (o,) for o in ops)))
        ck.count('lines_' + d['kind'])
        prev = obs['init']
        where = '%s form, %r' % (form, d['raw'])
        try:
            m = M.generic(prev)
            if M.kind == 'fortran':
                prev['p'] = M.look(prev)
        except Bad as e:
            return ['%s: %s' % (where, e)]
        for op, st in zip(ops, obs['steps']):
            if m:
                break
            ck.count('op_' + op[0])
            where += ', ' + ' '.join(map(str, op[:2] if op[0] in ('lead', 'label') else op[:1]))
            advance(M, op)
            fits = not (M.fixed and M.kind == 'fortran' and d.get('lc') and
                        (len(st['f'][0].ljust(6) + ''.join(st['f'][1:3])) > d['lc'] or
                         (M.com and len(st['f'][0].ljust(6) + ''.join(st['f'][1:4])) > d['lc']) or M.past))
            if op[0] == 'unspace' and M.od:
                M.lost = True
            try:
                m = step(M, op, prev, st) + M.generic(st, fits)
            except Bad as e:
                m = [str(e)]
            if fits:
                ck.count('texts_read_again')
            prev = st
        return ['%s: %s' % (where, x) for x in m]
    ck.run(cases, oracle, chunk=4000)
    ck.finish()
