"""Containers against reference models (C17)."""
from . import ftext as F
from .core import Check
from .p_edit import render


# ---------------------------------------------------------------- Safe_List
def slist(rng, steps):
    L, I, ops, exp = {}, {}, [], []
    nxt = [100]
    END = object()

    def val():
        nxt[0] += 1
        return nxt[0]

    def purge(l, ids=None):
        """forget iterators which the next operation invalidates"""
        for k in [k for k, (a, e) in I.items() if a == l and (ids is None or id(e) in ids)]:
            emit('drop %d' % k, [], lambda k=k: I.pop(k))

    def emit(op, r, act):
        act()
        ops.append(op)
        exp.append((r, snap()))

    def snap():
        l = {}
        for k, v in L.items():
            x = [len(v), not v, [e[0] for e in v]]
            if v:
                x += [v[0][0], v[-1][0]]
            l[str(k)] = x
        i = {}
        for k, (a, e) in I.items():
            if a not in L:
                i[str(k)] = None
            elif e is END:
                i[str(k)] = [len(L[a])]
            else:
                d = next(n for n, x in enumerate(L[a]) if x is e)
                i[str(k)] = [d, e[0]]
        return l, i

    def put(a, v):
        L[a] = v
    emit('new 0', [], lambda: put(0, []))
    for _ in range(steps):
        a = rng.randrange(3)
        k = rng.choice(('new', 'newn', 'init3', 'pb', 'pbm', 'eb', 'ef', 'popb', 'clear', 'trk', 'trkend', 'emp', 'ins', 'insr', 'era',
                        'erar', 'rmif', 'copy', 'cctor', 'mctor', 'massign', 'mkeep', 'self', 'eq', 'range', 'rebase', 'join',
                        'pb', 'eb', 'trk', 'trk', 'trkend', 'emp', 'ins', 'range', 'range', 'rebase', 'join'))
        if k in ('new', 'newn', 'init3'):
            if k != 'init3' and rng.random() < .7:
                continue
            purge(a)
            if k == 'new':
                emit('new %d' % a, [], lambda: put(a, []))
            elif k == 'newn':
                n, v = rng.randrange(4), val()
                emit('newn %d %d %d' % (a, n, v), [], lambda: put(a, [[v] for _ in range(n)]))
            else:
                v = [val(), val(), val()]
                emit('init3 %d %d %d %d' % (a, *v), [], lambda: put(a, [[x] for x in v]))
            continue
        if k in ('emp', 'ins', 'insr', 'era'):
            c = [q for q, (l, e) in I.items() if l in L and (k != 'era' or e is not END)]
            if not c:
                continue
            q = rng.choice(c)
            l, e = I[q]
            pos = len(L[l]) if e is END else next(n for n, x in enumerate(L[l]) if x is e)
            if k in ('emp', 'ins'):
                v = val()
                emit('%s %d %d' % (k, q, v), [v], lambda: L[l].insert(pos, [v]))
            elif k == 'insr':
                v = [val() for _ in range(rng.randrange(4))]
                emit(' '.join(['insr', str(q)] + [str(x) for x in v]), [],
                     lambda: L[l].__setitem__(slice(pos, pos), [[x] for x in v]))
            else:
                for o in [o for o, (x, y) in I.items() if y is e and o != q]:
                    emit('drop %d' % o, [], lambda o=o: I.pop(o))
                nx = L[l][pos + 1][0] if pos + 1 < len(L[l]) else -1
                emit('era %d' % q, [nx], lambda: (L[l].pop(pos), I.pop(q)))
            continue
        if a not in L:
            continue
        v = L[a]
        if k in ('pb', 'pbm'):
            x = val()
            emit('%s %d %d' % (k, a, x), [], lambda: v.append([x]))
        elif k == 'eb':
            x = val()
            emit('eb %d %d' % (a, x), [x], lambda: v.append([x]))
        elif k == 'ef':
            x = val()
            emit('ef %d %d' % (a, x), [x], lambda: v.insert(0, [x]))
        elif k == 'popb':
            if v:
                purge(a, {id(v[-1])})
                emit('popb %d' % a, [], lambda: v.pop())
        elif k == 'clear':
            if rng.random() < .4:
                purge(a)
                emit('clear %d' % a, [], lambda: v.clear())
        elif k == 'trk':
            if v:
                n, q = rng.randrange(len(v)), rng.randrange(6)
                emit('trk %d %d %d' % (a, n, q), [], lambda: I.__setitem__(q, (a, v[n])))
        elif k == 'trkend':
            q = rng.randrange(6)
            emit('trkend %d %d' % (a, q), [], lambda: I.__setitem__(q, (a, END)))
        elif k == 'rmif':
            m = rng.choice((2, 3, 7, 1))
            r = rng.randrange(m)
            gone = {id(e) for e in v if e[0] % m == r}
            purge(a, gone)
            emit('rmif %d %d %d' % (a, m, r), [], lambda: v.__setitem__(slice(None), [e for e in v if e[0] % m != r]))
        elif k == 'self':
            purge(a)    # copying a list to itself may renew its elements
            emit('self %d' % a, [], lambda: None)
        elif k in ('copy', 'cctor', 'mctor', 'massign', 'mkeep', 'eq'):
            b = rng.choice(list(L))
            if k == 'eq':
                emit('eq %d %d' % (a, b), [[e[0] for e in v] == [e[0] for e in L[b]]], lambda: None)
            elif a == b:
                continue
            elif k == 'copy':
                purge(a)
                emit('copy %d %d' % (a, b), [], lambda: put(a, [[e[0]] for e in L[b]]))
            elif k == 'cctor':
                purge(a)
                emit('cctor %d %d' % (a, b), [len(L[b])], lambda: put(a, [[e[0]] for e in L[b]]))
            elif k == 'mkeep':
                purge(a)

                def mk():
                    put(a, L[b])
                    put(b, [])
                    for q, (l, e) in list(I.items()):
                        if l == b:
                            I[q] = (a, e)
                emit('mkeep %d %d' % (a, b), [], mk)
            else:
                purge(a)
                purge(b)
                x = L[b]
                emit('%s %d %d' % (k, a, b), [[e[0] for e in x]] if k == 'mctor' else [],
                     lambda: (put(a, x), L.pop(b)))
        elif k in ('erar', 'range', 'rebase', 'join'):
            c = sorted((q for q, (l, e) in I.items() if l == a),
                       key=lambda q: len(v) if I[q][1] is END else next(n for n, x in enumerate(v) if x is I[q][1]))
            n = 3 if k == 'join' else 2
            if len(c) < n:
                continue
            g = sorted(rng.sample(range(len(c)), n))
            qs = [c[x] for x in g]
            ps = [len(v) if I[q][1] is END else next(n for n, x in enumerate(v) if x is I[q][1]) for q in qs]
            s = [e[0] for e in v[ps[0]:ps[1]]]
            if k == 'erar':
                if rng.random() < .6:
                    continue
                last = I[qs[1]]
                purge(a, {id(e) for e in v[ps[0]:ps[1]]})
                # the first iterator went with its element: make it again
                i, z = qs[0], qs[1]
                if ps[0] < ps[1]:
                    emit('trk %d %d %d' % (a, ps[0], i), [], lambda: I.__setitem__(i, (a, v[ps[0]])))
                emit('erar %d %d' % (i, z), [], lambda: (v.__delitem__(slice(ps[0], ps[1])),
                                                        I.pop(i) if ps[0] < ps[1] else None))
                # the driver keeps the iterator: forget it at once
                if ps[0] < ps[1]:
                    ops[-1] += '!'
            elif k == 'range':
                r = [len(s), not s, s] + ([s[0], s[-1], s[-1]] if s else []) + [s]
                emit('range %d %d' % tuple(qs), r, lambda: None)
            elif k == 'rebase':
                r = [len(s), s] + ([s[0]] if s else [])
                emit('rebase %d %d' % tuple(qs), r, lambda: None)
            else:
                w = [e[0] for e in v[ps[0]:ps[2]]]
                emit('join %d %d %d' % tuple(qs), ('join', w), lambda: None)
    return ops, exp


def cmp_slist(exp, obs):
    for k, ((r, (l, i)), o) in enumerate(zip(exp, obs['s'])):
        if isinstance(r, tuple):
            w = r[1]
            if o['r'][0] != len(w) or o['r'][1] != len(w) or o['r'][2] != w or o['r'][3] != w or o['r'][4] != (not w):
                return k, 'joined ranges: %s, expected %s' % (F.show(o['r']), F.show(w))
        elif r != o['r']:
            return k, 'result %s, expected %s' % (F.show(o['r']), F.show(r))
        if l != o['l']:
            return k, 'lists [size, empty, elements, front, back]: %s, expected %s' % (F.show(o['l'], 400), F.show(l, 400))
        if i != o['i']:
            return k, 'iterators [position, value]: %s, expected %s' % (F.show(o['i'], 400), F.show(i, 400))
    return None


# ---------------------------------------------------------------- Tree
def tree(rng, steps):
    T, ops, exp = {}, [], []
    nxt = [0]

    def val():
        nxt[0] += 1
        return nxt[0]

    def size(t):
        return 1 + sum(size(k) for k in t[1:])

    def paths(t, p=()):
        yield p, t
        for i, k in enumerate(t[1:]):
            for x in paths(k, p + (i,)):
                yield x

    def clone(t):
        return [t[0]] + [clone(k) for k in t[1:]]

    def snap():
        return {str(k): [True, 0, False] if t is None else [False, size(t), True, clone(t), size(t), 0] for k, t in T.items()}
    for _ in range(steps):
        a = rng.randrange(4)
        k = rng.choice(('new', 'new', 'newc', 'newt', 'empty', 'gb', 'gb', 'gf', 'gbl', 'gfl', 'nb', 'nb', 'nf', 'nm', 'ne', 'swap', 'mv', 'ns', 'ns',
                        'clear', 'set', 'nb', 'nm', 'nf'))
        if k in ('new', 'newc', 'newt', 'empty'):
            if T.get(a) is not None and rng.random() < .8:
                continue
            v = val()
            T[a] = None if k == 'empty' else [-777 if k == 'newt' else v]
            op = '%s %d %d' % (k, a, v)
        elif k in ('gb', 'gf', 'gbl', 'gfl'):
            c = [x for x in T if T[x] is not None]
            if len(c) < 2:
                continue
            a, b = rng.sample(c, 2)
            if k[1] == 'b':
                T[a].append(T[b])
            else:
                T[a].insert(1, T[b])
            del T[b]
            op = '%s %d %d' % (k, a, b)
        elif k in ('nb', 'nf', 'nm', 'ne', 'set'):
            if T.get(a) is None:
                continue
            p, n = rng.choice(list(paths(T[a])))
            v = val()
            ps = '.'.join(str(x) for x in p) or '-'
            op = '%s %d %s %d' % (k, a, ps, v)
            if k == 'nb':
                n.append([v])
            elif k == 'nf':
                n.insert(1, [v])
            elif k == 'nm':
                i = rng.randrange(len(n))
                n.insert(i + 1, [v])
                op += ' %d' % i
            elif k == 'set':
                n[0] = v
            else:
                if not p or rng.random() < .4:
                    continue
                t = T[a]
                for x in p[:-1]:
                    t = t[x + 1]
                del t[p[-1] + 1]
        elif k == 'swap':
            if len(T) < 2:
                continue
            a, b = rng.sample(list(T), 2)
            T[a], T[b] = T[b], T[a]
            op = 'swap %d %d' % (a, b)
        elif k == 'ns':
            # the contents of two nodes, neither of them above the other
            c = [x for x in T if T[x] is not None]
            if not c:
                continue
            a, b = rng.choice(c), rng.choice(c)
            (p, n), (q, o) = rng.choice(list(paths(T[a]))), rng.choice(list(paths(T[b])))
            if a == b and (p[:len(q)] == q or q[:len(p)] == p):
                continue
            n[:], o[:] = o[:], n[:]
            op = 'ns %d %s %d %s' % (a, '.'.join(str(x) for x in p) or '-', b, '.'.join(str(x) for x in q) or '-')
        elif k == 'mv':
            b = rng.choice(list(T) or [None])
            if b is None or a == b:
                continue
            T[a] = T.pop(b)
            op = 'mv %d %d' % (a, b)
        else:
            if a not in T or rng.random() < .7:
                continue
            T[a] = None
            op = 'clear %d' % a
        ops.append(op)
        exp.append(snap())
    return ops, exp


def cmp_simple(exp, obs):
    for k, (e, o) in enumerate(zip(exp, obs['s'])):
        if e != o:
            return k, '%s, expected %s' % (F.show(o, 400), F.show(e, 400))
    return None


# ---------------------------------------------------------------- Range_Partition
def rpart(rng, steps):
    np, ne = rng.randint(1, 8), rng.randint(2, 14)
    el = list(range(ne))
    P = [[] for _ in range(np)]
    live = [False] * np
    pos, nxt = 0, 1000
    ops, exp = ['%d' % np, '%d' % ne], []
    started = False
    for _ in range(steps):
        full = [x for p in P for x in p]
        k = rng.choice(('app', 'app', 'app', 'touch', 'ins', 'ins', 'ins', 'clear', 'trk'))
        if k == 'app':
            hi = max([i for i in range(np) if live[i]] or [0])
            i = rng.randint(hi, np - 1)
            b = pos if full else rng.randrange(len(el))
            e = rng.randint(b, min(len(el), b + 3))
            if b < e:
                live[i] = True
                P[i] += el[b:e]
                pos = e
            op = 'app %d %d %d' % (i, b, e)
            if not full and b == e:
                continue
        elif k == 'touch':
            if not full:
                continue
            i = rng.randrange(np)
            live[i] = True
            op = 'touch %d' % i
        elif k == 'trk':
            op = 'trk %d %d' % (rng.randrange(np), rng.randrange(9))
        elif k == 'clear':
            if rng.random() < .8:
                continue
            P = [[] for _ in range(np)]
            live = [False] * np
            op = 'clear'
        else:
            if not full:
                continue
            i = rng.randrange(np)
            n = rng.randint(0, len(P[i]))
            w = 'e' if n == len(P[i]) and rng.random() < .6 else str(n)
            at = el.index(full[0]) + sum(len(p) for p in P[:i]) + n
            nxt += 1
            el.insert(at, nxt)
            P[i].insert(n, nxt)
            pos += 1
            live[i] = True
            op = 'ins %d %s %d' % (i, w, nxt)
        ops.append(op)
        x = dict(e=not any(live), v=True, p=[list(p) for p in P] if any(live) else [])
        if any(live):
            x['all'] = [y for p in P for y in p]
        exp.append(x)
    return ops, exp


# ---------------------------------------------------------------- Label_Stack
def lstack(rng, steps):
    S, ops, exp = [], [], []
    labs = [rng.randint(1, 99999) for _ in range(2)]
    for _ in range(steps):
        k = rng.choice(('push', 'push', 'pop', 'level', 'level', 'top'))
        x = rng.choice(labs + ([S[-1][0]] if S else []))
        r = []
        if k == 'push':
            S.append([x, None])
        elif k == 'pop':
            if not S:
                continue
            S.pop()
        elif k == 'top':
            r = [bool(S) and S[-1][0] == x]
        else:
            if not S or S[-1][0] != x:
                r = [-1]
            else:
                if S[-1][1] is None:
                    run = []
                    for e in reversed(S):
                        if e[0] != x:
                            break
                        run.append(e)
                    for i, e in enumerate(reversed(run)):
                        e[1] = 0 if len(run) == 1 else i + 1
                r = [S[-1][1]]
        ops.append('%s %d' % (k, x))
        exp.append(r + [len(S), not S])
    return ops, exp


# ---------------------------------------------------------------- TT_Stream
def tts(rng, steps):
    t = [x for x in F.rnd_stmt(rng, rng.choice((3, 10, 25)))]
    if rng.random() < .5:
        for _ in range(rng.randint(1, 8)):
            i = rng.randint(1, len(t))
            while i < len(t) and (t[i].nosp or getattr(t[i], 'smash', False)):
                i += 1
            t.insert(i, F.lex(rng.choice('()()[];,'))[0])
    text = render(t, rng)
    return t, text


def run_tts(rng, texts, steps):
    """-> (ops, expectations); tokens are given by their position"""
    ops, exp = [], []
    n, pos, mark = len(texts), 0, 0

    def at(i):
        return i if 0 <= i < n else None
    for _ in range(steps):
        nxt = texts[pos] if pos < n else None
        c = ['digest', 'consume', 'back', 'peekn', 'open', 'mark', 'tomark', 'rewind', 'eolc']
        w = [3, 3, 3, 4, 4, 2, 1, 1, 1]
        if nxt == '(':
            c += ['close', 'bclose']
            w += [9, 9]
        if nxt == '[':
            c += ['brack']
            w += [15]
        k = rng.choices(c, w)[0]
        x, r = 0, []
        if k in ('consume', 'digest'):
            x = rng.randint(0, min(3, n - pos))
            if k == 'digest':
                r = [x] + ([texts[pos], texts[pos + x - 1]] if x else [])
            pos += x
        elif k == 'back':
            pos = max(0, pos - 1)
        elif k == 'rewind':
            pos = 0
        elif k == 'mark':
            mark = pos
        elif k == 'tomark':
            pos = mark
        elif k == 'eolc':
            pos = n
        elif k == 'peekn':
            x = rng.randint(1, n + 2)
            r = [('tok', at(pos + x - 1))] * 2
        elif k in ('close', 'bclose', 'brack'):
            o, cl = ('[', ']') if k == 'brack' else ('(', ')')
            d, q = 1, pos + 1
            while q < n:
                d += texts[q] == o
                d -= texts[q] == cl
                if d == 0:
                    break
                q += 1
            r = [q < n]
            pos = q + (k != 'bclose') if q < n else n
        elif k == 'open':
            if pos == 0 or texts[pos - 1] != ')':
                r = [False]
            else:
                d, q = 1, pos - 2
                while q >= 0:
                    d += texts[q] == ')'
                    d -= texts[q] == '('
                    if d == 0:
                        break
                    q -= 1
                r = [q >= 0]
                pos = q + 1
        e = r + [pos]
        if pos == n:
            e.append(True)
        elif texts[pos] == ';':
            e.append(True)
            pos += 1
        else:
            e.append(False)
        e.append(('tok', at(pos)))
        if pos > 0:
            e.append(('tok', pos - 1))
        ops.append('%s %d' % (k, x))
        exp.append(e)
    return ops, exp


def cmp_tts(texts, exp, obs):
    got = [t[1] for t in obs['toks']]
    if got != texts:
        return -1, 'tokens %s, expected %s' % (F.show(got), F.show(texts))
    bad = 2
    for k, (e, o) in enumerate(zip(exp, obs['s'])):
        w = [x if not isinstance(x, tuple) else (obs['toks'][x[1]][0] if x[1] is not None else bad) for x in e]
        if w != o:
            return k, '%s, expected %s' % (F.show(o), F.show(w))
    return None


def c17():
    ck = Check('C17', 'Random operation histories on Safe_List (several lists, tracked iterators, ranges), Tree (nodes, grafts, '
               'swaps, cursors from every node), Range_Partition, Label_Stack and TT_Stream; after every operation the '
               'whole observable state must be that of a reference model. libstdc++ debug mode, ASan and UBSan watch '
               'iterator validity. Non-trivial: at least three operations.')
    ck.build()
    rng = ck.rng
    cases = []
    N = ck.scale(8000, 150000)
    for i in range(N):
        steps = rng.choice((4, 12, 40))
        ops, exp = slist(rng, steps)
        # ranges erased through the driver leave its first iterator dangling: drop it in the same step
        cases.append((('slist',) + tuple(o.rstrip('!') if not o.endswith('!') else o[:-1] + ' x' for o in ops), ('slist', ops, exp, None)))
        ops, exp = tree(rng, steps)
        cases.append((('tree',) + tuple(ops), ('tree', ops, exp, None)))
        ops, exp = rpart(rng, steps)
        cases.append((('rpart',) + tuple(ops), ('rpart', ops[2:], exp, None)))
        ops, exp = lstack(rng, steps)
        cases.append((('lstack',) + tuple(ops), ('lstack', ops, exp, None)))
        t, text = tts(rng, steps)
        texts = [x.text for x in t]
        ops, exp = run_tts(rng, texts, steps)
        cases.append((('tts', text) + tuple(ops), ('tts', ops, exp, texts)))

    def oracle(meta, obs):
        kind, ops, exp, texts = meta
        ck.seen(kind + '|'.join(ops) + str(texts), len(ops) > 2)
        ck.sample(kind + ': ' + '|'.join(ops)[:200])
        ck.count(kind + '_steps', len(ops))
        if len(exp) != len(obs['s']):
            return ['%s: %d steps observed, expected %d' % (kind, len(obs['s']), len(exp))]
        f = {'slist': cmp_slist}.get(kind, cmp_simple)
        x = cmp_tts(texts, exp, obs) if kind == 'tts' else f(exp, obs)
        if x:
            return ['%s step %d "%s": %s' % (kind, x[0], ops[x[0]] if x[0] >= 0 else 'scan', x[1])]
        return []
    ck.run(cases, oracle, chunk=300)
    ck.finish()
