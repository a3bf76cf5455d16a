from vc.spec import *

MAXOBJ = (1 << 63) - 1
ID = tuple(range(256))
LOW = tuple(c + 32 if 65 <= c <= 90 else c for c in range(256))
F = 'coda/string.c'


def rb(rng, n, al=b'aAbB.\xc0\xe0\x00'): return bytes(rng.choice(al) for _ in range(n))


def eqf(f, a, b): return tab(f, a) == tab(f, b)


def chr_like(fn, f, rev, pos):
    def post(v):
        n, s, c = v.len, v.s, v.vals['c']
        m = lambda k: eqf(f, s[k], c)
        if pos:
            r = v.ret
            return [('not found', Imp(r == n, v.forall(0, n, lambda k: Not(m(k))))), ('range', And(r >= 0, r <= n)),
                    ('match', Imp(r < n, m(r))), ('first', v.forall(0, r, lambda k: Not(m(k))))]
        if v.retnull(): return [('absent', v.forall(0, n, lambda k: Not(m(k))))]
        r = v.retoff('s')
        if r is None: return [('points into s', False)]
        w = v.forall(r + 1, n, lambda k: Not(m(k))) if rev else v.forall(0, r, lambda k: Not(m(k)))
        return [('range', And(r >= 0, r < n)), ('match', m(r)), ('last occurrence' if rev else 'first occurrence', w)]

    def gen(rng, i):
        n = rng.choice([0, 1, 2, 3, 5, 8])
        return {'s': rb(rng, n), 'len': n, 'c': rng.choice(b'aAbBz.\xc0\x00')}
    return Contract(fn, F, [Buf('s', 'len'), Int('c', 8), Int('len')], ret='u64' if pos else 'ptr', post=post, gen=gen, pre=lambda v: [v.len <= MAXOBJ],
                    inv=[('scanned', 1, lambda v, t: v.forall(0, t, lambda k: Not(eqf(f, v.s[k], v.vals['c'])))),
                         ('scannedr', 1, lambda v, t: v.forall(t + 1, v.len, lambda k: Not(eqf(f, v.s[k], v.vals['c']))))])


CHR = [chr_like('coda_strnchr', ID, False, False), chr_like('coda_strxchr', LOW, False, False), chr_like('coda_revnchr', ID, True, False),
       chr_like('coda_revxchr', LOW, True, False), chr_like('coda_strnchp', ID, False, True), chr_like('coda_strxchp', LOW, False, True)]


def inset_fn(v, f):
    """In(b): byte b occurs in the alphabet string n (modulo f)"""
    n, z = v.n, v.z_n

    def unfold(sf, b):
        w = z3.Function(sf.name + '.w', z3.IntSort(), z3.IntSort())(b)
        return [Imp(sf(b), And(w >= 0, w < z, eqf(f, n[w], b))), Imp(Not(sf(b)), v.forall(0, z, lambda j: Not(eqf(f, n[j], b))))]
    return v.fn('In', 1, unfold, lambda self, b: any(f[n[j]] == f[b] for j in range(z)), ret='bool')


def span(fn, f, rev, compl, zt):
    def L(v): return v.vals['z:s'] if zt else v.len

    def post(v):
        n, s, r = L(v), v.s, v.ret
        v.z_n = v.vals['z:n']
        In = inset_fn(v, f)
        P = (lambda k: Not(In(s[k]))) if compl else (lambda k: In(s[k]))
        if rev:
            return [('range', And(r >= 0, r <= n)), ('every byte of the span qualifies', v.forall(n - r, n, P)), ('span is maximal', Imp(r < n, Not(P(n - r - 1))))]
        return [('range', And(r >= 0, r <= n)), ('every byte of the span qualifies', v.forall(0, r, P)), ('span is maximal', Imp(r < n, Not(P(r))))]

    def tmpl(rv):
        def g(v, t):
            v.z_n = v.vals['z:n']
            In = inset_fn(v, f)
            P = (lambda k: Not(In(v.s[k]))) if compl else (lambda k: In(v.s[k]))
            return v.forall(t + 1, L(v), P) if rv else v.forall(0, t, P)
        return g

    def gen(rng, i):
        n = rng.choice([0, 1, 2, 3, 5, 8, 17])
        d = {'s': rb(rng, n, b'aAbB.\xc0' if zt else b'aAbB.\xc0\x00'), 'n': rb(rng, rng.choice([0, 1, 2, 3, 5, 9]), b'aAbB.\xc0\xe0')}
        if not zt: d['len'] = n
        return d
    ps = [CStr('s'), CStr('n')] if zt else [Buf('s', 'len'), CStr('n'), Int('len')]
    return Contract(fn, F, ps, ret='u64', post=post, gen=gen, pre=(lambda v: []) if zt else (lambda v: [v.len <= MAXOBJ]),
                    inv=[('span', 1, tmpl(False)), ('spanr', 1, tmpl(True)),
                         ('nomatch', 2, lambda v, t, u: v.forall(0, t, lambda j: Not(eqf(f, v.n[j], v.s[u]))), lambda n: '@P' in n)])


SPN = [span('coda_strispn', LOW, False, False, True), span('coda_strnspn', ID, False, False, False), span('coda_strxspn', LOW, False, False, False),
       span('coda_revnspn', ID, True, False, False), span('coda_revxspn', LOW, True, False, False),
       span('coda_strispc', LOW, False, True, True), span('coda_strnspc', ID, False, True, False), span('coda_strxspc', LOW, False, True, False),
       span('coda_revnspc', ID, True, True, False), span('coda_revxspc', LOW, True, True, False)]


def substr(fn, f, zt):
    def L(v): return v.vals['z:s'] if zt else v.len

    def M(v):
        n, s, z = v.n, v.s, v.vals['z:n']

        def unfold(sf, i):
            d = z3.Function(sf.name + '.d', z3.IntSort(), z3.IntSort())(i)
            return [Imp(sf(i), v.forall(0, z, lambda j: eqf(f, n[j], s[i + j]))), Imp(Not(sf(i)), And(d >= 0, d < z, Not(eqf(f, n[d], s[i + d]))))]
        return v.fn('M', 1, unfold, lambda self, i: all(f[n[j]] == f[s[i + j]] for j in range(z)), ret='bool')

    def post(v):
        n, s, z = L(v), v.s, v.vals['z:n']
        m = M(v)
        none = lambda hi: v.forall(0, hi, lambda i: Not(And(i + z <= n, m(i))))
        if v.retnull(): return [('absent', Or(n == 0, And(z > 0, none(n))))]
        r = v.retoff('s')
        if r is None: return [('points into s', False)]
        return [('range', And(n > 0, r >= 0, r + z <= n)), ('match', m(r)), ('first occurrence', none(r))]

    def gen(rng, i):
        n = rng.choice([0, 1, 2, 3, 5, 8, 12, 20])
        al = rng.choice([b'ab', b'aAb\xc0', b'abcdefghXYZ\xe0', b'aA'])
        nd = rb(rng, rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 9]), al)
        s = bytearray(rb(rng, n, al if zt else al + b'\x00'))
        if rng.random() < .5 and len(nd) <= n:
            p = rng.randrange(n - len(nd) + 1); s[p:p + len(nd)] = nd
        if rng.random() < .3 and n and nd:      # a beginning of the needle at the end, or in front of an occurrence
            k = rng.randrange(1, min(n, len(nd)) + 1); s[n - k:] = nd[:k]
        if rng.random() < .3 and n and nd:
            k = rng.randrange(1, len(nd) + 1); s = bytearray((nd[:k] + nd + bytes(s))[:n])
        d = {'s': bytes(s), 'n': nd}
        if not zt: d['len'] = n
        return d
    ps = [CStr('s'), CStr('n')] if zt else [Buf('s', 'len'), CStr('n'), Int('len')]
    return Contract(fn, F, ps, ret='ptr', post=post, gen=gen, pre=(lambda v: []) if zt else (lambda v: [v.len <= MAXOBJ]),
                    inv=[('none before', 1, lambda v, t: v.forall(0, t, lambda i: Not(And(i + v.vals['z:n'] <= L(v), M(v)(i))))),
                         ('agree', 2, lambda v, t, u: v.forall(0, t, lambda j: eqf(f, v.n[j], v.s[u + j])), lambda n: '@P' in n)])


SUB = [substr('coda_stristr', LOW, True), substr('coda_strnstr', ID, False), substr('coda_strxstr', LOW, False)]
SEARCH = CHR + SUB
ALL = SEARCH + SPN
