"""base58: the code computes the schoolbook conversion table; units/base58.lean proves what that table means"""
from vc.spec import *

F = 'coda/base58.c'
B58 = b'123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
AL = tuple(B58) + (0,) * (256 - 58)
VALID = inset(B58)
DV = tuple(B58.index(bytes([c])) if VALID[c] else 0 for c in range(256))
NMAX = 1 << 30


class Conv:
    """Digits of the number written by the items s[z..n), in base B, most significant first, in L(z) places.
    Z: leading items that stand for zero (counted up to a limit); D(k,i): digit i after the items before k; C(k,i): carry into place i when item k-1 is added;
    S: place of the first digit that is not zero."""
    def __init__(self, A, B, num, den, val, zero, valid=None):
        self.A, self.B, self.num, self.den, self.val, self.zero, self.valid = A, B, num, den, val, zero, valid

    def setup(self, v, s, n, lim):
        A, B = self.A, self.B

        def zu(sf, _):
            z = sf(0)
            hi = Min(n, lim)
            return [z >= 0, z <= hi, v.forall(0, z, lambda k: self.zero(s[k])), Imp(z < hi, Not(self.zero(s[z])))]

        def zc(f, _):
            z = 0
            while z < min(n, lim) and self.zero(s[z]): z += 1
            return z
        Zf = v.fn('Z', 1, zu, zc)
        Z = Zf(0)
        ln = lambda: dv((n - Z) * self.num, self.den) + 1
        L = v.fn('L', 1, lambda sf, _: [sf(0) == ln(), sf(0) >= 1], lambda f, _: ln())(0)

        def cu(sf, k, i):
            D = Dbox[0]
            t = sf(k, i + 1) + A * D(k - 1, i + 1)
            return [Imp(i >= L - 1, sf(k, i) == self.val(s[k - 1])), Imp(i < L - 1, sf(k, i) == dv(t, B)), sf(k, i) >= 0,
                    Imp(And(i < 0, k <= n, k > Z), sf(k, i) == 0)]         # the last one: theorems no_overflow_enc, no_overflow_dec in units/base58.lean

        def cc(f, k, i): return self.val(s[k - 1]) if i >= L - 1 else (f(k, i + 1) + A * Dbox[0](k - 1, i + 1)) // B

        def du(sf, k, i):
            C = Cbox[0]
            return [Imp(k <= Z, sf(k, i) == 0), Imp(k > Z, sf(k, i) == md(C(k, i) + A * sf(k - 1, i), B)), sf(k, i) >= 0, sf(k, i) < B]

        rows = {}

        def dc(f, k, i):        # the same table, a row at a time from the value of the items
            if k not in rows:
                x = 0
                if self.A == 256: x = int.from_bytes(bytes(s[j] for j in range(Z, k)), 'big')
                else:
                    for j in range(Z, k): x = x * A + self.val(s[j])
                r = []
                for _ in range(L): r.append(x % B); x //= B
                rows[k] = r[::-1]
            return rows[k][i] if 0 <= i < L else 0
        Dbox, Cbox = [], []
        Dbox.append(v.fn('D', 2, du, dc)); Cbox.append(v.fn('C', 2, cu, cc))
        D, C = Dbox[0], Cbox[0]

        def su(sf, _):
            x = sf(0)
            return [x >= 0, x <= L, v.forall(0, x, lambda i: D(n, i) == 0), Imp(x < L, D(n, x) != 0)]

        def sc(f, _):
            x = 0
            while x < L and D(n, x) == 0: x += 1
            return x
        return Z, L, D, C, v.fn('S', 1, su, sc)


ENCC = Conv(256, 58, 138, 100, lambda b: b, lambda b: b == 0)
DECC = Conv(58, 256, 733, 1000, lambda b: tab(DV, b), lambda b: b == ord('1'))


def rbytes(rng, n):
    z = rng.choice([0, 0, 1, 2, n])
    if n > 20 and rng.random() < .5: return b'\xff' * n
    return bytes(0 if k < z else rng.choice([rng.randrange(256), 0, 255, 1, 57, 58]) for k in range(n))


def text(v, o, m):
    """what the encoder leaves in a destination of m bytes -> (facts, length)"""
    s, n = getattr(v, 'in'), v.inlen
    Z, L, D, C, S = ENCC.setup(v, s, n, m)
    t = Min(L - S(0), m - Z)
    return [('zeros', v.forall(0, Z, lambda k: o(k) == ord('1'))),
            ('digits', v.forall(0, t, lambda k: o(Z + k) == tab(AL, D(n, S(0) + k)))),
            ('terminator', Imp(Z + t < m, o(Z + t) == 0))], Z + t


def terms(St):
    def hook(e, st, t, v):
        Z, L, D, C, S = St(v.at(st))
        t['P:Z'], t['P:L'], t['P:S'] = Z, L, S(0)
    return hook


isphi = lambda n: n.startswith('phi') and '@' not in n
isin = lambda n: '@P:in' in n
isout = lambda n: '@P:out' in n or '@H' in n


def acc(v, alloc):
    """(destination, scratch) byte accessors, None where they do not exist yet"""
    h = v.heaps()
    if alloc: return (h[0] if h else None), (h[1] if len(h) > 1 else None)
    return v.out.new, (h[0] if h else None)


def table_inv(cv, St, alloc, zeroval, zch, digit):
    """the loop invariants both directions share; digit: what is stored for a digit"""
    def inner(v, k, i, c):
        h = acc(v, alloc)[1]
        if h is None: return True
        Z, L, D, C, _ = St(v)
        return And(c == C(k + 1, i), c < cv.A, v.forall(0, i + 1, lambda j: h(j) == D(k, j)), v.forall(i + 1, L, lambda j: h(j) == D(k + 1, j)))

    def outer(v, k):
        h = acc(v, alloc)[1]
        if h is None: return True
        Z, L, D, C, _ = St(v)
        return And(k >= Z, v.forall(0, L, lambda j: h(j) == D(k, j)))

    def skip(v, x):
        if acc(v, alloc)[1] is None: return True
        Z, L, D, C, _ = St(v)
        return And(x <= L, v.forall(0, x, lambda j: D(v.inlen, j) == 0))

    def zeros(v, t):
        s, o = getattr(v, 'in'), acc(v, alloc)[0]
        if o is None: return True
        return v.forall(0, t, lambda k: And(s[k] == zch, o(k) == zeroval))

    def zin(v, t):
        s = getattr(v, 'in')
        return v.forall(0, t, lambda k: s[k] == zch)

    def copy(v, t):
        o = acc(v, alloc)[0]
        if o is None: return True
        Z, L, D, C, S = St(v)
        return And(t >= Z, v.forall(0, Z, lambda k: o(k) == zeroval), v.forall(Z, t, lambda k: o(k) == digit(D(v.inlen, S(0) + k - Z))))
    return [('zeros', 1, zeros, isout), ('zeros counted', 1, zin, isphi), ('outer', 1, outer, isin), ('inner', 3, inner, (isin, isphi, isphi)),
            ('skip', 1, skip, lambda n: '@H' in n), ('copy', 1, copy, isout)]


REST = ('rest', 1, lambda v, t: v.forall(t, v.out.size, lambda k: v.out.new(k) == v.out[k]), lambda n: '@P:out' in n)


def gen_enc(rng, i):
    n = i % 9 if i < 60 else rng.choice([rng.randrange(0, 24), rng.randrange(0, 24), rng.randrange(24, 400), rng.choice([700, 3000])])
    return {'in': rbytes(rng, n), 'inlen': n, 'outlen': rng.choice([0, 1, 2, n, n * 138 // 100 + 1, n * 138 // 100 + 2, n * 2 + 4, n * 2 + 4, 40])}


def encode():
    St = lambda v: ENCC.setup(v, getattr(v, 'in'), v.inlen, v.outlen)

    def post(v):
        if v.oom: return [('terminator', Imp(v.outlen > St(v)[0], v.out.new(St(v)[0]) == 0))]
        f, ln = text(v, v.out.new, v.outlen)
        return f + [('frame', v.forall(ln + 1, v.outlen, lambda k: v.out.new(k) == v.out[k]))]

    def gen(rng, i):
        d = gen_enc(rng, i)
        if rng.random() < .05: d['#oom'] = 0
        return d
    return Contract('coda_base58_encode', F, [Buf('in', 'inlen'), Int('inlen'), Buf('out', 'outlen', w=True), Int('outlen')], ret=None, post=post, gen=gen,
                    inv=table_inv(ENCC, St, False, ord('1'), 0, lambda d: tab(AL, d)) + [REST],
                    viewhook=terms(St), pre=lambda v: [v.inlen <= NMAX, v.outlen <= (1 << 62)], budget=500)


def encode_alloc():
    St = lambda v: ENCC.setup(v, getattr(v, 'in'), v.inlen, v.inlen)

    def post(v):
        Z, L, D, C, S = St(v)
        o = outp(v, 'out')
        if o.null: return [('failure only without memory', v.oom), ('size reported', v.ret == Z + L + 1)]
        ln = Z + L - S(0)
        return [('length of the text', v.ret == ln), ('zeros', v.forall(0, Z, lambda k: o.at(k) == ord('1'))),
                ('digits', v.forall(0, ln - Z, lambda k: o.at(Z + k) == tab(AL, D(v.inlen, S(0) + k)))), ('terminator', o.at(ln) == 0)]

    def gen(rng, i):
        d = gen_enc(rng, i); del d['outlen']
        if rng.random() < .1: d['#oom'] = rng.randrange(2)
        return d
    def room(v):
        Z, L, D, C, S = St(v)
        return Z + L - S(0) + 1
    return Contract('coda_base58_encode_alloc', F, [Buf('in', 'inlen'), Int('inlen'), OutP('out', room)], ret='u64', post=post, gen=gen,
                    inv=table_inv(ENCC, St, True, ord('1'), 0, lambda d: tab(AL, d)),
                    viewhook=terms(St), pre=lambda v: [v.inlen <= NMAX], opts={'fresh': True}, budget=500)


def rtext(rng, n):
    z = rng.choice([0, 0, 1, 2, n])
    if n > 20 and rng.random() < .5: return b'z' * n
    return bytes(49 if k < z else rng.choice(B58) if rng.random() < .97 else rng.choice([0, 48, 73, 79, 108, 200, 255, 122, 123]) for k in range(n))


def first_bad(v):
    s, n = getattr(v, 'in'), v.inlen
    ok = lambda c: btab(VALID, c)

    def c(f, _):
        k = 0
        while k < n and ok(s[k]): k += 1
        return k
    return v.fn('I', 1, lambda sf, _: [sf(0) >= 0, sf(0) <= n, v.forall(0, sf(0), lambda k: ok(s[k])), Imp(sf(0) < n, Not(ok(s[sf(0)])))], c)(0)


def decode(alloc):
    St = lambda v: DECC.setup(v, getattr(v, 'in'), v.inlen, v.inlen)

    def post(v):
        Z, L, D, C, S = St(v)
        I = first_bad(v)
        o = outp(v, 'out') if alloc else None
        if alloc and o.null: return [('no block: failure', And(Imp(v.oom is False, And(v.ret == -I - 1, I < v.inlen)), v.ret < 0))]
        if v.oom: return [('no memory is reported', v.ret < 0)]
        ln = Z + L - S(0)
        at = o.at if alloc else v.out.new
        f = [('an invalid character is reported', Imp(I < v.inlen, v.ret == -I - 1)),
             ('length', Imp(I == v.inlen, v.ret == ln)),
             ('zeros', Imp(I == v.inlen, v.forall(0, Z, lambda k: at(k) == 0))),
             ('digits', Imp(I == v.inlen, v.forall(0, ln - Z, lambda k: at(Z + k) == D(v.inlen, S(0) + k))))]
        if alloc: f.append(('only on success', I == v.inlen))
        else: f.append(('frame', v.forall(Ite(I == v.inlen, ln, Z), v.out.size, lambda k: v.out.new(k) == v.out[k])))
        return f

    def gen(rng, i):
        n = i % 9 if i < 60 else rng.choice([rng.randrange(0, 24), rng.randrange(0, 24), rng.randrange(24, 400), rng.choice([700, 3000])])
        d = {'in': rtext(rng, n), 'inlen': n}
        if rng.random() < .05: d['#oom'] = rng.randrange(2)
        return d

    def valid(v, k): return v.forall(0, k, lambda j: btab(VALID, getattr(v, 'in')[j]))
    def room(v):
        Z, L, D, C, S = St(v)
        return Ite(first_bad(v) == v.inlen, Z + L - S(0), 0)
    out = OutP('out', room) if alloc else Buf('out', lambda v: St(v)[0] + St(v)[1], w=True)
    return Contract('coda_base58_decode' + ('_alloc' if alloc else ''), F, [Buf('in', 'inlen'), Int('inlen'), out], ret='i64', post=post, gen=gen,
                    inv=table_inv(DECC, St, alloc, 0, ord('1'), lambda d: d) + ([] if alloc else [REST]) + [('valid so far', 1, valid, isin)],
                    viewhook=terms(St), pre=lambda v: [v.inlen <= NMAX], opts={'fresh': alloc}, budget=500)


def isb58():
    return Contract('coda_isbase58', F, [Int('ch', 8)], ret='u8', post=lambda v: [('member', v.ret == Ite(btab(VALID, v.ch), 1, 0))], gen=lambda rng, i: {'ch': i % 256})


from vc.lemma import Lemma, Lean


def alpha_inverse(): return [('digit %d: the decoder maps the encoder\'s character back' % d, [], VALID[B58[d]] and DV[B58[d]] == d) for d in range(58)] + \
    [('a digit is 0 exactly for the character 1', [], all((B58[d] == ord('1')) == (d == 0) for d in range(58)))]


ENC = [encode(), encode_alloc()]
DEC = [decode(False), decode(True), isb58()]
ALL = ENC + DEC
ENC = ENC + [Lean('table of the encoder', 'units/base58.lean', ['no_overflow_enc'], 'the place values of the table: induction, checked by the Lean kernel')]
DEC = DEC + [Lean('table of the decoder, round trip', 'units/base58.lean', ['no_overflow_dec', 'roundtrip'], 'induction, checked by the Lean kernel'),
             Lemma('base58 alphabets are inverse', alpha_inverse, 'complete enumeration')]
