"""coda_remove_tones_utf8 (coda/vietnam.cpp), get_next_word (coda/easy_parsing.cpp), log_array (coda/log_array.hpp)"""
import unicodedata
from vc.spec import *
from vc.cxxstd import StrOut, sstr

# ---------------------------------------------------------------- the Vietnamese letters, from the Unicode data: base letter, quality mark, tone
TONE = {}
for b in ['A', 'A\u0302', 'A\u0306', 'E', 'E\u0302', 'I', 'O', 'O\u0302', 'O\u031b', 'U', 'U\u031b', 'Y']:
    for m in ['', '\u0300', '\u0301', '\u0303', '\u0309', '\u0323']:
        for x in (b, b.lower()):
            ch = unicodedata.normalize('NFC', x + m)
            assert len(ch) == 1
            if ord(ch) > 127: TONE[ord(ch)] = ord(x[0])
for cp, ch in ((0xD0, 'D'), (0x110, 'D'), (0xF0, 'd'), (0x111, 'd')): TONE[cp] = ord(ch)
BYL = {}
for cp, l in TONE.items(): BYL.setdefault(l, []).append(cp)
CLEN = tuple(1 if c < 0x80 else 4 if c >= 0xF0 else 3 if c >= 0xE0 else 2 for c in range(256))


def letter(v):
    """base letter of a Vietnamese letter, 0 for any other code point"""
    def unfold(sf, c): return [And([Imp(Or([c == x for x in xs]), sf(c) == l) for l, xs in BYL.items()]), Imp(And([Not(Or([c == x for x in xs])) for xs in BYL.values()]), sf(c) == 0)]
    return v.fn('letter', 1, unfold, lambda self, c: TONE.get(c, 0))


def clen(v, p): return tab(CLEN, v.s[p])


def fits(v, p): return p + clen(v, p) <= v.sz


def b6(v, p): return md(v.s[p], 64)


def code(v, p):
    """the code point that the character at p denotes (0: cut by the end of the text, or an overlong zero)"""
    def unfold(sf, p):
        a = v.s[p]
        return [Imp(Not(fits(v, p)), sf(p) == 0),
                Imp(fits(v, p), And(Imp(a < 128, sf(p) == a), Imp(And(a >= 128, a < 224), sf(p) == md(a, 32) * 64 + b6(v, p + 1)),
                                    Imp(And(a >= 224, a < 240), sf(p) == md(a, 16) * 4096 + b6(v, p + 1) * 64 + b6(v, p + 2)),
                                    Imp(a >= 240, sf(p) == md(a, 8) * 262144 + b6(v, p + 1) * 4096 + b6(v, p + 2) * 64 + b6(v, p + 3))))]

    def conc(self, p):
        a = v.s[p]
        if not fits(v, p): return 0
        n = CLEN[a]
        c = a & (127, 127, 31, 15, 7)[n]
        for k in range(1, n): c = c * 64 + v.s[p + k] % 64
        return c
    return v.fn('code', 1, unfold, conc)(p)


def last(v, p):
    """a character cut by the end of the text, or an overlong zero: the rest of the text is copied"""
    return And(v.s[p] >= 128, code(v, p) == 0)


def skip(v, p): return Ite(fits(v, p), clen(v, p), 0)


def mark(v, p): return And(v.s[p] >= 128, code(v, p) >= 0x300, code(v, p) <= 0x36F)


def cons(v, p): return Ite(last(v, p), v.sz - p, clen(v, p))


def prod(v, p):
    """bytes that the character at p leaves"""
    def unfold(sf, p):
        k, L = code(v, p), letter(v)(code(v, p))
        return [Imp(last(v, p), sf(p) == v.sz - p - skip(v, p)), Imp(mark(v, p), sf(p) == 0), Imp(And(Not(last(v, p)), Not(mark(v, p))), sf(p) == Ite(L != 0, 1, clen(v, p)))]
    return v.fn('prod', 1, unfold, lambda self, p: v.sz - p - skip(v, p) if last(v, p) else 0 if mark(v, p) else 1 if letter(v)(code(v, p)) else clen(v, p))(p)


def content(v, o, p, q):
    L = letter(v)(code(v, p))
    return Imp(And(Not(last(v, p)), Not(mark(v, p))), Ite(L != 0, o(q) == L, And([Imp(k < clen(v, p), o(q + k) == v.s[p + k]) for k in range(4)])))


def fns(v):
    P = v.fn('P', 1, lambda sf, j: [Imp(j <= 0, sf(j) == 0), Imp(j > 0, sf(j) == sf(j - 1) + cons(v, sf(j - 1)))], lambda self, j: 0 if j <= 0 else self(j - 1) + cons(v, self(j - 1)))
    Q = v.fn('Q', 1, lambda sf, j: [Imp(j <= 0, sf(j) == 0), Imp(j > 0, sf(j) == sf(j - 1) + prod(v, P(j - 1)))], lambda self, j: 0 if j <= 0 else self(j - 1) + prod(v, P(j - 1)))
    return P, Q


def tail(v, o, p, q, u):
    """what follows the last character is in [q, u)"""
    return v.forall(q, u, lambda m: o(m) == v.s[p + skip(v, p) + m - q])


def items(v, o, J, u):
    P, Q = fns(v)
    return And(v.forall(0, J, lambda i: And(P(i) >= i, P(i) < v.sz, P(i) + cons(v, P(i)) <= P(J), Q(i) >= 0, Q(i) + prod(v, P(i)) <= Q(J), content(v, o, P(i), Q(i)), Imp(last(v, P(i)), i == J - 1))), u >= Q(J), Q(J) <= P(J))


def inv(v, t, u, tailing=False):
    r = sstr(v, 'result')
    if r is None: return False
    P, Q = fns(v)
    o = lambda k: r[k]
    J = list(v.st.its.values())[0]
    now = And(t == P(J), u == Q(J)) if not tailing else And(P(J) < v.sz, last(v, P(J)), t - P(J) - skip(v, P(J)) == u - Q(J), t >= P(J), t <= v.sz, tail(v, o, P(J), Q(J), u))
    return And(items(v, o, J, u), Imp(J >= 1, Imp(last(v, P(J - 1)), And(P(J) == v.sz, tail(v, o, P(J - 1), Q(J - 1), Q(J))))), now)


def post(v):
    r = sstr(v, 'result')
    if r is None: return [('constructed', False)]
    P, Q = fns(v)
    o = lambda k: r[k]

    def cl(i):
        p = P(i)
        return Imp(v.forall(0, i, lambda k: P(k) < v.sz), And(p <= v.sz, Imp(p < v.sz, And(content(v, o, p, Q(i)), Q(i) + prod(v, p) <= r.len, Imp(last(v, p), tail(v, o, p, Q(i), Q(i) + prod(v, p))))), Imp(p == v.sz, r.len == Q(i))))
    if v.conc or not v.st.its: return [('every character in its place', v.forall(0, v.sz + 1, cl)), ('no longer than the input', r.len <= v.sz)]
    J = list(v.st.its.values())[0]        # the number of characters
    return [('the characters make up the input', And(J >= 0, P(J) == v.sz, v.forall(0, J, lambda i: And(P(i) >= 0, P(i) < v.sz)))), ('length', r.len == Q(J)), ('no longer than the input', r.len <= v.sz),
            ('every character in its place', v.forall(0, J, lambda i: And(content(v, o, P(i), Q(i)), Q(i) + prod(v, P(i)) <= r.len))),
            ('what follows the last character', v.forall(0, J, lambda i: Imp(last(v, P(i)), tail(v, o, P(i), Q(i), Q(i) + prod(v, P(i))))))]


ALLC = [chr(c).encode() for c in TONE] + [b'a', b'z', b' ', '\u0300'.encode(), '\u036f'.encode(), '\u0370'.encode(), '\u02ff'.encode(), '\u0302'.encode(), 'ß'.encode(), 'ж'.encode(), '€'.encode(), '😀'.encode(), '\u1ea0'.encode(), '\u1ef9'.encode(), '\u1efa'.encode(), b'\x7f', b'\x00']


def gen(rng, i):
    b = b''
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8])): b += rng.choice(ALLC) if rng.random() < .8 else bytes([rng.choice([rng.randrange(256), 0xc0, 0x80, 0xe0, 0xf0, 0xcc, 0xe1])])
    if rng.random() < .3: b = b[:-1]
    return {'s': b, 'sz': len(b)}


ptl = (lambda n: '@P' in n, lambda n: 'sl@' in n)
TONES = [Contract('coda_remove_tones_utf8', 'coda/vietnam.cpp', [StrOut(), Buf('s', 'sz'), Int('sz')], post=post, gen=gen, cxx=True, pre=lambda v: [v.sz <= (1 << 62)],
                  symfind=lambda m: '_Z22coda_remove_tones_utf8B5cxx11PKcm', nat_name='_Z22coda_remove_tones_utf8B5cxx11PKcm', opts={'unroll': 4, 'nolearn': True},
                  inv=[('items', 2, inv, ptl), ('tail', 2, lambda v, t, u: inv(v, t, u, True), ptl)])]
ALL = TONES
