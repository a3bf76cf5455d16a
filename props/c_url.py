from vc.spec import *
from vc.cxxstd import StrOut, StrIn, sstr

MAXOBJ = (1 << 63) - 1
F = 'coda/url.cpp'
UNRES = inset('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~')
W = tuple(1 if UNRES[c] or c == 32 else 3 for c in range(256))
WNP = tuple(1 if UNRES[c] else 3 for c in range(256))
HEX = b'0123456789ABCDEF'
HI = tuple(HEX[c >> 4] for c in range(256))
LO = tuple(HEX[c & 15] for c in range(256))


def D_(v, s, w, name='D'):
    """D(i): length of the encoding of the first i bytes"""
    def unfold(sf, i):
        return [Imp(i <= 0, sf(i) == 0), Imp(i > 0, sf(i) == sf(i - 1) + tab(w, s[i - 1]))]

    def conc(self, i): return sum(w[s[k]] for k in range(i))
    return v.fn(name, 1, unfold, conc)


def enc_items(v, s, w, out, D, t, u):
    """out holds the encoding of s[0..t), which ends at u"""
    first = tuple(37 if w[c] == 3 else 43 if c == 32 else c for c in range(256))
    esc = tuple(x == 3 for x in w)
    return And(u == D(t),
               v.forall(0, t, lambda i: And(D(i) >= i, D(i) + tab(w, s[i]) <= u, out(D(i)) == tab(first, s[i]),
                                            Imp(btab(esc, s[i]), And(out(D(i) + 1) == tab(HI, s[i]), out(D(i) + 2) == tab(LO, s[i]))))))


def rbytes(rng, n): return bytes(rng.choice([rng.randrange(256), 32, 37, 43, 65, 45, 46, 95, 126, 255, 0]) for _ in range(n))


def gen_sz(rng, i):
    n = rng.choice([0, 1, 2, 3, 5, 8, 13])
    return {'src': rbytes(rng, n), 'sz': n}


def urlenc_buf():
    def post(v):
        s, n, r = v.src, v.sz, v.ret
        D = D_(v, s, W)
        return [('encoding', enc_items(v, s, W, v.dst.new, D, n, r)), ('terminator', v.dst.new(r) == 0),
                ('frame', v.forall(r + 1, 3 * n + 1, lambda k: v.dst.new(k) == v.dst[k]))]
    return Contract('coda_urlenc(char*)', F, [Buf('dst', lambda v: 3 * v.sz + 1, w=True), Buf('src', 'sz'), Int('sz')], ret='u64', post=post, gen=gen_sz, cxx=True,
                    pre=lambda v: [v.sz <= MAXOBJ // 4], symfind=lambda m: '_Z11coda_urlencPcPKcm', nat_name='_Z11coda_urlencPcPKcm',
                    inv=[('worst', 2, lambda v, t, u: u <= 3 * t, lambda n: '@' in n and 'lw' not in n), ('enc', 2, lambda v, t, u: enc_items(v, v.src, W, v.dst.new, D_(v, v.src, W), t, u), lambda n: '@' in n and 'lw' not in n),
                         ('rest', 1, lambda v, t: v.forall(t, 3 * v.sz + 1, lambda k: v.dst.new(k) == v.dst[k]), lambda n: '@P:dst' in n)])


def urlenc_str(title, sym, w):
    def post(v):
        r = sstr(v, 'result')
        if r is None: return [('constructed', False)]
        return [('encoding', enc_items(v, v.src, w, lambda k: r[k], D_(v, v.src, w), v.sz, r.len))]

    def inv(v, t, u):
        r = sstr(v, 'result')
        return enc_items(v, v.src, w, lambda k: r[k], D_(v, v.src, w), t, u) if r is not None else False
    return Contract(title, F, [StrOut(), Buf('src', 'sz'), Int('sz')], post=post, gen=gen_sz, cxx=True, pre=lambda v: [v.sz <= MAXOBJ // 4],
                    symfind=lambda m: sym, nat_name=sym, inv=[('enc', 2, inv, lambda n: '@P' in n or 'sl@' in n)])


HEXV = inset('0123456789abcdefABCDEF')
HV = tuple(int(chr(c), 16) if HEXV[c] else 0 for c in range(256))
PCT = inset('%')
PLUS = tuple(32 if c == 43 else c for c in range(256))


def dstep(s, n, i):
    """bytes consumed by the item at i"""
    return Ite(And(btab(PCT, s[i]), i + 2 < n), 3, 1)


def P_(v, s, n):
    """P(j): where the j-th item of the text starts"""
    return v.fn('P', 1, lambda sf, j: [Imp(j <= 0, sf(j) == 0), Imp(j > 0, sf(j) == sf(j - 1) + dstep(s, n, sf(j - 1)))],
                lambda self, j: 0 if j <= 0 else self(j - 1) + dstep(s, n, self(j - 1)))


def dec_items(v, s, n, out, t, u):
    """out[0..u) is the decoding of the items that start before t"""
    P = P_(v, s, n)
    return And(t == P(u), v.forall(0, u, lambda j: And(P(j) >= j, P(j) < t,
               out(j) == Ite(And(btab(PCT, s[P(j)]), P(j) + 2 < n), 16 * tab(HV, s[P(j) + 1]) + tab(HV, s[P(j) + 2]), tab(PLUS, s[P(j)])))))


def gen_dec(rng, i):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 13])
    b = bytearray()
    while len(b) < n: b += rng.choice([b'%41', b'%fF', b'%', b'+', b'%4', b'%zq', b'a', b'%2', bytes([rng.randrange(256)])])
    return {'src': bytes(b[:n]), 'sz': n}


def urldec_buf():
    def post(v):
        s, n, r = v.src, v.sz, v.ret
        return [('decoding', dec_items(v, s, n, v.dst.new, n, r)), ('terminator', v.dst.new(r) == 0), ('no longer than the input', r <= n),
                ('frame', v.forall(r + 1, n + 1, lambda k: v.dst.new(k) == v.dst[k]))]
    return Contract('coda_urldec(char*)', F, [Buf('dst', lambda v: v.sz + 1, w=True), Buf('src', 'sz'), Int('sz')], ret='u64', post=post, gen=gen_dec, cxx=True,
                    pre=lambda v: [v.sz <= MAXOBJ // 4], symfind=lambda m: '_Z11coda_urldecPcPKcm', nat_name='_Z11coda_urldecPcPKcm',
                    inv=[('dec', 2, lambda v, t, u: dec_items(v, v.src, v.sz, v.dst.new, t, u), lambda n: '@' in n and 'lw' not in n),
                         ('rest', 1, lambda v, t: v.forall(t, v.sz + 1, lambda k: v.dst.new(k) == v.dst[k]), lambda n: '@P:dst' in n)])


def urldec_str(title, sym):
    def post(v):
        r = sstr(v, 'result')
        if r is None: return [('constructed', False)]
        return [('decoding', dec_items(v, v.src, v.sz, lambda k: r[k], v.sz, r.len)), ('no longer than the input', r.len <= v.sz)]

    def inv(v, t, u):
        r = sstr(v, 'result')
        return dec_items(v, v.src, v.sz, lambda k: r[k], t, u) if r is not None else False
    return Contract(title, F, [StrOut(), Buf('src', 'sz'), Int('sz')], post=post, gen=gen_dec, cxx=True, pre=lambda v: [v.sz <= MAXOBJ // 4],
                    symfind=lambda m: sym, nat_name=sym, inv=[('dec', 2, inv, lambda n: '@P' in n or 'sl@' in n)])


from vc.handlers import S16V, S16E, strtol16


def isphi(n): return 'phi' in n and '#' not in n


class Items:
    """a text read item by item: P(j) where item j starts, Q(j) where its output goes"""
    def __init__(s, cons, prod, content, room, tail): s.cons, s.prod, s.content, s.room, s.tail = cons, prod, content, room, tail

    def fns(s, v):
        P = v.fn('P', 1, lambda sf, j: [Imp(j <= 0, sf(j) == 0), Imp(j > 0, sf(j) == sf(j - 1) + s.cons(v, sf(j - 1)))], lambda self, j: 0 if j <= 0 else self(j - 1) + s.cons(v, self(j - 1)))
        Q = v.fn('Q', 1, lambda sf, j: [Imp(j <= 0, sf(j) == 0), Imp(j > 0, sf(j) == sf(j - 1) + s.prod(v, P(j - 1)))], lambda self, j: 0 if j <= 0 else self(j - 1) + s.prod(v, P(j - 1)))
        return P, Q

    def inv(s, v, j, t, u):
        P, Q = s.fns(v)
        return And(t == P(j), u == Q(j), v.forall(0, j, lambda i: And(P(i) >= i, P(i) < t, v.s[P(i)] != 0, Q(i) >= 0, Q(i) + s.room < v.sz, Q(i) + s.prod(v, P(i)) <= u, s.content(v, P(i), Q(i)))))

    def post(s, v):
        P, Q = s.fns(v)
        run = lambda i: And(v.s[P(i)] != 0, Q(i) + s.room < v.sz)

        def cl(i):
            pre = v.forall(0, i, run)
            return Imp(pre, And(Imp(run(i), s.content(v, P(i), Q(i))), Imp(Not(run(i)), s.tail(v, Q(i)))))
        return v.forall(0, v.vals['z:s'] + 1, cl)

    def contract(s, fn, sym, gen, pre=lambda v: [], extra=()):
        return Contract(fn, F, [CStr('s'), Buf('dest', 'sz', w=True), Int('sz')], gen=gen, cxx=True, symfind=lambda m: sym, nat_name=sym, pre=lambda v: [v.sz <= MAXOBJ] + pre(v),
                        post=lambda v: [('output', Imp(v.sz > 0, s.post(v)))] + [(n, f(v)) for n, f in extra],
                        inv=[('items', 3, s.inv, (lambda n: n == 'it', isphi, isphi)),
                             ('rest', 1, lambda v, u: s.tail(v, u) if s.zero else True, isphi)])


LOWB = tuple(c & 0xff for c in range(256))
XD = inset('0123456789abcdefABCDEF')


def ispct(s, p): return And(btab(PCT, s[p]), btab(XD, s[p + 1]), btab(XD, s[p + 2]))


def isbs(s, p): return And(btab(inset('\\'), s[p]), btab(inset('x'), s[p + 1]), btab(XD, s[p + 2]), btab(XD, s[p + 3]))


def isu(s, p): return And(btab(PCT, s[p]), btab(inset('u'), s[p + 1]), btab(XD, s[p + 2]))


def hx(s, p): return 16 * tab(HV, s[p]) + tab(HV, s[p + 1])


def sval(v, p): return strtol16([v.s[k] for k in range(v.vals['z:s'])], p) if v.conc else (S16V(p), S16E(p))


def un_cons(v, p):
    s = v.s
    return Ite(ispct(s, p), 3, Ite(isu(s, p), sval(v, p + 2)[1] - p, Ite(isbs(s, p), 4, 1)))


def ucode(v, p): return md(sval(v, p + 2)[0], 1 << 32)


def un_prod(v, p):
    c = ucode(v, p)
    return Ite(And(Not(ispct(v.s, p)), isu(v.s, p)), Ite(And(c < 0x800, c > 0x7f), 2, Ite(c < 0x7f, 1, 0)), 1)


def un_content(v, p, q):
    s, o = v.s, v.dest.new
    c = ucode(v, p)
    return Ite(ispct(s, p), o(q) == hx(s, p + 1),
               Ite(isu(s, p), And(Imp(And(c < 0x800, c > 0x7f), And(o(q) == 0xc0 + dv(c, 64), o(q + 1) == 0x80 + md(c, 64))), Imp(c < 0x7f, o(q) == c)),
                   Ite(isbs(s, p), o(q) == hx(s, p + 2), o(q) == tab(PLUS, s[p]))))


def zero_tail(v, u): return v.forall(u, v.sz, lambda k: v.dest.new(k) == 0)


UN = Items(un_cons, un_prod, un_content, 2, zero_tail); UN.zero = True


def pre_low(v, p): return Ite(ispct(v.s, p), Not(btab(inset('89abcdefABCDEF'), v.s[p + 1])), And(isbs(v.s, p), Not(btab(inset('89abcdefABCDEF'), v.s[p + 2]))))


def pre_cons(v, p): return Ite(ispct(v.s, p), 3, Ite(isbs(v.s, p), 4, 1))


def pre_prod(v, p): return Ite(pre_low(v, p), pre_cons(v, p), 1)


def pre_content(v, p, q):
    s, o = v.s, v.dest.new
    return Ite(pre_low(v, p), And([o(q + k) == s[p + k] for k in range(3)] + [Imp(pre_cons(v, p) == 4, o(q + 3) == s[p + 3])]),
               Ite(ispct(s, p), o(q) == hx(s, p + 1), Ite(isbs(s, p), o(q) == hx(s, p + 2), o(q) == s[p])))


PRE = Items(pre_cons, pre_prod, pre_content, 5, lambda v, u: v.dest.new(u) == 0); PRE.zero = False


def esc_content(v, p, q):
    s, o = v.s, v.dest.new
    first = tuple(37 if W[c] == 3 else 43 if c == 32 else c for c in range(256))
    return And(o(q) == tab(first, s[p]), Imp(btab(tuple(x == 3 for x in W), s[p]), And(o(q + 1) == tab(HI, s[p]), o(q + 2) == tab(LO, s[p]))))


ESCI = Items(lambda v, p: 1, lambda v, p: tab(W, v.s[p]), esc_content, 3, zero_tail); ESCI.zero = True


def gen_esc(rng, i):
    n = rng.choice([0, 1, 2, 3, 4, 6, 9])
    b = b''
    while len(b) < n: b += rng.choice([b'%41', b'%fF', b'%', b'+', b'%4', b'%zq', b'a', b' ', b'%u043', b'%u0430', b'%u7e', b'%u7f', b'%u80', b'%u800', b'%u10000041', b'%u0x4g', b'\\x41', b'\\xfa', b'\\x4', b'\\', b'%00', b'%80', b'%7f', bytes([rng.randrange(1, 256)])])
    return {'s': b, 'sz': rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 20, 60])}


ESC = [ESCI.contract('coda_url_escape', '_Z15coda_url_escapePKcPcm', gen_esc), UN.contract('coda_url_unescape', '_Z17coda_url_unescapePKcPcm', gen_esc),
       PRE.contract('coda_url_preunescape', '_Z20coda_url_preunescapePKcPcm', gen_esc)]
DEC = [urldec_buf(), urldec_str('coda_urldec(string)', '_Z11coda_urldecB5cxx11PKcm')]
STRREF = 'RKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'
anyp = lambda n: '@P' in n or '@S' in n or 'sl@' in n


def gen_s(g):
    def f(rng, i):
        return {'src': g(rng, i)['src']}
    return f


def enc_wrap(title, sym, w):
    def items(v, t, u):
        r, s = sstr(v, 'result'), v.src
        return enc_items(v, s, w, lambda k: r[k], D_(v, s, w), t, u) if r is not None else False
    return Contract(title, F, [StrOut(), StrIn('src')], gen=gen_s(gen_sz), cxx=True, symfind=lambda m: sym, nat_name=sym, pre=lambda v: [v.src.len <= MAXOBJ // 4],
                    post=lambda v: [('encoding', items(v, v.src.len, sstr(v, 'result').len if sstr(v, 'result') else 0))], inv=[('enc', 2, items, anyp)])


def dec_wrap(title, sym):
    def items(v, t, u):
        r, s = sstr(v, 'result'), v.src
        return dec_items(v, s, s.len, lambda k: r[k], t, u) if r is not None else False
    return Contract(title, F, [StrOut(), StrIn('src')], gen=gen_s(gen_dec), cxx=True, symfind=lambda m: sym, nat_name=sym, pre=lambda v: [v.src.len <= MAXOBJ // 4],
                    post=lambda v: [('decoding', items(v, v.src.len, sstr(v, 'result').len if sstr(v, 'result') else 0))], inv=[('dec', 2, items, anyp)])


def roundtrip():
    """one step of the induction  P(j) = D(j)  over the specification of the encoder (noplus or not) and of the decoder"""
    out = []
    for nm, w in (('urlenc', W), ('urlenc_noplus', WNP)):
        first = tuple(37 if w[c] == 3 else 43 if c == 32 else c for c in range(256))
        for c in range(256):
            text = ([37, HI[c], LO[c]] if w[c] == 3 else [first[c]])
            for rest in ([], [37], [37, 52], [48, 49], [65]):
                t = text + rest      # what follows: nothing, or the beginning of another item
                n = len(t)
                st = dstep(t + [0, 0, 0], n, 0)
                val = 16 * HV[t[1]] + HV[t[2]] if st == 3 else PLUS[t[0]]
                # an item never looks further than two bytes ahead, and only after '%', which the encoder always follows with two digits
                if not (st == len(text) and val == c): out.append(('%s then urldec, byte %d' % (nm, c), [], False))
        import z3
        D = z3.Function('D', z3.IntSort(), z3.IntSort()); Pp = z3.Function('P', z3.IntSort(), z3.IntSort())
        j, wj, n = z3.Ints('j wj n')
        out.append(('%s: decoder items start where encoder items start (induction step)' % nm, [Pp(j) == D(j), D(j + 1) == D(j) + wj, Pp(j + 1) == Pp(j) + wj], Pp(j + 1) == D(j + 1)))
    return out


DEC = [urldec_buf(), urldec_str('coda_urldec(string)', '_Z11coda_urldecB5cxx11PKcm'), dec_wrap('coda_urldec(const std::string&)', '_Z11coda_urldec' + STRREF)]
ENC = [urlenc_buf(), urlenc_str('coda_urlenc(string)', '_Z11coda_urlencB5cxx11PKcm', W), urlenc_str('coda_urlenc_noplus(string)', '_Z18coda_urlenc_noplusB5cxx11PKcm', WNP),
       enc_wrap('coda_urlenc(const std::string&)', '_Z11coda_urlenc' + STRREF, W), enc_wrap('coda_urlenc_noplus(const std::string&)', '_Z18coda_urlenc_noplus' + STRREF, WNP)]
ALL = ENC + DEC + ESC
from vc.lemma import Lemma
DEC = DEC + [Lemma('url round trip', roundtrip, 'per byte: complete enumeration; per position: induction step by z3')]
