from vc.spec import *

B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
WEB64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
MAXOBJ = (1 << 63) - 1      # no object is larger than PTRDIFF_MAX
T_hi = tuple(b >> 2 for b in range(256))
T_lo4 = tuple((b & 3) << 4 for b in range(256))
T_hi4 = tuple(b >> 4 for b in range(256))
T_lo2 = tuple((b & 15) << 2 for b in range(256))
T_hi6 = tuple(b >> 6 for b in range(256))
T_lo6 = tuple(b & 63 for b in range(256))


def enc_len(n): return 4 * dv(n + 2, 3)


def enc_char(s, n, k, A, pad):
    """k-th character of the encoding of s[0..n)"""
    T = tuple(A[i] if i < 64 else A[63] for i in range(256))
    q, r = dv(k, 4), md(k, 4)
    i = 3 * q
    b0 = s[i]
    b1 = Ite(i + 1 < n, s[i + 1], 0)
    b2 = Ite(i + 2 < n, s[i + 2], 0)
    c0 = tab(tuple(T[x] for x in T_hi), b0)
    c1 = Ite(i + 1 < n, tab(T, tab(T_lo4, b0) + tab(T_hi4, s[i + 1])), tab(tuple(T[x] for x in T_lo4), b0))
    c2 = Ite(i + 1 < n, Ite(i + 2 < n, tab(T, tab(T_lo2, s[i + 1]) + tab(T_hi6, s[i + 2])), tab(tuple(T[x] for x in T_lo2), s[i + 1])), pad)
    c3 = Ite(i + 2 < n, tab(tuple(T[x] for x in T_lo6), s[i + 2]), pad)
    return Ite(r == 0, c0, Ite(r == 1, c1, Ite(r == 2, c2, c3)))


def mk_encode(fn, file, A, pad):
    def post(v):
        n, m = v.inlen, v.outlen
        s, o = getattr(v, 'in'), v.out
        L = enc_len(n)
        return [('characters', v.forall(0, Min(L, m), lambda k: o.new(k) == enc_char(s, n, k, A, pad))),
                ('terminator', Imp(m > L, o.new(L) == 0)),
                ('frame', v.forall(L + 1, m, lambda k: o.new(k) == o[k]))]

    def gen(rng, i):
        n = i % 13 if i < 40 else rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 30, 31, 32])
        L = 4 * ((n + 2) // 3)
        m = [L + 1, L, L + 5, max(0, L - 1), L // 2, 0, 1][i % 7] if i % 3 else rng.randrange(0, L + 6)
        return {'in': bytes(rng.randrange(256) for _ in range(n)), 'inlen': n, 'outlen': m}
    return Contract(fn, file, [Buf('in', 'inlen'), Int('inlen'), Buf('out', 'outlen', w=True), Int('outlen')], ret=None, post=post, gen=gen,
                    inv=[('prefix', 1, lambda v, t: v.forall(0, t, lambda k: v.out.new(k) == enc_char(getattr(v, 'in'), v.inlen, k, A, pad))),
                         ('rest', 1, lambda v, t: v.forall(t, v.outlen, lambda k: v.out.new(k) == v.out[k]))],
                    pre=lambda v: [v.inlen <= MAXOBJ, v.outlen <= MAXOBJ])


ENC = [mk_encode('coda_base64_encode', 'coda/base64.c', B64, 61), mk_encode('web64_encode', 'coda/web64.c', WEB64, 46)]


def alloc_enc(fn, file, A, pad, inner):
    def post(v):
        n = v.inlen
        L = enc_len(n)
        o = outp(v, 'out')
        s = getattr(v, 'in')
        if o.null: return [('out of memory or overflow reported', v.ret == Ite(L + 1 < 1 << 64, L + 1, 0))]
        return [('length', v.ret == L), ('block is live', not getattr(o, 'dead', False)),
                ('characters', v.forall(0, L, lambda k: o.at(k) == enc_char(s, n, k, A, pad))),
                ('terminator', o.at(L) == 0)]

    def gen(rng, i):
        n = i % 11 if i < 11 else rng.randrange(0, 70)
        d = {'in': bytes(rng.randrange(256) for _ in range(n)), 'inlen': n}
        if rng.random() < .1: d['#oom'] = 0
        if i % 9 == 5:      # no object is that large: documented result for lengths whose text does not fit
            d = {'in': b'', 'inlen': rng.choice([(1 << 64) - 1 - rng.randrange(4), 3 * (1 << 62) + rng.randrange(-4, 60), 1 << 63, rng.randrange(1 << 63, 1 << 64)])}
        return d
    return Contract(fn, file, [Buf('in', lambda v: Ite(v.inlen <= MAXOBJ, v.inlen, 0)), Int('inlen'), OutP('out', lambda v: Ite(v.inlen <= MAXOBJ, enc_len(v.inlen) + 1, 0))], ret='u64', post=post, gen=gen,
                    contracts={inner.fn: use(inner)})


ENC.append(alloc_enc('coda_base64_encode_alloc', 'coda/base64.c', B64, 61, ENC[0]))


def dtab(A):
    t = [-1] * 256
    for i, c in enumerate(A): t[c] = i
    return t


def mk_spec(A, pad):
    D = dtab(A)
    alpha = inset(A)
    T = [D[min(A)] if x < 0 else x for x in D]      # entries outside the alphabet are never used
    t0 = tuple((x << 2) & 255 for x in T); t0b = tuple(x >> 4 for x in T)
    t1 = tuple((x << 4) & 0xf0 for x in T); t1b = tuple(x >> 2 for x in T)
    t2 = tuple((x << 6) & 0xc0 for x in T); t2b = tuple(T)

    def okc(s, n, k):
        return Or(btab(alpha, s[k]), And(s[k] == pad, Or(k == n - 1, And(k == n - 2, s[n - 1] == pad))))

    def valid(v, s, n):
        return And(md(n, 4) == 0, v.forall(0, n, lambda k: okc(s, n, k)))

    def dlen(s, n, t):
        """bytes represented by the first t characters (t a multiple of 4)"""
        return 3 * dv(t, 4) - Ite(And(t == n, n > 0), Ite(s[n - 1] == pad, 1, 0) + Ite(And(s[n - 1] == pad, s[n - 2] == pad), 1, 0), 0)

    def dec(s, j):
        q, r = dv(j, 3), md(j, 3)
        i = 4 * q
        return Ite(r == 0, tab(t0, s[i]) + tab(t0b, s[i + 1]), Ite(r == 1, tab(t1, s[i + 1]) + tab(t1b, s[i + 2]), tab(t2, s[i + 2]) + tab(t2b, s[i + 3])))
    return okc, valid, dlen, dec


def gen_enc_bytes(rng, A, pad, i):
    import base64
    raw = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 20])))
    e = bytearray(base64.b64encode(raw))
    for j, c in enumerate(e):
        e[j] = pad if c == 61 else A[B64.index(c)]
    k = rng.random()
    if k < .35 or i % 3 == 0: pass
    elif k < .6 and e:
        e[rng.randrange(len(e))] = rng.choice([pad, 61, 46, 0, 10, 255, 43, 47, 45, 95, rng.randrange(256)])
    elif k < .8: e = e[:rng.randrange(len(e) + 1)]
    else: e = e + bytes([rng.choice(bytes([pad]) + A)]) * rng.choice([1, 2, 4])
    return bytes(e)


def mk_decode(fn, file, A, pad):
    okc, valid, dlen, dec = mk_spec(A, pad)

    def post(v):
        n, s, o, m = v.inlen, getattr(v, 'in'), v.out, v.outlen.oldval
        m2 = v.outlen.val
        return [('accepts exactly the well-formed inputs', Iff(v.ret if isinstance(v.ret, bool) or issym(v.ret) else bool(v.ret), valid(v, s, n))),
                ('length', Imp(v.ret, m2 == Min(m, dlen(s, n, n)))), ('length bounded', m2 <= m),
                ('bytes', v.forall(0, m2, lambda j: o.new(j) == dec(s, j))),
                ('frame', v.forall(m2, m, lambda j: o.new(j) == o[j]))]

    def gen(rng, i):
        e = gen_enc_bytes(rng, A, pad, i)
        L = 3 * ((len(e) + 3) // 4)
        m = rng.choice([L, L, L + 2, max(0, L - 1), max(0, L - 2), max(L - 3, 0), L // 2, 0])
        return {'in': e, 'inlen': len(e), 'outlen': m}
    return Contract(fn, file, [Buf('in', 'inlen'), Int('inlen'), Buf('out', lambda v: v.vals['o:outlen'], w=True), Out('outlen')], ret='bool', post=post, gen=gen,
                    pre=lambda v: [v.inlen <= MAXOBJ, v.vals['o:outlen'] <= MAXOBJ],
                    inv=[('valid', 1, lambda v, t: v.forall(0, t, lambda k: okc(getattr(v, 'in'), v.inlen, k))),
                         ('dec', 1, lambda v, t: v.forall(0, t, lambda k: v.out.new(k) == dec(getattr(v, 'in'), k))),
                         ('rest', 1, lambda v, t: v.forall(t, v.outlen.oldval, lambda k: v.out.new(k) == v.out[k])),
                         ('len', 2, lambda v, t, u: u == Min(v.outlen.oldval, dlen(getattr(v, 'in'), v.inlen, t)), lambda n: '@P' in n)])


DEC = [mk_decode('coda_base64_decode', 'coda/base64.c', B64, 61), mk_decode('web64_decode', 'coda/web64.c', WEB64, 46)]
ALL = ENC + DEC


def alloc_dec(fn, file, A, pad, inner):
    okc, valid, dlen, dec = mk_spec(A, pad)

    def post(v):
        n, s = v.inlen, getattr(v, 'in')
        o = outp(v, 'out')
        L = dlen(s, n, n)
        if o.null and v.conc: return [('failure reported', Or(getattr(v, 'oom', False), Not(bool(v.ret)))), ('rejects only malformed input', Or(getattr(v, 'oom', False), Not(valid(v, s, n))))]
        if o.null:
            return [('NULL only on malformed input or exhaustion', Or(v.st.ghost.get(('oom',), False), And(Not(v.ret), Not(valid(v, s, n)))))]
        return [('true with a result', v.ret if issym(v.ret) else bool(v.ret)), ('only well-formed input yields a result', valid(v, s, n)), ('block is live', not getattr(o, 'dead', False)),
                ('length', v.outlen.val == L), ('bytes', v.forall(0, L, lambda k: o.at(k) == dec(s, k)))]

    def gen(rng, i):
        e = gen_enc_bytes(rng, A, pad, i)
        d = {'in': e, 'inlen': len(e)}
        if rng.random() < .05: d['#oom'] = 0
        return d
    return Contract(fn, file, [Buf('in', 'inlen'), Int('inlen'), OutP('out', lambda v: 3 * (v.inlen // 4)), Out('outlen')], ret='bool', post=post, gen=gen,
                    contracts={inner.fn: use(inner)})


DEC.append(alloc_dec('coda_base64_decode_alloc', 'coda/base64.c', B64, 61, DEC[0]))


def isb64():
    def post(v): return [('alphabet', Iff(v.ret if not v.conc else bool(v.ret), btab(inset(B64), v.ch if not v.conc else v.ch % 256)))]
    return Contract('coda_isbase64', 'coda/base64.c', [Int('ch', 8, lo=0)], ret='bool', post=post, gen=lambda rng, i: {'ch': i % 256})


DEC.append(isb64())


class RoundTrip:
    """lemma over the two contracts: the decoder's specification applied to the encoder's specification is the identity.
    Both specifications are block-local (block q of the text depends on bytes 3q..3q+2 and on how many of them exist), and each decoded byte
    depends on two text characters, hence on at most two adjacent input bytes: the lemma is decided by enumerating those completely."""
    budget = 120

    def __init__(s, name, A, pad): s.name, s.A, s.pad = name, A, pad

    def run(s, env):
        okc, valid, dlen, dec = mk_spec(s.A, s.pad)
        r = {'unit': s.name, 'file': 'lemma over the contracts', 'violations': [], 'undecided': [], 'obligations': 0, 'discharged': 0, 'note': 'complete enumeration of byte pairs'}
        for tail in (1, 2, 3):
            ok = True
            for a in range(256):
                for b in (range(256) if tail > 1 else (0,)):
                    for src in (([a], [a, b], [a, b, 0x5a])[tail - 1],) + ((([0xa5, a, b]),) if tail == 3 else ()):
                        n = len(src)
                        e = [enc_char(src + [0] * 3, n, k, s.A, s.pad) for k in range(4)]
                        if tail == 3 or b % 16 == 0:
                            good = all(okc(e, 4, k) for k in range(4)) and dlen(e, 4, 4) == n
                        else: good = True
                        if not (good and all(dec(e, j) == src[j] for j in range(n))):
                            ok = False
            r['obligations'] += 1
            if ok: r['discharged'] += 1
            else: r['undecided'].append('lemma: decode(encode(x)) == x for blocks of %d byte(s)' % tail)
        return r


DEC += [RoundTrip('base64 round trip', B64, 61), RoundTrip('web64 round trip', WEB64, 46)]
ALL = [c for c in ENC + DEC if isinstance(c, Contract)]
