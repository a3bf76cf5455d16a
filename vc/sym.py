"""Symbolic machine integers with exact two's-complement semantics over mathematical integers.

An integer of width w is an integer expression e (python int, or z3 Int term) that is congruent to the bit pattern
modulo 2^w and lies in [lo,hi] with 0<=lo,hi<2^w (unsigned reading) or -2^(w-1)<=lo,hi<2^(w-1) (signed reading).
Values that depend on single memory bytes are also kept as 256-entry tables so that bit tricks never reach the solver."""
import z3

KEEP = []          # keep z3 refs alive so ids stay unique
_mat = {}


def is_c(x):
    return isinstance(x, int)


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def sgn(x, w):
    x &= (1 << w) - 1
    return x - (1 << w) if x >> (w - 1) else x


IDENT = tuple(range(256))
_pat = {}


def _pattern(t):
    """describe a 256-table: ('c',v) | ('dm',c,p,q,d): c*((x div p) mod q)+d | ('seg',[(hi,a,b)...])"""
    r = _pat.get(t)
    if r is not None: return r
    if min(t) == max(t): r = ('c', t[0])
    else:
        d = t[0]
        k = 0
        while k < 255 and t[k] == d: k += 1
        # k = first change = p for dm pattern
        if k & (k - 1) == 0 and k > 0:
            c = t[k] - d
            q = 2
            for q in (2, 4, 8, 16, 32, 64, 128, 256):
                if q * k > 256: break
                if all(t[x] == c * ((x // k) % q) + d for x in range(256)):
                    r = ('dm', c, k, q, d); break
        if r is None:
            segs = []
            i = 0
            while i < 256:
                if i == 255:
                    segs.append((255, 0, t[255])); break
                a = t[i + 1] - t[i]
                j = i + 1
                while j + 1 < 256 and t[j + 1] - t[j] == a: j += 1
                if j == i + 1 and a != 0:
                    # only two points: prefer constant singleton if next differs
                    segs.append((i, 0, t[i])); i += 1; continue
                segs.append((j, a, t[i] - a * i)); i = j + 1
            r = ('seg', segs)
    _pat[t] = r
    return r


TABF, TABN = {}, {}


def seg_expr(base, segs):
    e = None
    for hi, a, b in reversed(segs):
        v = z3.IntVal(b) if a == 0 else (base + b if a == 1 else a * base + b) if b else (base if a == 1 else a * base)
        e = v if e is None else z3.If(base <= hi, v, e)
    return e


def tab_expr(base, t):
    """z3 Int term for table t applied to byte term base (0<=base<=255)"""
    if is_c(base): return t[base]
    key = (base.get_id(), t)
    if key in _mat: return _mat[key]
    p = _pattern(t)
    if p[0] == 'c': e = p[1]
    elif p[0] == 'dm':
        _, c, dv, q, d = p
        e = base
        if dv != 1: e = e / dv
        if dv * q < 256: e = e % q
        if c != 1: e = c * e
        if d != 0: e = e + d
    else:
        segs = p[1]
        if len(segs) > 3:
            # a named table: congruence usually suffices; its definition is unfolded on demand (prove.tabfacts)
            f = TABF.get(t)
            if f is None:
                f = TABF[t] = z3.Function('T!%d' % len(TABF), z3.IntSort(), z3.IntSort())
                TABN[f.name()] = t
            e = f(base)
        else: e = seg_expr(base, segs)
    KEEP.append(base)
    KEEP.append(e)
    _mat[key] = e
    return e


def tab_bool(base, t):
    """z3 Bool for a boolean table"""
    if is_c(base): return t[base]
    key = (base.get_id(), t, 'b')
    if key in _mat: return _mat[key]
    runs = []
    i = 0
    while i < 256:
        j = i
        while j + 1 < 256 and t[j + 1] == t[i]: j += 1
        if t[i]: runs.append((i, j))
        i = j + 1
    if not runs: e = False
    elif runs == [(0, 255)]: e = True
    else:
        n = sum(b - a + 1 for a, b in runs)
        ps = []
        if n > 128 and len(runs) > 1:
            # complement is often simpler
            cr = []
            i = 0
            while i < 256:
                j = i
                while j + 1 < 256 and t[j + 1] == t[i]: j += 1
                if not t[i]: cr.append((i, j))
                i = j + 1
            e = z3.Not(z3.Or([_rng(base, a, b) for a, b in cr]))
        else:
            e = z3.Or([_rng(base, a, b) for a, b in runs]) if len(runs) > 1 else _rng(base, *runs[0])
    KEEP.append(base); KEEP.append(e)
    _mat[key] = e
    return e


def _rng(base, a, b):
    if a == b: return base == a
    if a == 0: return base <= b
    if b == 255: return base >= a
    return z3.And(base >= a, base <= b)


class V:
    __slots__ = ('w', '_e', 'lo', 'hi', 'tab', 'prov')

    def __init__(s, w, e, lo=None, hi=None, tab=None, prov=None):
        s.w = w
        s.tab = tab      # (const, ((base, table256), ...)) value = const + sum
        s.prov = prov    # pointer provenance for ptrtoint
        if tab is not None and len(tab[1]) == 0:
            e = tab[0]; s.tab = tab = None
        if isinstance(e, bool): e = int(e)
        if isinstance(e, int):
            lo = hi = e; s.tab = tab = None
        if tab is not None:
            c = tab[0]
            lo = c + sum(min(t) for _, t in tab[1])
            hi = c + sum(max(t) for _, t in tab[1])
            if lo == hi:
                e = lo; s.tab = None
        s._e, s.lo, s.hi = e, lo, hi
        if lo is None:
            s.lo, s.hi = 0, (1 << w) - 1

    @property
    def e(s):
        if s._e is None:
            c, ts = s.tab
            r = None
            for b, t in ts:
                x = tab_expr(b, t)
                r = x if r is None else r + x
            if c: r = r + c
            s._e = r
        return s._e

    @property
    def conc(s):
        return isinstance(s._e, int)

    def __repr__(s):
        return 'i%d[%s..%s]%s' % (s.w, s.lo, s.hi, s._e if s._e is not None else s.tab and 'T%d' % len(s.tab[1]))


class Bv:
    """boolean (i1)"""
    __slots__ = ('_b', 'tab')

    def __init__(s, b, tab=None):
        if tab is not None and b is None:
            base, t = tab
            if all(t): b, tab = True, None
            elif not any(t): b, tab = False, None
            elif is_c(base): b, tab = t[base], None
        s._b, s.tab = b, tab

    @property
    def b(s):
        if s._b is None: s._b = tab_bool(*s.tab)
        return s._b

    @property
    def conc(s):
        return isinstance(s._b, bool)

    def __repr__(s):
        return 'B(%s)' % (s._b,)


def const(w, x):
    return V(w, x & ((1 << w) - 1))


def byte_val(base, w=8):
    """V for a byte term with 0<=base<=255"""
    if is_c(base): return V(w, base)
    return V(w, base, 0, 255, tab=(0, ((base, IDENT),)))


def same(a, b):
    return (is_c(a) and is_c(b) and a == b) or (not is_c(a) and not is_c(b) and a.get_id() == b.get_id())


def single(v):
    return v.tab is not None and len(v.tab[1]) == 1


def tmap(v, f, w):
    """apply f pointwise to a single-base table value"""
    c, ((b, t),) = v.tab
    return V(w, None, tab=(0, ((b, tuple(f(c + x) for x in t)),)))


def asu(v):
    """same value with lo>=0"""
    if v.lo >= 0: return v
    M = 1 << v.w
    if v.conc: return V(v.w, v.e + M if v.e < 0 else v.e)
    if single(v): return tmap(v, lambda x: x % M, v.w)
    if v.hi < 0: return V(v.w, v.e + M, v.lo + M, v.hi + M)
    return V(v.w, z3.If(v.e < 0, v.e + M, v.e), 0, M - 1)


def ass(v):
    M = 1 << v.w
    H = M >> 1
    if v.hi < H: return v
    if v.conc: return V(v.w, v.e - M if v.e >= H else v.e)
    if single(v): return tmap(v, lambda x: sgn(x, v.w), v.w)
    if v.lo >= H: return V(v.w, v.e - M, v.lo - M, v.hi - M)
    return V(v.w, z3.If(v.e >= H, v.e - M, v.e), -H, H - 1)


def norm(w, e, lo, hi, decide=None, tab=None, prefer_s=False):
    """exact integer value e in [lo,hi] -> V of width w reduced modulo 2^w.
    decide(cond) may answer True/False/None using the current path."""
    M = 1 << w
    H = M >> 1
    if tab is not None:
        c, ts = tab
        v = V(w, None, tab=tab)
        if v.conc: return V(w, v.e % M)
        if 0 <= v.lo and v.hi < M or (-H <= v.lo and v.hi < H): return v
        if len(ts) == 1:
            b, t = ts[0]
            return V(w, None, tab=(0, ((b, tuple((c + x) % M for x in t)),)))
        e, lo, hi = v.e, v.lo, v.hi
    if isinstance(e, int): return V(w, e % M)
    if 0 <= lo and hi < M: return V(w, e, lo, hi)
    if -H <= lo and hi < H: return V(w, e, lo, hi)
    # [lo,hi] may wrap.  shift by multiples when within two windows
    if decide is not None:
        if lo < 0:
            r = decide(e >= 0)
            if r is True: lo = 0
            elif r is False: hi = -1
        if hi >= M:
            r = decide(e < M)
            if r is True: hi = M - 1
            elif r is False: lo = max(lo, M)
        if 0 <= lo and hi < M: return V(w, e, lo, hi)
        if -H <= lo and hi < H: return V(w, e, lo, hi)
    k = lo // M
    if k == hi // M:
        return V(w, e - k * M, lo - k * M, hi - k * M)
    if lo >= -M and hi < M:
        return V(w, z3.If(e < 0, e + M, e), 0, M - 1)
    if lo >= 0 and hi < 2 * M:
        return V(w, z3.If(e >= M, e - M, e), 0, M - 1)
    if decide is not None and decide(z3.And(e >= -H, e < H)) is True: return V(w, e, max(lo, -H), min(hi, H - 1))
    return V(w, e % M, 0, M - 1)


def tadd(a, b, sign=1):
    """table sum of two table/const values or None"""
    if a.tab is None and not a.conc: return None
    if b.tab is None and not b.conc: return None
    ca, ta = (a.e, ()) if a.conc else a.tab
    cb, tb = (b.e, ()) if b.conc else b.tab
    out = list(ta)
    for base, t in tb:
        if sign < 0: t = tuple(-x for x in t)
        for i, (b2, t2) in enumerate(out):
            if same(b2, base):
                out[i] = (b2, tuple(x + y for x, y in zip(t2, t))); break
        else:
            out.append((base, t))
    out = [(b_, t) for b_, t in out]
    c = ca + sign * cb
    o2 = []
    for b_, t in out:
        if min(t) == max(t): c += t[0]
        else: o2.append((b_, t))
    return (c, tuple(o2))


def nsw_range(w):
    return -(1 << (w - 1)), (1 << (w - 1)) - 1


def merge_single(a, b):
    """if a and b are functions of one common byte (or const): (base, ta, tb)"""
    if a.conc and single(b):
        base, t = b.tab[1][0]
        return base, (a.e,) * 256, tuple(b.tab[0] + x for x in t)
    if b.conc and single(a):
        base, t = a.tab[1][0]
        return base, tuple(a.tab[0] + x for x in t), (b.e,) * 256
    if single(a) and single(b) and same(a.tab[1][0][0], b.tab[1][0][0]):
        base, t = a.tab[1][0]
        return base, tuple(a.tab[0] + x for x in t), tuple(b.tab[0] + x for x in b.tab[1][0][1])
    return None


def pyop(op, x, y, w):
    """exact bit-vector op on python ints"""
    M = 1 << w
    xu, yu = x % M, y % M
    xs, ys = sgn(xu, w), sgn(yu, w)
    if op == 'and': return xu & yu
    if op == 'or': return xu | yu
    if op == 'xor': return xu ^ yu
    if op == 'shl': return (xu << yu) % M if yu < w else 0
    if op == 'lshr': return xu >> yu if yu < w else 0
    if op == 'ashr': return (xs >> yu) % M if yu < w else 0
    if op == 'udiv': return xu // yu if yu else 0
    if op == 'urem': return xu % yu if yu else 0
    if op == 'sdiv':
        if not ys: return 0
        q = abs(xs) // abs(ys)
        return (q if (xs < 0) == (ys < 0) else -q) % M
    if op == 'srem':
        if not ys: return 0
        q = abs(xs) % abs(ys)
        return (-q if xs < 0 else q) % M
    if op == 'add': return (xu + yu) % M
    if op == 'sub': return (xu - yu) % M
    if op == 'mul': return (xu * yu) % M
    raise KeyError(op)


def bits_of(t):
    m = 0
    for x in t: m |= x
    return m


def disjoint_parts(v):
    """if v is a non-negative sum with pairwise-disjoint bits, list of (base|None, table|const)"""
    v = asu(v)
    if v.conc: return [(None, v.e)]
    if v.tab is None: return None
    c, ts = v.tab
    parts = []
    if c < 0: return None
    m = c
    parts.append((None, c))
    for b, t in ts:
        if min(t) < 0: return None
        k = bits_of(t)
        if m & k: return None
        m |= k
        parts.append((b, t))
    return parts


def from_parts(w, parts):
    c = 0
    ts = []
    for b, t in parts:
        if b is None: c += t
        elif min(t) == max(t): c += t[0]
        else: ts.append((b, t))
    if not ts: return V(w, c)
    return V(w, None, tab=(c, tuple(ts)))


_uf = {}


def ufop(op, a, b, w):
    """last resort: an uninterpreted function with range"""
    f = _uf.setdefault((op, w), z3.Function('op_%s_%d' % (op, w), z3.IntSort(), z3.IntSort(), z3.IntSort()))
    return f(zi(asu(a).e), zi(asu(b).e))


def is_pow2m1(m):
    return m > 0 and (m & (m + 1)) == 0


def binop(op, a, b, w, decide=None, oblig=None, flags=(False, False), fact=None):
    """a op b.  oblig(cond, kind) is called for conditions the semantics requires (nsw/nuw overflow, div by zero, shifts)."""
    M = 1 << w
    if a.conc and b.conc:
        if op in ('add', 'sub', 'mul') and oblig:
            for i, cv in ((0, ass), (1, asu)):
                if flags[i] and op != 'x':
                    x, y = cv(a).e, cv(b).e
                    r = x + y if op == 'add' else x - y if op == 'sub' else x * y
                    l, h = nsw_range(w) if i == 0 else (0, M - 1)
                    if not l <= r <= h: oblig(False, 'overflow')
        if op in ('udiv', 'urem', 'sdiv', 'srem') and b.e % M == 0 and oblig: oblig(False, 'division by zero')
        return V(w, pyop(op, a.e, b.e, w))
    if op in ('add', 'sub', 'mul'):
        if flags[0]:
            a, b = ass(a), ass(b)
        elif flags[1]:
            a, b = asu(a), asu(b)
        if op != 'mul':
            if not flags[0] and not flags[1]:
                # choose readings: constants signed, others unsigned if possible
                a2, b2 = (a if not a.conc else ass(a)), (b if not b.conc else ass(b))
                a, b = a2, b2
            s = 1 if op == 'add' else -1
            lo = a.lo + (b.lo if s > 0 else -b.hi)
            hi = a.hi + (b.hi if s > 0 else -b.lo)
            t = tadd(a, b, s)
            if t is not None: e = None
            else:
                x, y = a.e, b.e
                if s > 0: e = (x + y) if not (is_c(y) and y == 0) else x
                else: e = (x - y)
        else:
            t = None
            ms = merge_single(a, b)
            if ms:
                base, ta, tb = ms
                t = (0, ((base, tuple(x * y for x, y in zip(ta, tb))),)); e = None; lo = hi = 0
            elif a.conc and b.tab is not None:
                t = (b.tab[0] * a.e, tuple((bb, tuple(x * a.e for x in tt)) for bb, tt in b.tab[1])); e = None; lo = hi = 0
            elif b.conc and a.tab is not None:
                t = (a.tab[0] * b.e, tuple((bb, tuple(x * b.e for x in tt)) for bb, tt in a.tab[1])); e = None; lo = hi = 0
            else:
                cs = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
                lo, hi = min(cs), max(cs)
                e = a.e * b.e
        if t is not None:
            v = V(w, None, tab=t)
            e, lo, hi = (v._e, v.lo, v.hi)
        if flags[0] or flags[1]:
            l, h = nsw_range(w) if flags[0] else (0, M - 1)
            if lo < l or hi > h:
                ee = V(w, None, tab=t).e if t is not None and e is None else e
                if oblig: oblig(z3.And(zi(ee) >= l, zi(ee) <= h), 'overflow')
                if t is not None and len(t[1]) == 1:
                    b_, tt = t[1][0]
                    return V(w, None, tab=(0, ((b_, tuple(min(max(t[0] + x, l), h) for x in tt)),)))
                return V(w, ee, max(lo, l), min(hi, h))
        return norm(w, e, lo, hi, decide, tab=t)
    if op in ('udiv', 'urem', 'sdiv', 'srem'):
        sg = op[0] == 's'
        a, b = (ass(a), ass(b)) if sg else (asu(a), asu(b))
        if oblig and b.lo <= 0 <= b.hi: oblig(zi(b.e) != 0, 'division by zero')
        ms = merge_single(a, b)
        if ms: return V(w, None, tab=(0, ((ms[0], tuple(pyop(op, x, y, w) for x, y in zip(ms[1], ms[2]))),)))
        if b.conc and not sg and b.e & (b.e - 1) == 0:
            ps = disjoint_parts(a)
            if ps:
                f = (lambda x: x // b.e) if op == 'udiv' else (lambda x: x % b.e)
                return from_parts(w, [(p, f(t) if p is None else tuple(map(f, t))) for p, t in ps])
        if a.lo >= 0 and b.lo >= 0:
            d = max(b.lo, 1)
            if op[1:] == 'div':
                if b.conc and b.e == 1: return a
                return V(w, zi(a.e) / zi(b.e), a.lo // max(b.hi, 1), a.hi // d)
            if b.conc and a.hi < b.e: return a
            return V(w, zi(a.e) % zi(b.e), 0, min(a.hi, max(b.hi - 1, 0)))
        if sg and b.conc and b.e > 0:
            if decide is not None:
                r = decide(zi(a.e) >= 0)
                if r is True: return binop(op, V(w, a.e, max(a.lo, 0), a.hi), b, w)
                if r is False:
                    a = V(w, a.e, a.lo, min(a.hi, -1))
            q = z3.If(a.e >= 0, a.e / b.e, -((-a.e) / b.e))
            if op == 'sdiv': return V(w, q, -((-a.lo) // b.e) if a.lo < 0 else 0, max(a.hi, 0) // b.e)
            return V(w, a.e - b.e * q, -(b.e - 1), b.e - 1)
        return V(w, ufop(op, a, b, w), 0, M - 1)
    # bit operations
    ms = merge_single(a, b)
    if ms:
        if oblig and op in ('shl', 'lshr', 'ashr') and (b.lo < 0 or b.hi >= w): oblig(z3.And(zi(b.e) >= 0, zi(b.e) < w), 'shift amount')
        return V(w, None, tab=(0, ((ms[0], tuple(pyop(op, x, y, w) for x, y in zip(ms[1], ms[2]))),)))
    if op in ('shl', 'lshr', 'ashr'):
        bu = asu(b)
        if bu.hi >= w and oblig: oblig(zi(bu.e) < w, 'shift amount')
        if b.conc:
            k = asu(b).e
            if k >= w: return V(w, 0)
            if op == 'shl':
                return binop('mul', asu(a), V(w, 1 << k), w, decide) if k < w - 1 or True else None
            if op == 'lshr' or a.lo >= 0 and a.hi < M // 2:
                a = asu(a)
                ps = disjoint_parts(a)
                if ps: return from_parts(w, [(p, t >> k if p is None else tuple(x >> k for x in t)) for p, t in ps])
                return V(w, a.e / (1 << k), a.lo >> k, a.hi >> k)
            a = ass(a)
            return V(w, a.e / (1 << k), a.lo >> k, a.hi >> k)     # z3 div floors for positive divisor
        if a.conc and op == 'shl' and bu.hi < 16:
            e = zi(0)
            for k in range(bu.hi, bu.lo - 1, -1): e = z3.If(bu.e == k, (a.e << k) % M, e)
            return V(w, e, 0, M - 1)
        return V(w, ufop(op, a, b, w), 0, M - 1)
    if a.conc: a, b = b, a
    if op == 'and':
        if b.conc:
            m = asu(b).e
            if m == 0: return V(w, 0)
            if m == M - 1: return a
            a0 = a
            if a.lo < 0 and is_pow2m1(m):
                # sum with disjoint low parts may still work on exact value: mod
                if a.tab is None: return V(w, a.e % (m + 1), 0, m)
            a = asu(a)
            if is_pow2m1(m) and a.hi <= m: return a
            ps = disjoint_parts(a)
            if ps: return from_parts(w, [(p, t & m if p is None else tuple(x & m for x in t)) for p, t in ps])
            if a.tab is not None and is_pow2m1(m) and len(a.tab[1]) > 1:
                # reduce each table mod (m+1); exact when the reduced tables are disjoint
                q = m + 1
                ts = tuple((bb, tuple(x % q for x in t)) for bb, t in a.tab[1])
                v = V(w, None, tab=(a.tab[0] % q, ts))
                if disjoint_parts(v) and v.hi <= m: return v
            if is_pow2m1(m): return V(w, a.e % (m + 1), 0, m)
            # contiguous mask  2^h - 2^l
            l = (m & -m).bit_length() - 1
            h = m.bit_length()
            if m == (1 << h) - (1 << l):
                x = a.e if h >= w or a.hi < (1 << h) else a.e % (1 << h)
                return V(w, x - x % (1 << l), 0, m)
            # few bits
            if bin(m).count('1') <= 8:
                e = None
                for k in range(w):
                    if m >> k & 1:
                        t = ((a.e / (1 << k)) % 2) * (1 << k)
                        e = t if e is None else e + t
                return V(w, e, 0, m)
            if bin(M - 1 - m).count('1') <= 4:
                e = a.e
                for k in range(w):
                    if not m >> k & 1: e = e - ((a.e / (1 << k)) % 2) * (1 << k)
                return V(w, e, 0, m)
        return V(w, ufop(op, a, b, w), 0, min(asu(a).hi, asu(b).hi))
    if op in ('or', 'xor'):
        if b.conc and asu(b).e == 0: return a
        if op == 'xor' and b.conc and asu(b).e == M - 1:
            a = asu(a); return V(w, M - 1 - a.e, M - 1 - a.hi, M - 1 - a.lo)
        pa, pb = disjoint_parts(a), disjoint_parts(b)
        if pa and pb:
            ma = 0
            for p, t in pa: ma |= t if p is None else bits_of(t)
            mb = 0
            for p, t in pb: mb |= t if p is None else bits_of(t)
            if ma & mb == 0:
                return V(w, None, tab=tadd(asu(a), asu(b)))
        a, b = asu(a), asu(b)
        if a.conc and not b.conc: a, b = b, a
        if b.conc:
            low = b.e & -b.e
            if a.hi < low or (a.hi <= M - 1 and not is_c(a.e) and decide and decide(a.e < low) is True):
                return V(w, a.e + b.e, a.lo + b.e, min(a.hi, low - 1) + b.e)
        if b.conc and b.e & (b.e - 1) == 0:
            k = b.e
            bit = (a.e / k) % 2
            return V(w, z3.If(bit == 0, a.e + k, a.e if op == 'or' else a.e - k), 0, M - 1)
        # disjoint by magnitude: a multiple of 2^k (syntactic) plus b < 2^k
        for x, y in ((a, b), (b, a)):
            k = y.hi.bit_length()
            if k < w and mult_of(x.e, 1 << k): return V(w, x.e + y.e, x.lo + y.lo, x.hi + y.hi)
        return V(w, ufop(op, a, b, w), 0, M - 1)
    raise KeyError(op)


def mult_of(e, m):
    if is_c(e): return e % m == 0
    if z3.is_int_value(e): return e.as_long() % m == 0
    if z3.is_mul(e): return any(mult_of(c, m) for c in e.children())
    if z3.is_add(e) or z3.is_sub(e): return all(mult_of(c, m) for c in e.children())
    if z3.is_app_of(e, z3.Z3_OP_ITE): return all(mult_of(c, m) for c in e.children()[1:])
    return False


import operator
CMP = {'eq': operator.eq, 'ne': operator.ne, 'ult': operator.lt, 'ule': operator.le, 'ugt': operator.gt, 'uge': operator.ge,
       'slt': operator.lt, 'sle': operator.le, 'sgt': operator.gt, 'sge': operator.ge}


def icmp(p, a, b, w):
    if p in ('eq', 'ne'):
        # compare in a common reading
        H = 1 << (w - 1)
        if not (a.lo >= 0 and b.lo >= 0 or a.hi < H and b.hi < H):
            if a.conc or single(a) or b.hi < H and not b.conc: a, b = ass(a), ass(b)
            else: a, b = asu(a), asu(b)
    else: a, b = (ass(a), ass(b)) if p[0] == 's' else (asu(a), asu(b))
    f = CMP[p]
    if a.conc and b.conc: return Bv(bool(f(a.e, b.e)))
    ms = merge_single(a, b)
    if ms:
        return Bv(None, (ms[0], tuple(bool(f(x, y)) for x, y in zip(ms[1], ms[2]))))
    k = p[-2:]
    if k == 'eq':
        if a.hi < b.lo or b.hi < a.lo: return Bv(False)
    elif k == 'ne':
        if a.hi < b.lo or b.hi < a.lo: return Bv(True)
    elif k == 'lt':
        if a.hi < b.lo: return Bv(True)
        if a.lo >= b.hi: return Bv(False)
    elif k == 'le':
        if a.hi <= b.lo: return Bv(True)
        if a.lo > b.hi: return Bv(False)
    elif k == 'gt':
        if a.lo > b.hi: return Bv(True)
        if a.hi <= b.lo: return Bv(False)
    elif k == 'ge':
        if a.lo >= b.hi: return Bv(True)
        if a.hi < b.lo: return Bv(False)
    x, y = a.e, b.e
    if not is_c(x) and not is_c(y) and x.get_id() == y.get_id(): return Bv(k in ('eq', 'le', 'ge'))
    return Bv(f(zi(x), zi(y)))


def zext(v, w):
    v = asu(v)
    return V(w, v._e, v.lo, v.hi, v.tab)


def sext(v, w):
    v = ass(v)
    return V(w, v._e, v.lo, v.hi, v.tab)


def trunc(v, w, decide=None):
    return norm(w, v._e, v.lo, v.hi, decide, tab=v.tab) if v.tab is not None else norm(w, v.e, v.lo, v.hi, decide)


def b_and(a, b):
    if a.conc: return b if a.b else a
    if b.conc: return a if b.b else b
    if a.tab and b.tab and same(a.tab[0], b.tab[0]):
        return Bv(None, (a.tab[0], tuple(x and y for x, y in zip(a.tab[1], b.tab[1]))))
    return Bv(z3.And(a.b, b.b))


def b_not(a):
    if a.conc: return Bv(not a.b)
    if a.tab: return Bv(None, (a.tab[0], tuple(not x for x in a.tab[1])))
    return Bv(z3.Not(a.b))


def b_or(a, b):
    return b_not(b_and(b_not(a), b_not(b)))


def b_xor(a, b):
    if a.conc: return b_not(b) if a.b else b
    if b.conc: return b_not(a) if b.b else a
    if a.tab and b.tab and same(a.tab[0], b.tab[0]):
        return Bv(None, (a.tab[0], tuple(x != y for x, y in zip(a.tab[1], b.tab[1]))))
    return Bv(z3.Xor(a.b, b.b))


def b2i(b, w, signed=False):
    one = -1 if signed else 1
    if b.conc: return V(w, (one if b.b else 0) % (1 << w) if not signed else (one if b.b else 0))
    if b.tab: return V(w, None, tab=(0, ((b.tab[0], tuple(one if x else 0 for x in b.tab[1])),)))
    return V(w, z3.If(b.b, z3.IntVal(one), z3.IntVal(0)), min(one, 0), max(one, 0))


def i2b(v):
    if v.conc: return Bv(bool(v.e & 1))
    if single(v):
        c, ((b, t),) = v.tab
        return Bv(None, (b, tuple(bool((c + x) & 1) for x in t)))
    if v.lo >= 0 and v.hi <= 1: return Bv(v.e == 1)
    return Bv(v.e % 2 == 1)


def ite(c, a, b):
    """c: Bv; a,b: V of same width"""
    if c.conc: return a if c.b else b
    w = a.w
    if c.tab:
        base, ct = c.tab
        for x, y in ((a, b),):
            ta = (a.e,) * 256 if a.conc else (tuple(a.tab[0] + q for q in a.tab[1][0][1]) if single(a) and same(a.tab[1][0][0], base) else None)
            tb = (b.e,) * 256 if b.conc else (tuple(b.tab[0] + q for q in b.tab[1][0][1]) if single(b) and same(b.tab[1][0][0], base) else None)
            if ta and tb:
                return V(w, None, tab=(0, ((base, tuple(p if k else q for k, p, q in zip(ct, ta, tb))),)))
    if not (a.lo >= 0 and b.lo >= 0):
        H = 1 << (w - 1)
        if not (a.hi < H and b.hi < H): a, b = asu(a), asu(b)
    return V(w, z3.If(c.b, zi(a.e), zi(b.e)), min(a.lo, b.lo), max(a.hi, b.hi))
