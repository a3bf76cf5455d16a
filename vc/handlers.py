"""Contracts assumed on dependencies (libc, intrinsics)."""
import z3
from .sym import *
from .exec import *
from .exec import Multi, Throw, Ptr, NULL, Region, CArr, Unsupported, Dead, asel


def const_n(v): return v.e if is_c(v.e) else None


def h_nop(ex, st, ins, a): return None


def h_memset(ex, st, ins, a):
    p, v, n = a[0], a[1], a[2]
    n = asu(n)
    r = None
    if is_c(n.e) and n.e == 0: return p
    if not is_c(n.e) and (p.rid is None or ex.regions[p.rid].kind != 'arr' or p.rid in st.freed) and ex.decide(st, Bv(n.e == 0)): return p
    r = ex.region(st, p, 'write')
    rs = ex.rsize(st, r)
    if is_c(n.e) or rs is None: ex.bounds(st, p, n.e, r, 'write')
    else: ex.oblige(st, z3.Or(n.e == 0, z3.And(zi(p.off) >= 0, zi(p.off) + n.e <= zi(rs))), 'in bounds (write %s)' % r.name)
    if r.kind == 'obj':
        if not is_c(n.e) or not is_c(v.e) or not is_c(p.off): raise Unsupported('memset on object')
        m = dict(st.mem[r.rid])
        off = p.off
        for o in [o for o, c in m.items() if isinstance(o, int) and o < off + n.e and off < o + c[0]]:
            sz = m[o][0]
            m[o] = (sz, V(8 * sz, sum(v.e % 256 << (8 * k) for k in range(sz))))
            ex.mod_mark(st, (r.rid, o))
        if not [o for o in m if isinstance(o, int)]:
            for k in range(n.e):
                m[off + k] = (1, V(8, v.e)); ex.mod_mark(st, (r.rid, off + k))
        st.mem[r.rid] = m
        return p
    if r.kind != 'arr': raise Unsupported('memset on ' + r.kind)
    return set_range(ex, st, r, p, n.e, lambda k: asu(trunc(v, 8) if v.w > 8 else v).e) or p


def set_range(ex, st, r, p, n, f):
    """arr[off+k] = f(k) for 0<=k<n (stride-1 arrays, or whole elements set to zero)"""
    if r.stride != 1:
        if f(0) != 0: raise Unsupported('block write to wide array')
        idx, fo = ex.split(st, p, r)
        cnt = n // r.stride if isinstance(n, int) else zi(n) / r.stride
        for fld in r.fields:
            _range_one(ex, st, r, fld, idx, cnt, lambda k: 0)
        return
    _range_one(ex, st, r, 0, p.off, n, f)
    st.ghost[('lw', r.rid)] = p.off + n
    ex.mod_mark(st, ('ghost', ('lw', r.rid)))


def _range_one(ex, st, r, fld, off, n, f):
    m = dict(st.mem[r.rid])
    a = m[fld]
    if ex.concrete or (isinstance(a, CArr) and is_c(off) and is_c(n)):
        for k in range(n): a = a.set(off + k, f(k))
        m[fld] = a
    elif is_c(n) and n <= 16:
        if isinstance(a, CArr): a = ex.carr_to_z3(a)
        for k in range(n): a = z3.Store(a, zi(off + k), zi(f(k)))
        m[fld] = a
    else:
        if isinstance(a, CArr): a = ex.carr_to_z3(a)
        b = ex.fresh_arr(r.rid + '.blk')
        k = z3.Int('k!b')
        st.hyps.append(z3.ForAll([k], z3.Select(b, k) == z3.If(z3.And(k >= off, k < off + n), zi(f(k - off)), z3.Select(a, k)), patterns=[z3.Select(b, k)]))
        ex.range_fact(st, b, r.fields[fld] if isinstance(r.fields[fld], int) else 8)
        m[fld] = b
    st.mem[r.rid] = m
    ex.mod_mark(st, (r.rid, fld))


def h_memcpy(ex, st, ins, a):
    d, s, n = a[0], a[1], asu(a[2])
    if not is_c(n.e) and ex.decide(st, Bv(n.e == 0)): return d
    if is_c(n.e) and n.e == 0: return d
    rs = ex.region(st, s, 'read'); ex.bounds(st, s, n.e, rs, 'read')
    rd = ex.region(st, d, 'write'); ex.bounds(st, d, n.e, rd, 'write')
    if not rd.writable:
        ex.oblige(st, False, 'write to read-only memory'); raise Dead()
    if rs.rid == rd.rid and 'memmove' not in ins.x[0].v:
        so, do = s.off, d.off
        c = Or_(zi(so) + n.e <= do, zi(do) + n.e <= so) if not (is_c(so) and is_c(do) and is_c(n.e)) else (so + n.e <= do or do + n.e <= so or so == do)
        ex.oblige(st, c, 'memcpy ranges do not overlap')
    if rs.kind == 'arr' and rd.kind == 'arr' and rs.stride == 1 and rd.stride == 1:
        arr = st.mem[rs.rid][0]
        so = s.off
        set_range(ex, st, rd, d, n.e, lambda k: asel(arr, so + k) if not isinstance(arr, CArr) or is_c(so + k) else z3.Select(ex.carr_to_z3(arr), so + k))
        return d
    if rs.kind == 'obj' and rd.kind == 'obj' and is_c(n.e):
        so, do = s.off, d.off
        m = dict(st.mem[rd.rid]); ms = dict(st.mem[rs.rid])
        for o in [o for o in m if isinstance(o, int) and do <= o < do + n.e]: del m[o]
        for o, c in ms.items():
            if isinstance(o, int) and so <= o < so + n.e:
                m[o - so + do] = c; ex.mod_mark(st, (rd.rid, o - so + do))
        st.mem[rd.rid] = m
        return d
    if rs.kind == 'arr' and rd.kind == 'obj' and is_c(n.e) and rs.stride == 1:
        for k in range(n.e):
            ex.store(st, d.add(k), ex.load_elem(st, rs, s.add(k), 1), T8)
        return d
    if rs.kind == 'obj' and rd.kind == 'arr' and is_c(n.e) and rd.stride == 1:
        for k in range(n.e):
            ex.store_elem(st, rd, d.add(k), ex.obj_load(st, rs, s.off + k, T8))
        return d
    raise Unsupported('memcpy between %s and %s' % (rs.kind, rd.kind))


def Or_(a, b): return z3.Or(a, b)


class _T:
    pass


T8 = _T(); T8.k = 'int'; T8.w = 8; T8.size = 1


def heap_rid(ex, st, ins):
    fr = st.frames[-1]
    n = st.ghost.get(('hc', fr.fn.name, ins.id), 0)
    st.ghost[('hc', fr.fn.name, ins.id)] = n + 1
    if n > 3: raise Unsupported('repeated allocation at one site')
    return 'H:%s:%s%s%s' % (fr.fn.name, ins.id, '@' + '/'.join('%s.%s' % x for x in fr.path) if fr.path else '', '#%d' % n if n else '')


def alloc(ex, st, ins, size, zero=False, canfail=True):
    if ex.concrete and size > 1 << 62: return NULL
    if ex.concrete and size > 1 << 22: raise Unsupported('concrete run with a huge block')
    rid = heap_rid(ex, st, ins)
    el = ex.heap_stride(rid) if ex.heap_stride else 1
    ex.add_region(st, rid, 'arr', size=size, stride=1, heap=True)
    ex.regions[rid].base0 = True
    st.freed = st.freed - {rid}
    st.ghost[('lw', rid)] = 0
    if zero:
        if ex.concrete: st.mem[rid] = {0: CArr([0] * size)}
        else: st.mem[rid] = {0: z3.K(z3.IntSort(), z3.IntVal(0))}
    elif ex.concrete: st.mem[rid] = {0: CArr([0xcd] * size)}
    if not canfail or ex.concrete: return Ptr(rid)
    fail = st.clone()
    fail.mem = {k: v for k, v in fail.mem.items() if k != rid}
    fail.ghost[('oom',)] = True
    st.pc.append(zi(size) <= (1 << 62))     # malloc of more than PTRDIFF_MAX fails
    return Multi([(st, Ptr(rid), None), (fail, NULL, None)])


def h_malloc(ex, st, ins, a): return alloc(ex, st, ins, asu(a[0]).e)


def h_calloc(ex, st, ins, a):
    x, y = asu(a[0]).e, asu(a[1]).e
    return alloc(ex, st, ins, x * y, zero=True)


def h_free(ex, st, ins, a):
    p = a[0]
    if p.rid is None: return None
    if p.rid in st.freed:
        ex.oblige(st, False, 'double free'); raise Dead()
    r = ex.regions.get(p.rid)
    if r is None or not r.heap:
        ex.oblige(st, False, 'free of memory that is not a live heap block'); raise Dead()
    o = p.off
    ex.oblige(st, o == 0 if is_c(o) else o == 0, 'free of the start of a block')
    st.freed = st.freed | {p.rid}
    return None


def h_realloc(ex, st, ins, a):
    raise Unsupported('realloc')


def h_strchr(ex, st, ins, a):
    p, c = a[0], asu(trunc(a[1], 8) if a[1].w > 8 else a[1]).e
    r = ex.region(st, p, 'read')
    arr = st.mem[r.rid][0]
    if ex.concrete:
        k = p.off
        while arr.get(k) not in (0, c): k += 1
        return p.addt(1, k - p.off) if arr.get(k) == c else NULL
    z = ex.cstr_z(r.rid)
    if z is None: raise Unsupported('strchr outside a string parameter')
    ex.oblige(st, And_(zi(p.off) >= 0, zi(p.off) <= z), 'strchr of a terminated string')
    j = ex.fresh('chr')
    k = z3.Int('k!c')
    if r.writable: ex.oblige(st, z3.And(z3.Select(arr, z) == 0, z3.ForAll([k], z3.Implies(z3.And(k >= zi(p.off), k < z), z3.Select(arr, k) != 0), patterns=[z3.Select(arr, k)])), 'strchr of the string as it was given')
    hit = st.clone()
    hit.pc += [j >= zi(p.off), j <= z, z3.Select(arr, j) == zi(c)]
    hit.hyps.append(z3.ForAll([k], z3.Implies(z3.And(k >= zi(p.off), k < j), z3.Select(arr, k) != zi(c)), patterns=[z3.Select(arr, k)]))
    st.hyps.append(z3.ForAll([k], z3.Implies(z3.And(k >= zi(p.off), k <= z), z3.Select(arr, k) != zi(c)), patterns=[z3.Select(arr, k)]))
    return Multi([(hit, Ptr(p.rid, j), None), (st, NULL, None)])


def h_strlen(ex, st, ins, a):
    p = a[0]
    r = ex.region(st, p, 'read')
    if r.kind != 'arr': raise Unsupported('strlen of ' + r.kind)
    arr = st.mem[r.rid][0]
    off = p.off
    if ex.concrete:
        k = off
        while True:
            if k >= r.size:
                ex.oblige(st, False, 'strlen stays in bounds'); raise Dead()
            if arr.get(k) == 0: return V(64, k - off)
            k += 1
    # the string must contain a NUL at or after p
    if r.rid.startswith('P:') and ex.cstr_z(r.rid) is not None:
        z = ex.cstr_z(r.rid)
        ex.oblige(st, And_(zi(off) >= 0, zi(off) <= z, z3.Select(arr, z) == 0), 'strlen argument is NUL-terminated')
        n = ex.fresh('strlen')
        st.pc += [n >= 0, off + n <= z, z3.Select(arr, off + n) == 0]
        k = z3.Int('k!s')
        st.hyps.append(z3.ForAll([k], z3.Implies(z3.And(k >= off, k < off + n), z3.Select(arr, k) != 0), patterns=[z3.Select(arr, k)]))
        if arr.get_id() == ex.view(st).old[r.rid[2:]][0].get_id() and is_c(off) and off == 0: return V(64, z, 0, 1 << 62)
        return V(64, n, 0, (1 << 62))
    raise Unsupported('strlen of a buffer without a known terminator')


def And_(*a): return z3.And(*a)


def h_memcmp(ex, st, ins, a):
    p, q, n = a[0], a[1], asu(a[2])
    rp, rq = ex.region(st, p, 'read'), ex.region(st, q, 'read')
    ex.bounds(st, p, n.e, rp, 'read'); ex.bounds(st, q, n.e, rq, 'read')
    if not is_c(n.e): raise Unsupported('memcmp symbolic length')
    for k in range(n.e):
        x, y = ex.load_elem(st, rp, p.add(k), 1), ex.load_elem(st, rq, q.add(k), 1)
        if not ex.decide(st, icmp('eq', x, y, 8)):
            lt = ex.decide(st, icmp('ult', x, y, 8))
            return V(32, -1 if lt else 1)
    return V(32, 0)


def tabfn(f):
    """int -> int libc ctype function given by a python function on 0..255 (C locale); EOF unchanged"""
    # C locale; glibc's tables also answer for -128..-1 (sign-extended chars): case mapping gives the byte value (EOF stays -1), class tests are false
    T = tuple(f(i) for i in range(256))
    neg = (lambda x: -1 if x == -1 else x + 256) if T[48] == 48 else (lambda x: 0)

    def h(ex, st, ins, a):
        v = a[0]
        if v.conc:
            x = sgn(v.e, 32)
            ex.oblige(st, -128 <= x <= 255, 'ctype argument within the glibc table')
            return V(32, T[x] if 0 <= x <= 255 else neg(x))
        if single(v):
            c, ((b, t),) = v.tab
            vals = [sgn(c + x, 32) for x in t]
            good = tuple(-128 <= x <= 255 for x in vals)
            ex.oblige(st, Bv(None, (b, good)) if not all(good) else True, 'ctype argument within the glibc table')
            return V(32, None, tab=(0, ((b, tuple((T[x] if 0 <= x <= 255 else neg(x)) for x in vals)),)))
        raise Unsupported('ctype function on a symbolic value')
    return h


def h_ctype_b_loc(ex, st, ins, a):
    raise Unsupported('__ctype_b_loc')


def h_abs_min(op):
    def h(ex, st, ins, a):
        s = op.startswith('s')
        x, y = (ass(a[0]), ass(a[1])) if s else (asu(a[0]), asu(a[1]))
        c = icmp({'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[op], x, y, x.w)
        return ite(c, x, y)
    return h


def h_mulo(signed, op='mul'):
    def h(ex, st, ins, a):
        x, y = (ass(a[0]), ass(a[1])) if signed else (asu(a[0]), asu(a[1]))
        w = x.w
        r = x.e * y.e if op == 'mul' else x.e + y.e if op == 'add' else x.e - y.e
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if signed else (0, (1 << w) - 1)
        if is_c(r): return Agg([V(w, r), Bv(not lo <= r <= hi)])
        ov = z3.Not(z3.And(r >= lo, r <= hi))
        if ex.decide(st, Bv(ov)):
            return Agg([V(w, ex.fresh('ovf'), 0, (1 << w) - 1), Bv(True)])
        return Agg([V(w, r, lo, hi), Bv(False)])
    return h


STD = {
    'llvm.memset*': h_memset, 'memset': h_memset, 'llvm.memcpy*': h_memcpy, 'memcpy': h_memcpy, 'llvm.memmove*': h_memcpy, 'memmove': h_memcpy,
    'llvm.lifetime*': h_nop, 'llvm.dbg*': h_nop, 'llvm.assume': h_nop, 'llvm.experimental.noalias*': h_nop,
    'malloc': h_malloc, 'calloc': h_calloc, 'free': h_free, 'realloc': h_realloc, 'strlen': h_strlen, 'strchr': h_strchr, 'index': h_strchr, 'memcmp': h_memcmp, 'bcmp': h_memcmp,
    'llvm.umin*': h_abs_min('umin'), 'llvm.umax*': h_abs_min('umax'), 'llvm.smin*': h_abs_min('smin'), 'llvm.smax*': h_abs_min('smax'),
    'tolower': tabfn(lambda c: c + 32 if 65 <= c <= 90 else c), 'toupper': tabfn(lambda c: c - 32 if 97 <= c <= 122 else c),
    'isxdigit': tabfn(lambda c: 1 if chr(c) in '0123456789abcdefABCDEF' else 0),
    'isdigit': tabfn(lambda c: 1 if 48 <= c <= 57 else 0),
    'llvm.umul.with.overflow*': h_mulo(False), 'llvm.smul.with.overflow*': h_mulo(True), 'llvm.uadd.with.overflow*': h_mulo(False, 'add'),
    'llvm.stacksave*': h_nop, 'llvm.stackrestore*': h_nop,
}


HEXT = tuple(int(chr(c), 16) if chr(c) in '0123456789abcdefABCDEF' else 0 for c in range(256))
S16V = z3.Function('strtol16.value', z3.IntSort(), z3.IntSort())
S16E = z3.Function('strtol16.end', z3.IntSort(), z3.IntSort())


def strtol16(d, i):
    """what strtol(&d[i], &e, 16) yields for NUL-terminated d whose d[i] is a hex digit: (value modulo 2^64, end)"""
    g = lambda k: d[k] if k < len(d) else 0
    isx = lambda k: chr(g(k)) in '0123456789abcdefABCDEF' and g(k) != 0
    k = i
    if g(k) == 48 and g(k + 1) in b'xX' and isx(k + 2): k += 2
    v = 0
    while isx(k): v = v * 16 + int(chr(g(k)), 16); k += 1
    return min(v, (1 << 63) - 1), k


def h_strtol(ex, st, ins, a):
    p, e, base = a[0], a[1], a[2]
    if not (base.conc and base.e == 16): raise Unsupported('strtol with a base other than 16')
    r = ex.region(st, p, 'read')
    off = p.off
    if r.kind != 'arr' or r.stride != 1: raise Unsupported('strtol argument')
    if ex.concrete:
        d = list(st.mem[r.rid][0].d)
        if 0 not in d[off:]:
            ex.oblige(st, False, 'strtol argument is NUL-terminated'); raise Dead()
        v, k = strtol16(d, off)
        if e.rid is not None: ex.store(st, e, Ptr(p.rid, k), _PT)
        return V(64, v)
    z = ex.cstr_z(r.rid) if r.rid.startswith('P:') else None
    if z is not None:
        # NUL-terminated parameter that this call does not write: value and end are functions of the position (libc)
        if r.writable: raise Unsupported('strtol of a writable string')
        c = ex.load_elem(st, r, p, 1)
        ok = single(c) and ex.known(st, icmp_tab(c)) is True
        if not ok: raise Unsupported('strtol of text that does not start with a hex digit')
        o = zi(off)
        st.pc += [S16E(o) > o, S16E(o) <= z, S16V(o) >= 0, S16V(o) < (1 << 63)]
        if e.rid is not None: ex.store(st, e, Ptr(p.rid).addt(1, S16E(o)), _PT)
        return V(64, S16V(o), 0, (1 << 63) - 1)
    if e.rid is None and is_c(r.size) and is_c(off):
        ds = []
        for k in range(off, r.size):
            c = ex.load_elem(st, r, Ptr(p.rid, k), 1)
            if c.conc and c.e == 0: break
            if not single(c): raise Unsupported('strtol of unknown text')
            m = st.dom.get(c.tab[1][0][0].get_id(), (1 << 256) - 1)
            x = c.tab[0]; t = c.tab[1][0][1]
            if not all(chr((x + t[i]) % 256) in '0123456789abcdefABCDEF' for i in range(256) if m >> i & 1): raise Unsupported('strtol of text that may hold non-digits')
            ds.append(ex.refill(st, V(64, None, tab=(0, ((c.tab[1][0][0], tuple(HEXT[(x + y) % 256] for y in t)),)))))
        else:
            ex.oblige(st, False, 'strtol argument is NUL-terminated'); raise Dead()
        if not 1 <= len(ds) <= 8: raise Unsupported('strtol digits')
        v = ds[0]
        for d in ds[1:]: v = binop('add', binop('mul', v, V(64, 16), 64), d, 64)
        return v
    raise Unsupported('strtol argument')


def icmp_tab(c):
    c0, ((b, t),) = c.tab
    return tab_bool(b, tuple(chr((c0 + x) % 256) in '0123456789abcdefABCDEF' and (c0 + x) % 256 < 128 for x in t))


class _PTC:
    k = 'ptr'; size = 8


_PT = _PTC()


def fmt_of(ex, st, p):
    r = ex.region(st, p, 'read')
    a = st.mem[r.rid].get(0)
    if not isinstance(a, CArr) or not is_c(p.off): raise Unsupported('format string is not a constant')
    d = bytes(a.d[p.off:])
    return d[:d.index(0)]


def h_snprintf(ex, st, ins, a):
    """snprintf with a constant format made of text, %% and %02X of a value in 0..255, and room for the whole result"""
    dst, size = a[0], asu(a[1])
    f = fmt_of(ex, st, a[2])
    out, k, ai = [], 0, 3
    while k < len(f):
        if f[k] != 37: out.append(V(8, f[k])); k += 1; continue
        if f[k + 1] == 37: out.append(V(8, 37)); k += 2; continue
        if f[k + 1:k + 4] in (b'02X', b'02x'):
            v = a[ai]; ai += 1
            hexd = b'0123456789ABCDEF' if f[k + 3] == 88 else b'0123456789abcdef'
            if v.conc:
                x = v.e % (1 << 32)
                out += [V(8, c) for c in (b'%02X' if f[k + 3] == 88 else b'%02x') % x]
            elif single(v):
                c, ((b, t),) = v.tab
                m = st.dom.get(b.get_id(), (1 << 256) - 1)
                vals = [(c + x) % (1 << 32) for x in t]
                ok = tuple(x <= 255 for x in vals)
                if not all(y for i, y in enumerate(ok) if m >> i & 1): raise Unsupported('%02X of a value above 255')
                out.append(ex.refill(st, V(8, None, tab=(0, ((b, tuple(hexd[(x >> 4) & 15] for x in vals)),)))))
                out.append(ex.refill(st, V(8, None, tab=(0, ((b, tuple(hexd[x & 15] for x in vals)),)))))
            else: raise Unsupported('%02X of a symbolic value')
            k += 4; continue
        raise Unsupported('snprintf format')
    if not size.conc: 
        if ex.known(st, zi(size.e) > len(out)) is not True: raise Unsupported('snprintf may truncate')
    elif size.e <= len(out):
        if size.e > 0:
            for i, v in enumerate(out[:size.e - 1]): ex.store(st, dst.add(i), v, _I8)
            ex.store(st, dst.add(size.e - 1), V(8, 0), _I8)
        return V(32, len(out))
    for i, v in enumerate(out): ex.store(st, dst.add(i), v, _I8)
    ex.store(st, dst.add(len(out)), V(8, 0), _I8)
    return V(32, len(out))


class _I8C:
    k = 'int'; w = 8; size = 1


_I8 = _I8C()
STD['strtol'] = STD['__isoc23_strtol'] = h_strtol
STD['snprintf'] = h_snprintf


def heap_live(self, st):
    return sorted(r for r in st.mem if r.startswith('H:') and r not in st.freed)


Exec.heap_live = heap_live
Exec.heap_stride = None


def cstr_z(self, rid):
    v = self.view(None) if self.view else None
    return v.vals.get('z:' + rid[2:]) if v is not None else None


Exec.cstr_z = cstr_z


from . import spec as _spec
_spec.STRLEN = h_strlen
