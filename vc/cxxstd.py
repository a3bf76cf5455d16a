"""Assumed contracts of libstdc++ std::string: an object is a ghost length and a ghost byte sequence.
Capacity, reallocation and allocation failure are not modelled (std::bad_alloc is out of scope)."""
import z3, ctypes
from .sym import *
from .exec import *
from .exec import Dead
from .spec import P, BufV, asel, Bv, zi
from . import prove as PR

B = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
K = '_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'


def crid(p):
    o = p.off
    if not isinstance(o, int): raise Unsupported('std::string at a symbolic address')
    return 'S:%s:%d' % (p.rid, o)


def slen(st, c):
    n = st.ghost.get(('sl', c))
    if n is None: raise Unsupported('std::string used before construction (%s)' % c)
    return n


def setlen(ex, st, c, n):
    st.ghost[('sl', c)] = n
    ex.mod_mark(st, ('ghost', ('sl', c)))
    st.ghost[('lw', c)] = n
    ex.mod_mark(st, ('ghost', ('lw', c)))


def setarr(ex, st, c, a):
    m = dict(st.mem[c]); m[0] = a; st.mem[c] = m
    ex.mod_mark(st, (c, 0))


def mk(ex, st, p, n=0):
    ex.region(st, p, 'write')
    c = crid(p)
    if c not in ex.regions:
        r = Region(c, 'arr', size=None, name='std::string ' + c)
        r.dyn = c
        ex.regions[c] = r
    if ex.concrete: st.mem[c] = {0: CArr([])}
    else:
        a = ex.fresh_arr(c); st.mem[c] = {0: a}; ex.range_fact(st, a, 1)
    ex.mod_mark(st, (c, 0))
    st.freed = st.freed - {c}
    setlen(ex, st, c, n)
    return c


def bytes_at(ex, st, p, n, what):
    """(array, offset) of n readable bytes at p"""
    if is_c(n) and n == 0: return None, 0
    r = ex.region(st, p, 'read')
    if r.kind != 'arr' or r.stride != 1: raise Unsupported('std::string from a %s region' % r.kind)
    rsz = ex.rsize(st, r)
    off = p.off
    if rsz is not None:
        ok = z3.Or(zi(n) == 0, z3.And(zi(off) >= 0, zi(off) + n <= zi(rsz))) if not (is_c(n) and is_c(off) and is_c(rsz)) else bool(n == 0 or (off >= 0 and off + n <= rsz))
        ex.oblige(st, ok, what)
    return st.mem[r.rid][0], off


def fill_from(ex, st, c, at, arr, off, n):
    """content[at .. at+n) := arr[off ..]; keeps [0, at)"""
    old = st.mem[c][0]
    if ex.concrete:
        d = list(old.d)[:at]
        d += [arr.get(off + k) if isinstance(arr, CArr) else 0 for k in range(n)]
        setarr(ex, st, c, CArr(d)); return
    if is_c(n) and n == 0: return
    if isinstance(arr, CArr): arr = ex.carr_to_z3(arr)
    if is_c(n) and n <= 4:
        a = old
        for k in range(n): a = z3.Store(a, zi(at + k), z3.Select(arr, zi(off + k)))
        setarr(ex, st, c, a); return
    a = ex.fresh_arr(c + '.s')
    k = z3.Int('k!f')
    st.hyps.append(z3.ForAll([k], z3.Implies(z3.And(k >= at, k < at + n), z3.Select(a, k) == z3.Select(arr, k - at + off)), patterns=[z3.Select(a, k)]))
    if not (is_c(at) and at == 0):
        st.hyps.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < at), z3.Select(a, k) == z3.Select(old, k)), patterns=[z3.Select(a, k)]))
    ex.range_fact(st, a, 1)
    setarr(ex, st, c, a)


def h_ctor(ex, st, ins, a):
    mk(ex, st, a[0]); return None


def h_ctor_pn(ex, st, ins, a):
    n = asu(a[2]).e
    ar, off = bytes_at(ex, st, a[1], n, 'std::string(p, n) reads n bytes')
    c = mk(ex, st, a[0], n)
    if ar is not None: fill_from(ex, st, c, 0, ar, off, n)
    st.ghost[('src', c)] = (a[1].rid, a[1].off)      # a hint where the bytes came from (facts about it are proved, never assumed)
    return None


def h_ctor_cstr(ex, st, ins, a):
    from .handlers import h_strlen
    n = h_strlen(ex, st, ins, [a[1]])
    return h_ctor_pn(ex, st, ins, [a[0], a[1], n])


def src_of(ex, st, p):
    c = crid(p)
    return c, slen(st, c), st.mem[c][0]


def h_copy(ex, st, ins, a):
    c0, n, arr = src_of(ex, st, a[1])
    c = mk(ex, st, a[0], n)
    setarr(ex, st, c, arr)
    if ('src', c0) in st.ghost: st.ghost[('src', c)] = st.ghost[('src', c0)]
    return None


def h_move(ex, st, ins, a):
    h_copy(ex, st, ins, a)
    setlen(ex, st, crid(a[1]), 0)
    return None


def h_assign_str(ex, st, ins, a):
    c0, n, arr = src_of(ex, st, a[1])
    c = crid(a[0]); slen(st, c)
    setlen(ex, st, c, n); setarr(ex, st, c, arr)
    return a[0]


def h_assign_pn(ex, st, ins, a):
    n = asu(a[2]).e
    ar, off = bytes_at(ex, st, a[1], n, 'std::string::assign(p, n) reads n bytes')
    c = crid(a[0]); slen(st, c)
    if ar is not None: fill_from(ex, st, c, 0, ar, off, n)
    setlen(ex, st, c, n)
    st.ghost[('src', c)] = (a[1].rid, a[1].off)
    return a[0]


def h_dtor(ex, st, ins, a):
    c = crid(a[0])
    slen(st, c)
    return None


def h_push(ex, st, ins, a):
    c = crid(a[0]); n = slen(st, c)
    v = ex.refill(st, a[1]) if st.dom else a[1]
    e = asu(v).e
    arr = st.mem[c][0]
    if ex.concrete: setarr(ex, st, c, CArr(list(arr.d)[:n] + [e]))
    else: setarr(ex, st, c, z3.Store(arr, zi(n), zi(e)))
    setlen(ex, st, c, n + 1)
    return None


def h_append_pn(ex, st, ins, a):
    n = asu(a[2]).e
    ar, off = bytes_at(ex, st, a[1], n, 'std::string::append(p, n) reads n bytes')
    c = crid(a[0]); m = slen(st, c)
    if ar is not None: fill_from(ex, st, c, m, ar, off, n)
    setlen(ex, st, c, m + n)
    return a[0]


def h_clear(ex, st, ins, a):
    c = crid(a[0]); slen(st, c); setlen(ex, st, c, 0)
    return None


def h_size(ex, st, ins, a):
    n = slen(st, crid(a[0]))
    return V(64, n, None if is_c(n) else 0, None if is_c(n) else (1 << 62))


def h_data(ex, st, ins, a):
    c = crid(a[0]); slen(st, c)
    return Ptr(c)


def h_empty(ex, st, ins, a):
    n = slen(st, crid(a[0]))
    return Bv(n == 0)


def h_nop(ex, st, ins, a): return None


def h_self(ex, st, ins, a): return a[0]


STR = {}
for x in ('C1', 'C2'):
    STR[B + x + 'Ev'] = h_ctor
    STR[B + x + 'EPKcmRKS3_'] = h_ctor_pn
    STR[B + x + 'IS3_EEPKcRKS3_'] = STR[B + x + 'EPKcRKS3_'] = h_ctor_cstr
    STR[B + x + 'ERKS4_'] = h_copy
    STR[B + x + 'EOS4_'] = h_move
    STR['_ZNSaIcE' + x + 'Ev'] = h_nop
    STR['_ZNSt15__new_allocatorIcE' + x + 'Ev'] = h_nop
    STR['_ZNSt15__new_allocatorIcED%sEv' % x[1]] = h_nop
    STR['_ZNSaIcED%sEv' % x[1]] = h_nop
    STR[B + 'D%sEv' % x[1]] = h_dtor
STR.update({B + '9push_backEc': h_push, B + '6appendEPKcm': h_append_pn, B + '6assignEPKcm': h_assign_pn, B + '5clearEv': h_clear, B + 'aSERKS4_': h_assign_str,
            K + '4sizeEv': h_size, K + '6lengthEv': h_size, K + '4dataEv': h_data, K + '5c_strEv': h_data, K + '5emptyEv': h_empty, B + '7reserveEm': h_nop})


class SV:
    """view of one string: len, [k] (before), new(k)"""
    def __init__(s, n, arr, conc): s.len, s.arr, s.conc = n, arr, conc

    def __getitem__(s, k):
        if s.conc and not isinstance(s.arr, CArr): return s.arr[k] if 0 <= k < len(s.arr) else 0
        return asel(s.arr, k)


class StrOut(P):
    """result object of a function returning std::string by value (hidden first argument)"""
    def __init__(s, name='result'): s.name = name

    def make(s, ex, st, v, inputs):
        rid = 'P:' + s.name
        ex.add_region(st, rid, 'obj', size=32, writable=True, name=s.name)
        return Ptr(rid)

    def native(s, run, inp, nv):
        s._b = (ctypes.c_uint64 * 4)()
        return ctypes.c_void_p(ctypes.addressof(s._b))

    def collect(s, run, nv, bufs):
        ad = ctypes.addressof(s._b)
        n = s._b[1]
        d = ctypes.string_at(s._b[0], n + 1)
        s._d = SV(n, d[:-1], True)
        s._d.term = d[-1] == 0
        nv.vals[s.name] = s._d
        if s._b[0] != ad + 16: _free(s._b[0])
        return 0


_lc = ctypes.CDLL(None)


def _free(a): _lc.free(ctypes.c_void_p(a))


class StrIn(P):
    """const std::string&; input value: bytes"""
    def __init__(s, name, w=False): s.name, s.w = name, w

    def natval(s, d): return SV(len(d), bytes(d), True)

    def make(s, ex, st, v, inputs):
        rid = 'P:' + s.name
        ex.add_region(st, rid, 'obj', size=32, writable=s.w, name=s.name)
        p = Ptr(rid)
        w = ex.regions[rid].writable
        if inputs is not None:
            d = inputs[s.name]
            c = mk(ex, st, p, len(d)); st.mem[c] = {0: CArr(list(d))}
            v.vals[s.name] = SV(len(d), st.mem[c][0], True)
        else:
            n = z3.Int('SL_' + s.name)
            st.pc.append(z3.And(n >= 0, n <= (1 << 62)))
            c = mk(ex, st, p, n)
            v.vals[s.name] = SV(n, st.mem[c][0], False)
        ex.regions[c].writable = False
        return p

    def native(s, run, inp, nv):
        from .native import Arena
        d = bytes(inp[s.name])
        if not s.w:
            a = run.ar.setdefault(s.name, Arena())
            ad = a.place(d + b'\0', 1, True, False)
            s._b = (ctypes.c_uint64 * 4)(ad, len(d), len(d), 0)
        else:
            s._b = (ctypes.c_uint64 * 4)()
            ad = ctypes.addressof(s._b)
            if len(d) < 16:
                s._b[0] = ad + 16; s._b[1] = len(d)
            else:
                _lc.malloc.restype = ctypes.c_void_p
                s._b[0] = _lc.malloc(len(d) + 1); s._b[1] = len(d); s._b[2] = len(d)
            ctypes.memmove(s._b[0], d + b'\0', len(d) + 1)
        nv.vals[s.name] = SV(len(d), d, True)
        return ctypes.c_void_p(ctypes.addressof(s._b))

    def collect(s, run, nv, bufs):
        if s.w:
            n = s._b[1]
            d = ctypes.string_at(s._b[0], n + 1)
            nv.vals[s.name].new = SV(n, d[:-1], True)
            if s._b[0] != ctypes.addressof(s._b) + 16: _free(s._b[0])
        return 0


def sstr(v, name):
    """the string parameter/result `name` in the current state"""
    x = v.vals.get(name)
    if hasattr(v, 'st'):
        c = 'S:P:%s:0' % name
        n = v.st.ghost.get(('sl', c))
        if n is None: return None
        return SV(n, v.st.mem[c][0], v.conc)
    return getattr(x, 'new', x)
