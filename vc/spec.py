"""Contracts.  One text serves three purposes: proof obligations (symbolic), filtering of invariant candidates (concrete IR
traces) and judging native executions (falsifier).  All formulas are written with the polymorphic helpers below."""
import z3
from .sym import *
from .sym import tab_expr, tab_bool
from . import prove as PR
from .exec import Ptr, NULL, Region, CArr, Unsupported, asel


def issym(x): return not isinstance(x, (int, bool)) and isinstance(x, z3.ExprRef)


def _flat(a):
    if not any(isinstance(x, (list, tuple)) for x in a): return a
    out = []
    for x in a: out += _flat(x) if isinstance(x, (list, tuple)) else [x]
    return out


def And(*a):
    a = _flat(a)
    a = [x for x in a if not (isinstance(x, bool) and x)]
    if any(isinstance(x, bool) and not x for x in a): return False
    if not a: return True
    return a[0] if len(a) == 1 else z3.And(*a)


def Or(*a):
    a = _flat(a)
    a = [x for x in a if not (isinstance(x, bool) and not x)]
    if any(isinstance(x, bool) and x for x in a): return True
    if not a: return False
    return a[0] if len(a) == 1 else z3.Or(*a)


def Not(a): return (not a) if isinstance(a, bool) else z3.Not(a)


def Imp(a, b):
    if isinstance(a, bool): return b if a else True
    if isinstance(b, bool) and b: return True
    return z3.Implies(a, zb(b))


def Iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool): return a == b
    return zb(a) == zb(b)


def Ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if isinstance(a, bool) or isinstance(b, bool): a, b = zb(a), zb(b)
    else: a, b = zi(a), zi(b)
    return z3.If(c, a, b)


def dv(a, b):
    if isinstance(a, int) and isinstance(b, int): return a // b
    return zi(a) / b


def md(a, b): return a % b


def tab(T, x):
    if isinstance(x, int): return T[x]
    return tab_expr(x, T)


def btab(T, x):
    if isinstance(x, int): return bool(T[x])
    return tab_bool(x, tuple(bool(y) for y in T))


def inset(s):
    """256-table of membership"""
    s = set(s if not isinstance(s, str) else s.encode('latin1'))
    return tuple(i in s for i in range(256))


def Min(a, b): return Ite(a <= b, a, b)


def Max(a, b): return Ite(a >= b, a, b)


_bv = [0]


class Base:
    conc = False

    def forall(s, lo, hi, f):
        """for all lo <= k < hi: f(k)"""
        if s.conc: return all(f(k) for k in range(lo, hi))
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 8: return And([f(k) for k in range(lo, hi)])
        _bv[0] += 1
        k = z3.Int('q!%d' % _bv[0])
        b = f(k)
        if isinstance(b, bool) and b: return True
        return z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), zb(b)))

    def forall2(s, lo, hi, lo2, hi2, f):
        if s.conc: return all(f(j, k) for j in range(lo, hi) for k in range(lo2, hi2))
        _bv[0] += 1
        j, k = z3.Int('q!%d' % _bv[0]), z3.Int('p!%d' % _bv[0])
        return z3.ForAll([j, k], z3.Implies(z3.And(j >= lo, j < hi, k >= lo2, k < hi2), zb(f(j, k))))

    def exists(s, lo, hi, f):
        if s.conc: return any(f(k) for k in range(lo, hi))
        return Not(s.forall(lo, hi, lambda k: Not(f(k))))

    def count(s, *a): raise NotImplementedError


class BufV:
    def __init__(s, old, cur, size, null=False, stride=1, conc=False, signed=False, w=8):
        s.old, s.curr, s.size, s.null, s.conc = old, cur, size, null, conc

    def __getitem__(s, k):
        if s.conc:
            if isinstance(s.old, (bytes, bytearray, list)): return s.old[k] if 0 <= k < len(s.old) else 0
            return s.old.get(k)
        return asel(s.old, k)

    def new(s, k):
        if s.conc:
            if isinstance(s.curr, (bytes, bytearray, list)): return s.curr[k] if 0 <= k < len(s.curr) else 0
            return s.curr.get(k)
        return asel(s.curr, k)

    @property
    def z(s): return s._z

    def f(s, off, w=8):
        """accessors (before, after) of the field at byte offset `off` of the elements"""
        if hasattr(s, 'ofl'):
            a, b = s.ofl[off], s.cfl[off]
            return (lambda k: asel(a, k)), (lambda k: asel(b, k))
        m = (1 << 8 * w) - 1
        g = lambda L: (lambda k: (L[k] >> 8 * off) & m if 0 <= k < len(L) else 0)
        return g(s.old), g(s.curr)


class P:
    """parameter declaration"""
    pass


class Int(P):
    def __init__(s, name, w=64, signed=False, lo=None, hi=None): s.name, s.w, s.signed, s.lo, s.hi = name, w, signed, lo, hi


class Buf(P):
    """pointer to `size` bytes (or elements of `el` bytes); size: name of an Int parameter or a function of the view"""
    def __init__(s, name, size, w=False, el=1, null=False, fields=None): s.name, s.size, s.w, s.el, s.null, s.fields = name, size, w, el, null, fields


class CStr(P):
    """NUL-terminated string; nothing beyond the NUL is readable"""
    def __init__(s, name, w=False): s.name, s.w = name, w


class Out(P):
    """pointer to one uninitialised scalar"""
    def __init__(s, name, w=64, signed=False, init=False): s.name, s.w, s.signed, s.init = name, w, signed, init


class Alias(P):
    """pointer into another parameter's buffer: base + offset (function of view)"""
    def __init__(s, name, buf, off): s.name, s.buf, s.off = name, buf, off


class Contract:
    """fn: symbol (or source-level name resolved by `sym`); file: path under /repo"""
    def __init__(s, fn, file, params, ret=None, pre=None, post=None, inv=(), gen=None, handlers=None, cxx=False, opts=None, title=None,
                 trace_n=60, helpers=None, throws=False, native=True, nat_name=None, measures=None, symfind=None, viewhook=None, setup=None,
                 extra=(), shim=None, timeout=6.0, budget=240, retreg=None, loads=None, cand_timeout=2.0, contracts=None, maxlen=None, hints=None):
        s.__dict__.update(locals())
        s.opts = opts or {}
        s.inv = list(inv)
        s.handlers = handlers or {}

    # ---------- symbolic / concrete-IR setup
    def build(s, ex, st, inputs=None):
        """arguments of the call; creates regions.  inputs: concrete dict or None for symbolic"""
        v = View(s, ex, st)
        v.conc = inputs is not None
        v.old = {}
        conc = inputs is not None
        args = []
        # ints first (sizes refer to them)
        for p in s.params:
            if isinstance(p, Int):
                if conc: x = inputs[p.name]
                else:
                    x = z3.Int('P_' + p.name)
                    lo = -(1 << (p.w - 1)) if p.signed else 0
                    hi = (1 << (p.w - 1)) - 1 if p.signed else (1 << p.w) - 1
                    if p.lo is not None: lo = max(lo, p.lo)
                    if p.hi is not None: hi = min(hi, p.hi)
                    st.pc.append(z3.And(x >= lo, x <= hi))
                v.vals[p.name] = x
            elif isinstance(p, CStr):
                if conc: z = len(inputs[p.name])
                else:
                    z = z3.Int('Z_' + p.name)
                    st.pc.append(z3.And(z >= 0, z <= (1 << 62)))
                v.vals['z:' + p.name] = z
            elif isinstance(p, Out): v.vals['o:' + p.name] = inputs.get(p.name, 0) if conc else z3.Int('O_' + p.name)
        for p in s.params:
            if isinstance(p, Int):
                x = v.vals[p.name]
                if conc: args.append(V(p.w, x))
                else:
                    lo = -(1 << (p.w - 1)) if p.signed else 0
                    hi = (1 << (p.w - 1)) - 1 if p.signed else (1 << p.w) - 1
                    if p.w == 8 and not p.signed: args.append(byte_val(x))
                    elif p.w == 8: args.append(byte_val(z3.If(x < 0, x + 256, x)))
                    else: args.append(V(p.w, x, lo, hi))
                if p.w == 1: args[-1] = Bv(bool(x) if conc else x == 1)
            elif isinstance(p, (Buf, CStr)):
                rid = 'P:' + p.name
                if isinstance(p, CStr): size = v.vals['z:' + p.name] + 1
                else: size = v.vals[p.size] if isinstance(p.size, str) else p.size(v) if callable(p.size) else p.size
                el = getattr(p, 'el', 1)
                if conc and inputs.get(p.name, b'') is None:
                    args.append(NULL); v.old[p.name] = None; continue
                r = ex.add_region(st, rid, 'arr', size=size * el, stride=el, fields=getattr(p, 'fields', None), writable=p.w, name=p.name)
                if conc:
                    d = inputs.get(p.name)
                    if d is None: d = fill(p.name, size)
                    d = list(d) + ([0] if isinstance(p, CStr) else [])
                    if len(d) != size: raise ValueError('input size mismatch for %s: %d vs %d' % (p.name, len(d), size))
                    if getattr(p, 'fields', None): st.mem[rid] = {o: CArr([(x >> 8 * o) & ((1 << 8 * w) - 1) for x in d]) for o, w in p.fields.items()}
                    else: st.mem[rid] = {0: CArr(d)}
                v.old[p.name] = dict(st.mem[rid])
                if isinstance(p, CStr) and not conc:
                    a = st.mem[rid][0]
                    z = v.vals['z:' + p.name]
                    st.pc.append(z3.Select(a, z) == 0)
                    k = z3.Int('k!z')
                    st.hyps.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < z), z3.Select(a, k) != 0), patterns=[z3.Select(a, k)]))
                args.append(Ptr(rid))
            elif isinstance(p, Out):
                rid = 'P:' + p.name
                ex.add_region(st, rid, 'obj', size=p.w // 8, writable=True, name=p.name)
                if conc: st.mem[rid] = {0: (p.w // 8, V(p.w, inputs.get(p.name, 0)))}
                else:
                    x = z3.Int('O_' + p.name)
                    st.pc.append(z3.And(x >= (-(1 << p.w - 1) if p.signed else 0), x < (1 << (p.w - 1 if p.signed else p.w))))
                    st.mem[rid] = {0: (p.w // 8, V(p.w, x, -(1 << p.w - 1) if p.signed else 0, (1 << (p.w - 1 if p.signed else p.w)) - 1))}
                v.old[p.name] = dict(st.mem[rid])
                args.append(Ptr(rid))
            elif isinstance(p, Alias):
                o = p.off(v)
                args.append(Ptr('P:' + p.buf).addt(1, o) if not isinstance(o, int) else Ptr('P:' + p.buf, o))
            else:
                args.append(p.make(ex, st, v, inputs))
        if s.setup: s.setup(ex, st, v, inputs)
        if s.pre and not conc:
            for f in as_list(s.pre(v)): st.assume(zb(f))
        if s.hints and not conc:          # facts about the inputs, proved before they are used
            for n, f in s.hints(v): ex.oblige(st, zb(f), 'lemma: ' + n, s.fn)
        return args, v


def as_list(x): return list(x) if isinstance(x, (list, tuple)) else [x]


def fill(name, n):
    x = sum(name.encode()) & 0xff
    return [(0xA5 ^ (i * 37 + x)) & 0xff for i in range(n)]


class View(Base):
    """the contract's window on a state"""
    def __init__(s, c, ex, st):
        s.c, s.ex, s.st, s.vals, s.conc, s.old = c, ex, st, {}, False, {}
        s.retv = None
        s.ghost = {}
        s._fn = {}

    def at(s, st):
        n = View(s.c, s.ex, st)
        n.vals, n.conc, n.old, n.ghost, n._fn = s.vals, s.conc, s.old, s.ghost, s._fn
        return n

    def __getattr__(s, name):
        if name.startswith('__'): raise AttributeError(name)
        vals = s.__dict__['vals']
        if name in vals: return vals[name]
        if name in s.__dict__['old']:
            return s.buf(name)
        raise AttributeError(name)

    def buf(s, name):
        p = next(p for p in s.c.params if p.name == name)
        rid = 'P:' + name
        o = s.old[name]
        if o is None: return BufV(None, None, 0, True, conc=s.conc)
        if isinstance(p, Out):
            c = s.st.mem[rid][0][1]
            c0 = o[0][1]
            f = ass if p.signed else asu
            b = BufV(None, None, 1)
            b.val = f(c).e if isinstance(c, V) else c
            b.oldval = f(c0).e if isinstance(c0, V) else c0
            return b
        r = s.ex.regions[rid]
        cur = s.st.mem.get(rid, o)
        b = BufV(o.get(0), cur.get(0), None, conc=s.conc)
        b.size = r.size if r.stride == 1 else (r.size // r.stride if isinstance(r.size, int) else r.size / r.stride)
        b.ofl, b.cfl = o, cur
        if isinstance(p, CStr): b._z = s.vals['z:' + name]
        return b

    def lw(s, name): return s.st.ghost.get(('lw', 'P:' + name), 0)

    @property
    def ret(s):
        r = s.retv
        return r

    def retoff(s, name):
        """offset of the returned pointer in buffer `name`; None if it does not point into it"""
        r = s.retv
        if isinstance(r, Ptr) and r.rid == 'P:' + name: return r.off
        return None

    def retnull(s):
        return isinstance(s.retv, Ptr) and s.retv.rid is None or (isinstance(s.retv, Ptr) and s.retv.rid == 'int' and s.retv.c == 0)

    @property
    def oom(s): return bool(s.st.ghost.get(('oom',)))

    def heaps(s):
        """byte accessors of the live heap blocks, oldest first"""
        out = []
        for rid in [r for r in s.st.mem if r.startswith('H:') and r not in s.st.freed]:
            a = s.st.mem[rid].get(0)
            if a is None: continue
            out.append((lambda k, a=a: a.get(k) if not isinstance(a, z3.ExprRef) else z3.Select(a, zi(k))))
        return out

    def retbuf(s):
        r = s.retv
        if not isinstance(r, Ptr) or r.rid is None: return None
        reg = s.ex.regions[r.rid]
        m = s.st.mem[r.rid]
        b = BufV(m.get(0), m.get(0), reg.size, conc=s.conc)
        b.off = r.off
        b.freed = r.rid in s.st.freed
        b.heap = reg.heap
        return b

    def fn(s, name, nargs, unfold, conc, ret='int', depth=2):
        """recursive specification function; unfold(self, *args) -> facts; conc(self, *args) -> value"""
        if name in s._fn: return s._fn[name]
        if s.conc:
            memo = {}

            def f(*a):
                if a not in memo: memo[a] = conc(f, *a)
                return memo[a]
            s._fn[name] = f
            return f
        sf = PR.SpecFn('%s.%s' % (s.c.fn, name), nargs, ret, depth=depth)
        sf.unfold = lambda *a: unfold(sf, *a)
        s._fn[name] = sf
        return sf


class NatView(Base):
    """view of a native execution"""
    conc = True

    def __init__(s, c, inputs, ret, bufs):
        s.c, s.vals, s.bufs, s.retv, s._fn = c, dict(inputs), bufs, ret, {}
        s.inputs = inputs
        for p in c.params:
            if isinstance(p, CStr): s.vals['z:' + p.name] = len(inputs[p.name])
            if isinstance(p, Out): s.vals['o:' + p.name] = inputs.get(p.name, 0)
            if hasattr(p, 'natval') and p.name in inputs: s.vals[p.name] = p.natval(inputs[p.name])

    def __getattr__(s, name):
        if name.startswith('__'): raise AttributeError(name)
        if name in s.__dict__.get('bufs', {}): return s.buf(name)
        if name in s.__dict__['vals']: return s.__dict__['vals'][name]
        raise AttributeError(name)

    def buf(s, name):
        p = next(p for p in s.c.params if p.name == name)
        o, c = s.bufs[name]
        if isinstance(p, Out):
            b = BufV(None, None, 1); b.val, b.oldval = c, o
            return b
        b = BufV(o, c, 0 if o is None else len(o), o is None, conc=True)
        if isinstance(p, CStr): b._z = len(s.inputs[name])
        return b

    @property
    def ret(s): return s.retv

    def retoff(s, name):
        r = s.retv
        return r[1] if isinstance(r, tuple) and r[0] == name else None

    def retnull(s): return s.retv is None

    def retbuf(s):
        r = s.retv
        if not isinstance(r, (bytes, bytearray)): return None
        b = BufV(r, r, len(r), conc=True)
        b.off = 0; b.freed = False; b.heap = True
        return b

    def fn(s, name, nargs, unfold, conc, ret='int', depth=2):
        if name in s._fn: return s._fn[name]
        memo = {}

        def f(*a):
            if a not in memo: memo[a] = conc(f, *a)
            return memo[a]
        s._fn[name] = f
        return f

    def lw(s, name): return 0


class OutP(P):
    """pointer to one pointer cell that the function sets to NULL or to a heap block"""
    def __init__(s, name, length=None): s.name, s.length = name, length

    def make(s, ex, st, v, inputs):
        rid = 'P:' + s.name
        ex.add_region(st, rid, 'obj', size=8, writable=True, name=s.name)
        st.mem[rid] = {0: (8, NULL)}
        v.vals[s.name] = OutPCell(s.name)
        return Ptr(rid)

    def native(s, run, inp, nv):
        import ctypes
        s._cell = ctypes.c_void_p(0x10)
        nv.vals[s.name] = s
        return ctypes.byref(s._cell)

    def collect(s, run, nv, bufs):
        import ctypes
        a = s._cell.value
        if not a or a == 0x10:
            nv.vals[s.name] = OutVal(not a, None, a == 0x10)
            return 0
        n = s.length(nv)
        d = ctypes.string_at(a, n)
        nv.vals[s.name] = OutVal(False, d, False)
        getattr(run.lib, '__wrap_free')(ctypes.c_void_p(a))
        return 0


class Struct(P):
    """pointer to an object with scalar cells: (offset, 'int', width, value name) | (offset, 'ptr', parameter name, byte offset) | (offset, 'null')"""
    def __init__(s, name, size, cells): s.name, s.size, s.cells = name, size, cells

    def make(s, ex, st, v, inputs):
        rid = 'P:' + s.name
        ex.add_region(st, rid, 'obj', size=s.size, writable=True, name=s.name)
        m = {}
        for c in s.cells:
            if c[1] == 'int':
                w, nm = c[2], c[3]
                if inputs is not None: x = inputs[nm]; m[c[0]] = (w // 8, V(w, x))
                else:
                    x = z3.Int('S_' + nm)
                    st.pc.append(z3.And(x >= 0, x < (1 << w)))
                    m[c[0]] = (w // 8, V(w, x, 0, (1 << w) - 1))
                v.vals[nm] = x
            elif c[1] == 'ptr': m[c[0]] = (8, Ptr('P:' + c[2], c[3]) if inputs is None or inputs.get(c[2], b'') is not None else NULL)
            else: m[c[0]] = (8, NULL)
        st.mem[rid] = m
        v.old[s.name] = dict(m)
        return Ptr(rid)

    def native(s, run, inp, nv):
        from .native import Arena
        s._a = run.ar.setdefault(s.name, Arena(1))
        s._ad = s._a.place(bytes([0xA5]) * s.size, 1, True, True)
        import ctypes
        return ctypes.c_void_p(s._ad)

    def patch(s, run, inp, nv, base):
        import ctypes
        for c in s.cells:
            if c[1] == 'int': b = int(inp[c[3]]).to_bytes(c[2] // 8, 'little')
            elif c[1] == 'ptr': b = (base[c[2]][0] + c[3] if c[2] in base else 0).to_bytes(8, 'little')
            else: b = bytes(8)
            ctypes.memmove(s._ad + c[0], b, len(b))

    def collect(s, run, nv, bufs):
        import ctypes
        for c in s.cells:
            n = c[2] // 8 if c[1] == 'int' else 8
            x = int.from_bytes(ctypes.string_at(s._ad + c[0], n), 'little')
            nv.vals['new:%s:%d' % (s.name, c[0])] = x
        nv.vals['base:' + s.name] = dict((k, a[0]) for k, a in run.base.items())
        return 0


def cellnew(v, name, off, w=64):
    """value of an integer cell of a Struct now"""
    k = 'new:%s:%d' % (name, off)
    if k in v.vals: return v.vals[k]
    c = v.st.mem['P:' + name][off][1]
    return asu(c).e if isinstance(c, V) else c


class OutVal:
    def __init__(s, null, d, unset): s.null, s.d, s.unset = null, d, unset

    def get(s, v): return s

    def at(s, k): return s.d[k] if 0 <= k < len(s.d) else 0


class OutPCell:
    def __init__(s, name): s.name = name

    def get(s, v):
        p = v.st.mem['P:' + s.name][0][1]
        if p.rid is None: return OutVal(True, None, False)
        m = v.st.mem[p.rid]
        o = OutVal(False, None, False)
        o.rid = p.rid
        o.size = v.ex.regions[p.rid].size
        off = p.off
        o.at = lambda k: asel(m[0], k if is_c(off) and off == 0 else off + k)
        o.dead = p.rid in v.st.freed
        v.st.ghost[('esc', p.rid)] = True
        return o


def outp(v, name):
    x = v.vals[name]
    return x.get(v) if not isinstance(x, OutVal) else x


class OffBuf(BufV):
    def __init__(s, old, new, size, off, conc):
        BufV.__init__(s, old, new, size, conc=conc); s.off = off

    def __getitem__(s, k): return asel(s.old, s.off + k)

    def new(s, k): return asel(s.curr, s.off + k)


class CallView(Base):
    def __init__(s, c, ex, st, conc=False): s.c, s.ex, s.st, s.conc, s.vals, s.bufs, s.retv, s._fn = c, ex, st, conc, {}, {}, None, {}

    def __getattr__(s, name):
        if name.startswith('__'): raise AttributeError(name)
        if name in s.__dict__['bufs']: return s.__dict__['bufs'][name]
        if name in s.__dict__['vals']: return s.__dict__['vals'][name]
        raise AttributeError(name)

    @property
    def ret(s): return s.retv

    def fn(s, name, nargs, unfold, conc, ret='int', depth=2):
        if name in s._fn: return s._fn[name]
        s.ex.n += 1
        sf = PR.SpecFn('%s.%s#%d' % (s.c.fn, name, s.ex.n), nargs, ret, depth=depth)
        sf.unfold = lambda *a: unfold(sf, *a)
        s._fn[name] = sf
        return sf

    def lw(s, name): return 0

    def buf(s, name): return s.bufs[name]


def use(c):
    """call site of a function that has its own contract: the caller sees only the contract"""
    def h(ex, st, ins, a):
        if ex.concrete:
            # concrete traces run the body
            return NotImplemented
        v = CallView(c, ex, st)
        ps = list(zip(c.params, a))
        for p, x in ps:
            if isinstance(p, Out):
                cv = ex.load(st, x, _ty(p.w))
                v.vals['o:' + p.name] = (ass if p.signed else asu)(cv).e if isinstance(cv, V) else 0
            if isinstance(p, Int): v.vals[p.name] = (ex.read_as(st, x, p.signed).e if isinstance(x, V) else x)
        post_hooks = []
        for p, x in ps:
            if isinstance(p, Buf):
                if isinstance(x, Ptr) and x.rid is None: raise Unsupported('NULL passed where %s expects a buffer' % c.fn)
                size = v.vals[p.size] if isinstance(p.size, str) else p.size(v) if callable(p.size) else p.size
                r = ex.region(st, x, 'read')
                if r.kind != 'arr' or r.stride != p.el: raise Unsupported('contract of %s: buffer of kind %s' % (c.fn, r.kind))
                n = size * p.el
                if not (is_c(n) and n == 0):
                    off = x.off
                    ok = z3.Or(zi(n) == 0, z3.And(zi(off) >= 0, zi(off) + n <= zi(r.size)))
                    ex.oblige(st, ok, 'precondition of %s: %s has %s bytes' % (c.fn, p.name, p.size if isinstance(p.size, str) else 'enough'))
                if p.w and not r.writable: ex.oblige(st, False, 'precondition of %s: %s writable' % (c.fn, p.name))
                idx, fo = ex.split(st, x, r)
                arr = st.mem[r.rid][0]
                if isinstance(arr, CArr): arr = ex.carr_to_z3(arr)
                b = OffBuf(arr, arr, size, idx, False)
                v.bufs[p.name] = b
                if p.w: post_hooks.append((p, r, b, idx, size))
            elif isinstance(p, CStr):
                r = ex.region(st, x, 'read')
                n = STRLEN(ex, st, ins, [x])
                v.vals['z:' + p.name] = n.e
                b = OffBuf(st.mem[r.rid][0], st.mem[r.rid][0], n.e + 1, x.off, False); b._z = n.e
                v.bufs[p.name] = b
                if p.w: post_hooks.append((p, r, b, x.off, n.e + 1))
            elif isinstance(p, Out):
                cell = _OutCall()
                cv = ex.load(st, x, _ty(p.w))
                cell.oldval = cell.val = (ass if p.signed else asu)(cv).e if isinstance(cv, V) else 0
                v.bufs[p.name] = cell
                post_hooks.append((p, x, cell, None, None))
        if c.pre:
            for f in as_list(c.pre(v)): ex.oblige(st, zb(f), 'precondition of ' + c.fn)
        for p, r, b, idx, size in post_hooks:
            if isinstance(p, Out):
                y = ex.fresh('out_' + p.name)
                lo, hi = (-(1 << p.w - 1), (1 << p.w - 1) - 1) if p.signed else (0, (1 << p.w) - 1)
                st.pc.append(z3.And(y >= lo, y <= hi))
                b.val = y
                ex.store(st, r, V(p.w, y, lo, hi), _ty(p.w))
                continue
            n = ex.fresh_arr('call_' + p.name)
            ex.range_fact(st, n, getattr(p, 'el', 1))
            k = z3.Int('k!f')
            st.hyps.append(z3.ForAll([k], z3.Implies(z3.Or(k < idx, k >= idx + size), z3.Select(n, k) == z3.Select(b.old, k)), patterns=[z3.Select(n, k)]))
            b.curr = n
            m = dict(st.mem[r.rid]); m[0] = n; st.mem[r.rid] = m
            ex.mod_mark(st, (r.rid, 0))
            st.ghost[('lw', r.rid)] = ex.fresh('lw'); ex.mod_mark(st, ('ghost', ('lw', r.rid)))
        rv = None
        if c.ret in ('u64', 'i64', 'u32', 'i32', 'u8', 'u16'):
            w = int(c.ret[1:])
            y = ex.fresh('ret_' + c.fn)
            lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if c.ret[0] == 'i' else (0, (1 << w) - 1)
            st.pc.append(z3.And(y >= lo, y <= hi))
            rv = V(w, y, lo, hi); v.retv = y
        elif c.ret == 'bool':
            ex.n += 1
            y = z3.Bool('ret_%s!%d' % (c.fn, ex.n)); rv = Bv(y); v.retv = y
        elif c.ret == 'ptr': raise Unsupported('pointer result through a contract')
        for name, f in as_list(c.post(v)): st.assume(zb(f))
        return rv
    h.contract = c
    return h


class _OutCall:
    pass


def _ty(w):
    class T: pass
    t = T(); t.k = 'int'; t.w = w; t.size = w // 8
    return t


STRLEN = None
