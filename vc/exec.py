"""Path-wise verification-condition generation over LLVM IR with loop invariants (candidate pool + Houdini).

One executor serves two modes: symbolic (values are z3 terms, loops are cut at their headers by invariants) and concrete
(values are python ints, loops run) -- the latter only supplies traces that filter invariant candidates."""
import z3, itertools
from .sym import *
from . import prove as PR


class Unsupported(Exception):
    pass


class Fork(Exception):
    def __init__(s, c): s.c = c


class Ptr:
    __slots__ = ('rid', 'c', 'terms')

    def __init__(s, rid, c=0, terms=()):
        s.rid, s.c, s.terms = rid, c, terms

    @property
    def off(s):
        e = s.c
        for k, t in s.terms:
            x = t if k == 1 else k * t
            e = x if isinstance(e, int) and e == 0 else e + x
        return e

    def add(s, k): return Ptr(s.rid, s.c + k, s.terms)

    def addt(s, coef, e):
        if isinstance(e, int): return Ptr(s.rid, s.c + coef * e, s.terms)
        if z3.is_int_value(e): return Ptr(s.rid, s.c + coef * e.as_long(), s.terms)
        ts = list(s.terms)
        for i, (k, t) in enumerate(ts):
            if t.get_id() == e.get_id():
                if k + coef == 0: ts.pop(i)
                else: ts[i] = (k + coef, t)
                return Ptr(s.rid, s.c, tuple(ts))
        # x-1 style terms: pull constants out
        if z3.is_add(e) and e.num_args() == 2 and z3.is_int_value(e.arg(1)):
            return Ptr(s.rid, s.c + coef * e.arg(1).as_long(), s.terms).addt(coef, e.arg(0))
        if z3.is_sub(e) and e.num_args() == 2 and z3.is_int_value(e.arg(1)):
            return Ptr(s.rid, s.c - coef * e.arg(1).as_long(), s.terms).addt(coef, e.arg(0))
        return Ptr(s.rid, s.c, s.terms + ((coef, e),))

    def __repr__(s): return 'P(%s+%s)' % (s.rid, s.off)


NULL = Ptr(None)


class FnP:
    def __init__(s, name): s.name = name


class Agg:
    def __init__(s, vals): s.vals = list(vals)


class Undef:
    def __repr__(s): return 'undef'


class Region:
    def __init__(s, rid, kind, size=None, stride=1, fields=None, writable=True, name=None, heap=False, sgn=False):
        s.rid, s.kind, s.size, s.stride, s.fields, s.writable, s.name, s.heap = rid, kind, size, stride, fields, writable, name or rid, heap
        s.fields = fields or ({0: stride} if kind == 'arr' else None)


class CArr:
    """concrete array"""
    __slots__ = ('d',)

    def __init__(s, d): s.d = d

    def get(s, i): return s.d[i] if 0 <= i < len(s.d) else 0

    def set(s, i, v):
        d = list(s.d)
        if 0 <= i < len(d): d[i] = v
        return CArr(d)


def asel(a, i):
    if isinstance(a, CArr): return a.get(i)
    return z3.Select(a, zi(i))


class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'idx', 'prev', 'call', 'path', 'allocas')

    def copy(s):
        f = Frame(); f.fn, f.regs, f.blk, f.idx, f.prev, f.call, f.path, f.allocas = s.fn, dict(s.regs), s.blk, s.idx, s.prev, s.call, s.path, s.allocas
        return f


class State:
    def __init__(s):
        s.frames = []; s.pc = []; s.hyps = []; s.dom = {}; s.dec = {}; s.mem = {}; s.ghost = {}; s.freed = frozenset()
        s.pend = None; s.trace = (); s.exc = None; s.its = {}; s.mods = None; s.ret = None

    def clone(s):
        n = State()
        n.frames = [f.copy() for f in s.frames]
        n.pc = list(s.pc); n.hyps = list(s.hyps); n.dom = dict(s.dom); n.dec = dict(s.dec)
        n.mem = dict(s.mem); n.ghost = dict(s.ghost); n.freed = s.freed; n.pend = s.pend; n.trace = s.trace; n.exc = s.exc
        n.its = dict(s.its); n.mods = s.mods; n.ret = s.ret
        return n

    def assume(s, c):
        """c: Bv, bool or z3 Bool"""
        if isinstance(c, Bv):
            if c.conc:
                if not c.b: s.pc.append(z3.BoolVal(False))
                return
            if c.tab:
                base, t = c.tab
                k = base.get_id()
                m = s.dom.get(k, (1 << 256) - 1)
                tm = 0
                for i, x in enumerate(t):
                    if x: tm |= 1 << i
                s.dom[k] = m & tm
                KEEP.append(base)
            s.pc.append(c.b)
            s.dec[c.b.get_id()] = True
            KEEP.append(c.b)
            return
        if isinstance(c, bool):
            if not c: s.pc.append(z3.BoolVal(False))
            return
        if PR.has_q(c): s.hyps.append(c)
        else:
            s.pc.append(c)
            s.dec[c.get_id()] = True
            KEEP.append(c)


class Oblig:
    def __init__(s, kind, goal, st, where):
        s.kind, s.goal, s.where = kind, goal, where
        s.pc, s.hyps = list(st.pc), list(st.hyps)
        s.trace = st.trace
        s.status = None


class LoopCtx:
    def __init__(s, depth, header, body): s.depth, s.header, s.body = depth, header, body


class Exec:
    def __init__(self, mod, handlers=None, contracts=None, concrete=False, name='', fuel=200000):
        self.mod, self.handlers, self.contracts, self.concrete = mod, handlers or {}, contracts or {}, concrete
        self.regions = {}
        self.unroll, self.unroll_top, self.nounroll = 0, False, set()
        self.n = 0
        self.obls = []
        self.record = True
        self.loopinfo = {}     # loop key -> dict(cands, mods)
        self.poolf = None      # function(view)-> list of (name, formula-fn) spec templates
        self.traces = {}       # loop key -> list of term dicts (concrete mode)
        self.viewhook = None
        self.fuel = fuel
        self.inlined = set(); self.called = set(); self.trusted = set()
        self.bad = []          # concrete-mode violations
        self.name = name
        self.facts_arr = set()
        self.learned = {}
        self.maxpaths = 4000
        self.npaths = 0
        self.loops_done = {}
        self.deadline = None
        self.assumed = set()
        self.guard = None

    # ---------- fresh things
    def fresh(self, name, w=None, signed=False):
        self.n += 1
        return z3.Int('%s!%d' % (name, self.n))

    def fresh_arr(self, name):
        self.n += 1
        return z3.Array('%s!%d' % (name, self.n), z3.IntSort(), z3.IntSort())

    def add_region(self, st, rid, kind, **kw):
        r = Region(rid, kind, **kw)
        self.regions[rid] = r
        if kind == 'arr':
            c = {}
            for f, w in r.fields.items():
                c[f] = CArr([0] * (r.size // r.stride)) if self.concrete else self.fresh_arr('%s.%d' % (rid, f))
                if not self.concrete: self.range_fact(st, c[f], abs(w) if isinstance(w, int) else 8)
            st.mem[rid] = c
        else:
            st.mem[rid] = {}
        return r

    def range_fact(self, st, arr, size):
        k = z3.Int('k!r')
        a = z3.Select(arr, k)
        st.hyps.append(z3.ForAll([k], z3.And(a >= 0, a < (1 << (8 * size))), patterns=[a]))

    # ---------- deciding
    def known(self, st, c):
        """True/False/None for z3 Bool c on this path"""
        if isinstance(c, bool): return c
        i = c.get_id()
        if i in st.dec: return st.dec[i]
        if self.concrete:
            raise Unsupported('symbolic condition in concrete mode: %s' % c)
        if PR.feasible(st.pc + [z3.Not(c)]) is False:
            KEEP.append(c); st.dec[i] = True; return True
        if PR.feasible(st.pc + [c]) is False:
            KEEP.append(c); st.dec[i] = False; return False
        return None

    def decide(self, st, c):
        """force a decision (forking the path when both outcomes are possible)"""
        if isinstance(c, bool): return c
        if not isinstance(c, Bv): c = Bv(c)
        if c.conc: return c.b
        if c.tab:
            base, t = c.tab
            m = st.dom.get(base.get_id())
            if m is not None:
                any_t = any_f = False
                for i in range(256):
                    if m >> i & 1:
                        if t[i]: any_t = True
                        else: any_f = True
                if not any_f: return True
                if not any_t: return False
        i = c.b.get_id()
        if i in st.dec: return st.dec[i]
        k = self.known(st, c.b)
        if k is not None: return k
        raise Fork(c)

    def oblige(self, st, cond, kind, where=None):
        if isinstance(cond, bool) and cond: return
        if isinstance(cond, Bv): cond = cond.b
        if isinstance(cond, bool) and cond: return
        w = where or self.where(st)
        if self.concrete:
            if isinstance(cond, bool):
                self.bad.append((kind, w))
                raise ConcreteBad(kind, w)
            raise Unsupported('symbolic obligation in concrete mode')
        if self.record:
            self.obls.append(Oblig(kind, cond, st, w))
        if not isinstance(cond, bool): st.assume(cond)
        else: st.pc.append(z3.BoolVal(False))

    def where(self, st):
        f = st.frames[-1]
        b = f.fn.blocks[f.blk]
        i = b.ins[min(f.idx, len(b.ins) - 1)]
        return '%s:%s:%d' % (f.fn.name, (i.file or '').split('/')[-1], i.line)

    # ---------- operands
    def val(self, st, o, fr=None):
        fr = fr or st.frames[-1]
        k = o.k
        if k == 'reg': return fr.regs[o.v]
        if k == 'int':
            if o.ty.w == 1: return Bv(bool(o.v))
            return const(o.ty.w, o.v)
        if k == 'null': return NULL
        if k == 'undef': return self.undef(o.ty)
        if k == 'global': return self.gptr(st, o.v)
        if k == 'fn': return FnP(o.v)
        if k == 'zero':
            return self.zero(o.ty)
        if k == 'agg': return Agg([self.val(st, x, fr) for x in o.v])
        if k == 'cexpr':
            op, x = o.v
            if op == 'gep': return self.gep(st, x, [self.val(st, q, fr) for q in o.ops])
            if op == 'ptrtoint': return self.cast('ptrtoint', self.val(st, o.ops[0], fr), o.ty, st)
            if op == 'inttoptr': return self.cast('inttoptr', self.val(st, o.ops[0], fr), o.ty, st)
            if op in ('bitcast',): return self.val(st, o.ops[0], fr)
            if op in ('trunc', 'zext', 'sext'): return self.cast(op, self.val(st, o.ops[0], fr), o.ty, st)
            if op in ('sub', 'add'): return self.arith(st, op, self.val(st, o.ops[0], fr), self.val(st, o.ops[1], fr), o.ty.w, (False, False))
            raise Unsupported('const expr ' + op)
        if k == 'meta': return None
        raise Unsupported('operand kind ' + k)

    def undef(self, ty):
        if ty.k == 'int': return Bv(False) if ty.w == 1 else V(ty.w, 0)
        if ty.k == 'ptr': return NULL
        if ty.k == 'struct': return Agg([self.undef(t) for t in ty.fields])
        return Undef()

    def zero(self, ty):
        if ty.k == 'int': return Bv(False) if ty.w == 1 else V(ty.w, 0)
        if ty.k == 'ptr': return NULL
        if ty.k == 'struct': return Agg([self.zero(t) for t in ty.fields])
        if ty.k == 'arr': return Agg([self.zero(ty.el) for _ in range(ty.n)])
        return Undef()

    def gptr(self, st, name):
        rid = 'g:' + name
        if rid not in self.regions:
            ty, cst, init = self.mod.ginit(name)
            if ty.k == 'struct' and ty.fields and all(t.k == 'arr' and t.el.k == 'int' and t.el.size == ty.fields[0].el.size for t in ty.fields if t.k == 'arr') \
                    and all(t.k == 'arr' or (t.k == 'int' and ty.fields[0].k == 'arr' and t.size == ty.fields[0].el.size) for t in ty.fields) and ty.fields[0].k == 'arr' and init is not None \
                    and sum(t.size for t in ty.fields) == ty.size:
                ty, init = flat_table(ty, init)
            if ty.k == 'arr' and ty.el.k == 'int':
                r = Region(rid, 'arr', size=ty.size, stride=ty.el.size, writable=not cst)
                vals = [0] * ty.n
                if init is not None and init.k == 'agg': vals = [x.v if x.k == 'int' else 0 for x in init.v]
                r.vals = vals
                r.cst = cst or self.never_written(name)
                self.regions[rid] = r
            else:
                r = Region(rid, 'obj', size=ty.size, writable=not cst)
                r.vals = None; r.cst = False; r.init = (ty, init, cst)
                self.regions[rid] = r
        r = self.regions[rid]
        if rid not in st.mem:
            if r.kind == 'arr':
                if getattr(r, 'cst', False): st.mem[rid] = {0: CArr(r.vals)}
                else: st.mem[rid] = {0: self.fresh_arr(rid) if not self.concrete else CArr(r.vals)}
            else:
                st.mem[rid] = {}
                ty, init, cst = r.init
                if (self.concrete or cst or getattr(self, 'ginit_all', False)) and init is not None: self.store_init(st, rid, 0, ty, init)
        return Ptr(rid)

    def store_init(self, st, rid, off, ty, init):
        if ty.k == 'struct':
            for i, t in enumerate(ty.fields):
                sub = init.v[i] if init.k == 'agg' else None
                if sub is not None: self.store_init(st, rid, off + ty.offs[i], t, sub)
                elif init.k == 'zero': self._zinit(st, rid, off + ty.offs[i], t)
            return
        if ty.k in ('int', 'ptr'):
            m = dict(st.mem[rid])
            m[off] = (ty.size, self.val(st, init) if init.k != 'other' else self.undef(ty))
            st.mem[rid] = m

    def _zinit(self, st, rid, off, ty):
        if ty.k == 'struct':
            for i, t in enumerate(ty.fields): self._zinit(st, rid, off + ty.offs[i], t)
        elif ty.k == 'arr':
            for i in range(ty.n): self._zinit(st, rid, off + i * ty.el.size, ty.el)
        else:
            m = dict(st.mem[rid]); m[off] = (ty.size, self.zero(ty)); st.mem[rid] = m

    def never_written(self, name):
        """a static table that no instruction in the module stores to: its initialiser is its value.
        (syntactic: the global is only used as a load/gep-load base)"""
        c = getattr(self.mod, '_nw', None)
        if c is None:
            c = self.mod._nw = {}
            written = set()
            internal = set()
            for fn in self.mod.fns.values():
                if fn.decl: continue
                f = self.mod.fn(fn.name)
                for b in f.blocks:
                    addr = {}
                    for i in b.ins:
                        for k, o in enumerate(i.ops if i.op != 'phi' else [x[0] for x in i.ops]):
                            g = _glob(o)
                            if g is None: continue
                            if i.op == 'load': continue
                            if i.op == 'gep' and k == 0:
                                # follow: result only loaded?
                                for b2 in f.blocks:
                                    for j in b2.ins:
                                        for k2, o2 in enumerate(j.ops if j.op != 'phi' else [x[0] for x in j.ops]):
                                            if o2.k == 'reg' and o2.v == i.id and not j.op == 'load':
                                                written.add(g)
                                continue
                            written.add(g)
            c['w'] = written
        return name not in c['w']

    def refill(self, st, v):
        """table entries for byte values the path has excluded are irrelevant: give them a canonical value"""
        if v.tab is None: return v
        c, parts = v.tab
        out = []
        ch = False
        for b, t in parts:
            m = st.dom.get(b.get_id())
            if m is not None and m and m != (1 << 256) - 1:
                d = t[(m & -m).bit_length() - 1]
                t2 = tuple(x if m >> i & 1 else d for i, x in enumerate(t))
                if t2 != t: t = t2; ch = True
            out.append((b, t))
        return V(v.w, None, tab=(c, tuple(out))) if ch else v

    # ---------- arithmetic on values
    def arith(self, st, op, a, b, w, flags):
        if isinstance(a, Bv) or isinstance(b, Bv):
            if op == 'and': return b_and(a, b)
            if op == 'or': return b_or(a, b)
            if op in ('xor', 'add', 'sub'): return b_xor(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, Undef) or isinstance(b, Undef): return Undef()
        if a.prov is not None or b.prov is not None:
            if op == 'sub' and a.prov is not None and b.prov is not None and a.prov.rid == b.prov.rid:
                d = a.prov
                for k, t in b.prov.terms: d = d.addt(-k, t)
                d = d.add(-b.prov.c)
                e = d.off
                return V(64, e, None if isinstance(e, int) else -(1 << 63) + 1, None if isinstance(e, int) else (1 << 63) - 1)
        if st.dom:
            a, b = self.refill(st, a), self.refill(st, b)
        return binop(op, a, b, w, decide=lambda c: self.known(st, c), oblig=lambda c, k: self.oblige(st, c, k), flags=flags)

    def cast(self, op, v, ty, st):
        if op == 'ptrtoint':
            if isinstance(v, FnP): return V(64, self.fresh('fnaddr'), 1, (1 << 64) - 1)
            if v.rid is None: return V(64, v.off if isinstance(v.off, int) else v.off)
            if v.rid == 'int': return V(64, v.c)
            base = z3.Int('addr!' + v.rid)
            off = v.off
            e = base + off
            st.pc.append(z3.And(e > 0, e < (1 << 64) - 1))
            return V(64, e, 0, (1 << 64) - 1, prov=v)
        if op == 'inttoptr':
            if v.prov is not None: return v.prov
            if v.conc:
                return NULL if v.e == 0 else Ptr('int', v.e % (1 << 64))
            raise Unsupported('inttoptr of symbolic')
        w = ty.w
        if isinstance(v, Undef): return v
        if op == 'zext': return b2i(v, w) if isinstance(v, Bv) else zext(v, w)
        if op == 'sext': return b2i(v, w, True) if isinstance(v, Bv) else sext(v, w)
        if op == 'trunc':
            if w == 1: return i2b(v)
            return trunc(v, w, lambda c: self.known(st, c))
        raise Unsupported(op)

    def read_as(self, st, v, signed):
        """the same bit pattern read as signed/unsigned, avoiding case splits where the path decides"""
        H = 1 << (v.w - 1)
        if v.conc or v.tab is not None: return ass(v) if signed else asu(v)
        if signed:
            if v.hi < H: return v
            k = self.known(st, zi(v.e) < H)
            if k is True: return V(v.w, v.e, v.lo, H - 1, None, v.prov)
            return ass(v)
        if v.lo >= 0: return v
        k = self.known(st, zi(v.e) >= 0)
        if k is True: return V(v.w, v.e, 0, v.hi, None, v.prov)
        return asu(v)

    def gep(self, st, ty, vals):
        p = vals[0]
        if isinstance(p, FnP): raise Unsupported('gep on function')
        if isinstance(p, Undef): raise Unsupported('gep on undef')
        i = self.read_as(st, vals[1], True)
        p = p.addt(ty.size, i.e)
        for v in vals[2:]:
            if ty.k == 'struct':
                k = v.e
                p = p.add(ty.offs[k]); ty = ty.fields[k]
            elif ty.k in ('arr', 'vec'):
                v = self.read_as(st, v, True)
                ty = ty.el
                if getattr(self.regions.get(p.rid), 'vals', None) is not None and v.tab is not None and not p.terms and p.c == 0:
                    # keep table index: remember on the pointer
                    q = Ptr(p.rid, 0, ((ty.size, v.e),))
                    TABIDX[(q.rid, v.e.get_id())] = v
                    KEEP.append(v.e)
                    p = q
                else:
                    p = p.addt(ty.size, v.e)
            else: raise Unsupported('gep into %s' % ty.k)
        return p

    # ---------- memory
    def region(self, st, p, what):
        if isinstance(p, Undef): raise Unsupported('access through undef')
        if isinstance(p, FnP): raise Unsupported('access through function pointer')
        if p.rid is None or p.rid == 'int':
            self.oblige(st, False, 'null dereference')
            raise Dead()
        if p.rid in st.freed:
            self.oblige(st, False, 'use after free')
            raise Dead()
        if self.guard:
            self.guardp = p
            self.guard(self, st, self.regions[p.rid], what)
        return self.regions[p.rid]

    def rsize(self, st, r):
        d = getattr(r, 'dyn', None)
        if d is not None: return st.ghost[('sl', d)]
        return r.size

    def bounds(self, st, p, size, r, what):
        off = p.off
        rs = self.rsize(st, r)
        if rs is None: return
        if isinstance(off, int) and isinstance(rs, int):
            if not (0 <= off and off + size <= rs):
                self.oblige(st, False, 'in bounds (%s %s)' % (what, r.name)); raise Dead()
            return
        lo = zi(off) >= 0
        hi = zi(off) + size <= zi(rs)
        self.oblige(st, z3.And(lo, hi), 'in bounds (%s %s)' % (what, r.name))

    def split(self, st, p, r):
        """(index, field offset) of p in array region r"""
        S = r.stride
        if S == 1: return p.off, 0
        fo = p.c % S
        idx = p.c // S
        for k, t in p.terms:
            if k % S == 0:
                x = t if k == S else (k // S) * t
                idx = x if isinstance(idx, int) and idx == 0 else idx + x
            else:
                e = p.off
                for f in r.fields:
                    if self.known(st, zi(e) % S == f): return zi(e - f) / S, f
                raise Unsupported('pointer arithmetic not aligned to element size')
        return idx, fo

    def load(self, st, p, ty):
        r = self.region(st, p, 'read')
        size = ty.size
        if r.kind in ('arr',):
            self.bounds(st, p, size, r, 'read')
            if ty.k == 'int' and r.stride == 1 and size > 1:
                e = 0
                for k in range(size):
                    b = self.load_elem(st, r, p.add(k), 1)
                    e = binop('or', zext(b, 8 * size), binop('shl', zext(e, 8 * size), V(8 * size, 0), 8 * size) if 0 else V(8 * size, 0), 8 * size) if k == 0 else \
                        binop('or', e, binop('shl', zext(b, 8 * size), V(8 * size, 8 * k), 8 * size), 8 * size)
                return e
            if ty.k == 'int':
                v = self.load_elem(st, r, p, size)
                if ty.w < 8: return i2b(v) if ty.w == 1 else trunc(v, ty.w)
                return v
            if ty.k == 'ptr':
                return self.load_ptr(st, r, p)
            raise Unsupported('load %r from array region' % ty)
        if r.kind == 'obj':
            self.bounds(st, p, size, r, 'read')
            off = p.off
            if not isinstance(off, int):
                off = self.resolve(st, r, off)
            return self.obj_load(st, r, off, ty)
        h = getattr(self, 'load_' + r.kind, None)
        if h: return h(st, r, p, ty)
        raise Unsupported('load from region kind ' + r.kind)

    def resolve(self, st, r, off):
        """symbolic offset into an object region: fork over its known cells"""
        m = st.mem[r.rid]
        for o in sorted(k for k in m if isinstance(k, int)):
            if self.decide(st, Bv(zi(off) == o)): return o
        raise Unsupported('symbolic offset into object %s' % r.name)

    def obj_load(self, st, r, off, ty):
        m = st.mem[r.rid]
        c = m.get(off)
        if c is not None and c[0] == ty.size:
            v = c[1]
            if ty.k == 'int':
                if isinstance(v, Bv): return v if ty.w == 1 else b2i(v, ty.w)
                if ty.w == 1: return i2b(v)
                if isinstance(v, V) and v.w != ty.w: return V(ty.w, v._e, v.lo, v.hi, v.tab, v.prov)
                if isinstance(v, Ptr): return self.cast('ptrtoint', v, ty, st)
                return v
            if ty.k == 'ptr' and isinstance(v, V):
                return self.cast('inttoptr', v, ty, st)
            return v
        if ty.k in ('struct',) :
            return Agg([self.obj_load(st, r, off + ty.offs[i], t) for i, t in enumerate(ty.fields)])
        if ty.k == 'int' and ty.size > 1 and all((off + k) in m and m[off + k][0] == 1 for k in range(ty.size)):
            e = None
            for k in range(ty.size):
                b = zext(m[off + k][1], ty.w)
                e = b if e is None else binop('or', e, binop('shl', b, V(ty.w, 8 * k), ty.w), ty.w)
            return e
        # part of a wider cell
        for o, cc in m.items():
            if isinstance(o, int) and o <= off and off + ty.size <= o + cc[0] and isinstance(cc[1], V) and ty.k == 'int':
                x = binop('lshr', cc[1], V(cc[1].w, 8 * (off - o)), cc[1].w)
                return trunc(x, ty.w)
        for o, cc in m.items():
            if isinstance(o, int) and o < off + ty.size and off < o + cc[0]:
                raise Unsupported('mixed-size access in %s at %s' % (r.name, off))
        # uninitialised / unknown: arbitrary
        v = self.arb(st, ty, '%s.%s' % (r.rid, off))
        m = dict(m); m[off] = (ty.size, v); st.mem[r.rid] = m
        return v

    def arb(self, st, ty, name):
        if ty.k == 'int':
            if ty.w == 1: return Bv(z3.Bool(name + '!%d' % self.fresh_id())) if not self.concrete else Bv(False)
            if self.concrete: return V(ty.w, 0)
            x = self.fresh(name)
            st.pc.append(z3.And(x >= 0, x < (1 << ty.w)))
            if ty.w == 8: return byte_val(x)
            return V(ty.w, x, 0, (1 << ty.w) - 1)
        if ty.k == 'ptr': return Undef()
        if ty.k == 'struct': return Agg([self.arb(st, t, name) for t in ty.fields])
        return Undef()

    def fresh_id(self):
        self.n += 1
        return self.n

    def load_elem(self, st, r, p, size):
        idx, fo = self.split(st, p, r)
        if fo not in r.fields:
            raise Unsupported('load at field offset %d of %s' % (fo, r.name))
        fs = r.fields[fo]
        a = st.mem[r.rid].get(fo)
        if a is None: raise Unsupported('no field %d in %s' % (fo, r.name))
        if isinstance(a, CArr):
            if isinstance(idx, int): return V(8 * size, a.get(idx)) if fs == size else trunc(V(8 * fs, a.get(idx)), 8 * size)
            return self.const_lookup(st, r, p, a, idx, size)
        if isinstance(idx, int): idx = z3.IntVal(idx)
        e = z3.Select(a, idx)
        e = simp_select(e)
        if is_c(e): return V(8 * fs, e)
        KEEP.append(e)
        if fs == 1:
            st.pc.append(z3.And(e >= 0, e <= 255))
            v = byte_val(e)
        else:
            st.pc.append(z3.And(e >= 0, e < (1 << (8 * fs))))
            v = V(8 * fs, e, 0, (1 << (8 * fs)) - 1)
        return v if fs == size else trunc(v, 8 * size)

    def const_lookup(self, st, r, p, a, idx, size):
        vals = a.d
        w = 8 * size
        tv = TABIDX.get((r.rid, p.terms[0][1].get_id())) if len(p.terms) == 1 and p.c == 0 else None
        if tv is None and len(p.terms) == 1 and p.c == 0 and p.terms[0][1].get_id() in BYTES:
            tv = byte_val(p.terms[0][1])
        if tv is not None and single(tv):
            c, ((b, t),) = tv.tab
            n = len(vals)
            return V(w, None, tab=(0, ((b, tuple(vals[c + x] % (1 << w) if 0 <= c + x < n else 0 for x in t)),)))
        # piecewise-affine table over an index expression
        n = len(vals)
        if n <= 256:
            t = tuple((vals[i] if i < n else vals[-1]) for i in range(256))
            e = tab_expr(zi(idx), t)
            return V(w, e, min(vals), max(vals))
        raise Unsupported('large constant table')

    def load_ptr(self, st, r, p):
        idx, fo = self.split(st, p, r)
        tgt = r.fields.get(fo)
        if not isinstance(tgt, tuple): raise Unsupported('pointer load from integer field of %s' % r.name)
        # ('ptr', rid, stride): encoded as 0=null, k+1 = &target[k]
        a = st.mem[r.rid][fo]
        e = asel(a, idx)
        if self.decide(st, Bv(zi(e) == 0) if not is_c(e) else e == 0): return NULL
        return Ptr(tgt[1], tgt[3] if len(tgt) > 3 else 0).addt(tgt[2], e - 1)

    def enc_ptr(self, st, v, tgt):
        if isinstance(v, Undef): return self.fresh('undefptr')
        if v.rid is None: return 0
        if v.rid != tgt[1]: raise Unsupported('pointer into %s stored where %s expected' % (v.rid, tgt[1]))
        base = tgt[3] if len(tgt) > 3 else 0
        idx, fo = self.split(st, v.add(-base), self.regions[tgt[1]])
        return idx + 1

    def store(self, st, p, v, ty):
        r = self.region(st, p, 'write')
        if not r.writable:
            self.oblige(st, False, 'write to read-only memory (%s)' % r.name); raise Dead()
        size = ty.size
        if r.kind == 'arr':
            self.bounds(st, p, size, r, 'write')
            if r.stride == 1 and size > 1 and ty.k == 'int':
                for k in range(size):
                    self.store_elem(st, r, p.add(k), trunc(binop('lshr', v, V(v.w, 8 * k), v.w), 8))
                return
            self.store_elem(st, r, p, v)
            return
        if r.kind == 'obj':
            self.bounds(st, p, size, r, 'write')
            off = p.off
            if not isinstance(off, int): off = self.resolve(st, r, off)
            self.obj_store(st, r, off, v, ty)
            return
        h = getattr(self, 'store_' + r.kind, None)
        if h: return h(st, r, p, v, ty)
        raise Unsupported('store to region kind ' + r.kind)

    def obj_store(self, st, r, off, v, ty):
        if ty.k == 'struct':
            for i, t in enumerate(ty.fields): self.obj_store(st, r, off + ty.offs[i], v.vals[i], t)
            return
        m = dict(st.mem[r.rid])
        for o in [o for o, cc in m.items() if isinstance(o, int) and o < off + ty.size and off < o + cc[0] and not (o == off and cc[0] == ty.size)]:
            del m[o]
        m[off] = (ty.size, v)
        st.mem[r.rid] = m
        self.mod_mark(st, (r.rid, off))

    def mod_mark(self, st, key):
        if st.mods is not None: st.mods.add(key)

    def store_elem(self, st, r, p, v):
        idx, fo = self.split(st, p, r)
        if fo not in r.fields: raise Unsupported('store at field offset %d of %s' % (fo, r.name))
        fs = r.fields[fo]
        a = st.mem[r.rid][fo]
        if isinstance(fs, tuple): e = self.enc_ptr(st, v, fs)
        else:
            if isinstance(v, Bv): v = b2i(v, 8)
            if isinstance(v, Undef): e = self.fresh('undef')
            else:
                if isinstance(v, Ptr): v = self.cast('ptrtoint', v, None, st)
                if v.w != 8 * fs: raise Unsupported('store width %d into field of %d bytes of %s' % (v.w, fs, r.name))
                e = asu(v).e
        m = dict(st.mem[r.rid])
        if isinstance(a, CArr):
            if not isinstance(idx, int):
                if self.concrete: raise Unsupported('symbolic index in concrete mode')
                a = self.carr_to_z3(a)
                m[fo] = z3.Store(a, zi(idx), zi(e))
            elif isinstance(e, int): m[fo] = a.set(idx, e)
            else: m[fo] = z3.Store(self.carr_to_z3(a), zi(idx), zi(e))
        else:
            m[fo] = z3.Store(a, zi(idx), zi(e))
        st.mem[r.rid] = m
        self.mod_mark(st, (r.rid, fo))
        st.ghost[('lw', r.rid)] = idx + 1
        self.mod_mark(st, ('ghost', ('lw', r.rid)))

    def carr_to_z3(self, a):
        z = z3.K(z3.IntSort(), z3.IntVal(0))
        for i, x in enumerate(a.d):
            if x: z = z3.Store(z, i, x)
        return z

    # ---------- running
    def call_fn(self, st, fname, args, callins=None):
        fn = self.mod.fn(fname)
        fr = Frame()
        fr.fn = fn; fr.regs = {'a%d' % i: a for i, a in enumerate(args)}
        fr.blk = 0; fr.idx = 0; fr.prev = None; fr.call = callins; fr.allocas = []
        fr.path = (st.frames[-1].path + ((st.frames[-1].fn.name, callins.id),)) if st.frames and callins is not None else ()
        if len(fr.path) > 12: raise Unsupported('inlining too deep (recursion?) at ' + fname)
        st.frames.append(fr)
        self.inlined.add(fname)

    def run(self, st, ctx=None):
        """explore from st.  Returns list of (kind, state): ret/throw/back/exit"""
        work = [st]
        out = []
        while work:
            s = work.pop()
            if self.deadline and _time() > self.deadline: raise Unsupported('time limit')
            try:
                r = self.advance(s, ctx)
            except Fork as f:
                self.npaths += 1
                if self.npaths > self.maxpaths: raise Unsupported('too many paths')
                a = s.clone(); a.assume(f.c)
                s.assume(b_not(f.c))
                work += [s, a]
                continue
            except Dead:
                continue
            for k, x in r:
                if k == 'cont': work.append(x)
                else: out.append((k, x))
        return out

    def advance(self, s, ctx):
        """run until something interesting"""
        while True:
            if s.pend is not None:
                frm, to = s.pend
                fr = s.frames[-1]
                d = len(s.frames)
                if ctx is not None:
                    if d == ctx.depth:
                        if to == ctx.header: return [('back', s)]
                        if to not in ctx.body: return [('exit', s)]
                    elif d < ctx.depth: return [('exit', s)]
                if to in fr.fn.loops:
                    if getattr(fr.fn, 'irreducible', False): raise Unsupported('irreducible control flow')
                    if self.concrete:
                        key = self.lkey(s, to)
                        # iteration count
                        it = 0 if frm not in fr.fn.loops[to] else s.its.get(key, 0) + 1
                        s.its[key] = it
                        self.enter(s, frm, to)
                        self.snap(s, key, to, first=(it == 0))
                        s.pend = None
                        continue
                    if self.unroll and (ctx is not None or self.unroll_top) and frm not in fr.fn.loops[to] and (fr.fn.name, to) not in self.nounroll:
                        r = self.unrolled(s, to)
                        if r is not None: return r
                        self.nounroll.add((fr.fn.name, to))
                    return self.loop(s, to)
                self.enter(s, frm, to)
                s.pend = None
                continue
            fr = s.frames[-1]
            if ctx is not None and len(s.frames) < ctx.depth: return [('exit', s)]
            ins = fr.fn.blocks[fr.blk].ins[fr.idx]
            self.fuel -= 1
            if self.fuel < 0:
                raise Unsupported('fuel exhausted')
            r = self.step(s, fr, ins)
            if r is not None: return r

    def unrolled(self, s0, header):
        """an inner loop that makes at most self.unroll iterations: run it instead of cutting it (None when it may make more)"""
        depth = len(s0.frames)
        ctx = LoopCtx(depth, header, s0.frames[-1].fn.loops[header])
        mark = len(self.obls)
        outs, cur = [], [s0.clone()]
        for _ in range(self.unroll + 1):
            nxt = []
            for x in cur:
                self.enter(x, *x.pend); x.pend = None
                for k, y in self.run(x, ctx):
                    if k == 'back':
                        if PR.feasible(y.pc, 1.0) is not False: nxt.append(y)
                    elif k == 'exit': outs.append(('cont', y))
                    else: outs.append((k, y))
            if not nxt: return outs
            cur = nxt
            if len(cur) > 64: break
        del self.obls[mark:]
        return None

    def enter(self, s, frm, to):
        fr = s.frames[-1]
        blk = fr.fn.blocks[to]
        vals = []
        n = 0
        for i in blk.ins:
            if i.op != 'phi': break
            for o, b in i.ops:
                if b == frm:
                    vals.append((i.id, self.val(s, o, fr))); break
            n += 1
        if to in fr.fn.loops:
            for k, v in vals:
                if isinstance(v, V) and v.w > 8: v = self.read_as(s, v, self.phi_signed(fr.fn, k))
                fr.regs[k] = v
        else:
            for k, v in vals: fr.regs[k] = v
        fr.prev = frm; fr.blk = to; fr.idx = n
        ln = blk.ins[n].line if n < len(blk.ins) else 0
        s.trace = (s.trace + (ln,))[-60:] if ln else s.trace

    def setr(self, s, fr, ins, v):
        fr.regs[ins.id] = v
        fr.idx += 1

    def step(self, s, fr, ins):
        op = ins.op
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = self.val(s, ins.ops[0]), self.val(s, ins.ops[1])
            fl = ins.x if op in ('add', 'sub', 'mul') else (False, False)
            self.setr(s, fr, ins, self.arith(s, op, a, b, ins.ty.w if ins.ty.k == 'int' else 0, fl)); return
        if op == 'icmp':
            self.setr(s, fr, ins, self.icmp(s, ins.x, self.val(s, ins.ops[0]), self.val(s, ins.ops[1]), ins.ops[0].ty)); return
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr'):
            self.setr(s, fr, ins, self.cast(op, self.val(s, ins.ops[0]), ins.ty, s)); return
        if op in ('bitcast', 'freeze'):
            self.setr(s, fr, ins, self.val(s, ins.ops[0])); return
        if op == 'gep':
            self.setr(s, fr, ins, self.gep(s, ins.x, [self.val(s, o) for o in ins.ops])); return
        if op == 'load':
            p = self.val(s, ins.ops[0])
            v = self.load(s, p, ins.ty)
            self.setr(s, fr, ins, v); return
        if op == 'store':
            p = self.val(s, ins.ops[1])
            self.store(s, p, self.val(s, ins.ops[0]), ins.ops[0].ty)
            fr.idx += 1; return
        if op == 'br':
            if len(ins.x) == 1: s.pend = (fr.blk, ins.x[0]); return
            c = self.val(s, ins.ops[0])
            t = self.decide(s, c)
            s.pend = (fr.blk, ins.x[0] if t else ins.x[1]); return
        if op == 'switch':
            v = self.val(s, ins.ops[0])
            groups = {}
            for cv, b in ins.x[1]: groups.setdefault(b, []).append(cv)
            for cv, b in ins.x[1]:
                g = groups.pop(b, None) if len(groups.get(b, ())) > 3 else None
                if g:
                    # one path per target, not per value
                    es = [icmp('eq', v, const(v.w, x), v.w) for x in g]
                    c = es[0]
                    for e in es[1:]: c = b_or(c, e)
                    if self.decide(s, c): s.pend = (fr.blk, b); return
                elif b in groups and self.decide(s, icmp('eq', v, const(v.w, cv), v.w)):
                    s.pend = (fr.blk, b); return
            s.pend = (fr.blk, ins.x[0]); return
        if op == 'select':
            c = self.val(s, ins.ops[0])
            a, b = self.val(s, ins.ops[1]), self.val(s, ins.ops[2])
            if isinstance(a, V) and isinstance(b, V): v = ite(c, a, b)
            elif isinstance(a, Bv) and isinstance(b, Bv):
                v = b_or(b_and(c, a), b_and(b_not(c), b))
            else: v = a if self.decide(s, c) else b
            self.setr(s, fr, ins, v); return
        if op == 'alloca':
            n = self.val(s, ins.ops[0])
            rid = 'L:%s:%s' % (fr.fn.name, ins.id) + (('@' + '/'.join('%s.%s' % x for x in fr.path)) if fr.path else '')
            ty = ins.x
            s.freed = s.freed - {rid}
            self.alloca(s, fr, rid, ty, n)
            self.setr(s, fr, ins, Ptr(rid)); return
        if op == 'ret':
            v = self.val(s, ins.ops[0]) if ins.ops else None
            return self.do_ret(s, v)
        if op in ('call', 'invoke'): return self.do_call(s, fr, ins)
        if op == 'unreachable':
            self.oblige(s, False, 'unreachable code reached')
            raise Dead()
        if op == 'extractvalue':
            a = self.val(s, ins.ops[0])
            for k in ins.x: a = a.vals[k]
            self.setr(s, fr, ins, a); return
        if op == 'insertvalue':
            a = self.val(s, ins.ops[0]); b = self.val(s, ins.ops[1])
            def put(a, ix):
                vs = list(a.vals)
                vs[ix[0]] = b if len(ix) == 1 else put(vs[ix[0]], ix[1:])
                return Agg(vs)
            if not isinstance(a, Agg): a = Agg([Undef()] * ins.ty.n)
            self.setr(s, fr, ins, put(a, ins.x)); return
        if op == 'landingpad':
            sel = self.lp_selector(s, ins)
            self.setr(s, fr, ins, Agg([Ptr('exc'), V(32, sel)])); return
        if op == 'resume':
            return self.unwind(s)
        if op in ('fence',):
            fr.idx += 1; return
        raise Unsupported('instruction ' + op)

    def alloca(self, s, fr, rid, ty, n):
        if n.conc:
            if ty.k == 'arr' and ty.el.k == 'int':
                self.add_region(s, rid, 'arr', size=ty.size, stride=ty.el.size)
            elif ty.k == 'int' and ty.w == 8 and n.e != 1:
                self.add_region(s, rid, 'arr', size=n.e, stride=1)
            else:
                self.add_region(s, rid, 'obj', size=ty.size * n.e)
        else:
            self.add_region(s, rid, 'arr', size=binop('mul', asu(n), V(64, ty.size), 64).e, stride=ty.size)
        if ty.k == 'struct': self.regions[rid].ty = ty
        fr.allocas = fr.allocas + [rid]

    def icmp(self, s, p, a, b, ty):
        if isinstance(a, (Ptr, FnP)) or isinstance(b, (Ptr, FnP)):
            if isinstance(a, FnP) or isinstance(b, FnP):
                if isinstance(a, FnP) and isinstance(b, FnP): eq = a.name == b.name
                else: eq = False
                return Bv(eq if p == 'eq' else not eq)
            if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported('comparison with undefined pointer')
            if a.rid == b.rid:
                d = a
                for k, t in b.terms: d = d.addt(-k, t)
                d = d.add(-b.c)
                f = CMP[p]
                e = d.off
                if isinstance(e, int): return Bv(bool(f(e, 0)))
                return Bv(f(zi(a.off), zi(b.off)))
            if p in ('eq', 'ne'):
                if self.may_alias(a, b): raise Unsupported('comparison of pointers into regions that may alias')
                return Bv(p == 'ne')
            if a.rid is None or b.rid is None:
                # null is below every object
                f = CMP[p]
                return Bv(bool(f(0 if a.rid is None else 1, 0 if b.rid is None else 1)))
            raise Unsupported('ordering of pointers into different objects')
        if isinstance(a, Bv):
            eq = b_not(b_xor(a, b))
            if p == 'eq': return eq
            if p == 'ne': return b_not(eq)
            raise Unsupported('i1 compare')
        if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported('comparison with undefined value')
        return icmp(p, a, b, ty.w)

    def may_alias(self, a, b): return False

    def do_ret(self, s, v):
        fr = s.frames[-1]
        for rid in fr.allocas: s.freed = s.freed | {rid}
        if len(s.frames) == 1:
            s.ret = v
            return [('ret', s)]
        s.frames.pop()
        c = s.frames[-1]
        ins = fr.call
        c.regs[ins.id] = v
        if ins.op == 'invoke': s.pend = (c.blk, ins.x[1])
        else: c.idx += 1
        return None

    def finish_call(self, s, fr, ins, v):
        fr.regs[ins.id] = v
        if ins.op == 'invoke': s.pend = (fr.blk, ins.x[1])
        else: fr.idx += 1

    def throw(self, s, ti):
        """an exception of C++ type ti propagates from the current instruction of the top frame"""
        s.exc = ti
        while s.frames:
            fr = s.frames[-1]
            ins = fr.fn.blocks[fr.blk].ins[fr.idx]
            if ins.op == 'invoke':
                s.pend = (fr.blk, ins.x[2])
                return None
            for rid in fr.allocas: s.freed = s.freed | {rid}
            if len(s.frames) == 1: return [('throw', s)]
            s.frames.pop()

    def unwind(self, s):
        fr = s.frames[-1]
        for rid in fr.allocas: s.freed = s.freed | {rid}
        if len(s.frames) == 1: return [('throw', s)]
        s.frames.pop()
        return self.throw(s, s.exc)

    BASES = {'_ZTI10coda_error': ('_ZTI10coda_error', '_ZTISt9exception')}

    def lp_selector(self, s, ins):
        bases = self.BASES.get(s.exc, (s.exc,))
        for o in ins.ops:
            if o.k == 'global' and o.v in bases: return self.typeid(o.v)
            if o.k == 'null': return self.typeid('...')
            if o.k in ('agg', 'zero'):     # filter
                lst = [x.v for x in o.v] if o.k == 'agg' else []
                if not any(x in bases for x in lst): return (1 << 32) - 1
        return 0

    def typeid(self, name):
        return 1 + sum(ord(c) * 31 ** i for i, c in enumerate(name[-12:])) % 1000000

    def do_call(self, s, fr, ins):
        co = ins.x[0]
        args = None
        if co.k == 'fn': name = co.v
        else:
            t = self.val(s, co)
            if isinstance(t, FnP): name = t.name
            else:
                h = self.handlers.get('<indirect>')
                if h:
                    args = [self.val(s, o) for o in ins.ops]
                    v = h(self, s, ins, args)
                    return self.call_result(s, fr, ins, v)
                raise Unsupported('indirect call')
        args = [self.val(s, o) for o in ins.ops]
        h = self.handlers.get(name)
        if h is None:
            for pre, hh in self.handlers.items():
                if pre.endswith('*') and name.startswith(pre[:-1]): h = hh; break
        c = self.contracts.get(name)
        if c is not None and not self.concrete:
            self.called.add(name)
            v = c(self, s, ins, args)
            return self.call_result(s, fr, ins, v)
        if h is not None:
            self.trusted.add(name)
            v = h(self, s, ins, args)
            return self.call_result(s, fr, ins, v)
        fn = self.mod.fns.get(name)
        if fn is not None and not fn.decl:
            if any(f.fn.name == name for f in s.frames): raise Unsupported('recursive call to ' + name)
            self.call_fn(s, name, args, ins)
            return None
        raise Unsupported('call to unknown external function ' + name)

    def call_result(self, s, fr, ins, v):
        if isinstance(v, Multi):
            out = []
            for st2, val, exc in v.alts:
                if exc:
                    r = self.throw(st2, exc)
                    out += r if r else [('cont', st2)]
                else:
                    self.finish_call(st2, st2.frames[-1], ins, val)
                    out.append(('cont', st2))
            return out
        if isinstance(v, Throw):
            r = self.throw(s, v.ti)
            return r if r else [('cont', s)]
        self.finish_call(s, fr, ins, v)
        return None

    # ---------- loops
    def lkey(self, s, header):
        fr = s.frames[-1]
        return (fr.path, fr.fn.name, header)

    def phis(self, fr, header):
        return [i for i in fr.fn.blocks[header].ins if i.op == 'phi']

    def terms(self, s, key, header):
        """named integer terms available at a loop header (registers live there, memory cells, ghosts)"""
        fr = s.frames[-1]
        t = {}
        hdrs = [header] + [h for h, body in fr.fn.loops.items() if h != header and header in body]
        for i in [i for h in hdrs for i in self.phis(fr, h)]:
            v = fr.regs.get(i.id)
            nm = 'phi:%s' % i.id
            if isinstance(v, V):
                if v.w >= 8:
                    if v.w >= 16: t[nm] = v.e
                    else: t[nm + '#b'] = v.e
            elif isinstance(v, Bv):
                t[nm + '#B'] = v.b
            elif isinstance(v, Ptr):
                if v.rid is not None: t[nm + '@' + str(v.rid)] = v.off
                else: t[nm + '@null'] = 1
        t['it'] = s.its.get(key, 0)
        if self.viewhook: self.viewhook(self, s, t)
        return t

    def snap(self, s, key, header, first):
        t = self.terms(s, key, header)
        x = (t, s.clone())
        L = self.traces.setdefault(key, [])
        if len(L) < 4000: L.append(x)


class Multi:
    def __init__(s, alts): s.alts = alts


class Throw:
    def __init__(s, ti): s.ti = ti


class Dead(Exception):
    pass


class ConcreteBad(Exception):
    pass


TABIDX = {}
BYTES = {}


def _glob(o):
    if o is None: return None
    if o.k == 'global': return o.v
    if o.k == 'cexpr':
        for x in o.ops:
            g = _glob(x)
            if g: return g
    return None


def simp_select(e):
    """read-over-write with syntactically equal / distinct-constant indices"""
    a, i = e.arg(0), e.arg(1)
    while z3.is_store(a):
        j = a.arg(1)
        if i.get_id() == j.get_id():
            v = a.arg(2)
            return v.as_long() if z3.is_int_value(v) else v
        d = z3.simplify(i - j)
        if z3.is_int_value(d):
            if d.as_long() == 0:
                v = a.arg(2)
                return v.as_long() if z3.is_int_value(v) else v
            a = a.arg(0); continue
        break
    if a.get_id() != e.arg(0).get_id(): return z3.Select(a, i)
    return e


class _Flat:
    pass


def flat_table(ty, init):
    """clang splits an array initialiser with a long zero tail into a packed struct: put it together again"""
    el = ty.fields[0].el
    vals = []
    for i, t in enumerate(ty.fields):
        sub = init.v[i] if init.k == 'agg' else None
        n = t.n if t.k == 'arr' else 1
        if sub is None or sub.k == 'zero': vals += [0] * n
        elif t.k == 'arr': vals += [x.v if x.k == 'int' else 0 for x in sub.v]
        else: vals.append(sub.v if sub.k == 'int' else 0)
    a = _Flat(); a.k, a.el, a.n, a.size = 'arr', el, len(vals), ty.size
    g = _Flat(); g.k = 'agg'; g.v = []
    for x in vals:
        o = _Flat(); o.k, o.v = 'int', x; g.v.append(o)
    return a, g


import time as _t


def _time(): return _t.time()
