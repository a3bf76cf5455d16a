"""coda_cache (templates instantiated in units/cache.cpp).  std::unordered_map is an assumed contract: a finite map from keys to nodes (ghost M:
key -> node + 1, or 0); a node may be touched only while it is in the map.  The list through the nodes is described by ghost functions:
q(i) = i-th node from the oldest, pos = its inverse, S(i) = capacity of the first i values."""
import z3
from vc.spec import *
import vc.loop
from vc.exec import Unsupported, Ptr, NULL, Undef, Agg, Exec
from vc.ir import Ty
from vc.sym import V, asu, zi
from vc.prove import SpecFn

F, CU, X = 'coda/cache.tcc', 'units/cache.cpp', ('-fexceptions',)
CC = '_ZN10coda_cacheIm3valE'
UM = '_ZNSt13unordered_mapImN10coda_cacheIm3valE6elem_tESt4hashImESt8equal_toImESaISt4pairIKmS3_EEE'
IT = '_ZNKSt8__detail14_Node_iteratorISt4pairIKmN10coda_cacheIm3valE6elem_tEELb0ELb0EE'
CAP, BIG, U64 = 1 << 40, 1 << 62, 1 << 64
KEY, VAL, PREV, NEXT, SIZE, TIME = 0, 8, 16, 24, 32, 40
BEG, END, CUR, MAX, TMAX = 56, 64, 72, 80, 88
NP = ('ptr', 'P:N', 48)
NODES = Buf('N', CAP, w=True, el=48, fields={KEY: 8, VAL: 8, PREV: NP, NEXT: NP, SIZE: 8, TIME: 8})
SELF = Buf('this', 1, w=True, el=96, fields={BEG: NP, END: NP, CUR: 8, MAX: 8, TMAX: 8})
I64 = None
NOW = z3.Int('now')
M0 = z3.Array('M0', z3.IntSort(), z3.IntSort())


def i64(ex):
    t = Ty('int'); t.w, t.size = 64, 8
    return t


def gM(st): return st.ghost[('c', 'M')]


def setM(ex, st, m): st.ghost[('c', 'M')] = m; ex.mod_mark(st, ('ghost', ('c', 'M')))


def havocM(ex, h, k): h.ghost[k] = ex.fresh_arr('M')


Exec.ghost_havoc['c'] = havocM


def node(ex, st, p, fo=0):
    """index of the node that p refers to"""
    if not isinstance(p, Ptr) or p.rid != 'P:N': raise Unsupported('not a node of the cache')
    idx, f = ex.split(st, p, ex.regions['P:N'])
    if f != fo: raise Unsupported('not the address of a node')
    return idx


def live(ex, st, j):
    return z3.Select(gM(st), z3.Select(st.mem['P:N'][KEY], zi(j))) == zi(j) + 1


def guard(ex, st, r, what):
    if r.rid != 'P:N' or ex.concrete: return
    idx, f = ex.split(st, ex.guardp, r)
    ex.oblige(st, live(ex, st, idx), 'the element is in the map when it is used')


def key(ex, st, p): return asu(ex.load(st, p, i64(ex))).e


def it_node(st_, M, k): return z3.Select(M, zi(k))


def h_find(ex, st, ins, a):
    k = key(ex, st, a[1])
    m = z3.Select(gM(st), zi(k))
    if ex.decide(st, Bv(m == 0)): return NULL
    return Ptr('P:N').addt(48, m - 1)


def h_count(ex, st, ins, a):
    k = key(ex, st, a[1])
    return V(64, z3.If(z3.Select(gM(st), zi(k)) == 0, 0, 1), 0, 1)


def h_end(ex, st, ins, a): return NULL


def h_deref(ex, st, ins, a):
    t = Ty('ptr'); t.size = 8
    return ex.load(st, a[0], t)


def h_insert(ex, st, ins, a):
    """the pair at a[1] gets a node of its own unless its key is there already"""
    k = key(ex, st, a[1])
    m = z3.Select(gM(st), zi(k))
    if ex.decide(st, Bv(m == 0)):
        vals = {}
        for fo, w in NODES.fields.items():
            if isinstance(w, tuple):
                t = Ty('ptr'); t.size = 8
                x = ex.load(st, a[1].add(fo), t)
                vals[fo] = ex.enc_ptr(st, x, w)
            else: vals[fo] = asu(ex.load(st, a[1].add(fo), i64(ex))).e
        j = ex.fresh('node')
        st.pc.append(z3.And(j >= 0, j < CAP, z3.Not(live(ex, st, j))))
        mm = dict(st.mem['P:N'])
        for fo, x in vals.items():
            mm[fo] = z3.Store(mm[fo], j, zi(x)); ex.mod_mark(st, ('P:N', fo))
        st.mem['P:N'] = mm
        setM(ex, st, z3.Store(gM(st), zi(k), j + 1))
        st.ghost[('c', 'j')] = j; ex.mod_mark(st, ('ghost', ('c', 'j')))
        return Agg([Ptr('P:N').addt(48, j), V(8, 1)])
    return Agg([Ptr('P:N').addt(48, m - 1), V(8, 0)])


def drop(ex, st, k): setM(ex, st, z3.Store(gM(st), zi(k), 0))


def h_erase_it(ex, st, ins, a):
    j = node(ex, st, a[1])
    ex.oblige(st, live(ex, st, j), 'erase of an element that is in the map')
    drop(ex, st, z3.Select(st.mem['P:N'][KEY], zi(j)))
    return Undef()


def h_erase_key(ex, st, ins, a):
    k = key(ex, st, a[1])
    m = z3.Select(gM(st), zi(k))
    drop(ex, st, k)
    return V(64, z3.If(m == 0, 0, 1), 0, 1)


def h_time(ex, st, ins, a): return V(64, NOW, 0, BIG)


def h_assign(ex, st, ins, a):
    ex.store(st, a[0], ex.load(st, a[1], i64(ex)), i64(ex))
    return a[0]


def h_val0(ex, st, ins, a): ex.store(st, a[0], V(64, 0), i64(ex))


CAPF = z3.Function('cap', z3.IntSort(), z3.IntSort())


def cap(x): return CAPF(zi(x))


def h_cap(ex, st, ins, a):
    x = asu(ex.load(st, a[0], i64(ex))).e
    c = cap(x)
    st.pc.append(z3.And(c >= 0, c < BIG))
    return V(64, c, 0, BIG - 1)


def nop(ex, st, ins, a): return None


HS = {UM + '4findERS9_': h_find, UM + '5countERS9_': h_count, UM.replace('_ZN', '_ZNK', 1) + '5countERS9_': h_count, UM + '3endEv': h_end, IT + 'ptEv': h_deref, IT + 'deEv': h_deref, UM + '6insertEOSA_': h_insert, UM + '6insertERKSA_': h_insert,
      UM + '5eraseENSt8__detail14_Node_iteratorISA_Lb0ELb0EEE': h_erase_it, UM + '5eraseERS9_': h_erase_key, 'time': h_time, '_ZN3valaSERKS_': h_assign, '_ZNK3val17estimate_capacityEv': h_cap}
for x in '12':
    HS['_ZN3valC%sEv' % x] = h_val0
    HS['_ZN3valC%sERKS_' % x] = lambda ex, st, ins, a: (h_assign(ex, st, ins, a), None)[1]
    HS['_ZN3valD%sEv' % x] = nop


class G:
    """view of the cache: n, q, pos, S as above; mem(fo) = accessor of a node field, T(off) = field of the object, M = the map"""
    def __init__(g, n, q, pos, S, f, T, M): g.n, g.q, g.pos, g.S, g.f, g.T, g.M = n, q, pos, S, f, T, M

    def inv(g, v, full=True):
        n, q, pos, S, f, T, M = g.n, g.q, g.pos, g.S, g.f, g.T, g.M
        m = lambda k: z3.Select(M, zi(k))

        def at(i):
            x = q(i)
            r = [x >= 0, x < CAP, pos(x) == i, m(f(KEY)(x)) == x + 1, f(PREV)(x) == Ite(i == 0, 0, q(i - 1) + 1), f(NEXT)(x) == Ite(i == n - 1, 0, q(i + 1) + 1)]
            if full: r += [S(i + 1) == S(i) + f(SIZE)(x), f(SIZE)(x) == cap(f(VAL)(x)), f(SIZE)(x) >= 0, f(TIME)(x) < BIG]
            return And(r)
        def at2(k):
            x = m(k) - 1
            return Or(m(k) == 0, And(x >= 0, x < CAP, f(KEY)(x) == k, pos(x) >= 0, pos(x) < n, q(pos(x)) == x))
        return [('counters', And(n >= 0, S(0) == 0, T(CUR) == S(n), T(BEG) == Ite(n > 0, q(0) + 1, 0), T(END) == Ite(n > 0, q(n - 1) + 1, 0))),
                ('list', v.forall(0, n, at)), ('map', v.forall(0, U64, at2))]


def fn1(name):
    return z3.Function(name, z3.IntSort(), z3.IntSort())


Q0, P0, S0 = fn1('q0'), fn1('pos0'), fn1('S0')
N0 = z3.Int('n0')
q0, p0, s0 = (lambda i: Q0(zi(i))), (lambda x: P0(zi(x))), (lambda i: S0(zi(i)))


def acc(v, which):
    return (lambda fo: v.N.f(fo)[which]), (lambda o: v.this.f(o)[which](0))


def g0(v):
    f, T = acc(v, 0)
    return G(N0, q0, p0, s0, f, T, M0)


def pre(v):
    g = g0(v)
    T = g.T
    r = [f for _, f in g.inv(v)] + [NOW >= 0, NOW < BIG, T(TMAX) < BIG, s0(N0) < BIG, N0 < CAP,
             s0(N0) >= 0, v.forall(0, N0, lambda i: And(s0(i) >= 0, s0(i + 1) <= s0(N0)))]       # follow from the recurrence (lemma at the end)
    return r


def cur(v, n, q, pos, S):
    f, T = acc(v, 1)
    return G(n, q, pos, S, f, T, gM(v.st))


def whole(v, g, m1, at):
    """invariant of the current state, the map is m1(k), and every element is what at(field, node) says"""
    f = g.f
    return [('invariant: ' + a, b) for a, b in g.inv(v)] + \
        [('map', v.forall(0, U64, lambda k: z3.Select(g.M, k) == m1(k)))] + \
        [('contents', v.forall(0, g.n, lambda i: And([f(fo)(g.q(i)) == at(fo, g.q(i)) for fo in (KEY, VAL, TIME)]))),
         ('limits', And(g.T(MAX) == v.this.f(MAX)[0](0), g.T(TMAX) == v.this.f(TMAX)[0](0)))]


def same(v):
    g = g0(v)
    return [('nothing changes', And(v.forall(0, N0, lambda i: And([v.N.f(fo)[1](q0(i)) == v.N.f(fo)[0](q0(i)) for fo in NODES.fields])), gM(v.st) == M0, *[v.this.f(o)[1](0) == v.this.f(o)[0](0) for o in SELF.fields]))]


def ekey(v): return v.key[0]


def erased(v, k):
    """state after key k (which is there) was removed"""
    g = g0(v)
    j = z3.Select(M0, zi(k)) - 1
    p = p0(j)
    c = cur(v, N0 - 1, lambda i: Ite(i < p, q0(i), q0(i + 1)), lambda x: Ite(p0(x) > p, p0(x) - 1, p0(x)), lambda i: Ite(i <= p, s0(i), s0(i + 1) - g.f(SIZE)(j)))
    return whole(v, c, lambda x: z3.If(zi(x) == zi(k), 0, z3.Select(M0, zi(x))), lambda fo, x: g.f(fo)(x))


def cond(c, L): return [(a, Imp(c, b)) for a, b in L]


def has(v, k): return z3.Select(M0, zi(k)) != 0


def expired(v, k):
    g = g0(v)
    return And(g.T(TMAX) != 0, g.f(TIME)(z3.Select(M0, zi(k)) - 1) + g.T(TMAX) < NOW)


def get_post(v):
    k = ekey(v)
    r = v.retv
    found = And(has(v, k), Not(expired(v, k)))
    null = r.rid is None
    L = [('found exactly when it is there and fresh', found if not null else Not(found))]
    if not null:
        ok = isinstance(r, Ptr) and r.rid == 'P:N'
        L += [('the value of the key', (zi(r.off) == 48 * (z3.Select(M0, zi(k)) - 1) + VAL) if ok else False)]
    return L + cond(Not(And(has(v, k), expired(v, k))), same(v)) + cond(And(has(v, k), expired(v, k)), erased(v, k))


def get2_post(v):
    k = ekey(v)
    found = And(has(v, k), Not(expired(v, k)))
    g = g0(v)
    return [('the value of the key, or untouched', v.out.new(0) == Ite(found, g.f(VAL)(z3.Select(M0, zi(k)) - 1), v.out[0]))] + \
        cond(Not(And(has(v, k), expired(v, k))), same(v)) + cond(And(has(v, k), expired(v, k)), erased(v, k))


def erase_post(v):
    k = ekey(v)
    return [('reported exactly when it was there', Iff(v.ret, has(v, k)))] + cond(Not(has(v, k)), same(v)) + cond(has(v, k), erased(v, k))


def stored(v):
    """(n, q, pos, S, map, contents) once the pair is the newest, before anything is dropped"""
    g = g0(v)
    k = ekey(v)
    old = has(v, k)
    jn = v.st.ghost.get(('c', 'j'), -1)
    jo = z3.Select(M0, zi(k)) - 1
    p = p0(jo)
    c1 = cap(v.val[0])
    n = Ite(old, N0, N0 + 1)
    j = Ite(old, jo, jn)
    q = lambda i: Ite(i == n - 1, j, Ite(And(old, i >= p), q0(i + 1), q0(i)))
    pos = lambda x: Ite(x == j, n - 1, Ite(And(old, p0(x) > p), p0(x) - 1, p0(x)))
    szo = g.f(SIZE)(jo)
    S = lambda i: Ite(i == n, s0(N0) - Ite(old, szo, 0) + c1, Ite(And(old, i > p), s0(i + 1) - szo, s0(i)))
    def m1(x): return z3.If(zi(x) == zi(k), zi(j) + 1, z3.Select(M0, zi(x)))
    def at(fo, x): return Ite(x == j, {KEY: k, VAL: v.val[0], TIME: Ite(And(old, v.upd == 0), g.f(TIME)(jo), NOW), SIZE: c1}.get(fo), g.f(fo)(x))
    return n, q, pos, S, m1, at


def dropped(v):
    """the state is `stored` with the e oldest elements gone; e is read off the list head"""
    n, q, pos, S, m1, at = stored(v)
    f, T = acc(v, 1)
    b = T(BEG)
    e = Ite(b == 0, n, pos(b - 1))
    g = cur(v, n - e, lambda i: q(i + e), lambda x: pos(x) - e, lambda i: S(i + e) - S(e))
    return e, n, S, And(e >= 0, e <= n), whole(v, g, lambda x: Ite(And(m1(x) != 0, pos(m1(x) - 1) < e), 0, m1(x)), at), v.forall(0, e, lambda i: S(n) - S(i) > v.this.f(MAX)[0](0))


def set_post(v):
    e, n, S, rng, w, least = dropped(v)
    return [('some of the oldest are dropped', rng), ('the limit is kept', S(n) - S(e) <= v.this.f(MAX)[0](0)), ('no more than necessary', least)] + w


def drop_inv(v):
    e, n, S, rng, w, least = dropped(v)
    return And(rng, least, *[f for _, f in w])


def left(e, st, t, v):
    if 'val' in v.old: t['a:left'] = v_left(v.at(st))


def v_left(v):
    n, q, pos, S, m1, at = stored(v)
    b = v.this.f(BEG)[1](0)
    return n - Ite(b == 0, n, pos(b - 1))


def setup(ex, st, v, inputs):
    st.ghost[('c', 'M')] = M0
    st.freed = st.freed


KEYP = Buf('key', 1, el=8)


# ---------------------------------------------------------------- the real code, natively: a history of calls
def n_post(v):
    ops = [v.ops[i] for i in range(4 * v.n)]
    now, lst, ret = 1000, [], []              # oldest first: [key, value, time]
    def find(k): return next((i for i, e in enumerate(lst) if e[0] == k), -1)
    for i in range(v.n):
        kind, k, x, adv = ops[4 * i:4 * i + 4]
        now += adv
        j = find(k)
        r = 0
        if kind & 3 in (0, 1):
            if j >= 0 and v.tmax and lst[j][2] + v.tmax < now: lst.pop(j); j = -1
            r = lst[j][1] if j >= 0 else (1 if kind & 3 == 0 else x)
        elif kind & 3 == 2:
            r = int(j >= 0)
            if j >= 0: lst.pop(j)
        else:
            t = now
            if j >= 0:
                t = now if kind & 4 else lst[j][2]
                lst.pop(j)
            lst.append([k, x, t])
            while sum(e[1] >> 8 for e in lst) > v.smax: lst.pop(0)
        ret.append(r)
    R = lambda i: v.res.new(i)
    return [('results', [R(i) for i in range(v.n)] == ret), ('consistent, and as many as there should be', R(24) == len(lst)), ('size', R(25) == sum(e[1] >> 8 for e in lst)),
            ('contents, oldest first', R(24) > 12 or [[R(26 + 3 * i + c) for c in range(3)] for i in range(R(24))] == lst)]


def n_gen(rng, i):
    n = rng.choice([1, 2, 3, 4, 6, 9, 14, 20])
    K = rng.choice([1, 2, 3, 4, 8])
    ops = []
    w = rng.choice([[0, 3, 3, 3, 2], [3, 3, 0, 1], [3, 3, 3, 2], [3]])
    for _ in range(n): ops += [rng.choice(w) + 4 * rng.randrange(2), rng.randrange(K), rng.choice([0, 1, 5, 10, 10, 30, 100, 1 << 32, (1 << 32) + 20]) * 256 + rng.randrange(2, 256), rng.choice([0, 0, 1, 5, 60])]
    return dict(ops=ops, n=n, smax=rng.choice([0, 1, 10, 30, 100, 1 << 32, (1 << 32) + 30, 1 << 40]), tmax=rng.choice([0, 0, 1, 5, 60, 1000, 1 << 32]), res=[0] * 70)


NAT = Contract('v_cache', F, [Buf('ops', lambda v: 4 * v.n, el=8), Int('n'), Int('smax'), Int('tmax'), Buf('res', lambda v: 70, w=True, el=8)], cxx=True, extra=X + ('-fno-access-control',), post=n_post, gen=n_gen,
               pre=lambda v: [v.n <= 20, 4 * v.n == len(v.ops.old), v.tmax < BIG] + [And(v.ops[4 * i + 1] < 8, v.ops[4 * i + 3] < BIG // 32, v.ops[4 * i] < 8) for i in range(min(v.n, 20))], opts={'nsrc': ['/verif/units/cache_n.cpp'], 'secs': 1.0, 'leak_ok': True})


def cc(name, sym, params, post, ret=None, **kw):
    d = dict(pre=pre)
    d.update(kw)
    return Contract('coda_cache::' + name, F, params, ret=ret, cxx=True, shim=CU, extra=X, handlers=HS, post=post, setup=setup, gen=lambda rng, i: None, symfind=lambda m: CC + sym, native=False, opts={'guard': guard, 'fresh': True, 'alt': NAT}, timeout=20.0, **d)


def ctor_post(v):
    T = acc(v, 1)[1]
    return [('empty', And(T(BEG) == 0, T(END) == 0, T(CUR) == 0, v.forall(0, U64, lambda k: z3.Select(gM(v.st), k) == 0))), ('limits', And(T(MAX) == v.smax, T(TMAX) == v.tmax))]


def h_new(ex, st, ins, a):
    ex.oblige(st, isinstance(a[0], Ptr) and a[0].rid == 'P:this' and a[0].off == 0, 'the map of the cache')
    setM(ex, st, z3.K(z3.IntSort(), z3.IntVal(0)))


HS[UM + 'C2Ev'] = HS[UM + 'C1Ev'] = h_new
ALL = [cc('coda_cache', 'C2Emm', [SELF, Int('smax'), Int('tmax')], ctor_post, pre=None),
       cc('get', '3getERKm', [SELF, KEYP, NODES], get_post, 'ptr'),
       cc('get (copy)', '3getERKmRS0_', [SELF, KEYP, Buf('out', 1, w=True, el=8), NODES], get2_post),
       cc('erase', '5eraseERKm', [SELF, KEYP, NODES], erase_post, 'bool'),
       cc('set', '3setERKmRKS0_b', [SELF, KEYP, Buf('val', 1, el=8), Int('upd', 1), NODES], set_post, pre=lambda v: pre(v) + [s0(N0) + cap(v.val[0]) < BIG, cap(v.val[0]) >= 0], viewhook=left, budget=600, inv=[('dropping', 0, lambda v: drop_inv(v))])]

# ---------------------------------------------------------------- lemma: partial sums of capacities lie between 0 and the total (induction, base and step)
from vc.lemma import Lemma


def sums():
    S, w = z3.Function('S', z3.IntSort(), z3.IntSort()), z3.Function('w', z3.IntSort(), z3.IntSort())
    n, i = z3.Ints('n i')
    rec = [S(0) == 0, n >= 0, i >= 0, i < n, S(i + 1) == S(i) + w(i), w(i) >= 0]
    return [('S(0) is not negative', [S(0) == 0], S(0) >= 0),
            ('S(i + 1) is not negative if S(i) is not', rec + [S(i) >= 0], S(i + 1) >= 0),
            ('S(n) is not above S(n)', [], S(n) <= S(n)),
            ('S(i) is not above S(n) if S(i + 1) is not', rec + [S(i + 1) <= S(n)], S(i) <= S(n))]


ALLL = ALL + [Lemma('partial sums of capacities', sums, note='induction upwards for S >= 0, downwards for S <= S(n)')]


# ---------------------------------------------------------------- estimate_capacity: the size of the object plus what it holds elsewhere
CAPN = z3.Int('capacity')


def h_capacity(ex, st, ins, a):
    st.pc.append(z3.And(CAPN >= 0, CAPN < BIG // 32))
    return V(64, CAPN, 0, BIG // 32 - 1)


def ec(kind, sym, extra_h=()):
    own, each = KIND[kind]
    return Contract(sym, 'coda/estimate_capacity.hpp', [Buf('v', 1)], ret='u64', cxx=True, shim=CU, extra=X, handlers=dict(extra_h), gen=lambda rng, i: None, native=False,
                    post=lambda v: [('own size and what it holds', v.ret == own + each * CAPN)], opts={'alt': NEC})


KIND = [(24, 8), (32, 1), (32, 4), (8, 0), (0, 1), (1, 0), (1, 0), (2, 0), (2, 0), (4, 0), (4, 0), (8, 0), (8, 0), (8, 0), (8, 0), (4, 0), (8, 0), (16, 0)]
NEC = Contract('v_ec', 'coda/estimate_capacity.hpp', [Int('kind'), Int('n'), Buf('res', lambda v: 2, w=True, el=8)], cxx=True, extra=X + ('-fno-access-control',), pre=lambda v: [v.kind < 18, v.n < 5000],
               gen=lambda rng, i: dict(kind=i % 18 if i < 36 else rng.randrange(5), n=rng.choice([0, 1, 14, 15, 16, 17, 31, 100, 4096, rng.randrange(5000)]), res=[0, 0]),
               post=lambda v: [('own size and what it holds', v.res.new(0) == KIND[v.kind][0] + KIND[v.kind][1] * v.res.new(1))], opts={'nsrc': ['/verif/units/cache_n.cpp'], 'secs': 0.3})

CAPS = {'_ZNKSt6vectorImSaImEE8capacityEv': h_capacity, '_ZNKSt7__cxx1112basic_stringIDiSt11char_traitsIDiESaIDiEE8capacityEv': h_capacity, '_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE8capacityEv': h_capacity, '_ZNK3val17estimate_capacityEv': h_capacity}
EC = [ec(k, 'ec_' + n, CAPS) for k, n in enumerate('vec str wstr ptr obj c uc s us i u l ul ll ull f d ld'.split())]
ALL += EC
ALLL += EC
