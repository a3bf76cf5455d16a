"""shm::stack, shm::pool, shm::hash_map (templates instantiated in units/shm.cpp)"""
from vc.spec import *

F = 'coda/shm_pool.tcc'
SH = 'units/shm.cpp'
N, H = 24, 11
M = 0xffffffff
X = ('-fexceptions',)


def used(top): return Ite(top == M, 0, top + 1)


class PoolG:
    """ghost view of a pool: fpos(n) = position of n in the stack of free cells (or -1), apos/alist = a numbering of the cells
    that are handed out.  Symbolically the three functions are uninterpreted; concretely they are computed"""
    def __init__(g, v, tag, cur, top, stk, fns=None):
        g.v, g.cur, g.top, g.stk = v, cur, top, stk
        if fns is not None and not v.conc: g.fpos, g.apos, g.alist = fns; return

        def lst(): return [n for n in range(cur) if g.fpos(n) < 0]
        no = lambda sf, n: []
        g.fpos = v.fn(tag + 'fpos', 1, no, lambda sf, n: next((i for i in range(used(top)) if stk(i) == n), -1))
        g.apos = v.fn(tag + 'apos', 1, no, lambda sf, n: lst().index(n) if n in lst() else -1)
        g.alist = v.fn(tag + 'alist', 1, no, lambda sf, i: lst()[i] if 0 <= i < len(lst()) else -1)

    @property
    def nalloc(g): return g.cur - used(g.top)

    def allocated(g, n): return And(n >= 0, n < g.cur, g.fpos(n) < 0)

    def inv(g):
        v, cur, u = g.v, g.cur, used(g.top)
        A = g.nalloc
        return [('counters', And(u <= cur, cur <= N, cur >= 0)),
                ('free stack', v.forall(0, u, lambda i: And(g.stk(i) >= 0, g.stk(i) < cur, g.fpos(g.stk(i)) == i))),
                ('cells', v.forall(0, cur, lambda n: And(Imp(g.fpos(n) >= 0, And(g.fpos(n) < u, g.stk(g.fpos(n)) == n)),
                                                        Imp(g.fpos(n) < 0, And(g.apos(n) >= 0, g.apos(n) < A, g.alist(g.apos(n)) == n))))),
                ('numbering', v.forall(0, A, lambda i: And(g.alist(i) >= 0, g.alist(i) < cur, g.fpos(g.alist(i)) < 0, g.apos(g.alist(i)) == i)))]


HDR = Buf('hdr', 6, w=True, el=4)
STK = Buf('stk', N, w=True, el=4)
DATA = Buf('data', N, w=False, el=8)
POOL = Struct('this', 64, [(0, 'ptr', 'hdr', 12), (8, 'ptr', 'hdr', 16), (16, 'ptr', 'hdr', 20), (24, 'ptr', 'stk', 0),
                           (32, 'ptr', 'hdr', 0), (40, 'ptr', 'hdr', 4), (48, 'ptr', 'hdr', 8), (56, 'ptr', 'data', 0)])


def pre_g(v, h=0): return PoolG(v, 'pre', v.hdr[h + 2], v.hdr[h + 5], lambda i: v.stk[i])


def post_g(v, fns=None, h=0): return PoolG(v, 'post', v.hdr.new(h + 2), v.hdr.new(h + 5), lambda i: v.stk.new(i), fns)


def rand_pool(rng, n=None, bias=None):
    """(current, stack list, set of allocated) after a random history"""
    cur, stk, al = 0, [], []
    b = bias if bias is not None else rng.choice([.5, .6, .75, .9])
    for _ in range(rng.choice([0, 1, 3, 10, 30, 80, 140]) if n is None else n):
        if rng.random() < b:
            if stk: al.append(stk.pop())
            elif cur < N: al.append(cur); cur += 1
        elif al: stk.append(al.pop(rng.randrange(len(al))))
    if n is None:
        k = rng.random()
        if k < .15:                                    # everything was in use at some time
            al += stk[::-1]; stk.clear()
            while cur < N: al.append(cur); cur += 1
        if .1 < k < .3:                                # ... and (nearly) everything was given back
            while len(al) > rng.choice([0, 0, 1]): stk.append(al.pop(rng.randrange(len(al))))
    return cur, stk, al


def pool_bufs(rng, cur, stk):
    return {'hdr': [N, 8, cur, N, 4, (len(stk) - 1) & M], 'stk': stk + [rng.choice([0, M, rng.randrange(N)]) for _ in range(N - len(stk))],
            'data': [rng.randrange(1 << 64) for _ in range(N)]}


def pool_gen(rng, i):
    cur, stk, al = rand_pool(rng)
    d = pool_bufs(rng, cur, stk)
    if al: d['elem'] = rng.choice(al)
    else: d['elem'] = 0
    return d


def pinv(v): return [f for _, f in pre_g(v).inv()]


def hframe(v, keep, h=0): return And([v.hdr.new(k + h) == v.hdr[k + h] for k in keep])


def p_allocate():
    def post(v):
        g, r = pre_g(v), v.ret
        A = g.nalloc
        q = post_g(v, (lambda n: Ite(And(n == r, r != M), -1, g.fpos(n)), lambda n: Ite(And(n == r, r != M), A, g.apos(n)), lambda i: Ite(And(i == A, r != M), r, g.alist(i))))
        return [('fails exactly when every cell is handed out', Iff(r == M, A == N)),
                ('hands out a cell that is not in use', Imp(r != M, And(r < N, Not(g.allocated(r))))),
                ('set of used cells', v.forall(0, N, lambda n: Iff(q.allocated(n), Or(g.allocated(n), n == r)))),
                ('number of used cells', q.nalloc == A + Ite(r == M, 0, 1)),
                ('header', hframe(v, (0, 1, 3, 4)))] + [('pool invariant: ' + a, f) for a, f in q.inv()]
    return Contract('shm::pool::allocate', F, [POOL, HDR, STK, DATA], ret='u32', cxx=True, shim=SH, gen=pool_gen, pre=pinv, post=post, **sym('_ZN3shm4poolImLi24EE8allocateEv'))


def sym(s): return {'symfind': (lambda m: s), 'nat_name': s, 'extra': X}


def p_free():
    def post(v):
        g, e = pre_g(v), v.elem
        u = used(g.top)
        last = g.alist(g.nalloc - 1)
        q = post_g(v, (lambda n: Ite(n == e, u, g.fpos(n)), lambda n: Ite(n == last, g.apos(e), g.apos(n)), lambda i: Ite(i == g.apos(e), last, g.alist(i))))
        return [('accepted', v.ret == True if v.conc else v.ret),
                ('set of used cells', v.forall(0, N, lambda n: Iff(q.allocated(n), And(g.allocated(n), n != e)))),
                ('number of used cells', q.nalloc == g.nalloc - 1),
                ('header', hframe(v, (0, 1, 3, 4)))] + [('pool invariant: ' + a, f) for a, f in q.inv()]
    return Contract('shm::pool::free', F, [POOL, Int('elem', 32), HDR, STK, DATA], ret='bool', cxx=True, shim=SH, gen=pool_gen,
                    pre=lambda v: pinv(v) + [pre_g(v).allocated(v.elem)], post=post, **sym('_ZN3shm4poolImLi24EE4freeEj'))


def p_clear():
    def post(v):
        q = post_g(v, (lambda n: -1, lambda n: -1, lambda i: -1))
        return [('no cell is in use', v.forall(0, N, lambda n: Not(q.allocated(n)))), ('number of used cells', q.nalloc == 0), ('header', hframe(v, (0, 1, 3, 4)))] + \
            [('pool invariant: ' + a, f) for a, f in q.inv()]
    return Contract('shm::pool::clear', F, [POOL, HDR, STK, DATA], cxx=True, shim=SH, gen=pool_gen, pre=pinv, post=post, **sym('_ZN3shm4poolImLi24EE5clearEv'))


def p_size():
    def post(v): return [('number of used cells', v.ret == pre_g(v).nalloc), ('nothing changes', And(hframe(v, range(6)), v.forall(0, N, lambda i: v.stk.new(i) == v.stk[i])))]
    return Contract('shm::pool::allocated_objects', F, [POOL, HDR, STK, DATA], ret='u64', cxx=True, shim=SH, gen=pool_gen, pre=pinv, post=post, **sym('_ZN3shm4poolImLi24EE17allocated_objectsEv'))


POOLS = [p_allocate(), p_free(), p_clear(), p_size()]


# ---------------------------------------------------------------- hash_map
FH = 'coda/shm_hash_map.tcc'
MHDR = Buf('hdr', 9, w=True, el=4)
NODES = Buf('nodes', N, w=True, el=24, fields={0: 8, 8: 8, 16: 4})
HASH = Buf('hash', H, w=True, el=4)
MAP = Struct('this', 120, [(0, 'int', 32, 'sem'), (4, 'int', 32, 'shm'), (8, 'ptr', 'hdr', 0), (16, 'ptr', 'hdr', 4), (24, 'ptr', 'hdr', 8),
                           (32, 'ptr', 'hdr', 24), (40, 'ptr', 'hdr', 28), (48, 'ptr', 'hdr', 32), (56, 'ptr', 'stk', 0),
                           (64, 'ptr', 'hdr', 12), (72, 'ptr', 'hdr', 16), (80, 'ptr', 'hdr', 20), (88, 'ptr', 'nodes', 0),
                           (96, 'ptr', 'hash', 0), (104, 'ptr', 'hdr', 0), (112, 'ptr', 'nodes', 0)])
U64 = 1 << 64


class MapG:
    """ghost view of a map: owner(n) = bucket whose chain contains cell n (or -1), rank(n) = place in that chain, len(b), seq(b, r) = cell
    at place r of chain b, idx(k) = cell that stores key k (or -1); plus the pool's"""
    def __init__(g, v, tag, pool, key, val, nxt, hsh, fns=None):
        g.v, g.pool, g.key, g.val, g.next, g.hash = v, pool, key, val, nxt, hsh
        if fns is not None and not v.conc:
            g.owner, g.rank, g.len, g.seq, g.idx = fns; return
        memo = {}

        def ch():
            if 'c' not in memo:
                c = []
                for b in range(H):
                    x, e = [], hsh(b)
                    while e != M and e < N and len(x) <= N and e not in x: x.append(e); e = nxt(e)
                    c.append(x + ([None] if e != M else []))
                memo['c'] = c
                memo['o'] = {n: (b, r) for b, x in enumerate(c) for r, n in enumerate(x)}
                memo['k'] = {key(n): n for n in memo['o'] if n is not None}
            return memo
        no = lambda sf, *a: []
        g.owner = v.fn(tag + 'owner', 1, no, lambda sf, n: ch()['o'].get(n, (-1, -1))[0])
        g.rank = v.fn(tag + 'rank', 1, no, lambda sf, n: ch()['o'].get(n, (-1, -1))[1])
        g.len = v.fn(tag + 'len', 1, no, lambda sf, b: len(ch()['c'][b]) if 0 <= b < H else 0)
        g.seq = v.fn(tag + 'seq', 2, no, lambda sf, b, r: ch()['c'][b][r] if 0 <= b < H and 0 <= r < len(ch()['c'][b]) else -1)
        g.idx = v.fn(tag + 'idx', 1, no, lambda sf, k: ch()['k'].get(k, -1))

    def has(g, k): return g.idx(k) >= 0

    @property
    def size(g): return g.pool.nalloc

    def keys(g, f, extra=()):
        """for every key k: f(k)"""
        if g.v.conc: return all(f(k) for k in sorted({g.key(n) for n in range(N)} | set(extra) | {0, 1, U64 - 1}))
        return g.v.forall(0, U64, f)

    def inv(g):
        v = g.v

        def node(n):
            o, r = g.owner(n), g.rank(n)
            L = g.len(o)
            return And(Iff(o >= 0, g.pool.allocated(n)),
                       Imp(o >= 0, And(o < H, md(g.key(n), H) == o, r >= 0, r < L, g.seq(o, r) == n, g.idx(g.key(n)) == n,
                                       Imp(r + 1 == L, g.next(n) == M), Imp(r + 1 < L, And(g.next(n) < N, g.owner(g.next(n)) == o, g.rank(g.next(n)) == r + 1)),
                                       Imp(r == 0, g.hash(o) == n))))

        def bucket(b):
            return And(g.len(b) >= 0, Imp(g.len(b) == 0, g.hash(b) == M), Imp(g.len(b) > 0, And(g.hash(b) < N, g.owner(g.hash(b)) == b, g.rank(g.hash(b)) == 0)))
        return [('pool ' + a, f) for a, f in g.pool.inv()] + [('chains', v.forall(0, N, node)), ('buckets', v.forall(0, H, bucket)),
                ('index', g.keys(lambda k: Or(g.idx(k) == -1, And(g.idx(k) >= 0, g.idx(k) < N, g.owner(g.idx(k)) >= 0, g.key(g.idx(k)) == k))))]


def mpre(v):
    K, V_, X_ = v.nodes.f(0, 8)[0], v.nodes.f(8, 8)[0], v.nodes.f(16, 4)[0]
    return MapG(v, 'pre', pre_g(v, 3), K, V_, X_, lambda b: v.hash[b])


def mpost(v, pfns=None, fns=None):
    K, V_, X_ = v.nodes.f(0, 8)[1], v.nodes.f(8, 8)[1], v.nodes.f(16, 4)[1]
    return MapG(v, 'post', post_g(v, pfns, 3), K, V_, X_, lambda b: v.hash.new(b), fns)


def map_gen(rng, i):
    wide = rng.random() < .4
    rk = (lambda: rng.choice([rng.randrange(U64), rng.randrange(60), U64 - 1 - rng.randrange(4)])) if wide else (lambda: rng.randrange(rng.choice([6, 15, 40])))
    cur, stk, ch, nx, kv = 0, [], [[] for _ in range(H)], {}, {}
    b = rng.choice([.5, .6, .75, .95])
    where = {}
    for _ in range(rng.choice([0, 1, 3, 10, 30, 80, 140])):
        if rng.random() < b:
            k = rk()
            if k in where: kv[where[k]] = (k, rng.randrange(U64)); continue
            if stk: n = stk.pop()
            elif cur < N: n = cur; cur += 1
            else: continue
            where[k] = n; kv[n] = (k, rng.randrange(U64)); ch[k % H].append(n)
        elif where:
            k = rng.choice(list(where)); n = where.pop(k); ch[k % H].remove(n); stk.append(n); nx[n] = M
    z = rng.random()
    while z < .08 and len(where) < N:                 # full
        k = rk()
        if k in where: continue
        if stk: n = stk.pop()
        else: n = cur; cur += 1
        where[k] = n; kv[n] = (k, rng.randrange(U64)); ch[k % H].append(n)
    while .06 < z < .12 and where:                     # emptied
        k = rng.choice(list(where)); n = where.pop(k); ch[k % H].remove(n); stk.append(n); nx[n] = M
    for c in ch:
        for a, e in zip(c, c[1:] + [M]): nx[a] = e
    nodes = [(kv.get(n, (rng.randrange(40), rng.randrange(U64)))[0]) | (kv.get(n, (0, 7))[1] << 64) | (nx.get(n, rng.choice([0, M, 3])) << 128) for n in range(N)]
    k = rng.choice(list(where)) if where and rng.random() < .6 else rk()
    return {'hdr': [N, 8, H, N, 24, cur, N, 4, (len(stk) - 1) & M], 'stk': stk + [rng.choice([0, M, rng.randrange(N)]) for _ in range(N - len(stk))], 'nodes': nodes,
            'hash': [c[0] if c else M for c in ch], 'key': k, 'val': [rng.randrange(U64)], 'sem': 5, 'shm': 6, 'out': rng.randrange(U64)}


def minv(v): return [f for _, f in mpre(v).inv()] + [v.hdr[0] == N, v.hdr[1] == 8, v.hdr[2] == H]


def W(v, e):
    g, k = mpre(v), v.key
    return Ite(e == M, Not(g.has(k)), And(e >= 0, e < N, g.owner(e) == md(k, H), Imp(g.has(k), g.rank(g.idx(k)) >= g.rank(e))))


def PW(v, p, e):
    g, k = mpre(v), v.key
    return And(p >= 0, p < N, g.owner(p) == md(k, H), g.next(p) == e, g.key(p) != k)


def PW0(v, p, e):
    """the pair before e, or e begins its chain"""
    g, k = mpre(v), v.key
    return Ite(p == M, v.hash[md(k, H)] == e, PW(v, p, e))


def LH(v, o):
    """o = address of the head of the key's chain"""
    return o == 4 * md(v.key, H)


def LN(v, o):
    """o = address of the link in some cell of the key's chain, before the cell that stores the key"""
    g, k = mpre(v), v.key
    n = dv(o - 16, 24)
    return And(o >= 16, o - 16 == 24 * n, n < N, g.owner(n) == md(k, H), g.key(n) != k, Imp(g.has(k), g.rank(g.idx(k)) > g.rank(n)))


def rk_hook(e, st, t, v):
    g = mpre(v)
    for n in list(t):
        if n.startswith('phi:') and '@' not in n and '#' not in n:
            x = t[n]
            t['rk:' + n] = Ite(And(x >= 0, x < N, g.owner(x) >= 0), g.len(g.owner(x)) - g.rank(x), 0)
        if n.startswith('phi:') and n.endswith('@P:nodes'):
            x = dv(t[n] - 16, 24)
            t['rk:' + n[:-8]] = Ite(And(x >= 0, x < N, g.owner(x) >= 0), g.len(g.owner(x)) - g.rank(x), 0)
        if n.startswith('phi:') and n.endswith('@P:hash'): t['rk:' + n[:-7]] = g.len(md(v.key, H)) + 1 if hasattr(v, 'key') else N + 1


phi = lambda n: n.startswith('phi:') and '@' not in n and '#' not in n
MINV = [('walk', 1, W, phi), ('pair', 2, PW, phi), ('pair or head', 2, PW0, phi), ('link in the table', 1, LH, lambda n: n.startswith('phi:') and n.endswith('@P:hash')), ('link in a cell', 1, LN, lambda n: n.startswith('phi:') and n.endswith('@P:nodes'))]
MPAR = [MHDR, STK, NODES, HASH]


def same_mem(v, but=()):
    r = []
    if 'hdr' not in but: r.append(hframe(v, range(9)))
    if 'stk' not in but: r.append(v.forall(0, N, lambda i: v.stk.new(i) == v.stk[i]))
    if 'hash' not in but: r.append(v.forall(0, H, lambda i: v.hash.new(i) == v.hash[i]))
    for o in (0, 8, 16):
        a, b = v.nodes.f(o, 4 if o == 16 else 8)
        r.append(v.forall(0, N, lambda i: b(i) == a(i)))
    return And(r)


def others_kept(g, q, k):
    """every key other than k keeps its value (or stays absent)"""
    return g.keys(lambda x: Imp(x != k, And(Iff(q.has(x), g.has(x)), Imp(g.has(x), q.val(q.idx(x)) == g.val(g.idx(x))))), [k] + ([q.key(n) for n in range(N)] if g.v.conc else []))


def rv(v): return bool(v.ret) if v.conc else v.ret


def read_post(v, ok=True):
    g, k = mpre(v), v.key
    return [('found exactly when stored', Iff(rv(v), g.has(k))), ('the stored value', Imp(g.has(k), v.out.val == g.val(g.idx(k)))),
            ('nothing else changes', same_mem(v))]


def insert_post(v):
    g, k = mpre(v), v.key
    A = g.size
    isnew = Not(g.has(k))
    full = And(isnew, A == N)
    ins = And(isnew, A < N)
    if v.conc: q = mpost(v)
    else:
        b = md(k, H)
        L = g.len(b)
        head = v.hash.new(b) != v.hash[b]
        m = Ite(head, v.hash.new(b), v.nodes.f(16)[1](g.seq(b, L - 1)))
        pos = Ite(head, 0, L)
        p = g.pool
        q = mpost(v, (lambda n: Ite(And(ins, n == m), -1, p.fpos(n)), lambda n: Ite(And(ins, n == m), A, p.apos(n)), lambda i: Ite(And(ins, i == A), m, p.alist(i))),
                  (lambda n: Ite(And(ins, n == m), b, g.owner(n)), lambda n: Ite(And(ins, n == m), pos, Ite(And(ins, g.owner(n) == b, g.rank(n) >= pos), g.rank(n) + 1, g.rank(n))),
                   lambda x: Ite(And(ins, x == b), L + 1, g.len(x)), lambda x, r: Ite(And(ins, x == b), Ite(r < pos, g.seq(x, r), Ite(r == pos, m, g.seq(x, r - 1))), g.seq(x, r)),
                   lambda x: Ite(And(ins, x == k), m, g.idx(x))))
    return [('refused exactly when it is full', Iff(rv(v), Not(full))),
            ('the key is stored', Imp(Not(full), And(q.has(k), q.val(q.idx(k)) == v.val[0]))),
            ('not stored when refused', Imp(full, Not(q.has(k)))),
            ('other keys', others_kept(g, q, k)), ('size', q.size == A + Ite(ins, 1, 0)), ('header', hframe(v, (0, 1, 2, 3, 4, 6, 7)))] + [('map invariant: ' + a, f) for a, f in q.inv()]


def erase_post(v):
    g, k = mpre(v), v.key
    A = g.size
    er = g.has(k)
    if v.conc: q = mpost(v)
    else:
        b = md(k, H)
        j = g.idx(k)
        r0 = g.rank(j)
        p = g.pool
        last = p.alist(A - 1)
        q = mpost(v, (lambda n: Ite(And(er, n == j), used(p.top), p.fpos(n)), lambda n: Ite(And(er, n == last), p.apos(j), p.apos(n)), lambda i: Ite(And(er, i == p.apos(j)), last, p.alist(i))),
                  (lambda n: Ite(And(er, n == j), -1, g.owner(n)), lambda n: Ite(And(er, g.owner(n) == b, g.rank(n) > r0), g.rank(n) - 1, g.rank(n)),
                   lambda x: Ite(And(er, x == b), g.len(b) - 1, g.len(x)), lambda x, r: Ite(And(er, x == b), Ite(r < r0, g.seq(x, r), g.seq(x, r + 1)), g.seq(x, r)),
                   lambda x: Ite(And(er, x == k), -1, g.idx(x))))
    return [('reported exactly when it was stored', Iff(rv(v), g.has(k))), ('the key is gone', Not(q.has(k))), ('other keys', others_kept(g, q, k)),
            ('size', q.size == A - Ite(er, 1, 0)), ('header', hframe(v, (0, 1, 2, 3, 4, 6, 7)))] + [('map invariant: ' + a, f) for a, f in q.inv()]


def mapc(title, name, params, post, ret, **kw):
    d = dict(ret=ret, cxx=True, shim=SH, gen=map_gen, pre=minv, post=post, inv=MINV, viewhook=rk_hook, timeout=20.0)
    d.update(kw); d.update(sym('_ZN3shm8hash_mapImLi24ELi11EE' + name))
    return Contract('shm::hash_map::' + title, FH, [MAP] + params + MPAR, **d)


UN = [mapc('unprotected_read', '16unprotected_readEmRm', [Int('key'), Out('out')], read_post, 'bool'),
      mapc('unprotected_insert', '18unprotected_insertEmRKm', [Int('key'), Buf('val', 1, el=8)], insert_post, 'bool'),
      mapc('unprotected_erase', '17unprotected_eraseEm', [Int('key')], erase_post, 'bool')]


# ---------------------------------------------------------------- the public, locking operations
from vc.syslib import locked, lk
SHARED = ['hdr', 'stk', 'nodes', 'hash']


def lockopts(): return {'guard': locked(set(SHARED)), 'locked': SHARED}


def lpost(post):
    def f(v):
        r = list(post(v))
        if hasattr(v, 'st'): r += [('the lock is given back', And(lk(v.st, 'R') == 0, lk(v.st, 'W') == 0)), ('the lock was taken once', lk(v.st, 'ever') == 1)]
        return r
    return f


def lthrow(v):
    return [('the lock is given back (unless giving it back failed)', True if lk(v.st, 'relfailed') else And(lk(v.st, 'R') == 0, lk(v.st, 'W') == 0)),
            ('nothing is touched unless the lock was taken', True if lk(v.st, 'ever') else same_mem(v)), ('only coda_error', v.exc == '_ZTI10coda_error')]


def lmapc(title, name, params, post, ret, **kw): return mapc(title, name, params, lpost(post), ret, throws=lthrow, opts=lockopts(), **kw)


def clear_post(v):
    q = mpost(v, (lambda n: -1, lambda n: -1, lambda i: -1), (lambda n: -1, lambda n: -1, lambda b: 0, lambda b, r: -1, lambda k: -1))
    return [('empty', q.size == 0), ('no key is stored', q.keys(lambda k: Not(q.has(k)))), ('header', hframe(v, (0, 1, 2, 3, 4, 6, 7)))] + [('map invariant: ' + a, f) for a, f in q.inv()]


pit = lambda n: phi(n) or n == 'it'
FILL = [('filled', 1, lambda v, t: v.forall(0, t, lambda b: v.hash.new(b) == M), pit), ('filled from the end', 1, lambda v, t: v.forall(t, H, lambda b: v.hash.new(b) == M), pit),
        ('filled downwards', 1, lambda v, t: v.forall(H - t, H, lambda b: v.hash.new(b) == M), pit)]
LOCKED = [lmapc('read', '4readEmRm', [Int('key'), Out('out')], read_post, 'bool'),
          lmapc('insert', '6insertEmRKm', [Int('key'), Buf('val', 1, el=8)], insert_post, 'bool'),
          lmapc('erase', '5eraseEm', [Int('key')], erase_post, 'bool'),
          lmapc('size', '4sizeEv', [], lambda v: [('number of stored keys', v.ret == mpre(v).size), ('nothing changes', same_mem(v))], 'u64'),
          lmapc('clear', '5clearEv', [], clear_post, None, inv=FILL)]


# ---------------------------------------------------------------- iteration
def ptris(v, name, off, buf, boff=0):
    k = 'new:%s:%d' % (name, off)
    if k in v.vals: return v.vals[k] == v.vals['base:' + name][buf] + boff
    p = v.st.mem['P:' + name][off][1]
    return isinstance(p, Ptr) and p.rid == 'P:' + buf and (p.off == boff)


ITER = Struct('it', 32, [(0, 'ptr', 'hash', 0), (8, 'int', 32, 'ph'), (16, 'ptr', 'nodes', 0), (24, 'int', 32, 'pp')])
RES = Struct('res', 32, [(0, 'null'), (8, 'int', 32, 'rh'), (16, 'null'), (24, 'int', 32, 'rp')])


def it_gen(rng, i):
    for _ in range(20):
        d = map_gen(rng, i)
        occ = [(b, x) for b, h in enumerate(d['hash']) if h != M for x in chain(d, h)]
        if occ:
            d['ph'], d['pp'] = rng.choice(occ)
            return d
    return None


def chain(d, h):
    r = []
    while h != M: r.append(h); h = d['nodes'][h] >> 128
    return r


def first_from(v, g, lo, h, p):
    """(h, p) is the first pair in chains lo, lo+1, ...; or the end"""
    return Or(And(h == M, p == M, v.forall(Max(lo, 0), H, lambda b: g.len(b) == 0)),
              And(h >= lo, h < H, g.len(Ite(And(h >= 0, h < H), h, 0)) > 0, p == g.hash(Ite(And(h >= 0, h < H), h, 0)), v.forall(Max(lo, 0), Min(h, H), lambda b: g.len(b) == 0)))


def skipped_none(v, g, le, h, p):
    """every stored pair either satisfies le(bucket, place) or is not before the pair (h, p)"""
    ok = And(p >= 0, p < N)
    rp = g.rank(Ite(ok, p, 0))
    return v.forall(0, N, lambda n: Imp(g.owner(n) >= 0, Or(le(g.owner(n), g.rank(n)), And(h != M, Or(g.owner(n) > h, And(g.owner(n) == h, g.rank(n) >= rp))))))


def it_next():
    def post(v):
        g = mpre(v)
        n, o, h, p = v.pp, v.ph, cellnew(v, 'it', 8), cellnew(v, 'it', 24)
        r = g.rank(n)
        return [('next place of the same chain', Imp(r + 1 < g.len(o), And(h == o, g.owner(p) == o, g.rank(p) == r + 1))),
                ('else the first place of the next chain that is not empty, or the end', Imp(r + 1 == g.len(o), first_from(v, g, o + 1, h, p))), ('moves on', Or(h == M, h > o, And(h == o, g.rank(Ite(p < N, p, 0)) > r))),
                ('no pair is skipped', skipped_none(v, g, lambda b, x: Or(b < o, And(b == o, x <= r)), h, p)), ('nothing else changes', same_mem(v))]
    d = sym('_ZN3shm8hash_mapImLi24ELi11EE14const_iteratorppEv')
    return Contract('shm::hash_map::const_iterator::operator++', 'coda/shm_hash_map.hpp', [ITER] + MPAR, ret=None, cxx=True, shim=SH, gen=it_gen, timeout=20.0,
                    pre=lambda v: minv(v) + [v.pp < N, v.ph < H, mpre(v).owner(v.pp) == v.ph], post=post,
                    inv=[('empty chains', 1, lambda v, t: And(t > v.ph, t <= H, mpre(v).rank(v.pp) + 1 == mpre(v).len(v.ph), v.forall(v.ph + 1, t, lambda b: v.hash[b] == M)), phi)], **d)


def it_begin():
    def post(v):
        g = mpre(v)
        h, p = cellnew(v, 'res', 8), cellnew(v, 'res', 24)
        return [('first pair', first_from(v, g, 0, h, p)), ('no pair is skipped', skipped_none(v, g, lambda b, x: False, h, p)), ('refers to this map', And(ptris(v, 'res', 0, 'hash'), ptris(v, 'res', 16, 'nodes'))), ('nothing else changes', same_mem(v))]
    return Contract('shm::hash_map::begin', 'coda/shm_hash_map.hpp', [RES, MAP] + MPAR, ret=None, cxx=True, shim=SH, gen=lambda rng, i: dict(map_gen(rng, i), rh=1, rp=2), timeout=20.0, pre=minv, post=post,
                    inv=[('empty chains', 1, lambda v, t: v.forall(0, t, lambda b: v.hash[b] == M), phi)], **sym('_ZN3shm8hash_mapImLi24ELi11EE5beginEv'))


def it_end():
    def post(v): return [('the end', And(cellnew(v, 'res', 8) == M, cellnew(v, 'res', 24) == M)), ('nothing else changes', same_mem(v))]
    return Contract('shm::hash_map::end', 'coda/shm_hash_map.hpp', [RES, MAP] + MPAR, ret=None, cxx=True, shim=SH, gen=lambda rng, i: dict(map_gen(rng, i), rh=1, rp=2), pre=minv, post=post, **sym('_ZN3shm8hash_mapImLi24ELi11EE3endEv'))


ITERS = [it_next(), it_begin(), it_end()]

# ---------------------------------------------------------------- attach
SPACE = 1024 * 3 + 4 * H
MEM = Buf('mem', SPACE // 4, w=True, el=4)
UNATT = Struct('this', 120, [(o, 'int', 32, 'i%d' % o) for o in (0, 4)] + [(o, 'null') for o in range(8, 120, 8)])


def att_gen(rng, i):
    m = [rng.randrange(1 << 32) for _ in range(SPACE // 4)]
    k = rng.choice([0, 1, 1, 2, 3])
    if k == 0: m[:256] = [0] * 256
    else:
        m[:9] = [N, 8, H, N, 24, 5, N, 4, rng.choice([M, 0, 3])]
        if k == 2: m[rng.choice([0, 1, 2, 3, 4, 6, 7])] ^= rng.choice([1, 4, 24, N])
        if k == 3: m[rng.choice([0, 1, 2, 3, 4, 6, 7])] = 0
    return {'mem': m, 'i0': 3, 'i4': 4}


def att_pre(v):
    w = v.mem
    z = And([w[i] == 0 for i in range(9)])
    return [Or(z, And(w[0] == N, w[1] == 8, w[2] == H, w[3] == N, w[4] == 24, w[6] == N, w[7] == 4))]


def ptroff(v, name, off, buf):
    k = 'new:%s:%d' % (name, off)
    if k in v.vals: return v.vals[k] - v.vals['base:' + name][buf]
    p = v.st.mem['P:' + name][off][1]
    return p.off if isinstance(p, Ptr) and p.rid == 'P:' + buf else None


def att_post(v):
    w = v.mem
    o = {n: ptroff(v, 'this', a, 'mem') for n, a in (('objects_num', 8), ('item_size', 16), ('hash_size', 24), ('stk_res', 32), ('stk_size', 40), ('stk_cur', 48), ('stk', 56),
                                                    ('pool_res', 64), ('pool_size', 72), ('pool_cur', 80), ('nodes', 88), ('hash', 96), ('base', 104), ('objects', 112))}
    if any(not isinstance(x, int) for x in o.values()): return [('every part is placed inside the segment', False)]
    size = dict.fromkeys(o, 4); size.update(stk=4 * N, nodes=24 * N, hash=4 * H)
    parts = [n for n in o if n not in ('base', 'objects')]
    dis = all(o[a] + size[a] <= o[b] or o[b] + size[b] <= o[a] for i, a in enumerate(parts) for b in parts[i + 1:])
    ins = all(0 <= o[a] and o[a] + size[a] <= SPACE for a in parts)
    fresh = w[0] == 0
    hw = o['hash'] // 4 if o['hash'] % 4 == 0 else 0
    at = lambda n: w.new(o[n] // 4)
    return [('every part lies inside the segment', ins), ('the parts do not overlap', dis), ('aligned', all(x % 4 == 0 for x in o.values()) and o['nodes'] % 8 == 0), ('map and pool agree on the cells', o['nodes'] == o['objects'] and o['base'] == 0),
            ('a new segment becomes an empty map', Imp(fresh, And(at('objects_num') == N, at('item_size') == 8, at('hash_size') == H, at('pool_res') == N, at('pool_size') == 24, at('pool_cur') == 0, at('stk_res') == N, at('stk_size') == 4,
                                                                 at('stk_cur') == M, v.forall(0, H, lambda b: w.new(hw + b) == M)))),
            ('an existing map is left as it is', Imp(Not(fresh), v.forall(0, SPACE // 4, lambda i: w.new(i) == w[i])))]


def attach(title, pre, post, **kw):
    return Contract(title, FH, [UNATT, MEM], ret=None, cxx=True, shim=SH, gen=att_gen, pre=pre, post=post,
                    inv=[('filled', 1, lambda v, t: v.forall(0, t, lambda b: v.mem.new(768 + b) == M), phi), ('rest', 0, lambda v: And([v.mem.new(i) == (N, 8, H)[i] for i in range(3)] + [v.mem.new(i) == v.mem[i] for i in range(3, 9)]))], **kw, **sym('_ZN3shm8hash_mapImLi24ELi11EE6attachEPv'))


def mism(v):
    w = v.mem
    return [Or(w[0] != 0, w[1] != 0, w[2] != 0), Or(w[0] != N, w[1] != 8, w[2] != H)]


ATT = [attach('shm::hash_map::attach', att_pre, att_post),
       attach('shm::hash_map::attach (another layout)', mism, lambda v: [('refused', False)], throws=lambda v: [('an incompatible segment is not touched', v.forall(0, SPACE // 4, lambda i: v.mem.new(i) == v.mem[i]))], opts={'noret': True}, native=False),
       Contract('shm::hash_map::required_space', FH, [UNATT], ret='u64', cxx=True, shim=SH, gen=att_gen, post=lambda v: [('size of the segment', v.ret >= SPACE)], **sym('_ZNK3shm8hash_mapImLi24ELi11EE14required_spaceEv'))]


# ---------------------------------------------------------------- connect / disconnect (SysV calls are assumed contracts)
import z3
from vc import syslib as SY
from vc.exec import Multi, Undef
from vc.sym import V, zi, asu


def fails(ex, st, val, failval=None):
    """the call succeeds with `val` or fails with -1 and errno"""
    if ex.concrete: return val
    f = st.clone()
    SY.set_errno(ex, f)
    return Multi([(st, val, None), (f, failval if failval is not None else V(32, -1), None)])


def someid(ex, st, nm):
    if ex.concrete: return V(32, 7)
    x = ex.fresh(nm); st.pc.append(z3.And(x >= 0, x < (1 << 31)))
    return V(32, x, 0, (1 << 31) - 1)


def h_ftok(ex, st, ins, a):
    x = ex.fresh('key') if not ex.concrete else 9
    if not ex.concrete: st.pc.append(z3.And(x >= 0, x < (1 << 32) - 1))
    return fails(ex, st, V(32, x, 0, (1 << 32) - 2) if not ex.concrete else V(32, 9))


def h_shmget(ex, st, ins, a):
    ex.oblige(st, zi(asu(a[1]).e) >= SPACE, 'the segment is large enough for the map')
    return fails(ex, st, someid(ex, st, 'shmid'))


def h_semget(ex, st, ins, a):
    ex.oblige(st, zi(asu(a[1]).e) == 2, 'two semaphores')
    return fails(ex, st, someid(ex, st, 'semid'))


def h_shmat(ex, st, ins, a):
    st.ghost[('att',)] = st.ghost.get(('att',), 0) + 1
    ok = Ptr('P:mem')
    if ex.concrete: return ok
    f = st.clone()
    f.ghost[('att',)] = st.ghost[('att',)] - 1
    SY.set_errno(ex, f)
    return Multi([(st, ok, None), (f, Ptr('int', (1 << 64) - 1), None)])


def h_shmdt(ex, st, ins, a):
    p = a[0]
    ex.oblige(st, isinstance(p, Ptr) and p.rid == 'P:mem' and p.off == 0 and st.ghost.get(('att',), 0) > 0, 'shmdt is given the address that shmat returned')
    st.ghost[('att',)] = st.ghost.get(('att',), 0) - 1
    return V(32, 0)


IPC = {'ftok': h_ftok, 'shmget': h_shmget, 'semget': h_semget, 'semctl': lambda ex, st, ins, a: fails(ex, st, V(32, 0)), 'shmat': h_shmat, 'shmdt': h_shmdt}


def i32(x): return x - (1 << 32) if isinstance(x, int) and x >= 1 << 31 else x


def idsgone(v): return And([cellnew(v, 'this', o, 32) == M for o in (0, 4)])


def nullp(v, off):
    p = v.st.mem['P:this'][off][1]
    return isinstance(p, Ptr) and p.rid is None


def detached(v): return all(nullp(v, o) for o in (8, 16, 24, 96, 104, 112))


def con_guard(ex, st, r, what):
    if r.rid == 'P:mem' and not lk(st, 'W'):
        ex.oblige(st, False, 'the shared segment is used only while the exclusive lock is held'); raise SY.Dead()


def con_pre(v):
    w = v.mem
    return [Or(And([w[i] == 0 for i in range(9)]), And(w[0] == N, w[1] == 8, w[2] == H, w[3] == N, w[4] == 24, w[6] == N, w[7] == 4),
               And(Or(w[0] != 0, w[1] != 0, w[2] != 0), Or(w[0] != N, w[1] != 8, w[2] != H))), v.i0 == M, v.i4 == M]


def con_post(v):
    fresh = v.mem.new(0) == N
    lay = [(a, f) for a, f in att_post(v)[:4]]
    return lay + [('attached', v.st.ghost.get(('att',), 0) == 1), ('the lock is given back', And(lk(v.st, 'R') == 0, lk(v.st, 'W') == 0)),
                  ('usable map', And(v.mem.new(0) == N, v.mem.new(1) == 8, v.mem.new(2) == H)), ('the ids are kept', And(cellnew(v, 'this', 0) != M, cellnew(v, 'this', 4) != M))]


def relfail(v): return bool(v.st.ghost.get(('relfail',)))


def con_throw(v):
    return [('the segment is detached again', v.st.ghost.get(('att',), 0) == 0), ('the map is not connected', detached(v)), ('a later connect can start over', idsgone(v)), ('only coda_error', v.exc == '_ZTI10coda_error'),
            ('the lock is not kept', True if lk(v.st, 'relfailed') else And(lk(v.st, 'R') == 0, lk(v.st, 'W') == 0))]


def con_gen(rng, i):
    d = att_gen(rng, i); d.update(i0=M, i4=M, fname=b'/x'); return d


def discon(title, name, ini):
    con = Struct('this', 120, [(0, 'int', 32, 'i0'), (4, 'int', 32, 'i4')] + [(o, 'ptr', 'mem', 0) if ini else (o, 'null') for o in range(8, 120, 8)])

    def setup(ex, st, v, inputs): st.ghost[('att',)] = 1 if ini else 0
    return Contract('shm::hash_map::%s (%s)' % (title, 'connected' if ini else 'not connected'), FH, [con, Buf('mem', SPACE // 4, el=4)], cxx=True, shim=SH, gen=con_gen, handlers=IPC, setup=setup, native=False,
                    post=lambda v: [('the segment is detached', v.st.ghost.get(('att',), 0) == 0), ('not connected', detached(v)), ('ids forgotten', True if title != 'disconnect' else idsgone(v))], **sym('_ZN3shm8hash_mapImLi24ELi11EE' + name))


CONN = [Contract('shm::hash_map::connect', FH, [UNATT, CStr('fname'), MEM], cxx=True, shim=SH, gen=con_gen, handlers=IPC, pre=con_pre, post=con_post, throws=con_throw, opts={'guard': con_guard}, native=False,
                 inv=[('filled', 1, lambda v, t: v.forall(0, t, lambda b: v.mem.new(768 + b) == M), phi), ('header', 0, lambda v: And([v.mem.new(i) == (N, 8, H)[i] for i in range(3)]))], **sym('_ZN3shm8hash_mapImLi24ELi11EE7connectEPKc')),
        discon('disconnect', '10disconnectEv', True), discon('disconnect', '10disconnectEv', False), discon('~hash_map', 'D2Ev', True)]



def lockf(name, before, after):
    con = Struct('this', 120, [(0, 'int', 32, 'i0'), (4, 'int', 32, 'i4')] + [(o, 'null') for o in range(8, 120, 8)])

    def setup(ex, st, v, inputs): st.ghost[('lk', 'R')], st.ghost[('lk', 'W')] = before

    def held(rw): return lambda v: [('lock state', And(lk(v.st, 'R') == rw[0], lk(v.st, 'W') == rw[1]))]
    return Contract('shm::hash_map::' + name, FH, [con], cxx=True, shim=SH, gen=lambda rng, i: dict(i0=5, i4=6), setup=setup, native=False, post=held(after),
                    throws=lambda v: held(before)(v) + [('only coda_error', v.exc == '_ZTI10coda_error')], **sym('_ZN3shm8hash_mapImLi24ELi11EE%d%sEv' % (len(name), name)))


LOCKS = [lockf('lock_read_rw', (0, 0), (1, 0)), lockf('unlock_read_rw', (1, 0), (0, 0)), lockf('lock_write_rw', (0, 0), (0, 1)), lockf('unlock_write_rw', (0, 1), (0, 0))]

ANY = Struct('this', 120, [(0, 'int', 32, 'i0'), (4, 'int', 32, 'i4')] + [(o, 'ptr', 'mem', 0) if o == 104 else (o, 'null') for o in range(8, 120, 8)])


def bit_it(name, params, ret, post, s, pre=None): return Contract('shm::hash_map::' + name, FH, params, ret=ret, cxx=True, shim=SH, gen=con_gen, post=post, pre=pre, native=False, **sym('_ZN3shm8hash_mapImLi24ELi11EE' + s))


MISC = [bit_it('capacity', [ANY, Buf('mem', SPACE // 4, el=4)], 'u64', lambda v: [('number of cells', v.ret == N)], '8capacityEv'),
        bit_it('is_connected', [ANY, Buf('mem', SPACE // 4, el=4)], 'bool', lambda v: [('connected', v.ret)], '12is_connectedEv'),
        bit_it('is_connected (not)', [UNATT], 'bool', lambda v: [('not connected', Not(v.ret))], '12is_connectedEv'),
        bit_it('semid', [ANY, Buf('mem', SPACE // 4, el=4)], 'u32', lambda v: [('semaphore id', v.ret == v.i0)], '5semidEv'),
        bit_it('shmid', [ANY, Buf('mem', SPACE // 4, el=4)], 'u32', lambda v: [('segment id', v.ret == v.i4)], '5shmidEv')]


def protocol():
    """any number of processes that change the counters only in the ways the lock protocol obligation allows: r, w = counters, R, W = processes holding the lock"""
    r, w, R, W_ = z3.Ints('r w R W')

    def inv(r, w, R, W): return z3.And(r == R, w == W, R >= 0, W >= 0, W <= 1, z3.Implies(W == 1, R == 0))
    tr = {'take shared': ([w == 0], (r + 1, w, R + 1, W_)), 'take exclusive': ([r == 0, w == 0], (r, w + 1, R, W_ + 1)), 'give back shared (or the holder dies)': ([R > 0], (r - 1, w, R - 1, W_)),
          'give back exclusive (or the holder dies)': ([W_ > 0], (r, w - 1, R, W_ - 1))}
    out = [('no holder at first', [], inv(z3.IntVal(0), z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)))]
    out += [('mutual exclusion kept: ' + n, [inv(r, w, R, W_)] + g, inv(*x)) for n, (g, x) in tr.items()]
    return out


from vc.lemma import Lemma
PROTO = [Lemma('lock protocol: at most one writer, and no reader with it', protocol, 'mutual exclusion follows from the allowed semaphore operations')]
POOLP = POOLS + [c for c in ATT if 'required' in c.fn]
MAPP = UN + LOCKED + ITERS + ATT + MISC
LOCKP = LOCKED + LOCKS + CONN + PROTO
ALL = POOLS + UN + LOCKED + ITERS + ATT + CONN + LOCKS + MISC
