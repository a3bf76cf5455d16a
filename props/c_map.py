"""coda_get_params*, coda_get_header* (coda/url.cpp): every pair is stored, in order, key and value byte for byte"""
import z3
from vc.spec import *
from vc.exec import Unsupported, Ptr, NULL, Dead, CArr, Multi, asel
from vc.sym import V, Bv, zi, asu, is_c, trunc
from vc.cxxstd import STR, B
from vc import cxxstd as CX
from props.c_que import Ref
from props.c_fmt import fget, fput, NullArg, ptr2

F, X = 'coda/url.cpp', ('-fexceptions',)
MAP = '_ZNSt3mapINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES5_St4lessIS5_ESaISt4pairIKS5_S5_EEE'
ARG = 'RSt3mapINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES5_St4lessIS5_ESaISt4pairIKS5_S5_EEE'


def search(first, hit_fact, none_fact, need):
    """handler for a search that returns the first match in [p, p + n) or null (the contract proved under C08)"""
    def h(ex, st, ins, a):
        p, what, n = a[0], a[1], asu(a[2]).e
        r = ex.region(st, p, 'read')
        if r.kind != 'arr' or r.stride != 1: raise Unsupported('search in ' + r.kind)
        arr = st.mem[r.rid][0]
        rs = ex.rsize(st, r)
        ex.oblige(st, Or(n == 0, And(p.off >= 0, p.off + n <= rs)), 'precondition of the search: n readable bytes')
        pat = need(ex, st, what)
        m = len(pat)
        if ex.concrete:
            for j in range(p.off, p.off + n - m + 1):
                if all(arr.get(j + i) == pat[i] for i in range(m)): return p.addt(1, j - p.off)
            return NULL
        if isinstance(arr, CArr): arr = ex.carr_to_z3(arr)
        at = lambda j: And([z3.Select(arr, j + i) == zi(pat[i]) for i in range(m)])
        hit = st.clone()
        j, k = ex.fresh('found'), z3.Int('k!n')
        lo = zi(p.off)
        hit.pc += [j >= lo, j + m <= lo + zi(n), zb(at(j))]
        hit.hyps.append(z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < j), z3.Not(zb(at(k)))), patterns=[z3.Select(arr, k)]))
        st.hyps.append(z3.ForAll([k], z3.Implies(z3.And(k >= lo, k + m <= lo + zi(n)), z3.Not(zb(at(k)))), patterns=[z3.Select(arr, k)]))
        return Multi([(hit, Ptr(p.rid, j), None), (st, NULL, None)])
    return h


def need_chr(ex, st, w): return [asu(trunc(w, 8) if w.w > 8 else w).e]


def need_str(ex, st, w):
    from vc.handlers import fmt_of
    s = fmt_of(ex, st, w)
    if not s: raise Unsupported('empty needle')
    return list(s)


def prep(v):
    v.N = v.vals['z:s'] if 'z:s' in v.vals else v.n
    return v


def header(v): return v.c.opts['hdr']


def crlf(v, k): return And(k >= 0, k + 1 < v.N, v.s[k] == 13, v.s[k + 1] == 10)


def begins(v, k):
    """does an item begin at k?"""
    if header(v): return Or(k == 0, And(k >= 2, crlf(v, k - 2)))
    return Or(k == 0, And(k >= 1, v.s[k - 1] == 38))


def ends(v, k):
    """does an item end at k?"""
    return Or(k == v.N, crlf(v, k)) if header(v) else Or(k == v.N, v.s[k] == 38)


def limit(v):
    """where the items end: at the first empty line of a header"""
    if not header(v): return v.N

    def unfold(sf, z):
        h = sf(z)
        return [And(h >= 0, h <= v.N), Or(h == v.N, And(begins(v, h), crlf(v, h))), v.forall(0, h, lambda k: Not(And(begins(v, k), crlf(v, k))))]

    def conc(self, z):
        h = 0
        while h < v.N and not (begins(v, h) and crlf(v, h)): h += 1
        return h
    return v.fn('H', 1, unfold, conc)(0)


def sep(v): return 58 if header(v) else 61


def unreported(v, a, b):
    """no item in [a, b) has a separator"""
    S = sep(v)
    return v.forall(a, b, lambda k: v.s[k] != S)


def h_at(ex, st, ins, a):
    """map[key]"""
    ex.oblige(st, isinstance(a[0], Ptr) and a[0].rid == 'P:map', 'the pair goes to the map given')
    v = prep(ex.view(st))
    c = CX.crid(a[1])
    src = st.ghost.get(('src', c))
    n, arr = CX.slen(st, c), st.mem[c][0]
    if src is None: raise Unsupported('key of unknown origin')
    if src[0] != 'P:s':
        ex.oblige(st, False, 'a key is a part of the source'); raise Dead()
    b, q = src[1], fget(st, 'c')
    ex.oblige(st, fget(st, 'open') == 0, 'the value of every key is stored')
    ex.oblige(st, v.forall(0, n, lambda k: asel(arr, k) == v.s[b + k]), 'the key is stored unchanged')
    ex.oblige(st, And(b >= q, b + n < limit(v)), 'the key lies in an item not yet stored')
    ex.oblige(st, begins(v, b), 'the key begins with its item')
    ex.oblige(st, unreported(v, q, b), 'every pair is stored, in order')
    ex.oblige(st, unreported(v, b, b + n), 'the key reaches to the first separator')
    ex.oblige(st, v.s[b + n] == sep(v), 'the key ends at the separator')
    ex.oblige(st, v.forall(b, b + n, lambda k: Not(ends(v, k))), 'the key lies in one item')
    fput(ex, st, 'key', b + n); fput(ex, st, 'open', 1)
    if 'mapval' not in ex.regions: ex.add_region(st, 'mapval', 'obj', size=32, writable=True, name='value in the map')
    return Ptr('mapval')


def value(ex, st, off, n):
    v = prep(ex.view(st))
    k = fget(st, 'key')
    ex.oblige(st, fget(st, 'open') == 1, 'the value is stored once')
    ex.oblige(st, And(off == k + 1, off + n <= v.N), 'the value begins behind the separator')
    ex.oblige(st, v.forall(off, off + n, lambda i: Not(ends(v, i))), 'the value lies in one item')
    ex.oblige(st, ends(v, off + n), 'the value reaches to the end of its item')
    fput(ex, st, 'c', off + n + (2 if header(v) else 1))
    fput(ex, st, 'open', 0)


def on_val(p): return isinstance(p, Ptr) and p.rid == 'mapval'


def h_assign_pn(ex, st, ins, a):
    if not on_val(a[0]): return CX.h_assign_pn(ex, st, ins, a)
    n = asu(a[2]).e
    CX.bytes_at(ex, st, a[1], n, 'std::string::assign(p, n) reads n bytes')
    if a[1].rid != 'P:s':
        ex.oblige(st, False, 'a value is a part of the source'); raise Dead()
    value(ex, st, a[1].off, n)
    return a[0]


def h_assign_str(ex, st, ins, a):
    if not on_val(a[0]): return CX.h_assign_str(ex, st, ins, a)
    c = CX.crid(a[1])
    src = st.ghost.get(('src', c))
    if src is None or src[0] != 'P:s': raise Unsupported('value of unknown origin')
    v = ex.view(st)
    n, arr = CX.slen(st, c), st.mem[c][0]
    ex.oblige(st, v.forall(0, n, lambda k: asel(arr, k) == v.s[src[1] + k]), 'the value is stored unchanged')
    value(ex, st, src[1], n)
    return a[0]


HS = dict(STR)
HS.update({'coda_strnchr': search(0, 0, 0, need_chr), 'coda_strnstr': search(0, 0, 0, need_str), MAP + 'ixERS9_': h_at, MAP + 'ixEOS5_': h_at, B + '6assignEPKcm': h_assign_pn, B + 'aSERKS4_': h_assign_str, B + 'aSEOS4_': h_assign_str,
           B + '6assignERKS4_': h_assign_str, B + '6assignEOS4_': h_assign_str, 'memchr': search(0, 0, 0, need_chr)})


def post(v):
    prep(v)
    st = v.st
    return [('success', v.ret == 0), ('the value of every key is stored', fget(st, 'open') == 0), ('every pair is stored', unreported(v, fget(st, 'c'), limit(v)))]


def inv(v, t):
    prep(v)
    q = fget(v.st, 'c')
    o = fget(v.st, 'open')
    return And(o == 0, 0 <= q, q <= t, Or(begins(v, t), t >= v.N), Or(t <= limit(v), And(t >= v.N, limit(v) == v.N)), v.forall(q, Min(t, v.N), lambda k: v.s[k] != sep(v)))


def gen(rng, i):
    al = rng.choice([b'a=&', b'a=&\0b', b'a:\r\n', b'\r\n:'])
    s = bytes(rng.choice(al) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 12])))
    if al[1:2] == b':': s = s.replace(b'\r', b'\r\n') if rng.random() < .6 else s
    return {'s': s, 'n': len(s)}


def genz(rng, i):
    d = gen(rng, i); d['s'] = d['s'].replace(b'\0', b''); return d


def n_post(v):
    s = bytes(v.s.old)
    if v.op >= 2: s = s.split(b'\0')[0]
    e = {b'was': b'there'}
    for it in s.split(b'\r\n' if v.op & 1 else b'&'):
        if v.op & 1 and not it: break
        k, c, x = it.partition(b':' if v.op & 1 else b'=')
        if c: e[k] = x
    n = v.res.new(1)
    L = [v.res.new(2 + k) for k in range(2 * n)] if n <= 49 else []
    flat = [x for k in sorted(e) for x in (k, e[k])]
    return [('success', v.res.new(0) == 0), ('pairs', n == len(e) and L == [len(x) for x in flat]), ('content', bytes(v.dst.curr[:sum(L)]) == b''.join(flat))]


def n_gen(op):
    def g(rng, i):
        d = gen(rng, i)
        if rng.random() < .5: d['s'] = (b'\r\n' if op & 1 else b'&').join(rng.choice([b'', b'a', b'b=1:2', b'b:2=3', b':', b'=', b'a=\r', b'a:\n', b'key=val:ue', b'k:v&w']) for _ in range(rng.randrange(6))); d['n'] = len(d['s'])
        return dict(op=op, res=[0] * 102, dst=bytes(400), **d)
    return g


def alt(op):
    return Contract('v_params', F, [Int('op', 32), Buf('s', 'n'), Int('n'), Buf('res', lambda v: 102, w=True, el=8), Buf('dst', lambda v: 400, w=True)], cxx=True, extra=X, post=n_post, gen=n_gen(op), pre=lambda v: [v.op == op, v.n == len(v.s.old), v.n <= 90],
                    opts={'nsrc': ['/verif/units/params_n.cpp', 'coda/url.cpp'], 'secs': 1.5, 'leak_ok': True})


INV = [('items', 1, inv, ptr2)]
nothing = lambda v: [('failure', v.ret == -1), ('nothing is stored', And(fget(v.st, 'c') == 0, fget(v.st, 'open') == 0))]
ALL = []
for hdr, nm in ((False, 'coda_get_params'), (True, 'coda_get_header')):
    b = '_Z%d%s_buf%sPKcm' % (len(nm) + 4, nm, ARG)
    z = '_Z%d%s%sPKc' % (len(nm), nm, ARG)
    kw = dict(ret='i32', cxx=True, extra=X, handlers=HS, native=False)
    ALL += [Contract(nm + '_buf', F, [Ref('map', 48), Buf('s', 'n'), Int('n')], post=post, gen=gen, inv=INV, pre=lambda v: [v.n <= (1 << 62)], symfind=lambda m, b=b: b, opts={'hdr': hdr, 'alt': alt(int(hdr))}, **kw),
            Contract(nm, F, [Ref('map', 48), CStr('s')], post=post, gen=genz, inv=INV, symfind=lambda m, z=z: z, opts={'hdr': hdr, 'alt': alt(2 + int(hdr))}, **kw),
            Contract(nm + '_buf (null)', F, [Ref('map', 48), NullArg('s'), Int('n')], post=nothing, gen=lambda rng, i: {'n': rng.choice([0, 5])}, symfind=lambda m, b=b: b, opts={'hdr': hdr}, **kw),
            Contract(nm + ' (null)', F, [Ref('map', 48), NullArg('s')], post=nothing, gen=lambda rng, i: {}, symfind=lambda m, z=z: z, opts={'hdr': hdr}, **kw)]
