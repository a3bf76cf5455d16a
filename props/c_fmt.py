"""std::string helpers of coda/string.cpp: formatting, splitting, random strings"""
import z3
from vc.spec import *
from vc.exec import Unsupported, Ptr, NULL, Dead, CArr, Multi, Agg, asel
from vc.sym import V, Bv, zi, asu, ass, is_c, trunc
from props.c_que import Ref
from vc.cxxstd import StrIn, StrOut, sstr, STR, B
from vc import cxxstd as CX
from vc.handlers import set_range, alloc, h_free

F, X = 'coda/string.cpp', ('-fexceptions',)
IMAX = (1 << 31) - 1

# ---------------------------------------------------------------- vsnprintf: the format and its arguments stand for one text (or cannot be converted)


def va(st, p): return ('va', p.rid)


def h_vstart(ex, st, ins, a):
    ex.oblige(st, st.ghost.get(va(st, a[0]), 0) == 0, 'a va_list is not started twice')
    st.ghost[va(st, a[0])] = 1


def h_vcopy(ex, st, ins, a):
    ex.oblige(st, st.ghost.get(va(st, a[1]), 0) == 1, 'only a fresh va_list is copied')
    st.ghost[va(st, a[0])] = 1


def h_vend(ex, st, ins, a):
    ex.oblige(st, st.ghost.get(va(st, a[0]), 0) > 0, 'only a started va_list is ended')
    st.ghost[va(st, a[0])] = 0


def h_vsn(ex, st, ins, a):
    p, n, fmt, ap = a[0], asu(a[1]).e, a[2], a[3]
    ex.oblige(st, isinstance(fmt, Ptr) and fmt.rid == 'P:fmt' and is_c(fmt.off) and fmt.off == 0, 'the format given is the one used')
    ex.oblige(st, st.ghost.get(va(st, ap), 0) == 1, 'the arguments are taken from a fresh va_list')
    T, L, fails = st.ghost[('f', 'T')], st.ghost[('f', 'L')], st.ghost[('f', 'fail')]
    fails, none = ex.decide(st, Bv(fails)), ex.decide(st, Bv(n == 0))
    st.ghost[va(st, ap)] = 2
    if fails: return V(32, (1 << 32) - 1)
    m = Min(L, n - 1)
    if none: return V(32, L, 0, IMAX)
    r = ex.region(st, p, 'write')
    rs = ex.rsize(st, r)
    ex.oblige(st, And(p.off >= 0, p.off + m + 1 <= rs), 'vsnprintf stays in the buffer')
    if ex.concrete:
        set_range(ex, st, r, p, m + 1, lambda k: T.get(k) if k < m else 0)
        return V(32, L)
    set_range(ex, st, r, p, m + 1, lambda k: z3.If(zi(k) < m, z3.Select(T, zi(k)), 0))
    return V(32, L, 0, IMAX)


def h_new(ex, st, ins, a):
    return alloc(ex, st, ins, asu(a[0]).e, canfail=False)


def h_insert_pn(ex, st, ins, a):
    c = CX.crid(a[0]); m = CX.slen(st, c)
    pos, n = asu(a[1]).e, asu(a[3]).e
    ex.oblige(st, pos <= m if is_c(pos) and is_c(m) else zi(pos) <= m, 'std::string::insert at a position in the string')
    ar, off = CX.bytes_at(ex, st, a[2], n, 'std::string::insert(pos, p, n) reads n bytes')
    if ar is None: return a[0]
    old = st.mem[c][0]
    if ex.concrete:
        d = list(old.d)
        CX.setarr(ex, st, c, CArr(d[:pos] + [ar.get(off + k) for k in range(n)] + d[pos:m]))
    else:
        if isinstance(ar, CArr): ar = ex.carr_to_z3(ar)
        b = ex.fresh_arr(c + '.i')
        k = z3.Int('k!i')
        st.hyps.append(z3.ForAll([k], z3.Select(b, k) == z3.If(k < pos, z3.Select(old, k), z3.If(k < pos + n, z3.Select(ar, k - pos + off), z3.Select(old, k - n))), patterns=[z3.Select(b, k)]))
        ex.range_fact(st, b, 1)
        CX.setarr(ex, st, c, b)
    CX.setlen(ex, st, c, m + n)
    return a[0]


HS = dict(STR)
HS.update({'vsnprintf': h_vsn, 'llvm.va_start': h_vstart, 'llvm.va_start.p0': h_vstart, 'llvm.va_end': h_vend, 'llvm.va_end.p0': h_vend, 'llvm.va_copy': h_vcopy, 'llvm.va_copy.p0': h_vcopy,
           '_Znam': h_new, '_ZdaPv': h_free, B + '6insertEmPKcm': h_insert_pn})


def setup(ex, st, v, inputs):
    if inputs is not None:
        t = inputs['#text']
        st.ghost[('f', 'fail')], st.ghost[('f', 'L')], st.ghost[('f', 'T')] = t is None, len(t or b''), CArr(list(t or b''))
        return
    L, fl, T = z3.Int('textlen'), z3.Bool('conversion_fails'), z3.Array('text', z3.IntSort(), z3.IntSort())
    st.pc += [L >= 0, L <= IMAX]
    st.ghost[('f', 'fail')], st.ghost[('f', 'L')], st.ghost[('f', 'T')] = fl, L, T
    ex.range_fact(st, T, 1)


def ended(v): return ('every va_list is ended', And([x == 0 for k, x in v.st.ghost.items() if k[0] == 'va']))


def txt(v):
    st = v.st
    T = st.ghost[('f', 'T')]
    return st.ghost[('f', 'fail')], st.ghost[('f', 'L')], (lambda k: asel(T, k))


def post(op):
    def f(v):
        fail, L, T = txt(v)
        if op == 'p':
            r = sstr(v, 'result')
            return [ended(v), ('nothing if the conversion fails', Imp(fail, r.len == 0)), ('the whole text', Imp(Not(fail), And(r.len == L, v.forall(0, L, lambda k: r[k] == T(k)))))]
        o, w = v.out, sstr(v, 'out')
        m = L if op == 'a' else Min(L, v.num)
        pos = v.pos if op == 'np' else o.len
        bad = Or(fail, pos > o.len) if op == 'np' else fail
        return [ended(v), ('failure is reported', Imp(bad, v.ret == -1)), ('failure changes nothing', Imp(bad, And(w.len == o.len, v.forall(0, o.len, lambda k: w[k] == o[k])))), ('number of bytes', Imp(Not(bad), v.ret == m)),
                ('the text, cut at the limit', Imp(Not(bad), And(w.len == o.len + m, v.forall(0, m, lambda k: w[pos + k] == T(k))))),
                ('what was there is kept', Imp(Not(bad), And(v.forall(0, pos, lambda k: w[k] == o[k]), v.forall(pos, o.len, lambda k: w[m + k] == o[k]))))]
    return f


TAIL = b'12345.'


def n_post(v):
    t = None if v.fail else bytes(v.s.old) + TAIL
    o = bytes(v.o.old)
    rc, n = v.res.new(0), v.res.new(1)
    rc = rc - (1 << 64) if rc >> 63 else rc
    bad = t is None or v.op == 3 and v.pos > len(o)
    t = t or b''
    if v.op >= 2: t = t[:v.num]
    if v.op == 0: exp = t if not bad else b''
    elif bad: exp = o
    elif v.op == 3: exp = o[:v.pos] + t + o[v.pos:]
    else: exp = o + t
    return [('result', v.op == 0 or rc == (-1 if bad else len(t))), ('length', n == len(exp)), ('text', n > 60000 or bytes(v.dst.curr[:len(exp)]) == exp)]


LENS = [0, 1, 2, 5, 17, 100, 32760, 32761, 32762, 32763, 32764, 40000, 50000]


def n_gen(op):
    def gen(rng, i):
        n = rng.choice(LENS if rng.random() < .7 else LENS[:6])
        num = rng.choice([0, 1, 2, 5, 6, 7, n, n + 5, n + 6, n + 7, 32766, 32767, 32768, 32769, 100000, 100000])
        on = rng.choice([0, 1, 3, 9])
        return dict(op=op, fail=int(rng.random() < .15), s=bytes([65 + rng.randrange(20)]) * n, n=n, o=bytes(rng.randrange(97, 120) for _ in range(on)), on=on, pos=rng.choice([0, on // 2, on, on + 1, (1 << 64) - 1]), num=num, res=[0, 0], dst=bytes(60000))
    return gen


def n_pre(op): return lambda v: [v.op == op, v.n == len(v.s.old), v.on == len(v.o.old), v.num < 200000, v.n <= 50000, v.on < 20, 0 not in bytes(v.s.old)]


def nat(op):
    return Contract('v_fmt', F, [Int('op', 32), Int('fail', 32), Buf('s', 'n'), Int('n'), Buf('o', 'on'), Int('on'), Int('pos'), Int('num'), Buf('res', lambda v: 2, w=True, el=8), Buf('dst', lambda v: 60000, w=True)], cxx=True, extra=X, post=n_post, gen=n_gen(op), pre=n_pre(op),
                    opts={'nsrc': ['/verif/units/fmt_n.cpp', 'coda/string.cpp', 'coda/random.c'], 'secs': 1.5, 'leak_ok': True})


SS = 'RNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'


def gen(rng, i): return {'out': b'abc'[:rng.randrange(4)], 'num': rng.choice([0, 1, 2, 5, 32767, 32768, 40000]), 'pos': rng.choice([0, 1, 2, 5]), 'fmt': b'x', '#text': rng.choice([None, b'', b'q', b'hello'])}


def fm(name, sym, params, p, op, ret='i32', **kw):
    return Contract(name, F, params + [CStr('fmt')], ret=ret, cxx=True, extra=X, handlers=HS, post=post(p), setup=setup, gen=gen, symfind=lambda m: sym, native=False, opts={'alt': nat(op)}, throws=lambda v: [('does not throw', False)], **kw)


FMT = [fm('coda_strprintf', '_Z14coda_strprintfB5cxx11PKcz', [StrOut()], 'p', 0, ret=None), fm('coda_strappend', '_Z14coda_strappend' + SS + 'PKcz', [StrIn('out', True)], 'a', 1),
       fm('coda_strnappend', '_Z15coda_strnappend' + SS + 'mPKcz', [StrIn('out', True), Int('num')], 'na', 2), fm('coda_strnprintf', '_Z15coda_strnprintf' + SS + 'mmPKcz', [StrIn('out', True), Int('pos'), Int('num')], 'np', 3)]


# ---------------------------------------------------------------- splitting: the fields are reported one by one, in order
CH, VS, DC = 'PKc', '_ZNSt6vectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaIS5_EE', ''
SET1, SET2 = '_ZNSt3setINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESt4lessIS5_ESaIS5_EE', '_ZNSt3setImSt4lessImESaImEE'


def isd(v):
    """is the byte a delimiter?  (strchr semantics: the terminating zero of the list counts where the source may contain zero bytes)"""
    if v.c.opts['delim'] is not None: return lambda c: c == v.c.opts['delim']
    d, z = v.delims, v.z_delims

    def unfold(sf, b):
        w = z3.Function(sf.name + '.w', z3.IntSort(), z3.IntSort())(b)
        return [Imp(sf(b), And(w >= 0, w <= z, d[w] == b)), Imp(Not(sf(b)), v.forall(0, z + 1, lambda j: d[j] != b))]
    return v.fn('D', 1, unfold, lambda self, b: any(d[j] == b for j in range(z + 1)), ret='bool')


def prep(v):
    if v.c.opts['delim'] is None: v.z_delims = v.vals['z:delims']
    v.D = isd(v)
    v.N = v.vals['z:s'] if 'z:s' in v.vals else v.n
    return v


from vc.handlers import h_strchr


def trunc8(v): return trunc(v, 8) if v.w > 8 else v


def fget(st, k): return st.ghost.get(('fl', k), 0)


def fput(ex, st, k, x):
    st.ghost[('fl', k)] = x
    ex.mod_mark(st, ('ghost', ('fl', k)))


def report(ex, st, c):
    """string object c is reported as the next field"""
    v = prep(ex.view(st))
    src = st.ghost.get(('src', c))
    n, arr = CX.slen(st, c), st.mem[c][0]
    if src is None: raise Unsupported('field of unknown origin')
    if src[0] != 'P:s':
        ex.oblige(st, False, 'a field is a part of the source'); raise Dead()
    q = fget(st, 'c'); b = src[1]
    ex.oblige(st, v.forall(0, n, lambda k: asel(arr, k) == v.s[b + k]), 'the field is reported unchanged')
    ex.oblige(st, And(b >= 0, b + n <= v.N), 'the field lies in the source')
    ex.oblige(st, v.forall(b, b + n, lambda k: Not(v.D(v.s[k]))), 'no delimiter within the field')
    ex.oblige(st, Or(b + n == v.N, v.D(v.s[b + n])), 'the field reaches to the next delimiter')
    if v.c.opts['skip'](v) is True: skip = True
    else: skip = v.c.opts['skip'](v)
    ex.oblige(st, Imp(Not(skip), b == q), 'every field is reported, in order')
    ex.oblige(st, Imp(skip, And(n > 0, b >= q, v.forall(q, b, lambda k: v.D(v.s[k])))), 'every non-empty field is reported, in order')
    fput(ex, st, 'c', b + n + 1)


def h_vpush(ex, st, ins, a):
    ex.oblige(st, isinstance(a[0], Ptr) and a[0].rid == 'P:result', 'the field goes to the result')
    c = CX.crid(a[1])
    report(ex, st, c)
    return None


def h_sins(ex, st, ins, a):
    h_vpush(ex, st, ins, a)
    return Agg([Ptr('iter'), V(8, 1)])


def h_vctor(ex, st, ins, a):
    ex.oblige(st, isinstance(a[0], Ptr) and a[0].rid == 'P:result', 'the result is constructed')
    fput(ex, st, 'made', fget(st, 'made') + 1)


def h_vdtor(ex, st, ins, a):
    ex.oblige(st, False, 'the result is kept')


def split_post(v):
    prep(v)
    q = fget(v.st, 'c')
    skip = v.c.opts['skip'](v)
    P = [('result constructed once', fget(v.st, 'made') == 1)] if v.c.opts['vec'] else []
    return P + [('every field was reported', Imp(Not(skip), q == v.N + 1)), ('every non-empty field was reported', Imp(skip, v.forall(q, v.N, lambda k: v.D(v.s[k]))))]


def sinv(v, t, u):
    prep(v)
    q = fget(v.st, 'c')
    skip = v.c.opts['skip'](v)
    return And(0 <= q, t <= u, u <= v.N, Imp(Not(skip), q == t), Imp(skip, And(q <= t, v.forall(q, t, lambda k: v.D(v.s[k])))), v.forall(t, u, lambda k: Not(v.D(v.s[k]))))


HSP = dict(HS)
HSP.update({'strchr': h_strchr, VS + 'C2Ev': h_vctor, VS + 'C1Ev': h_vctor, VS + 'D2Ev': h_vdtor, VS + 'D1Ev': h_vdtor, VS + '9push_backEOS5_': h_vpush, VS + '9push_backERKS5_': h_vpush,
            VS + '12emplace_backIJS5_EEE*': h_vpush, SET1 + '6insertERKS5_': h_sins, SET1 + '6insertEOS5_': h_sins})


def gen_split(rng, i):
    n = rng.choice([0, 1, 2, 3, 5, 8])
    s = bytes(rng.choice(b'a,b;,') for _ in range(n))
    return {'s': s, 'n': n, 'delims': rng.choice([b',', b';,', b'', b'ab']), 'ignore': rng.randrange(2)}


ptr2 = lambda n: '@P' in n
SPL = [Contract('coda_split_string', F, [Ref('result', 24), CStr('s'), CStr('delims'), Int('ignore', 1)], cxx=True, extra=X, handlers=HSP, post=split_post, gen=gen_split, native=False,
                symfind=lambda m: '_Z17coda_split_stringB5cxx11PKcS0_b', opts={'delim': None, 'skip': lambda v: v.ignore != 0, 'vec': True}, inv=[('fields', 2, sinv, ptr2)])]

SPL += [Contract('coda_split_string (sized)', F, [Ref('result', 24), Buf('s', 'n'), Int('n'), CStr('delims'), Int('ignore', 1)], cxx=True, extra=X, handlers=HSP, post=split_post, gen=gen_split, native=False,
                 pre=lambda v: [v.n <= (1 << 62)], symfind=lambda m: '_Z17coda_split_stringB5cxx11PKcmS0_b', opts={'delim': None, 'skip': lambda v: v.ignore != 0, 'vec': True}, inv=[('fields', 2, sinv, ptr2)])]


class NullArg(P):
    def __init__(s, name): s.name = name
    def make(s, ex, st, v, inputs): return NULL


def set_post(v):
    prep(v)
    q = fget(v.st, 'c')
    return [('an empty string has no fields', Imp(v.N == 0, q == 0)), ('every field was reported', Imp(v.N > 0, q == v.N + 1))]


SETS = '_Z18coda_get_stringsetPKcRSt3setINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESt4lessIS7_ESaIS7_EE'
SETU = '_Z18coda_get_uint64setPKcRSt3setImSt4lessImESaImEE'
CO = {'delim': 44, 'skip': lambda v: False, 'vec': False}
nothing = lambda v: [('nothing is reported', And(fget(v.st, 'c') == 0, fget(v.st, 'ins') == 0))]
SPL += [Contract('coda_get_stringset', F, [CStr('s'), Ref('result', 48)], cxx=True, extra=X, handlers=HSP, post=set_post, gen=gen_split, native=False, symfind=lambda m: SETS, opts=CO,
                 inv=[('fields', 2, sinv, ptr2), ('field', 1, lambda v, t: sinv(v, t, t), ptr2), ('all', 1, lambda v, t: fget(v.st, 'c') == prep(v).N + 1, lambda n: n.endswith('@null'))]),
        Contract('coda_get_stringset (null)', F, [NullArg('s'), Ref('result', 48)], cxx=True, extra=X, handlers=HSP, post=nothing, gen=lambda r, i: {}, native=False, symfind=lambda m: SETS, opts=CO)]


# ---------------------------------------------------------------- sets of numbers: what sscanf("%lu") makes of each field is an assumed contract


def pnum(b):
    """(number read, value) for the text at b"""
    k = 0
    while k < len(b) and b[k] in b' \t\n\v\f\r': k += 1
    neg = b[k:k + 1] == b'-'
    if b[k:k + 1] in (b'-', b'+'): k += 1
    j = k
    while j < len(b) and 48 <= b[j] <= 57: j += 1
    if j == k: return False, 0
    x = int(b[k:j])
    return True, ((1 << 64) - 1 if x >= 1 << 64 else -x % (1 << 64) if neg else x)


def nums(v):
    prep(v)
    txt = lambda k: bytes(v.s.old.d if isinstance(v.s.old, CArr) else v.s.old)[k:].split(b'\0')[0]
    ok = v.fn('ok', 1, lambda sf, b: [], lambda self, b: pnum(txt(b))[0], ret='bool')
    val = v.fn('val', 1, lambda sf, b: [And(sf(b) >= 0, sf(b) < (1 << 64))], lambda self, b: pnum(txt(b))[1])
    def conc(self, b):
        t = txt(b)
        return b + (t.index(44) if 44 in t else len(t))
    end = v.fn('E', 1, lambda sf, b: [Imp(And(b >= 0, b <= v.N), And(sf(b) >= b, sf(b) <= v.N, v.forall(b, sf(b), lambda k: v.s[k] != 44), Or(sf(b) == v.N, v.s[sf(b)] == 44)))], conc)
    return v, ok, val, end


def h_sscanf(ex, st, ins, a):
    from vc.handlers import fmt_of
    v, ok, val, end = nums(ex.view(st))
    if fmt_of(ex, st, a[1]) != b'%lu': raise Unsupported('sscanf format')
    p = a[0]
    ex.oblige(st, isinstance(p, Ptr) and p.rid == 'P:s', 'a field of the source is parsed')
    good = ex.decide(st, Bv(ok(p.off)))
    q = fget(st, 'c')
    ex.oblige(st, p.off == q, 'every field is parsed, in order')
    ex.oblige(st, fget(st, 'pend') == 0, 'the number of every field is stored')
    fput(ex, st, 'c', end(q) + 1)
    fput(ex, st, 'at', q)
    if not good: return V(32, 0) if ex.concrete else V(32, z3.If(zi(p.off) == v.N, (1 << 32) - 1, 0), 0, (1 << 32) - 1)
    fput(ex, st, 'pend', 1)
    ex.store(st, a[2], V(64, val(p.off)) if ex.concrete else V(64, val(p.off), 0, (1 << 64) - 1), T64)
    return V(32, 1)


class _T64: k = 'int'; w = 64; size = 8


T64 = _T64()


def h_nins(ex, st, ins, a):
    v, ok, val, end = nums(ex.view(st))
    x = asu(ex.load(st, a[1], T64)).e
    q = fget(st, 'at')
    ex.oblige(st, And(fget(st, 'pend') == 1, x == val(q)), 'the number of the field is stored, once')
    fput(ex, st, 'pend', 0)
    fput(ex, st, 'ins', fget(st, 'ins') + 1)
    return Agg([Ptr('iter'), V(8, 1)])


HSN = dict(HS)
HSN.update({'strchr': h_strchr, 'sscanf': h_sscanf, '__isoc23_sscanf': h_sscanf, SET2 + '6insertERKm': h_nins, SET2 + '6insertEOm': h_nins})


def gen_num(rng, i): return {'s': b','.join(rng.choice([b'', b'1', b'77', b'x', b' 5', b'-1', b'18446744073709551616', b'18446744073709551615', b'9223372036854775808', b'3x']) for _ in range(rng.choice([1, 1, 2, 3, 5])))}


NUMP = [('parsed', 1, lambda v, t: And(fget(v.st, 'c') == t, fget(v.st, 'pend') == 0), lambda n: '@P' in n), ('done', 1, lambda v, t: And(fget(v.st, 'c') == prep(v).N + 1, fget(v.st, 'pend') == 0), lambda n: n.endswith('@null'))]
SPL += [Contract('coda_get_uint64set', F, [CStr('s'), Ref('result', 48)], cxx=True, extra=X, handlers=HSN, native=False, symfind=lambda m: SETU, opts=CO, gen=gen_num, inv=NUMP,
                 post=lambda v: [('every field was parsed', fget(v.st, 'c') == prep(v).N + 1), ('the number of every field is stored', fget(v.st, 'pend') == 0)]),
        Contract('coda_get_uint64set (null)', F, [NullArg('s'), Ref('result', 48)], cxx=True, extra=X, handlers=HSN, native=False, symfind=lambda m: SETU, opts=CO, gen=lambda r, i: {}, post=nothing)]


# ---------------------------------------------------------------- the real code, natively
def s_post(v):
    s = bytes(v.s.old)
    if v.op != 1: s = s.split(b'\0')[0]
    D = bytes(v.delims.old) + b'\0' if v.op < 2 else b','
    f = [b'']
    for b in s:
        if b in D: f.append(b'')
        else: f[-1] += bytes([b])
    if v.op < 2 and v.ignore: f = [x for x in f if x]
    if v.op >= 2: f = sorted(set(f)) if s or v.op == 3 else []
    cnt = v.res.new(0)
    if v.op == 3:
        e = sorted({pnum(x)[1] for x in f if pnum(x)[0]})
        return [('numbers', cnt == len(e) and [v.res.new(1 + k) for k in range(cnt)] == e)]
    if cnt > 100: return [('number of fields', False)]
    L = [v.res.new(1 + k) for k in range(cnt)]
    return [('number of fields', cnt == len(f)), ('lengths', L == [len(x) for x in f]), ('fields', bytes(v.dst.curr[:sum(L)]) == b''.join(f))]


def s_gen(op):
    def gen(rng, i):
        al = rng.choice([b'a,b;,', b',,a', b'a;,\0b', b'\xff,a;', b'1,2 -3'])
        s = b','.join(rng.choice([b'', b'1', b'77', b'x', b' 5', b'-1', b'18446744073709551616', b'18446744073709551615', b'9223372036854775808', b'3x']) for _ in range(rng.choice([1, 1, 2, 3, 5]))) if op == 3 else bytes(rng.choice(al) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 20])))
        return dict(op=op, s=s, n=len(s), delims=rng.choice([b',', b';,', b'', b'ab', b'\xff,']), ignore=rng.randrange(2), res=[0] * 101, dst=bytes(200))
    return gen


def nsplit(op):
    return Contract('v_split', F, [Int('op', 32), Buf('s', 'n'), Int('n'), CStr('delims'), Int('ignore', 32), Buf('res', lambda v: 101, w=True, el=8), Buf('dst', lambda v: 200, w=True)], cxx=True, extra=X, post=s_post, gen=s_gen(op),
                    pre=lambda v: [v.op == op, v.n == len(v.s.old), v.n <= 90], opts={'nsrc': ['/verif/units/split_n.cpp', 'coda/string.cpp', 'coda/random.c'], 'secs': 1.5, 'leak_ok': True})


for _c in SPL:
    if '(null)' not in _c.fn: _c.opts = dict(_c.opts, alt=nsplit(3 if 'uint64' in _c.fn else 2 if 'stringset' in _c.fn else 1 if 'sized' in _c.fn else 0))


# ---------------------------------------------------------------- random strings


def h_random(ex, st, ins, a):
    if ex.concrete:
        n = fget(st, 'rnd'); st.ghost[('fl', 'rnd')] = n + 1
        return V(64, (n * 48271 + 11) % (1 << 31))
    x = ex.fresh('random'); st.pc.append(z3.And(x >= 0, x < (1 << 31)))
    return V(64, x, 0, (1 << 31) - 1)


def letter(v):
    """is the byte a letter of the alphabet?"""
    d, z = v.alphabet, v.m
    return v.fn('In', 1, lambda sf, b: [], lambda self, b: any(d[j] == b for j in range(z)), ret='bool')


def rnd_setup(ex, st, v, inputs):
    if inputs is None:
        A = letter(v)
        k = z3.Int('k!l')
        f = z3.Select(v.alphabet.old, k)
        st.hyps.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v.m), zb(A(f))), patterns=[f]))


def rnd_post(v):
    r, A = sstr(v, 'result'), letter(v)
    return [('length', r.len == v.n), ('only letters of the alphabet', v.forall(0, r.len, lambda k: A(r[k])))]


HSR = dict(HS)
HSR.update({'random': h_random, 'coda_random_init': lambda ex, st, ins, a: V(32, 0)})
RND = [Contract('coda_random_string', F, [StrOut(), Int('n'), Buf('alphabet', 'm'), Int('m')], cxx=True, extra=X, handlers=HSR, setup=rnd_setup, post=rnd_post, nat_name='_Z18coda_random_stringB5cxx11mPKcm', symfind=lambda m: '_Z18coda_random_stringB5cxx11mPKcm',
                pre=lambda v: [v.m > 0, v.m <= (1 << 62), v.n <= (1 << 40)], gen=lambda rng, i: (lambda m: {'n': rng.choice([0, 1, 2, 3, 30]), 'alphabet': bytes(rng.randrange(256) for _ in range(m)), 'm': m})(rng.choice([1, 2, 3, 26])),
                inv=[('letters', 0, lambda v: (lambda r, A: v.forall(0, r.len, lambda k: A(r[k])) if r is not None else True)(sstr(v, 'result'), letter(v)))])]

ALL = FMT + SPL + RND
