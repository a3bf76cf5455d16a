"""Contracts assumed on the C++ exception runtime and on system calls."""
import z3
from .sym import *
from .exec import *
from .exec import Multi, Throw, Ptr, NULL, Unsupported, Dead

SYS = {}


def errno(ex, st, ins, a):
    if 'errno' not in ex.regions or 'errno' not in st.mem:
        ex.add_region(st, 'errno', 'obj', size=4, name='errno')
    return Ptr('errno')


def set_errno(ex, st, val=None):
    errno(ex, st, None, None)
    m = dict(st.mem['errno'])
    if val is None:
        if ex.concrete: v = V(32, 5)
        else:
            x = ex.fresh('errno')
            st.pc.append(z3.And(x > 0, x < 4096))
            v = V(32, x, 1, 4095)
    else: v = V(32, val)
    m[0] = (4, v)
    st.mem['errno'] = m
    ex.mod_mark(st, ('errno', 0))


def exc_alloc(ex, st, ins, a):
    if 'exc' not in ex.regions: ex.add_region(st, 'exc', 'obj', size=1 << 20, name='exception')
    return Ptr('exc')


def cxa_throw(ex, st, ins, a): return Throw(a[1].rid[2:] if isinstance(a[1], Ptr) and a[1].rid and a[1].rid.startswith('g:') else '?')


def terminate(ex, st, ins, a):
    ex.oblige(st, False, 'no call to std::terminate'); raise Dead()


def nop(ex, st, ins, a): return None


def rethrow(ex, st, ins, a): return Throw(st.exc)


def typeid_for(ex, st, ins, a):
    p = a[0]
    return V(32, ex.typeid(p.rid[2:] if p.rid else '...'))


def strerror_(ex, st, ins, a): return a[1]


SYS.update({'__errno_location': errno, '__cxa_allocate_exception': exc_alloc, '__cxa_throw': cxa_throw, '__cxa_free_exception': nop, '__cxa_begin_catch': lambda ex, st, ins, a: Ptr('exc'),
            '__cxa_end_catch': nop, '__cxa_rethrow': rethrow, '__clang_call_terminate': terminate, '__cxa_call_unexpected': terminate, '_ZSt9terminatev': terminate,
            'llvm.eh.typeid.for': typeid_for, 'llvm.eh.typeid.for.p0': typeid_for, '_ZN10coda_errorC2EPKcz': nop, '_ZN10coda_errorC1EPKcz': nop, '_ZL15coda_strerror_riPcm': strerror_})


def swapped(x, n):
    """x with its n bytes reversed (an uninterpreted function for the solver)"""
    if is_c(x): return int.from_bytes((x % (1 << 8 * n)).to_bytes(n, 'little'), 'big')
    return z3.Function('bswap%d' % n, z3.IntSort(), z3.IntSort())(zi(x))


def bswap(n):
    def h(ex, st, ins, a):
        x = asu(a[0]).e
        r = swapped(x, n)
        if is_c(r): return V(8 * n, r)
        st.pc.append(z3.And(r >= 0, r < (1 << 8 * n)))
        return V(8 * n, r, 0, (1 << 8 * n) - 1)
    return h


SYS.update({'htonl': bswap(4), 'ntohl': bswap(4), 'htons': bswap(2), 'ntohs': bswap(2)})


# ------------------------------------------------------------------ SysV semaphores
def _s16(v): return v.e - 65536 if v.e >= 32768 else v.e


def rd16(ex, st, p):
    class T: k = 'int'; w = 16; size = 2
    v = asu(ex.load(st, p, T))
    if not is_c(v.e):
        v2 = z3.simplify(v.e) if not is_c(v.e) else v.e
        if not z3.is_int_value(v2): raise Unsupported('semop with operations that are not constants')
        v = V(16, v2.as_long())
    return v


def lk(st, k): return st.ghost.get(('lk', k), 0)


def setlk(ex, st, k, x):
    st.ghost[('lk', k)] = x
    ex.mod_mark(st, ('ghost', ('lk', k)))


def h_semop(ex, st, ins, a):
    """reader/writer lock made of two counters (0: readers, 1: writers).  Every call must be one of: take shared, take exclusive, give back
    what this process holds; the kernel applies the operations of one call atomically and in order"""
    n = asu(a[2]).e
    if not is_c(n): raise Unsupported('semop with a symbolic number of operations')
    ops = []
    for i in range(n):
        p = a[1].add(6 * i)
        ops.append((rd16(ex, st, p).e, _s16(rd16(ex, st, p.add(2))), rd16(ex, st, p.add(4)).e))
    zero, delta = set(), {}
    ok = True
    why = []
    for num, op, flg in ops:
        if num not in (0, 1): ok = False; why.append('semaphore %d' % num); continue
        if op == 0:
            if delta.get(num): ok = False; why.append('waits for zero after changing the counter')
            zero.add(num)
        else:
            if not flg & 0x1000: ok = False; why.append('not undone when the process dies')
            delta[num] = delta.get(num, 0) + op
    delta = {k: x for k, x in delta.items() if x}
    R, Wr = lk(st, 'R'), lk(st, 'W')
    nR, nW = R, Wr
    if delta == {0: 1}:
        if 1 not in zero: ok = False; why.append('shared lock taken without waiting for the writer')
        if R or Wr: ok = False; why.append('lock taken twice')
        nR = R + 1
    elif delta == {1: 1}:
        if not {0, 1} <= zero: ok = False; why.append('exclusive lock taken without waiting for readers and writers')
        if R or Wr: ok = False; why.append('lock taken twice')
        nW = Wr + 1
    elif delta == {0: -1}:
        if not R: ok = False; why.append('shared lock given back but not held')
        nR = R - 1
    elif delta == {1: -1}:
        if not Wr: ok = False; why.append('exclusive lock given back but not held')
        nW = Wr - 1
    elif delta == {}: pass
    else: ok = False; why.append('not a lock operation')
    ex.oblige(st, ok, 'lock protocol%s' % (': ' + '; '.join(why) if why else ''))
    if not ok: raise Dead()
    acquire = bool(delta) and sum(delta.values()) > 0
    setlk(ex, st, 'R', nR); setlk(ex, st, 'W', nW)
    if acquire: setlk(ex, st, 'ever', lk(st, 'ever') + 1)
    if ex.concrete: return V(32, 0)
    fail = st.clone()
    setlk(ex, fail, 'R', R); setlk(ex, fail, 'W', Wr); setlk(ex, fail, 'ever', lk(st, 'ever') - (1 if acquire else 0))
    if bool(delta) and not acquire: setlk(ex, fail, 'relfailed', 1)
    set_errno(ex, fail)
    return Multi([(st, V(32, 0), None), (fail, V(32, -1), None)])


SYS['semop'] = h_semop


def locked(names):
    """opts['guard']: the shared regions may be read only under a lock and written only under the exclusive one"""
    def g(ex, st, r, what):
        if not r.rid.startswith('P:') or r.rid[2:] not in names: return
        if what == 'write': ok = lk(st, 'W') > 0
        else: ok = lk(st, 'W') > 0 or lk(st, 'R') > 0
        if not ok:
            ex.oblige(st, False, 'shared memory (%s) is %s only while the %slock is held' % (r.name, 'written' if what == 'write' else 'read', 'exclusive ' if what == 'write' else ''))
            raise Dead()
    return g
