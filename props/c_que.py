"""coda::synque: FIFO hand-over between threads.  std::deque, pthread and the copies of elements are assumed contracts:
the deque is a ghost sequence whose content is arbitrary at every acquisition of the mutex."""
import z3
from vc.spec import *
from vc.exec import Multi, Unsupported, Ptr, NULL, Dead, Throw
from vc.sym import V, zi, asu, ass, is_c

F, SU, X = 'coda/synque.hpp', 'units/synque.cpp', ('-fexceptions',)
DQ, DK, SQ = '_ZNSt5dequeI4itemSaIS0_EE', '_ZNKSt5dequeI4itemSaIS0_EE', '_ZN4coda6synqueI4itemE'
BAD = '_ZTISt9bad_alloc'


def g(st, k): return st.ghost.get(('q', k), 0)


def put(ex, st, k, x):
    st.ghost[('q', k)] = x
    ex.mod_mark(st, ('ghost', ('q', k)))


def acquire(ex, st):
    """the mutex is obtained: other threads have had their turn"""
    if ex.concrete: n = st.ghost.get(('q', 'ini'), 0)
    else:
        n = ex.fresh('n'); st.pc.append(z3.And(n >= 0, n < (1 << 60)))
    put(ex, st, 'n', n); put(ex, st, 'lo', 0); put(ex, st, 'hi', n); put(ex, st, 'pf', 0); put(ex, st, 'pb', 0); put(ex, st, 'held', 1)


def mtx(ex, st, p, what):
    ex.oblige(st, isinstance(p, Ptr) and p.rid == 'P:this', what + ' the mutex of the queue')
    k = st.ghost.get(('q', 'mutex'))
    if k is None: st.ghost[('q', 'mutex')] = p.off
    else: ex.oblige(st, k == p.off, 'one and the same mutex')


def h_lock(ex, st, ins, a):
    mtx(ex, st, a[0], 'lock')
    ex.oblige(st, g(st, 'held') == 0, 'the mutex is not locked twice')
    acquire(ex, st); return V(32, 0)


def h_unlock(ex, st, ins, a):
    mtx(ex, st, a[0], 'unlock')
    ex.oblige(st, g(st, 'held') == 1, 'only the holder unlocks')
    put(ex, st, 'held', 0); return V(32, 0)


def h_wait(ex, st, ins, a):
    mtx(ex, st, a[1], 'wait with')
    ex.oblige(st, g(st, 'held') == 1, 'the mutex is held when waiting')
    ex.oblige(st, size(st) == 0, 'waits only while the queue is empty')
    put(ex, st, 'wait', g(st, 'wait') + 1)
    acquire(ex, st)
    if ex.concrete:
        w = st.ghost.get(('q', 'wake'), 0)
        put(ex, st, 'n', w); put(ex, st, 'hi', w)
    return V(32, 0)


def h_signal(ex, st, ins, a):
    ex.oblige(st, isinstance(a[0], Ptr) and a[0].rid == 'P:this', 'the condition of the queue')
    put(ex, st, 'sig', g(st, 'sig') + 1); return V(32, 0)


def h_init(k):
    def h(ex, st, ins, a):
        ex.oblige(st, isinstance(a[0], Ptr) and a[0].rid == 'P:this', 'initialises a member')
        st.ghost[('q', k)] = g(st, k) + 1
        return V(32, 0)
    return h


def size(st): return g(st, 'hi') - g(st, 'lo') + g(st, 'pf') + g(st, 'pb')


def mine(ex, st, p):
    """is this the shared deque? (then the mutex must be held)"""
    if not isinstance(p, Ptr): raise Unsupported('deque')
    if p.rid == 'P:this':
        ex.oblige(st, g(st, 'held') == 1, 'the deque is used only while the mutex is held'); return True
    if p.rid == 'P:out': return False
    raise Unsupported('another deque')


def may_throw(ex, st, ok):
    """the call works or throws and leaves things as they were"""
    if ex.concrete: ok(st); return None
    f = st.clone()
    ok(st)
    put(ex, f, 'threw', 1)
    return Multi([(st, None, None), (f, None, BAD)])


def taken(ex, st, src):
    """element `src` goes to the caller: must be the oldest that has not gone yet"""
    ex.oblige(st, isinstance(src, Ptr) and src.rid == 'elem', 'an element of the queue is handed out')
    ex.oblige(st, g(st, 'held') == 1, 'elements are used only while the mutex is held')
    ex.oblige(st, And(src.off >= g(st, 'lo'), src.off < g(st, 'hi')), 'the element is still in the queue')
    ex.oblige(st, src.off == g(st, 'n') - 1 - g(st, 'k'), 'oldest first')


def h_push(where):
    def h(ex, st, ins, a):
        if mine(ex, st, a[0]):
            ex.oblige(st, isinstance(a[1], Ptr) and a[1].rid == 'P:e', 'the element given is stored')
            return may_throw(ex, st, lambda s: put(ex, s, 'p' + where, g(s, 'p' + where) + 1))
        if where != 'b': raise Unsupported('push_front on the result')
        taken(ex, st, a[1])
        return may_throw(ex, st, lambda s: put(ex, s, 'k', g(s, 'k') + 1))
    return h


def h_assign(ex, st, ins, a):
    ex.oblige(st, isinstance(a[0], Ptr) and a[0].rid == 'P:e', 'the result is stored where the caller wants it')
    taken(ex, st, a[1])
    def ok(s): put(ex, s, 'k', g(s, 'k') + 1)
    r = may_throw(ex, st, ok)
    if r is None: return a[0]
    return Multi([(r.alts[0][0], a[0], None), r.alts[1]])


def h_end(back):
    def h(ex, st, ins, a):
        if not mine(ex, st, a[0]): raise Unsupported('element of the result')
        ex.oblige(st, size(st) > 0, 'front/back of a deque that is not empty')
        ex.oblige(st, g(st, 'hi') > g(st, 'lo'), 'refers to an element that was there')
        if 'elem' not in ex.regions: ex.add_region(st, 'elem', 'obj', size=1 << 61, writable=False, name='element')
        return Ptr('elem', g(st, 'hi') - 1 if back else g(st, 'lo'))
    return h


def h_pop(back):
    def h(ex, st, ins, a):
        if not mine(ex, st, a[0]): raise Unsupported('pop of the result')
        ex.oblige(st, g(st, 'hi') > g(st, 'lo'), 'pop of a deque that is not empty')
        if back: put(ex, st, 'hi', g(st, 'hi') - 1)
        else: put(ex, st, 'lo', g(st, 'lo') + 1)
        return None
    return h


def h_size(ex, st, ins, a):
    if not mine(ex, st, a[0]): raise Unsupported('size of the result')
    n = size(st)
    return V(64, n) if is_c(n) else V(64, n, 0, 1 << 61)


def h_empty(ex, st, ins, a):
    if not mine(ex, st, a[0]): raise Unsupported('emptiness of the result')
    n = size(st)
    return Bv(n == 0)


def h_dctor(ex, st, ins, a):
    ex.oblige(st, isinstance(a[0], Ptr) and a[0].rid == 'P:this', 'the deque of the queue')
    st.ghost[('q', 'deque')] = g(st, 'deque') + 1
    return None


def nop(ex, st, ins, a): return None


HS = {'pthread_mutex_lock': h_lock, 'pthread_mutex_unlock': h_unlock, 'pthread_cond_wait': h_wait, 'pthread_cond_signal': h_signal, 'pthread_cond_broadcast': h_signal,
      'pthread_mutex_init': h_init('mi'), 'pthread_cond_init': h_init('ci'), 'pthread_mutex_destroy': h_init('md'), 'pthread_cond_destroy': h_init('cd'),
      DQ + '10push_frontERKS0_': h_push('f'), DQ + '9push_backERKS0_': h_push('b'), '_ZN4itemaSERKS_': h_assign, DQ + '4backEv': h_end(True), DQ + '5frontEv': h_end(False),
      DQ + '8pop_backEv': h_pop(True), DQ + '9pop_frontEv': h_pop(False), DK + '4sizeEv': h_size, DK + '5emptyEv': h_empty}
for x in '12':
    HS[DQ + 'C%sEv' % x] = h_dctor
    HS[DQ + 'D%sEv' % x] = h_dctor
SELF = Struct('this', 1024, [(0, 'int', 64, 'c0')])


class Ref(P):
    """reference to an object of which only the identity matters"""
    def __init__(s, name, size): s.name, s.size = name, size

    def make(s, ex, st, v, inputs):
        ex.add_region(st, 'P:' + s.name, 'obj', size=s.size, writable=True, name=s.name)
        return Ptr('P:' + s.name)


def free(v): return ('the mutex is not kept', g(v.st, 'held') == 0)


def same_q(v): return And(g(v.st, 'pf') == 0, g(v.st, 'pb') == 0, g(v.st, 'lo') == 0, g(v.st, 'hi') == g(v.st, 'n') - g(v.st, 'k'))


def add_post(v): return [free(v), ('the element becomes the newest', And(g(v.st, 'pf') == 1, g(v.st, 'pb') == 0, g(v.st, 'lo') == 0, g(v.st, 'hi') == g(v.st, 'n'))), ('a waiting thread is woken', g(v.st, 'sig') >= 1), ('never waits', g(v.st, 'wait') == 0)]


def add_throw(v): return [free(v), ('nothing was added', And(g(v.st, 'pf') == 0, same_q(v))), ('only what the copy throws', And(v.exc == BAD, g(v.st, 'threw') == 1))]


def sig_post(v): return [free(v), ('a waiting thread is woken', g(v.st, 'sig') >= 1), ('nothing changes', same_q(v))]


def get_post(count):
    def post(v):
        st = v.st
        n, k = g(st, 'n'), g(st, 'k')
        cw = v.canwait != 0
        return [free(v), ('result', Or(v.ret == 0, v.ret == -1)), ('fails exactly on an empty queue', (v.ret == -1) == (n == 0)), ('waits only when allowed, once', And(g(st, 'wait') <= 1, Imp(Not(cw), g(st, 'wait') == 0))),
                ('waits when allowed and empty', Imp(And(v.ret == -1, cw), g(st, 'wait') == 1)), ('as many as asked for', Imp(v.ret == 0, k == count(v, n))), ('nothing on failure', Imp(v.ret == -1, k == 0)), ('exactly the elements handed out are removed', same_q(v))]
    return post


def get_throw(v): return [free(v), ('exactly the elements handed out are removed', same_q(v)), ('only what the copy throws', And(v.exc == BAD, g(v.st, 'threw') == 1))]


def setup(ex, st, v, inputs):
    if inputs is not None: st.ghost[('q', 'ini')] = inputs.get('#n', 0); st.ghost[('q', 'wake')] = inputs.get('#wake', 0)


def view(e, st, t, v):
    for k in ('hi', 'k', 'n'): t['q' + k] = g(st, k)


def gen(rng, i): return {'c0': 0, '#n': rng.choice([0, 1, 2, 5, 9]), '#wake': rng.choice([0, 1, 3]), 'canwait': rng.choice([0, 1, 7]), 'max_count': rng.choice([-1, 0, 1, 2, 5, 100])}


def many(v, n): return Ite(And(v.max_count > 0, v.max_count < n), v.max_count, n)


def qc(name, sym, params, post, throws=None, ret=None, alt=None, **kw):
    return Contract('synque::' + name, F, [SELF] + params, ret=ret, cxx=True, shim=SU, extra=X, handlers=HS, post=post, throws=throws or (lambda v: [('does not throw', False)]), setup=setup, gen=gen, symfind=lambda m: SQ + sym, native=False,
                    opts={'alt': alt} if alt else {}, viewhook=view, **kw)


# ---------------------------------------------------------------- the real code, natively: one call on a queue with given elements
ADD, SIGNAL, GET, GETN, SIZE = range(5)


def n_post(v):
    n, r = v.n, [v.res.new(i) for i in range(8)]
    sg = lambda x: x - (1 << 64) if x >> 63 else x
    rc, threw, held, bad, sig, waits, dn, on = [sg(x) for x in r]
    A = [v.init[i] for i in range(n)]              # front .. back
    out = [v.res.new(8 + i) for i in range(on if 0 <= on <= 40 else 0)]
    D = [v.res.new(48 + i) for i in range(dn if 0 <= dn <= 40 else 0)]
    W = [1000 + i for i in range(v.wake)]          # pushed by another thread during the wait, in this order
    P = [('the mutex is not kept', held == 0), ('the deque and the mutex are used correctly', bad == 0)]
    mc = sg(v.maxc % (1 << 64))
    if v.op == ADD:
        exp = A if threw else [7777] + A
        return P + [('content', D == exp), ('a waiting thread is woken', threw or sig >= 1), ('throws only when a copy does', threw == (v.throw_at == 1))]
    if v.op == SIGNAL: return P + [('a waiting thread is woken', sig >= 1), ('content', D == A)]
    if v.op == SIZE: return P + [('size', rc == n), ('content', D == A)]
    cur = A
    if not A:
        if not v.canwait: return P + [('empty', rc == -1 and waits == 0 and not out and not D)]
        P.append(('waits once', waits == 1))
        cur = W[::-1]
    else: P.append(('does not wait', waits == 0))
    if not cur: return P + [('still empty', rc == -1 and not out and not D)]
    k = 1 if v.op == GET else min(mc, len(cur)) if mc > 0 else len(cur)
    done = min(k, max(v.throw_at - 1, 0)) if threw else k
    P.append(('throws only when a copy does', (not threw) or 0 < v.throw_at <= 3 * k + 3))
    if threw: return P + [('nothing is lost or duplicated', D + out[::-1] == cur)]
    return P + [('result', rc == 0), ('oldest first', out == cur[::-1][:k]), ('the others stay', D == cur[:len(cur) - k])]


def n_gen(op):
    def gen(rng, i):
        n = rng.choice([0, 0, 1, 1, 2, 3, 5, 8])
        return dict(op=op, n=n, init=[rng.randrange(500) for _ in range(n)], maxc=rng.choice([0, 1, 2, 3, 8, 9, 100, 1 << 32, (1 << 64) - 1, (1 << 64) - 5, n]), canwait=rng.choice([0, 1, 2, 0x100, 1 << 31]), wake=rng.choice([0, 1, 2, 3]), throw_at=rng.choice([0, 0, 0, 1, 2, 3, 4]), res=[0] * 90)
    return gen


def n_pre(op): return lambda v: [v.n <= 8, v.n == len(v.init.old), v.wake <= 8, v.op == op, v.throw_at >= 0]


def nat(op):
    return Contract('v_synque', F, [Int('op', 32), Buf('init', 'n', el=8), Int('n'), Int('maxc'), Int('canwait', 32), Int('wake', 32), Int('throw_at', 32), Buf('res', lambda v: 90, w=True, el=8)], cxx=True, extra=X + ('-fno-access-control',), post=n_post, gen=n_gen(op), pre=n_pre(op),
                    opts={'nsrc': ['/verif/units/synque_n.cpp'], 'secs': 1.0, 'leak_ok': True})


def ctor_post(v): return [('mutex, condition and deque are initialised once', And(g(v.st, 'mi') == 1, g(v.st, 'ci') == 1, g(v.st, 'deque') == 1))]


def dtor_post(v): return [('mutex, condition and deque are destroyed once', And(g(v.st, 'md') == 1, g(v.st, 'cd') == 1, g(v.st, 'deque') == 1))]


ph = lambda n: n.startswith('phi') or n == 'it'
LOOP = [('handed out', 1, lambda v, t: And(g(v.st, 'k') == t, g(v.st, 'hi') == g(v.st, 'n') - t, g(v.st, 'held') == 1, g(v.st, 'pf') == 0, g(v.st, 'pb') == 0, g(v.st, 'lo') == 0), ph), ('not too many', 1, lambda v, t: t <= many(v, g(v.st, 'n')), ph)]
ALL = [qc('synque', 'C2Ev', [], ctor_post), qc('~synque', 'D2Ev', [], dtor_post), qc('add', '3addERKS1_', [Ref('e', 8)], add_post, add_throw, alt=nat(ADD)), qc('signal', '6signalEv', [], sig_post, alt=nat(SIGNAL)),
       qc('get', '3getERS1_i', [Ref('e', 8), Int('canwait', 32, True)], get_post(lambda v, n: 1), get_throw, 'i32', alt=nat(GET)),
       qc('get (many)', '3getERSt5dequeIS1_SaIS1_EEli', [Ref('out', 80), Int('max_count', 64, True), Int('canwait', 32, True)], get_post(many), get_throw, 'i32', alt=nat(GETN), inv=LOOP),
       qc('size', '4sizeEv', [], lambda v: [free(v), ('the number of elements', v.ret == g(v.st, 'n')), ('nothing changes', same_q(v)), ('never waits', g(v.st, 'wait') == 0)], ret='u64', alt=nat(SIZE))]
