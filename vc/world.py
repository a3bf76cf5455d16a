"""Assumed contracts on system calls.  Every call is recorded in a log (name, arguments, result); each may succeed or fail with an arbitrary
errno.  Postconditions are formulas over the log, judged the same way on symbolic paths and on native runs (guard.c records the same log)."""
import z3
from .spec import *
from .sym import *
from .exec import asel
from .spec import And, Or, Not, Imp, Ite
from .exec import Multi, Ptr, NULL, FnP, Unsupported, Dead
from .handlers import fmt_of
from . import syslib as SY

NAMES = ['open', 'close', 'dup2', 'flock', 'fstat', 'ftruncate', 'mmap', 'munmap', 'write', 'read', 'socket', 'bind', 'listen', 'accept', 'connect', 'ioctl', 'setsockopt', 'fork', 'setsid',
         'umask', 'exit', 'srandom', 'ftok', 'shmget', 'shmat', 'shmdt', 'semget', 'semctl', 'semop', 'semtimedop', 'snprintf', 'mkdir', 'unlink', 'getpid', 'inet_addr', 'strtoul', 'signal', 'sigaction']
U64M = (1 << 64) - 1


class Ev:
    """name, arguments, result, what the call saw in memory, text"""
    def __init__(s, name, args, res, x=(), text=None): s.name, s.args, s.res, s.x, s.text = name, args, res, x, text

    def __getitem__(s, i): return s.args[i]

    @property
    def ok(s): return not (isinstance(s.res, int) and s.res == -1)


def log(v): return list(v.st.ghost.get(('log',), ())) if hasattr(v, 'st') else v.nlog


def calls(v, *names): return [e for e in log(v) if e.name in names]


def native(v): return not hasattr(v, 'st')


def at(v, x, name, off=0):
    """is the logged argument x the address of parameter `name` (+ off)?"""
    if isinstance(x, tuple): return x[0] == 'P:' + name and is_c(x[1]) and x[1] == off
    return native(v) and x == v.nbase.get(name, -1) + off


def arg(ex, a):
    if isinstance(a, FnP): return ('fn', a.name)
    if isinstance(a, Ptr): return 0 if a.rid is None else a.c if a.rid == 'int' and not a.terms else (a.rid, a.off)
    if isinstance(a, Bv): return int(a.b) if isinstance(a.b, bool) else z3.If(a.b, z3.IntVal(1), z3.IntVal(0))
    if isinstance(a, V): return (ass(a) if a.w == 32 else asu(a)).e
    return None


def record(ex, st, name, args, res, extra=()):
    if st.mods is not None: raise Unsupported('system call %s inside a loop' % name)
    st.ghost[('log',)] = st.ghost.get(('log',), ()) + (Ev(name, args, res, extra),)


def branch(ex, st, name, args, succ, fail=V(32, -1), failres=-1, can_fail=True, extra=()):
    """succ: [(result value, logged result, setup(st))]"""
    out = []
    for k, (rv, lr, fx) in enumerate(succ):
        s2 = st if (ex.concrete or (k == len(succ) - 1 and not can_fail)) else st.clone()
        if fx: fx(s2)
        record(ex, s2, name, args, lr, extra)
        out.append((s2, rv, None))
        if ex.concrete: return rv
    if can_fail:
        SY.set_errno(ex, st)
        record(ex, st, name, args, failres, extra)
        out.append((st, fail, None))
    return Multi(out) if len(out) > 1 else out[0][1]


def newfd(ex, st):
    if ex.concrete:
        n = st.ghost.get(('nfd',), 100); st.ghost[('nfd',)] = n + 1
        return V(32, n), n
    x = ex.fresh('fd')
    st.pc.append(z3.And(x >= 0, x < (1 << 31)))
    for o in st.ghost.get(('live',), ()): st.pc.append(x != o)
    st.ghost[('live',)] = st.ghost.get(('live',), ()) + (x,)
    return V(32, x, 0, (1 << 31) - 1), x


def fdcall(name, n):
    def h(ex, st, ins, a):
        args = tuple(arg(ex, x) for x in a[:n])
        v, e = newfd(ex, st)
        return branch(ex, st, name, args, [(v, e, None)])
    return h


def plain(name, n, can_fail=True):
    def h(ex, st, ins, a): return branch(ex, st, name, tuple(arg(ex, x) for x in a[:n]), [(V(32, 0), 0, None)], can_fail=can_fail)
    return h


def h_close(ex, st, ins, a):
    x = arg(ex, a[0])
    st.ghost[('live',)] = tuple(o for o in st.ghost.get(('live',), ()) if not (is_c(o) and is_c(x) and o == x) and not (not is_c(o) and not is_c(x) and o.eq(x)))
    return branch(ex, st, 'close', (x,), [(V(32, 0), 0, None)])


def h_dup2(ex, st, ins, a):
    o, n = arg(ex, a[0]), arg(ex, a[1])
    return branch(ex, st, 'dup2', (o, n), [(a[1], n, lambda s: None if is_c(n) else s.pc.append(n >= 0))])


def fresh_in(ex, st, nm, lo, hi, w, conc):
    if ex.concrete: return V(w, conc), conc
    x = ex.fresh(nm)
    st.pc.append(z3.And(x >= lo, x <= hi))
    return V(w, x, lo if is_c(lo) else -(1 << w - 1), hi if is_c(hi) else (1 << w - 1) - 1), x


def ty(w):
    class T: pass
    t = T(); t.k = 'int'; t.w = w; t.size = w // 8
    return t


def h_fstat(ex, st, ins, a):
    v, x = fresh_in(ex, st, 'st_size', 0, (1 << 63) - 1, 64, 0)
    return branch(ex, st, 'fstat', (arg(ex, a[0]),), [(V(32, 0), 0, lambda s: ex.store(s, a[1].add(48), v, ty(64)))], extra=(x,))


def h_read(ex, st, ins, a):
    n = arg(ex, a[2])
    if not (is_c(n) and n in (1, 2, 4, 8)): raise Unsupported('read of %s bytes' % n)
    r = ex.region(st, a[1], 'write'); ex.bounds(st, a[1], n, r, 'write')
    w, y = fresh_in(ex, st, 'data', 0, (1 << 8 * n) - 1, 8 * n, 12345)
    v, x = fresh_in(ex, st, 'n_read', 0, n, 64, n)
    full = [(V(64, n), n, lambda s: ex.store(s, a[1], w, ty(8 * n)))]
    if ex.concrete: return branch(ex, st, 'read', (arg(ex, a[0]), arg(ex, a[1]), n), full, extra=(y,))
    short = st.clone()
    short.pc.append(x < n)
    junk, _ = fresh_in(ex, short, 'junk', 0, (1 << 8 * n) - 1, 8 * n, 0)
    ex.store(short, a[1], junk, ty(8 * n))
    record(ex, short, 'read', (arg(ex, a[0]), arg(ex, a[1]), n), x, (y,))
    m = branch(ex, st, 'read', (arg(ex, a[0]), arg(ex, a[1]), n), full, fail=V(64, -1), extra=(y,))
    m.alts.append((short, v, None))
    return m


def h_write(ex, st, ins, a):
    n = arg(ex, a[2])
    if ex.concrete: record(ex, st, 'write', (arg(ex, a[0]), arg(ex, a[1]), n), n); return V(64, n)
    x = ex.fresh('n_write')
    st.pc.append(z3.And(x >= 0, x <= n))
    return branch(ex, st, 'write', (arg(ex, a[0]), arg(ex, a[1]), n), [(V(64, x, 0, (1 << 63) - 1), x, None)], fail=V(64, -1))


def h_mmap(ex, st, ins, a):
    args = tuple(arg(ex, x) for x in a[:6])
    n = len(calls_of(st, 'mmap'))
    rid = 'MAP%d' % n
    if rid not in ex.regions: ex.add_region(st, rid, 'obj', size=1, writable=True, name='mapping')
    return branch(ex, st, 'mmap', args, [(Ptr(rid), (rid, 0), None)], fail=Ptr('int', U64M))


def calls_of(st, name): return [e for e in st.ghost.get(('log',), ()) if e.name == name]


def h_exit(ex, st, ins, a):
    record(ex, st, 'exit', (arg(ex, a[0]),), 0)
    f = getattr(ex, 'on_exit', None)
    if f: f(ex, st)
    raise Dead()


def h_fork(ex, st, ins, a):
    if ex.concrete: record(ex, st, 'fork', (), 0); return V(32, 0)
    p, x = fresh_in(ex, st, 'pid', 1, (1 << 31) - 1, 32, 1)
    return branch(ex, st, 'fork', (), [(V(32, 0), 0, None), (p, x, None)])


def value(name, w, lo, hi, conc, n=0):
    """cannot fail: returns an arbitrary value of the range"""
    def h(ex, st, ins, a):
        v, x = fresh_in(ex, st, name, lo, hi, w, conc)
        record(ex, st, name, tuple(arg(ex, y) for y in a[:n]), x)
        return v
    return h


def h_accept(ex, st, ins, a):
    v, e = newfd(ex, st)
    ip, x = fresh_in(ex, st, 'peer', 0, (1 << 32) - 1, 32, 7)
    return branch(ex, st, 'accept', (arg(ex, a[0]),), [(v, e, lambda s: ex.store(s, a[1].add(4), ip, ty(32)))], extra=(x,))


def h_snprintf(ex, st, ins, a):
    """snprintf: at most size bytes are written (their value stays abstract); the length of the whole text, or a negative value, is returned"""
    if ex.concrete: record(ex, st, 'snprintf', (), 3); return V(32, 3)
    n = arg(ex, a[1])
    r = ex.region(st, a[0], 'write'); ex.bounds(st, a[0], n, r, 'write')
    x = ex.fresh('printed')
    fmt = fmt_of(ex, st, a[2])
    st.pc.append(z3.And(x >= 0, x <= (12 if fmt.count(b'%') == 1 and b'%d' in fmt and len(fmt) <= 3 else (1 << 31) - 1)))
    return branch(ex, st, 'snprintf', (arg(ex, a[0]), n, fmt) + tuple(arg(ex, y) for y in a[3:]), [(V(32, x, 0, (1 << 31) - 1), x, None)])


def peek(ex, st, p, n):
    """the int at p"""
    v = ex.load(st, p, ty(8 * n))
    return (ass(v) if n == 4 else asu(v)).e


def with_int(name, n, k):
    """the int behind argument k is part of the event"""
    def h(ex, st, ins, a): return branch(ex, st, name, tuple(arg(ex, x) for x in a[:n]), [(V(32, 0), 0, None)], extra=(peek(ex, st, a[k], 4),))
    return h


def with_addr(name):
    def h(ex, st, ins, a):
        x = tuple(asu(ex.load(st, a[1].add(o), ty(8 * n))).e for o, n in ((0, 2), (2, 2), (4, 4)))
        if ex.concrete or name == 'bind': return branch(ex, st, name, tuple(arg(ex, y) for y in a[:3]), [(V(32, 0), 0, None)], extra=x + (0,))
        f2 = st.clone()
        SY.set_errno(ex, f2, 115)
        record(ex, f2, name, tuple(arg(ex, y) for y in a[:3]), -1, x + (115,))
        m = branch(ex, st, name, tuple(arg(ex, y) for y in a[:3]), [(V(32, 0), 0, None)], extra=x + (0,))
        st.pc.append(asu(st.mem['errno'][0][1]).e != 115)
        m.alts.append((f2, V(32, -1), None))
        return m
    return h


def h_inet_addr(ex, st, ins, a):
    r = ex.region(st, a[0], 'read')
    v, x = fresh_in(ex, st, 'inet_addr', 0, (1 << 32) - 1, 32, 5)
    record(ex, st, 'inet_addr', (arg(ex, a[0]),), x)
    return v


def h_mkdir(ex, st, ins, a):
    """parents first: every call names the next prefix of the path that ends in front of a '/'"""
    p = a[0]
    v = ex.view(st)
    if 'path' not in v.old or p.rid != 'P:path': raise Unsupported('mkdir of something that is not the path')
    old, cur = v.old['path'][0], st.mem['P:path'][0]
    k = st.ghost.get(('lw', 'P:path'), 0) - 1
    last = st.ghost.get(('mk', ''), 0)
    if ex.concrete:
        d = list(cur.d); k = d.index(0)
        ok = p.off == 0 and old.get(k) == 47 and d[:k] == list(old.d)[:k] and k >= 1 and 47 not in d[last + 1:k]
        ex.oblige(st, ok, 'mkdir is given the next parent directory')
    else:
        j = z3.Int('j!mk')
        ex.oblige(st, z3.And(zi(p.off) == 0, k >= 1, k < v.vals['z:path'], asel(cur, k) == 0, asel(old, k) == 47), 'mkdir is given a parent directory of the path')
        ex.oblige(st, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), asel(cur, j) == asel(old, j))), 'mkdir is given an unchanged prefix of the path')
        ex.oblige(st, z3.ForAll([j], z3.Implies(z3.And(j > last, j < k), asel(old, j) != 47)), 'no parent directory is skipped')
        ex.oblige(st, last < k, 'parents are made in order')
    ex.oblige(st, arg(ex, a[1]) == 0o755, 'mkdir mode')
    ex.oblige(st, st.ghost.get(('mkbad', ''), 0) == 0, 'nothing is made after a failure')
    st.ghost[('mk', '')] = k; ex.mod_mark(st, ('ghost', ('mk', '')))
    if ex.concrete: return V(32, 0)
    e, b = st.clone(), st.clone()
    SY.set_errno(ex, e, 17)
    SY.set_errno(ex, b)
    b.pc.append(asu(b.mem['errno'][0][1]).e != 17)
    b.ghost[('mkbad', '')] = 1; ex.mod_mark(b, ('ghost', ('mkbad', '')))
    return Multi([(st, V(32, 0), None), (e, V(32, -1), None), (b, V(32, -1), None)])


def h_mark(ex, st, ins, a): record(ex, st, 'mark', (), 0)


def h_sigaction(ex, st, ins, a):
    x = ()
    if a[1].rid is not None:
        h = ex.load(st, a[1], _PT)
        x = (peek(ex, st, a[1].add(136), 4), arg(ex, h))
    old, y = fresh_in(ex, st, 'oldflags', -(1 << 31), (1 << 31) - 1, 32, 0x10000000)
    fx = (lambda s: ex.store(s, a[2].add(136), old, ty(32))) if a[2].rid is not None else None
    return branch(ex, st, 'sigaction', (arg(ex, a[0]), int(a[1].rid is not None), int(a[2].rid is not None)), [(V(32, 0), 0, fx)], extra=x + (y,))


class _PTC: k = 'ptr'; size = 8


_PT = _PTC()


def sigset(ex, st, p, f):
    """ghost: the members of the set, an integer bit mask kept as a formula per signal"""
    key = ('sigset', p.rid)
    cur = st.ghost.get(key)
    st.ghost[key] = f(cur)


def h_sigemptyset(ex, st, ins, a):
    sigset(ex, st, a[0], lambda c: frozenset())
    return V(32, 0)


def h_sigaddset(ex, st, ins, a):
    n = arg(ex, a[1])
    if not is_c(n): raise Unsupported('sigaddset of a symbolic signal')
    key = ('sigset', a[0].rid)
    if st.ghost.get(key) is None: ex.oblige(st, False, 'the signal set is initialised'); raise Dead()
    if st.mods is not None: raise Unsupported('sigaddset inside a loop')
    if not 1 <= n <= 64: return V(32, -1)
    st.ghost[key] = st.ghost[key] | {n}
    return V(32, 0)


def h_sigprocmask(ex, st, ins, a):
    m = st.ghost.get(('sigset', a[1].rid))
    if m is None: ex.oblige(st, False, 'the signal set is initialised'); raise Dead()
    return branch(ex, st, 'sigprocmask', (arg(ex, a[0]),), [(V(32, 0), 0, None)], extra=(sum(1 << k for k in m),))


def h_localtime(ex, st, ins, a):
    """broken-down time; the year is assumed to fit an int with 1900 added"""
    for o, hi in ((0, 60), (4, 59), (8, 23), (12, 31), (16, 11), (20, (1 << 31) - 1901), (24, 6), (28, 365)):
        v, _ = fresh_in(ex, st, 'tm%d' % o, 0, hi, 32, 1)
        ex.store(st, a[1].add(o), v, ty(32))
    return a[1]


RWMAX = 0x7ffff000
EINTRS = z3.Int('interruptions')


def h_transfer(name):
    """send and recv (at most 0x7ffff000 bytes per call): may be repeated after EINTR, so only the latest call is remembered"""
    def h(ex, st, ins, a):
        v = ex.view(st)
        ok = isinstance(a[1], Ptr) and a[1].rid == 'P:data'
        ex.oblige(st, ok and And(a[1].off == 0, (ass(a[0]).e == v.vals['fd']), asu(a[2]).e == v.vals['size'], arg(ex, a[3]) == (0x4000 if name == 'send' else 0)), name + ' is given the descriptor, the data and the size')
        if not ok: raise Dead()
        if ex.concrete: st.ghost[('xfer', 'res')] = v.vals['size']; return V(64, v.vals['size'])
        ex.oblige(st, Or(st.ghost.get(('xfer', 'res'), -2) == -2, st.ghost.get(('xfer', 'res'), -2) == -4), 'only an interrupted call is repeated')
        n = asu(a[2]).e
        x = ex.fresh('n_' + name)
        st.pc.append(z3.And(x >= 0, x <= n, x <= RWMAX))
        e, b = st.clone(), st.clone()
        for s2, r in ((st, x), (e, -4), (b, -3)):
            s2.ghost[('xfer', 'res')] = r; ex.mod_mark(s2, ('ghost', ('xfer', 'res')))
        left = st.ghost.get(('xfer', 'left'), EINTRS)         # finitely many interruptions
        e.pc.append(left > 0)
        e.ghost[('xfer', 'left')] = left - 1; ex.mod_mark(e, ('ghost', ('xfer', 'left')))
        SY.set_errno(ex, e, 4); SY.set_errno(ex, b)
        b.pc.append(asu(b.mem['errno'][0][1]).e != 4)
        return Multi([(st, V(64, x, 0, RWMAX), None), (e, V(64, -1), None), (b, V(64, -1), None)])
    return h


def h_mkpath_event(ex, st, ins, a):
    """the contract of coda_mkpath at a call: it is given a writable copy of the path and leaves it as it was"""
    v = ex.view(st)
    p = a[0]
    r = ex.region(st, p, 'write')
    if not r.writable: ex.oblige(st, False, 'coda_mkpath is given memory that it may write'); raise Dead()
    arr, old, z = st.mem[r.rid][0], v.old['path'][0], v.vals['z:path']
    if ex.concrete: record(ex, st, 'coda_mkpath', (arg(ex, p),), 0); return V(32, 0)
    j = z3.Int('j!mp')
    ex.oblige(st, zi(p.off) == 0, 'coda_mkpath is given the start of the copy')
    ex.oblige(st, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= z), asel(arr, j) == asel(old, j))), 'coda_mkpath is given the path')
    ex.bounds(st, p, z + 1, r, 'write')
    return branch(ex, st, 'coda_mkpath', (arg(ex, p),), [(V(32, 0), 0, None)])


def h_self(ex, st, ins, a): return V(64, 77)


def h_tname(ex, st, ins, a):
    if ex.concrete: return NULL
    if 'tname' not in ex.regions: ex.add_region(st, 'tname', 'obj', size=1, writable=False, name='thread name')
    b = st.clone()
    return Multi([(st, NULL, None), (b, Ptr('tname'), None)])


WORLD = {'open': fdcall('open', 3), 'open64': fdcall('open', 3), 'close': h_close, 'dup2': h_dup2, 'flock': plain('flock', 2), 'fstat': h_fstat, 'fstat64': h_fstat, 'ftruncate': plain('ftruncate', 2),
         'ftruncate64': plain('ftruncate', 2), 'mmap': h_mmap, 'mmap64': h_mmap, 'write': h_write, 'read': h_read, 'socket': fdcall('socket', 3), 'bind': with_addr('bind'), 'listen': plain('listen', 2),
         'accept': h_accept, 'connect': with_addr('connect'), 'ioctl': with_int('ioctl', 2, 2), 'setsockopt': with_int('setsockopt', 3, 3), 'fork': h_fork, 'setsid': plain('setsid', 0), 'umask': plain('umask', 1, False),
         'exit': h_exit, 'srandom': plain('srandom', 1, False), 'getpid': value('getpid', 32, 1, (1 << 31) - 1, 77), 'inet_addr': h_inet_addr,
         'strtoul': value('strtoul', 64, 0, U64M, 80, 3), 'snprintf': h_snprintf, 'unlink': plain('unlink', 1), 'munmap': plain('munmap', 2), 'mkdir': h_mkdir, 'v_mark': h_mark, 'signal': None, 'sigaction': h_sigaction, 'sigemptyset': h_sigemptyset, 'sigaddset': h_sigaddset, 'sigprocmask': h_sigprocmask,
         'fprintf': lambda ex, st, ins, a: V(32, 0), 'gettimeofday': lambda ex, st, ins, a: V(32, 0), 'localtime_r': h_localtime, 'pthread_self': h_self, 'log_thread_name_get': h_tname}
WORLD['recv'], WORLD['send'] = h_transfer('recv'), h_transfer('send')
CODA = {'coda_mkpidf': plain('coda_mkpidf', 1), 'coda_mkpath': h_mkpath_event}


def h_signal(ex, st, ins, a): return branch(ex, st, 'signal', (arg(ex, a[0]), arg(ex, a[1])), [(NULL, 0, None)], fail=Ptr('int', U64M))


WORLD['signal'] = h_signal


def same(a, b):
    """equality of logged values"""
    if isinstance(a, tuple) or isinstance(b, tuple): return isinstance(a, tuple) and isinstance(b, tuple) and a == b
    if isinstance(a, int) and isinstance(b, int): return (a - b) % (1 << 64) == 0
    return a == b


def closed_once(v, fd):
    cs = calls(v, 'close')
    hit = [same(e[0], fd) for e in cs]
    return And(Or(hit), And([Not(And(hit[i], hit[j])) for i in range(len(hit)) for j in range(i)])) if hit else False


def not_closed(v, fd): return And([Not(same(e[0], fd)) for e in calls(v, 'close')])
