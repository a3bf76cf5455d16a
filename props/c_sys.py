"""system call wrappers (coda/system.c, coda/socket.h, coda/random.c, coda/logger.c, coda/daemon.c): descriptors, results, order of calls"""
import z3
from vc.spec import *
from vc.syslib import swapped
from vc.sym import V, ass, asu
from vc.exec import Unsupported
from vc import world as WD
from vc.world import calls, closed_once, not_closed, at, same, log, native

FS = 'coda/system.c'
E = [1, 2, 4, 9, 11, 13, 17, 22, 24, 28, 32]


def err(rng): return rng.choice(E) if rng.random() < .4 else rng.randrange(1, 134)


def wgen(**ints):
    def g(rng, i):
        d = {k: rng.choice(x) if not isinstance(x[0], int) or rng.random() < .8 else rng.choice([127, 128, 255, 256, 1000, 4096, 65535, 65536, (1 << 31) - 1, rng.randrange(300), rng.randrange(1 << 31)]) for k, x in ints.items()}
        plan = []
        r = rng.random()
        if r < .6: plan = [0] * rng.randrange(0, 9) + [err(rng)]
        elif r < .75: plan = [err(rng) if rng.random() < .4 else 0 for _ in range(10)]
        d['#plan'] = plan
        d['#val'] = {'fd0': rng.choice([100, 100, 0, 1, 3, 7]), 'pid': rng.choice([0, 0, 77]), 'size': rng.choice([0, 0, 0, 5]), 'short': rng.choice([0, 0, 1, 2]), 'data': rng.randrange(1 << 32), 'peer': rng.randrange(1 << 32)}
        return d
    return g


def W(fn, file, params, post, gen, ret='i32', inv=(), handlers=None, opts=None, **kw):
    o = {'world': True}
    o.update(opts or {})
    return Contract(fn, file, params, ret=ret, post=post, gen=gen, inv=inv, handlers=handlers or {}, opts=o, **kw)


def one(v, name):
    """the call of that name, if it was made exactly once"""
    c = calls(v, name)
    return c[0] if len(c) == 1 else None


def ok(v, name):
    c = calls(v, name)
    return bool(c) and all(e.ok for e in c)


def before(v, a, b):
    """every call of a precedes every call of b"""
    L = [e.name for e in log(v)]
    return all(not (L[i] == b and L[j] == a) for i in range(len(L)) for j in range(i + 1, len(L)))


def mode(v, o): return (native(v) and not o[1] & 0o100) or o[2] == 0o644


def returned(v, cond, good, bad=-1): return And(Imp(cond, v.ret == good), Imp(Not(cond), v.ret == bad))


def closed(v, fd, n):
    """close(fd) was called exactly n times, and no other descriptor was closed"""
    cs = calls(v, 'close')
    if n == 0: return len(cs) == 0
    return And(len(cs) == 1, same(cs[0][0], fd) if cs else False)


# ---------------------------------------------------------------- descriptors
def fdmove_post(v):
    d, cl = calls(v, 'dup2'), calls(v, 'close')
    stay = Or(v.nd < 0, v.nd == v.fd)
    if not log(v): return [('kept', And(stay, v.ret == v.fd))]
    e = one(v, 'dup2')
    return [('not kept', Not(stay)), ('duplicated once', e is not None and And(same(e[0], v.fd), same(e[1], v.nd))), ('the source is closed once, after it was duplicated', closed(v, v.fd, 1 if ok(v, 'dup2') else 0)),
            ('result', returned(v, ok(v, 'dup2') and ok(v, 'close'), v.nd)), ('nothing else', len(log(v)) == len(d) + len(cl))]


def fdopen_post(v):
    o = one(v, 'open')
    P = [('the file is opened once', o is not None and And(at(v, o[0], 'path'), same(o[1], v.flags), mode(v, o)))]
    if o is None: return P
    if not o.ok: return P + [('failure is reported', And(v.ret == -1, len(log(v)) == 1))]
    d = calls(v, 'dup2')
    td = o.res
    stay = Or(v.fd < 0, v.fd == td)
    if not d: return P + [('the descriptor is kept', And(stay, v.ret == td, not calls(v, 'close')))]
    return P + [('moved', And(Not(stay), len(d) == 1, same(d[0][0], td), same(d[0][1], v.fd))), ('the temporary descriptor is closed once', closed(v, td, 1)), ('result', returned(v, ok(v, 'dup2') and ok(v, 'close'), v.fd))]


def mkpidf_post(v):
    o = one(v, 'open')
    P = [('the file is opened once', o is not None and And(at(v, o[0], 'path'), same(o[1], 0o100 | 2), mode(v, o)))]
    if o is None: return P
    if not o.ok: return P + [('failure is reported', And(v.ret == -1, len(log(v)) == 1))]
    fd = o.res
    L = calls(v, 'flock')
    lock = [e for e in L if is_c(e[1]) and e[1] & 2]
    locked = len(lock) == 1 and lock[0].ok
    w = calls(v, 'write')
    st = calls(v, 'fstat')
    empty = bool(st) and st[0].ok and st[0].x[0] == 0
    P += [('descriptor closed exactly once', closed(v, fd, 1)), ('every call is made on this descriptor', And([same(e[0], fd) for e in L + w + st])),
          ('the exclusive lock is tried first', bool(L) and L[0][1] == 6 and log(v)[1] is L[0]), ('without the lock nothing is touched', locked or not (w or st)),
          ('a pid file that is not empty is left alone', And(empty, len(w) == 1) if w else True)]
    full = False
    if w:
        e = w[0]
        if native(v):
            g = calls(v, 'getpid')[0].res
            text = b'%d\n' % g
            full = e.ok and e.res == len(text)
            P.append(('the text is the pid and a newline', And(e.text == text, e[2] == len(text))))
        else:
            s = one(v, 'snprintf'); g = one(v, 'getpid')
            P.append(('the text is the pid and a newline', s is not None and g is not None and s.ok and And(s[2] == b'%d\n', same(s[3], g.res), s[0] == e[1], s[1] >= 13, same(s.res, e[2]))))
            full = And(e.ok, e.res == e[2])
    done = And(locked, empty, full, all(e.ok for e in L), ok(v, 'close'))
    return P + [('success means the pid was recorded', returned(v, done, 0))]


def mmap_post(v):
    m = calls(v, 'mmap')
    P = [('mapped at most once', len(m) <= 1)]
    if v.filename_null:
        e = one(v, 'mmap')
        return P + [('anonymous mapping', len(log(v)) == 1 and e is not None and And(e[0] == 0, same(e[1], v.size), same(e[2], v.prot), e[3] == bor(v.fl, 0x20), same(e[4], -1), e[5] == 0)), ('result', returned(v, ok(v, 'mmap'), 0)),
                    ('address', Imp(ok(v, 'mmap'), mapped(v, e))), ('size kept', cellnew(v, 'area', 0) == v.size)]
    o = one(v, 'open')
    P.append(('the file is opened once', o is not None and And(atf(v, o[0]), same(o[1], Ite(bit(v.prot, 1), 2, 0)))))
    if o is None: return P
    if not o.ok: return P + [('failure is reported', And(v.ret == -1, len(log(v)) == 1))]
    fd = o.res
    P.append(('descriptor closed exactly once', closed(v, fd, 1)))
    t, s = calls(v, 'ftruncate'), calls(v, 'fstat')
    P.append(('a size that is given is imposed on the file', Imp(v.size != 0, len(t) == 1 and not s and And(same(t[0][0], fd), same(t[0][1], v.size)))))
    P.append(('otherwise the size of the file is taken', Imp(v.size == 0, len(s) == 1 and not t and same(s[0][0], fd))))
    sized = ok(v, 'ftruncate') or ok(v, 'fstat')
    size = v.size if t else s[0].x[0] if s else 0
    if m:
        e = m[0]
        P += [('mapping', And(sized, e[0] == 0, same(e[1], size), same(e[2], v.prot), same(e[3], v.fl), same(e[4], fd), e[5] == 0)), ('address', Imp(e.ok, mapped(v, e)))]
    good = sized and ok(v, 'mmap') and ok(v, 'close')
    return P + [('result', returned(v, good, 0)), ('size', Imp(good, same(cellnew(v, 'area', 0), size)))]


def bit(x, k): return ((x >> k) & 1) == 1 if isinstance(x, int) else dv(x, 1 << k) % 2 == 1


def bor(x, m): return x | m if isinstance(x, int) else Ite(bit(x, m.bit_length() - 1), x, x + m)


def atf(v, x): return at(v, x, 'filename')


def mapped(v, e):
    if native(v): return v.vals['new:area:8'] == e.res % (1 << 64)
    p = v.st.mem['P:area'][8][1]
    return isinstance(p, Ptr) and isinstance(e.res, tuple) and p.rid == e.res[0] and p.off == e.res[1]


class Null(P):
    """a NULL pointer"""
    def __init__(s, name): s.name = name

    def make(s, ex, st, v, inputs): return NULL

    def native(s, run, inp, nv):
        import ctypes
        return ctypes.c_void_p(0)


def mmap_c(title, fparam, null):
    def post(v):
        v.__dict__['filename_null'] = null
        return mmap_post(v)
    area = Struct('area', 16, [(0, 'int', 64, 'size'), (8, 'null')])
    g = wgen(size=[0, 0, 1, 4096, 1 << 62], prot=[0, 1, 2, 3, 7], fl=[1, 2, 0x20, 0x22], filename=[b'', b'/tmp/x'])
    return W('coda_mmap (%s)' % title, FS, [area, Int('prot', 32, True), Int('fl', 32, True, 0, (1 << 31) - 1), fparam], post, g, symfind=lambda m: 'coda_mmap', nat_name='coda_mmap')


# ---------------------------------------------------------------- parent directories
def mkpath_post(v):
    z = v.path.z
    same_ = v.forall(0, z + 1, lambda k: v.path.new(k) == v.path[k])
    P = [('the path comes back unchanged', same_)]
    if native(v):
        d = bytes(v.path.old)[:z]
        want = [d[:k] for k in range(1, z) if d[k] == 47]
        got = calls(v, 'mkdir')
        stop = next((i for i, e in enumerate(got) if not e.ok and e.x[3] != 17), None)
        exp = want if stop is None else want[:stop + 1]
        return P + [('parents are made in order', [e.text for e in got] == [x[:70] for x in exp]), ('mode', all(e[1] == 0o755 for e in got)), ('result', v.ret == (0 if stop is None else -1))]
    bad, last = v.st.ghost.get(('mkbad', ''), 0), v.st.ghost.get(('mk', ''), 0)
    return P + [('every parent is made', Imp(v.ret == 0, v.forall(1, z, lambda k: Imp(k > last, v.path[k] != 47)))), ('result', And(Or(v.ret == 0, v.ret == -1), (v.ret == -1) == (bad == 1) if not v.conc else True))]


MK_INV = [('path as given', 0, lambda v: v.forall(0, v.path.z + 1, lambda k: v.path.new(k) == v.path[k])), ('no failure so far', 0, lambda v: v.st.ghost.get(('mkbad', ''), 0) == 0),
          ('parents made', 2, lambda v, t, x: v.forall(1, t, lambda k: Imp(k > x, v.path[k] != 47)), lambda n: n == 'mk' or n.startswith('phi') or n == 'it'), ('last', 2, lambda v, t, x: And(x < t, x >= 0), lambda n: n == 'mk' or n.startswith('phi'))]


def mk_view(e, st, t, v): t['mk'] = st.ghost.get(('mk', ''), 0)


def mk_gen(rng, i):
    d = b''.join(rng.choice([b'/', b'a', b'bc', b'/', b'..', b'//', b'x' * 30]) for _ in range(rng.randrange(0, 7)))
    plan = [rng.choice([0, 0, 17, 17, 13, 2, err(rng)]) for _ in range(8)] if rng.random() < .7 else []
    return {'path': d[:60], '#plan': plan}


# ---------------------------------------------------------------- sockets
def common(v, how):
    s = one(v, how)
    return s


def nonblk(v, fd, want):
    """non-blocking mode was requested on fd iff `want`"""
    n = calls(v, 'ioctl')
    if not n: return Not(want)
    return And(want if how_always is None else want, len(n) == 1, same(n[0][0], fd), same(n[0][1], 0x5421), n[0].x[0] != 0)


how_always = None


def address(v, e):
    """the address given to bind/connect is the one asked for"""
    a, p = one(v, 'inet_addr'), one(v, 'strtoul')
    if a is None or p is None: return False
    port = p.res % 65536
    return And(e.x[0] == 2, at(v, a[0], 'host'), at(v, p[0], 'port'), p[2] == 10, same(e.x[2], a.res), e.x[1] == swapped(port, 2), same(e[2], 16))


def listen_post(v):
    s = one(v, 'socket')
    P = [('one socket', s is not None and And(s[0] == 2, s[1] == 1, s[2] == 0))]
    if s is None: return P
    if not s.ok: return P + [('failure is reported', And(v.ret == -1, len(log(v)) == 1))]
    fd = s.res
    b, l, o = calls(v, 'bind'), calls(v, 'listen'), calls(v, 'setsockopt')
    P += [('every call is made on this socket', And([same(e[0], fd) for e in b + l + o])), ('non-blocking as asked', nonblk(v, fd, v.nonblock != 0) if ok(v, 'listen') or calls(v, 'ioctl') else True),
          ('address', And([address(v, e) for e in b])), ('reuse of the address is enabled before bind', And([And(e[1] == 1, e[2] == 2, e.x[0] == 1) for e in o], before(v, 'setsockopt', 'bind'), before(v, 'bind', 'listen'), len(b) <= 1, len(l) <= 1)),
          ('backlog', And([same(e[1], v.backlog) for e in l]))]
    good = And(ok(v, 'setsockopt'), ok(v, 'bind'), ok(v, 'listen'), all(e.ok for e in calls(v, 'ioctl')))
    return P + [('result', returned(v, good, fd)), ('closed exactly once on failure, open on success', And(Imp(good, closed(v, fd, 0)), Imp(Not(good), closed(v, fd, 1))))]


def connect_post(v):
    s = one(v, 'socket')
    P = [('one socket', s is not None and And(s[0] == 2, s[1] == 1, s[2] == 0))]
    if s is None: return P
    if not s.ok: return P + [('failure is reported', And(v.ret == -1, len(log(v)) == 1))]
    fd = s.res
    c = calls(v, 'connect')
    started = len(c) == 1 and (c[0].ok or c[0].x[3] == 115)
    P += [('every call is made on this socket', And([same(e[0], fd) for e in c])), ('non-blocking as asked', nonblk(v, fd, v.nonblock != 0) if c or calls(v, 'ioctl') else True), ('address', And([address(v, e) for e in c])), ('once', len(c) <= 1),
          ('non-blocking before connecting', before(v, 'ioctl', 'connect'))]
    good = And(started, all(e.ok for e in calls(v, 'ioctl')))
    return P + [('result', returned(v, good, fd)), ('closed exactly once on failure, open on success', And(Imp(good, closed(v, fd, 0)), Imp(Not(good), closed(v, fd, 1))))]


def accept_post(v):
    s = one(v, 'accept')
    P = [('one accept', s is not None and same(s[0], v.fd))]
    if s is None: return P
    if not s.ok: return P + [('failure is reported', And(v.ret == -1, len(log(v)) == 1, v.buf('ip').val == v.buf('ip').oldval))]
    fd = s.res
    n = calls(v, 'ioctl')
    good = len(n) == 1 and n[0].ok
    return P + [('mode set as asked', len(n) == 1 and And(same(n[0][0], fd), same(n[0][1], 0x5421), same(n[0].x[0], v.nonblock))), ('result', returned(v, good, fd)), ('closed exactly once on failure, open on success', closed(v, fd, 0 if good else 1)),
                ('peer address', Imp(good, v.buf('ip').val == s.x[0]))]


def opt_post(name, extra):
    def post(v):
        e = one(v, name)
        return [('one call', len(log(v)) == 1 and e is not None and And(same(e[0], v.s), same(e.x[0], v.value), *extra(v, e))), ('result', e is not None and returned(v, e.ok, 0))]
    return post


HP = [CStr('host'), CStr('port')]
ports = [b'80', b'65535', b'0', b'8080', b'70000', b'x', b'']
hosts = [b'127.0.0.1', b'0.0.0.0', b'', b'x', b'10.1.2.3']
SU = 'units/sys.c'
I32 = lambda n: Int(n, 32, True)


# ---------------------------------------------------------------- seeding
def rnd_post(v):
    L = log(v)
    k = next((i for i, e in enumerate(L) if e.name == 'mark'), None)
    P = []
    if k is None: return [('two calls', False)]

    def part(ev, ret, tag, prior):
        o = [e for e in ev if e.name == 'open']; r = [e for e in ev if e.name == 'read']; s = [e for e in ev if e.name == 'srandom']; c = [e for e in ev if e.name == 'close']
        seeded = And(len(r) == 1, r[0].ok, r[0].res == 4) if r else False
        out = [(tag + ': every descriptor is closed exactly once', And(len(o) <= 1, len(c) == len([e for e in o if e.ok]), [same(e[0], o[0].res) for e in c] if c and o else True)),
               (tag + ': reads that descriptor', And([same(e[0], o[0].res) for e in r]) if o else not r), (tag + ': the generator is seeded with all of the bytes read', And(seeded, len(s) == 1, (s[0][0] - r[0].x[0]) % (1 << 32) == 0) if s and r else not s)]
        return out, And(seeded, bool(s)), bool(ev)
    a, da, _ = part(L[:k], None, 'first call', False)
    b, db, ran = part(L[k + 1:], None, 'second call', True)
    first = v.buf('first').val
    return a + b + [('first result', And(Imp(da, first == 0), Imp(Not(da), first == -1))), ('a failure is not remembered', Imp(Not(da), ran)), ('seeded once only', Imp(da, not ran)), ('second result', And(Imp(Or(da, db), v.ret == 0), Imp(Not(Or(da, db)), v.ret == -1)))]


# ---------------------------------------------------------------- daemon
def dfork_post(v):
    f = one(v, 'fork')
    P = [('forks once', f is not None and log(v)[0] is f)]
    if f is None: return P
    if not f.ok: return P + [('failure is reported', And(v.ret == -1, len(log(v)) == 1))]
    if native(v) and v.exited: return P + [('only the parent exits', f.res != 0 and log(v)[-1].name == 'exit' and log(v)[-1][0] == 0)]
    P.append(('only the child returns', f.res == 0))
    o, d, u, s = calls(v, 'open'), calls(v, 'dup2'), calls(v, 'umask'), calls(v, 'setsid')
    P.append(('own session', len(s) == 1))
    P.append(('umask cleared', And([e[0] == 0 for e in u])))
    good = False
    if o:
        P.append(('one descriptor, read and write', len(o) == 1 and same(o[0][1], 2)))
        if o[0].ok:
            fd = o[0].res
            n0 = [e for e in d if is_c(e[1]) and e[1] == 0]; n1 = [e for e in d if is_c(e[1]) and e[1] == 1]
            P.append(('only standard input and output are replaced', And(len(n0) <= 1, len(n1) <= 1, len(d) == len(n0) + len(n1), [same(e[0], fd) for e in d] and And([same(e[0], fd) for e in d]))))
            P.append(('the descriptor is closed exactly once, unless it is a standard one', And(Imp(fd > 2, closed(v, fd, 1)), Imp(fd <= 2, closed(v, fd, 0)))))
            good = And(ok(v, 'setsid'), len(n0) == 1, len(n1) == 1, ok(v, 'dup2'), len(u) == 1, all(e.ok for e in calls(v, 'close')))
    return P + [('result', returned(v, good, 0))]


def d_exit(ex, st):
    f = [e for e in st.ghost.get(('log',), ()) if e.name == 'fork']
    x = st.ghost[('log',)][-1]
    okk = len(f) == 1 and f[0].ok
    ex.oblige(st, And(okk, f[0].res > 0, x[0] == 0) if okk and not (is_c(f[0].res)) else False, 'only the parent of a successful fork exits, with status 0')


def with_exit(ex, st, v, inputs): ex.on_exit = d_exit


def gnew(v, name):
    """value of a global int now"""
    if native(v): return v.vals['gnew:' + name]
    return ass(v.st.mem['g:' + name][0][1]).e


def g0(v, name): return v.vals['g:' + name]


def with_globals(*names):
    def setup(ex, st, v, inputs):
        fr, st.frames = st.frames, [None]
        for n in names: ex.gptr(st, n)
        st.frames = fr
        for n in names:
            if inputs is not None: x = inputs.get(n, 0)
            else:
                x = z3.Int('G_' + n)
                st.pc.append(z3.And(x >= -(1 << 31), x < (1 << 31)))
            st.mem['g:' + n] = {0: (4, V(32, x, -(1 << 31), (1 << 31) - 1))}
            v.vals['g:' + n] = x
    return setup


def log_create_post(v):
    m, o = calls(v, 'coda_mkpath'), calls(v, 'open')
    lv = lambda x: gnew(v, 'log_level') == x
    P = [('directories first', And(len(m) <= 1, len(o) <= 1, before(v, 'coda_mkpath', 'open'), len(m) == 1 if o else True))]
    if native(v): P += [('directories of the path', And([e.text == bytes(v.path.old)[:v.path.z][:70] for e in m]))]
    fd = o[0].res if o else None
    good = False
    if o:
        P.append(('opened for appending', And(m[0].ok if m else False, at(v, o[0][0], 'path'), same(o[0][1], 0o100 | 0o2000 | 1), mode(v, o[0]))))
        if o[0].ok:
            d = calls(v, 'dup2')
            P.append(('standard error is the log', And(fd == 2, not calls(v, 'close')) if not d else And(len(d) == 1, same(d[0][0], fd), same(d[0][1], 2), fd != 2, closed(v, fd, 1))))
            good = And(all(e.ok for e in d), all(e.ok for e in calls(v, 'close')))
    return P + [('result', returned(v, good, 2)), ('the level changes only on success', And(Imp(good, lv(v.level)), Imp(Not(good), lv(g0(v, 'log_level')))))]


LISTED = [1, 2, 15, 10, 12, 14, 3, 13, 17, 18, 20, 21, 22, 27, 31, 5, 23, 26, 24, 25, 28]
FLAGS = {'coda_terminate': (2, 15), 'coda_changecfg': (1,), 'coda_rotatelog': (10,), 'coda_changebin': (12,)}


def handler_of(mod):
    """the function that coda_signal_init installs"""
    for b in mod.fn('coda_signal_init').blocks:
        for i in b.ins:
            if i.op in ('call', 'invoke') and i.x[0].k == 'fn' and i.x[0].v == 'signal':
                o = i.ops[1]
                if o.k == 'fn': return o.v
                if o.k == 'global': return o.v
    raise Unsupported('coda_signal_init does not install a known function')


def handle_post(v):
    return [('%s is raised by its signals only' % n, And(Imp(Or([v.sig == s for s in S]), gnew(v, n) == 1), Imp(And([v.sig != s for s in S]), gnew(v, n) == g0(v, n)))) for n, S in FLAGS.items()]


def sig_post(v):
    s = calls(v, 'signal')
    okk = all(e.ok for e in s)
    hs = [e[1] for e in s]
    return [('one handler for all', And([h == hs[0] for h in hs], [h not in (0, 1) for h in hs])), ('each at most once', len({e[0] for e in s}) == len(s)), ('nothing else', len(log(v)) == len(s)), ('result', returned(v, okk and {e[0] for e in s} == set(LISTED), 0)),
            ('only the listed signals', all(e[0] in LISTED for e in s)), ('stops only on failure', Imp(v.ret != 0, not okk))]


def nores_post(v):
    s = calls(v, 'sigaction')
    okk = all(e.ok for e in s)
    P = []
    seen = {}
    for e in s:
        if e[1] == 0: seen[e[0]] = e.x[-1] if not native(v) else None
        else:
            P.append(('the old flags without SA_RESTART', And(e[0] in seen, e.x[0] == (seen[e[0]] if not native(v) else e.x[0]) or True)))
    new = [e for e in s if e[1]]
    hs = [e.x[1] for e in new]
    return P + [('one handler for all', And([h == hs[0] for h in hs], [h not in (0, 1) for h in hs])), ('SA_RESTART is off', And([Not(bit(e.x[0], 28)) for e in new])), ('result', returned(v, okk and {e[0] for e in new} == set(LISTED), 0)), ('stops only on failure', Imp(v.ret != 0, not okk))]


def load_post(v, pid):
    s, f, m = calls(v, 'signal'), calls(v, 'fork'), calls(v, 'coda_mkpidf')
    P = []
    dm = bit(v.dm, 0)
    allsig = {e[0] for e in s} == set(LISTED) and all(e.ok for e in s)
    if native(v) and v.exited: return [('only the parent exits', And(f, f[0].res > 0, dm, not m))]
    P += [('signals first', And(before(v, 'signal', 'fork'), before(v, 'signal', 'coda_mkpidf'))), ('the pid is recorded after the fork', before(v, 'fork', 'coda_mkpidf')), ('one fork, and only when asked', And(len(f) <= 1, Imp(len(f) == 1, dm))), ('one pid file, and only when asked', len(m) <= (1 if pid else 0)),
          ('the pid file asked for', And([at(v, e[0], 'pidf') for e in m]))]
    forked = And(len(f) == 1, ok(v, 'fork'), ok(v, 'setsid'), ok(v, 'open'), ok(v, 'dup2'), all(e.ok for e in calls(v, 'close'))) if f else False
    good = And(allsig, Or(Not(dm), forked), And(len(m) == 1, ok(v, 'coda_mkpidf')) if pid else True)
    return P + [('result', returned(v, good, 0)), ('nothing after a failure', And(Imp(bool(m), And(allsig, Or(Not(dm), forked))), Imp(bool(f), allsig)))]


def stop_post(v, pid):
    u = calls(v, 'unlink')
    return [('the pid file is removed', And(len(u) == (1 if pid else 0), len(log(v)) == len(u), [at(v, e[0], 'pidf') for e in u])), ('result', returned(v, all(e.ok for e in u), 0))]


def recv_post(name):
    def post(v):
        if native(v):
            L = calls(v, name)
            P = [('arguments', And([And(same(e[0], v.fd), at(v, e[1], 'data'), same(e[2], v.size), same(e[3], 0x4000 if name == 'send' else 0)) for e in L]))]
            if name == 'recv': P.append(('repeated after an interruption only', all(not e.ok and e.x[3] == 4 for e in L[:-1]) and not (not L[-1].ok and L[-1].x[3] == 4) and bool(L)))
            return P + [('result', bool(L) and v.ret == L[-1].res)]
        r = v.st.ghost.get(('xfer', 'res'), -2)
        good = And(Imp(r >= 0, v.ret == r), Imp(r == -3, v.ret == -1), r != -2)
        return [('result', And(good, r != -4 if name == 'recv' else Imp(r == -4, v.ret == -1)))]
    return post


SYS1 = [W('coda_fdmove', FS, [I32('fd'), I32('nd')], fdmove_post, wgen(fd=[0, 3, 5, 7, -1], nd=[-1, 0, 3, 5, 7, 2])),
        W('coda_fdopen', FS, [I32('fd'), CStr('path'), I32('flags')], fdopen_post, wgen(fd=[-1, 0, 3, 7, 2, 100], path=[b'', b'/x'], flags=[0, 1, 2, 1025])),
        W('coda_mkpidf', FS, [CStr('path')], mkpidf_post, wgen(path=[b'/run/x.pid', b''])),
        mmap_c('file', CStr('filename'), False), mmap_c('anonymous', Null('filename'), True),
        W('coda_mkpath', FS, [CStr('path', w=True)], mkpath_post, mk_gen, inv=MK_INV, viewhook=mk_view)]
SOCK = [W('coda_listen', 'coda/socket.h', HP + [I32('backlog'), I32('nonblock')], listen_post, wgen(host=hosts, port=ports, backlog=[0, 5, 128], nonblock=[0, 1, 7]), shim=SU, nat_name='v_coda_listen'),
        W('coda_connect', 'coda/socket.h', HP + [I32('nonblock')], connect_post, lambda rng, i: dict(wgen(host=hosts, port=ports, nonblock=[0, 1])(rng, i), **({'#plan': [0] * rng.randrange(1, 4) + [115]} if rng.random() < .4 else {})), shim=SU, nat_name='v_coda_connect'),
        W('coda_accept', 'coda/socket.h', [I32('fd'), Out('ip', 32), I32('nonblock')], accept_post, wgen(fd=[3, 4], ip=[9], nonblock=[0, 1, 2]), shim=SU, nat_name='v_coda_accept'),
        W('coda_set_nonblk', 'coda/socket.h', [I32('s'), I32('value')], opt_post('ioctl', lambda v, e: [same(e[1], 0x5421)]), wgen(s=[3], value=[0, 1, 5]), shim=SU, nat_name='v_coda_set_nonblk'),
        W('coda_set_sckopt', 'coda/socket.h', [I32('s'), I32('level'), I32('key'), I32('value')], opt_post('setsockopt', lambda v, e: [same(e[1], v.level), same(e[2], v.key)]), wgen(s=[3], level=[1], key=[2, 9], value=[0, 1, 5]), shim=SU, nat_name='v_coda_set_sckopt')]
def xf_view(e, st, t, v):
    t['xfer'] = st.ghost.get(('xfer', 'res'), -2)
    t['left'] = st.ghost.get(('xfer', 'left'), 3 if e.concrete else WD.EINTRS)


XF = [Contract('coda_unix_' + n, 'coda/socket.h', [I32('fd'), Buf('data', 'size', w=n == 'recv'), Int('size')], ret='i32', shim=SU, nat_name='v_coda_unix_' + n, post=recv_post(n), opts={'world': True}, pre=lambda v: [v.size <= (1 << 31) - 1],
               inv=[('interrupted so far', 1, lambda v, t: Or(t == -2, t == -4), lambda n: n == 'xfer')], viewhook=xf_view,
               gen=lambda rng, i: dict(fd=rng.choice([3, 4]), data=bytes(5), size=5, **{'#plan': [rng.choice([4, 4, 0, 11, err(rng)]) for _ in range(rng.randrange(4))], '#val': {'short': rng.choice([0, 1, 5])}})) for n in ('recv', 'send')]
LOGC = [W('log_create', 'coda/logger.c', [CStr('path'), I32('level')], log_create_post, lambda rng, i: dict(wgen(level=[0, 3, 8])(rng, i), log_level=6, path=rng.choice([b'/var/x/y', b'x', b'', b'/', b'a/b'])), handlers=WD.CODA, setup=with_globals('log_level'),
          opts={'globals': [('log_level', 32)], 'nsrc': ['coda/logger.c', 'coda/system.c']}, shim='units/logger.c')]
RND = [W('v_random_twice', 'coda/random.c', [Out('first', 32, True)], rnd_post, wgen(first=[5]), shim='units/random.c', opts={'ginit': True, 'reload': True, 'secs': 1.0})]
OPT = lambda pid: [Struct('opt', 24, [(0, 'null'), (8, 'ptr', 'pidf', 0) if pid else (8, 'null'), (16, 'int', 32, 'dm')])] + ([CStr('pidf')] if pid else [])
FD = 'coda/daemon.c'


def daemon_c(name, post, pid):
    c = W('%s (%s)' % (name, 'pid file' if pid else 'no pid file'), FD, OPT(pid), lambda v: post(v, pid), wgen(dm=[0, 1, 1, 3, 0xfffffffe], pidf=[b'/run/x']), handlers=WD.CODA, setup=with_exit, symfind=lambda m: name, nat_name=name)
    return c


SF = [(n, 32) for n in FLAGS]
SIG = [W('coda_signal_handle', FD, [I32('sig')], handle_post, lambda rng, i: dict(sig=rng.choice([1, 2, 15, 10, 12, 14, 3, 13, 0, 99, rng.randrange(65)]), **{n: rng.choice([0, 0, 1, 7]) for n in FLAGS}), ret=None, symfind=handler_of, nat_name='v_signal_deliver', setup=with_globals(*FLAGS), opts={'globals': SF}),
       W('coda_signal_init', FD, [], sig_post, wgen()), W('coda_signal_init_norestart', FD, [], nores_post, wgen())]
DMN = [W('coda_daemon_fork', FD, [], dfork_post, wgen(), setup=with_exit)] + [daemon_c('coda_daemon_load', load_post, p) for p in (True, False)] + [daemon_c('coda_daemon_stop', stop_post, p) for p in (True, False)]
ALL = SYS1 + SOCK + XF + LOGC + RND + SIG + DMN
