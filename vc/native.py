"""Native execution of the functions under contract (compiled from /repo's current tree), judged by the same contract.
Supplies concrete failing inputs for failed obligations; it never decides that a property holds."""
import ctypes, mmap, os, subprocess, random, time, signal, struct, json, select, sys, re, glob
from .spec import *
from .exec import Ptr

PG = 4096
_libc = ctypes.CDLL(None, use_errno=True)


WRAPS = re.findall(r'__wrap_(\w+)\(', open(os.path.dirname(os.path.abspath(__file__)) + '/world.c').read())


class NEv(ctypes.Structure):
    _fields_ = [('name', ctypes.c_char_p), ('a', ctypes.c_long * 6), ('res', ctypes.c_long), ('x', ctypes.c_long * 4), ('text', ctypes.c_long)]


def build_so(out, srcs, repo='/repo', cxx=False, wrap=True, extra=()):
    here = os.path.dirname(__file__)
    d = os.path.dirname(out)
    objs = []
    flags = ['-fPIC', '-g', '-O1', '-U_FORTIFY_SOURCE', '-I' + repo, '-w', '-fstack-protector-all', '-fsanitize=bounds', '-fno-sanitize-recover=all', '-fno-builtin-malloc'] + list(extra)
    for i, s in enumerate(srcs):
        isx = s.endswith('.cpp') or s.endswith('.cc')
        o = '%s.%d.o' % (out, i)
        r = subprocess.run(['g++', '-std=c++11'] * isx + ['gcc'] * (not isx) + flags + ['-c', s, '-o', o], capture_output=True, text=True)
        if r.returncode: return r.stderr[-1500:]
        objs.append(o)
        cxx = cxx or isx
    g = '%s.g.o' % out
    r = subprocess.run(['gcc', '-fPIC', '-O1', '-c', here + '/guard.c', '-o', g], capture_output=True, text=True)
    if r.returncode: return r.stderr
    gw = '%s.w.o' % out
    r = subprocess.run(['gcc', '-fPIC', '-O1', '-w', '-c', here + '/world.c', '-o', gw], capture_output=True, text=True)
    if r.returncode: return r.stderr
    cmd = ['g++' if cxx else 'gcc', '-shared', '-o', out] + objs + [g, gw, '-fsanitize=undefined', '-lpthread']
    if wrap: cmd += ['-Wl,' + ','.join('--wrap=' + x for x in ['malloc', 'calloc', 'free', 'realloc', 'semop'] + WRAPS)]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: return r.stderr[-1500:]
    u = subprocess.run(['nm', '-DuC', out], capture_output=True, text=True).stdout
    if any(re.search(r'\b%s' % x, l) for l in u.splitlines() for x in ('coda', 'web64', 'set_error', 'strnlower', 'txml', 'log_')):
        # something from another file of the library: link the rest of it as an archive
        ar = out + '.a'
        mine = {os.path.realpath(x) for x in srcs}
        ps = []
        for x in sorted(glob.glob(repo + '/coda/*.c') + glob.glob(repo + '/coda/*.cpp')):
            if os.path.realpath(x) in mine: continue
            o = '%s.a.%s.o' % (out, os.path.basename(x))
            isx = x.endswith('.cpp')
            ps.append((subprocess.Popen((['g++', '-std=c++11'] if isx else ['gcc']) + flags + ['-c', x, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), o))
        ok = [o for p, o in ps if p.wait() == 0]
        subprocess.run(['ar', 'rcs', ar] + ok, capture_output=True)
        k = cmd.index('-fsanitize=undefined')
        r = subprocess.run(['g++'] + cmd[1:k] + [ar] + cmd[k:], capture_output=True, text=True)
        if r.returncode: return r.stderr[-1500:]
    return None


class Arena:
    """memory between two inaccessible pages"""
    def __init__(s, pages=16):
        s.n = pages * PG
        s.m = mmap.mmap(-1, s.n + 2 * PG)
        s.base = ctypes.addressof(ctypes.c_char.from_buffer(s.m))
        _libc.mprotect(ctypes.c_void_p(s.base), PG, 0)
        _libc.mprotect(ctypes.c_void_p(s.base + PG + s.n), PG, 0)
        s.ro = False

    def place(s, data, el, end, writable):
        nb = len(data) * el
        if s.ro:
            _libc.mprotect(ctypes.c_void_p(s.base + PG), s.n, 3); s.ro = False
        if nb > s.n: raise ValueError('too big')
        a = s.base + PG + s.n - nb if end else s.base + PG
        # surroundings hold a pattern that must survive
        s.addr, s.nb, s.el = a, nb, el
        if end: ctypes.memset(max(s.base + PG, a - 64), 0xEE, min(64, a - s.base - PG))
        else: ctypes.memset(a + nb, 0xEE, min(64, s.n - nb))
        s.end = end
        raw = bytes(data) if el == 1 else b''.join(int(x).to_bytes(el, 'little') for x in data)
        ctypes.memmove(a, raw, nb)
        if not writable:
            _libc.mprotect(ctypes.c_void_p(s.base + PG), s.n, 1); s.ro = True
        return a

    def read(s):
        raw = ctypes.string_at(s.addr, s.nb)
        return raw if s.el == 1 else [int.from_bytes(raw[i:i + s.el], 'little') for i in range(0, s.nb, s.el)]

    def intact(s):
        if s.end: x = ctypes.string_at(max(s.base + PG, s.addr - 64), min(64, s.addr - s.base - PG))
        else: x = ctypes.string_at(s.addr + s.nb, min(64, s.n - s.nb))
        return x == b'\xEE' * len(x)


CT = {(8, False): ctypes.c_uint8, (8, True): ctypes.c_int8, (16, False): ctypes.c_uint16, (32, False): ctypes.c_uint32, (32, True): ctypes.c_int32,
      (64, False): ctypes.c_uint64, (64, True): ctypes.c_int64, (1, False): ctypes.c_bool, (16, True): ctypes.c_int16}
RT = {None: None, 'u64': ctypes.c_uint64, 'i64': ctypes.c_int64, 'u32': ctypes.c_uint32, 'i32': ctypes.c_int32, 'bool': ctypes.c_bool, 'u8': ctypes.c_uint8,
      'ptr': ctypes.c_void_p, 'u16': ctypes.c_uint16}


class Runner:
    def __init__(s, c, so, load=None):
        s.c = c
        s.so = so
        s.lib = ctypes.CDLL(load or so)
        s.f = getattr(s.lib, c.nat_name or c.fn)
        s.f.restype = RT[c.ret]
        s.ar = {}
        s.live = ctypes.c_long.in_dll(s.lib, 'vg_live')
        s.failn = ctypes.c_long.in_dll(s.lib, 'vg_fail')
        s.count = ctypes.c_long.in_dll(s.lib, 'vg_count')

    def world(s, inp, nv, args):
        from .world import Ev
        g = lambda n, t=ctypes.c_long: t.in_dll(s.lib, n)
        plan = g('vg_plan', ctypes.c_int * 64)
        pl = inp.get('#plan') or []
        for i in range(64): plan[i] = pl[i] if i < len(pl) else 0
        val = {'fd0': 100, 'pid': 0, 'size': 0, 'short': 0, 'data': 0x1234567890abcdef, 'peer': 7}
        val.update(inp.get('#val') or {})
        for k, x in val.items(): g('vg_' + k).value = x
        for n, w in s.c.opts.get('globals', []): g(n, CT[(w, True)]).value = inp.get(n, 0); nv.vals['g:' + n] = inp.get(n, 0)
        raw = (ctypes.c_long * 6)()
        for i, x in enumerate(args):
            x = getattr(x, 'value', x)
            if x is not None and not isinstance(x, (int, bool)): x = ctypes.cast(x, ctypes.c_void_p).value
            x = int(x or 0) & ((1 << 64) - 1)
            raw[i] = x - (1 << 64) if x >> 63 else x
        s.lib.vg_run.restype = ctypes.c_long
        r = s.lib.vg_run(ctypes.cast(s.f, ctypes.c_void_p), raw)
        g('vg_on', ctypes.c_int).value = 0
        ev = g('vg_ev', NEv * 512); tx = g('vg_text', (ctypes.c_char * 72) * 512)
        nv.nlog = [Ev(e.name.decode(), tuple(e.a), e.res, list(e.x), tx[i].value if e.text else None) for i, e in enumerate(ev[:g('vg_nev', ctypes.c_int).value])]
        nv.nbase = {k: a[0] for k, a in s.base.items()}
        nv.exited = bool(g('vg_exited', ctypes.c_int).value)
        for n, w in s.c.opts.get('globals', []): nv.vals['gnew:' + n] = g(n, CT[(w, True)]).value
        k = s.c.ret
        if k is None: return None
        if k == 'ptr': return r % (1 << 64) or None
        if k == 'bool': return bool(r & 1)
        w = int(k[1:]); r %= 1 << w
        return r - (1 << w) if k[0] == 'i' and r >> w - 1 else r

    def once(s, inp, end=True):
        """returns list of violated clauses ([] = fine)"""
        c = s.c
        if c.opts.get('reload'):          # a program that has just started
            import tempfile, shutil
            fd, p = tempfile.mkstemp(suffix='.so'); os.close(fd)
            shutil.copy(s.so, p)
            s.__init__(c, s.so, p)
            os.unlink(p)
        args = []
        bufs = {}
        base = {}
        nv = NatView(c, inp, None, bufs)
        for p in c.params:
            if isinstance(p, Int):
                args.append(CT[(p.w, p.signed)](inp[p.name] if p.w > 1 else bool(inp[p.name])))
            elif isinstance(p, (Buf, CStr)):
                d = inp.get(p.name, b'')
                if p.name in inp and d is None:
                    bufs[p.name] = (None, None); args.append(ctypes.c_void_p(0)); continue
                if isinstance(p, CStr): d = bytes(d) + b'\0'
                elif p.name not in inp:
                    size = inp[p.size] if isinstance(p.size, str) else p.size(nv) if callable(p.size) else p.size
                    d = fill(p.name, size)
                a = s.ar.setdefault(p.name, Arena())
                ad = a.place(d, getattr(p, 'el', 1), end, p.w)
                base[p.name] = (ad, a)
                bufs[p.name] = (d, None)
                args.append(ctypes.c_void_p(ad))
            elif isinstance(p, Out):
                a = s.ar.setdefault(p.name, Arena(1))
                x = inp.get(p.name, 0x1234567890abcdef & ((1 << p.w) - 1) if not p.signed else 77)
                ad = a.place([x % (1 << p.w)], p.w // 8, True, True)
                base[p.name] = (ad, a); bufs[p.name] = (x, None)
                args.append(ctypes.c_void_p(ad))
            elif isinstance(p, Alias):
                args.append(ctypes.c_void_p(base[p.buf][0] + p.off(nv)))
            else:
                args.append(p.native(s, inp, nv))
        s.base = base
        for p in c.params:
            if hasattr(p, 'patch'): p.patch(s, inp, nv, base)
        s.failn.value = inp.get('#oom', -1); s.count.value = 0
        live0 = s.live.value
        lk = c.opts.get('locked')
        if lk is not None:
            g = lambda n, t=ctypes.c_long: t.in_dll(s.lib, n)
            for n in ('vg_semr', 'vg_semw', 'vg_sembad', 'vg_semcount'): g(n).value = 0
            g('vg_semfail').value = -1
            pr = (ctypes.c_ulong * 32).in_dll(s.lib, 'vg_prot')
            for i, n in enumerate(lk): pr[2 * i], pr[2 * i + 1] = s.ar[n].base + PG, s.ar[n].n
            g('vg_nprot').value = len(lk)
            s.lib.vg_protect(0)
        if c.opts.get('world'): r = s.world(inp, nv, args)
        else: r = s.f(*args)
        s.failn.value = -1
        if lk is not None: s.lib.vg_protect(3); g('vg_nprot').value = 0
        bad = []
        for p in c.params:
            if p.name not in base: continue
            ad, a = base[p.name]
            if not a.intact(): bad.append('memory outside %s modified' % p.name)
            now = a.read()
            if isinstance(p, Out):
                x = now if isinstance(now, int) else int.from_bytes(now, 'little') if isinstance(now, bytes) else now[0]
                if p.signed and x >= 1 << (p.w - 1): x -= 1 << p.w
                bufs[p.name] = (bufs[p.name][0], x)
            else: bufs[p.name] = (bytes(bufs[p.name][0]) if getattr(p, 'el', 1) == 1 else list(bufs[p.name][0]), now)
        if lk is not None:
            if g('vg_sembad').value: bad.append('lock protocol violated (%d)' % g('vg_sembad').value)
            if g('vg_semr').value or g('vg_semw').value: bad.append('lock not given back')
        nv.oom = s.count.value > inp.get('#oom', 1 << 60)
        if c.ret == 'ptr':
            if r is None: nv.retv = None
            else:
                nv.retv = ('?', r)
                for n, (ad, a) in base.items():
                    if ad <= r <= ad + a.nb:
                        nv.retv = (n, r - ad); break
        else: nv.retv = r
        extra = 0
        for p in c.params:
            if hasattr(p, 'collect'): extra += p.collect(s, nv, bufs)
        for name, f in as_list(c.post(nv)) if c.post else []:
            if not f: bad.append('post: ' + name)
        if c.opts.get('free'): c.opts['free'](s, nv)
        if s.live.value - live0 != extra and not c.opts.get('leak_ok'): bad.append('heap blocks leaked: %d' % (s.live.value - live0 - extra))
        return bad


def mine_consts(mod, fnames):
    out = set()
    for n in fnames:
        f = mod.fns.get(n)
        if f is None or f.decl: continue
        for b in mod.fn(n).blocks:
            for i in b.ins:
                ops = i.ops if i.op != 'phi' else [o for o, _ in i.ops]
                for o in ops:
                    if getattr(o, 'k', None) == 'int' and o.ty.w > 1: out.add(o.v if o.v < 1 << 63 else o.v - (1 << 64))
                if i.op == 'switch':
                    for cv, _ in i.x[1]: out.add(cv)
    return sorted(out)


def mutate(c, inp, rng, consts):
    inp = dict(inp)
    ints = [p for p in c.params if isinstance(p, Int)]
    bufs = [p for p in c.params if (isinstance(p, (Buf, CStr)) or hasattr(p, 'natval')) and isinstance(inp.get(p.name), (bytes, bytearray))]
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.random()
        if bufs and k < 0.7:
            p = rng.choice(bufs)
            d = bytearray(inp[p.name])
            if getattr(p, 'el', 1) != 1 or not d: continue
            j = rng.randrange(len(d)) if rng.random() < .6 else rng.choice([0, len(d) - 1])
            x = rng.choice([rng.randrange(256), rng.choice(consts) % 256 if consts else 0, rng.choice(b'\x00\xff\x7f\x80 0aA/%+=')])
            if isinstance(p, CStr) and x == 0: x = 1
            d[j] = x
            inp[p.name] = bytes(d)
        elif ints:
            p = rng.choice(ints)
            small = [x for x in consts if abs(x) < 5000]
            x = rng.choice([0, 1, 2, inp[p.name] + 1, inp[p.name] - 1, rng.choice(small) + rng.choice([-1, 0, 1]) if small else 3])
            sized = any(isinstance(q, Buf) and q.size == p.name for q in c.params)
            if not sized and rng.random() < .4 and consts: x = rng.choice(consts) + rng.choice([-1, 0, 1])
            if not sized and rng.random() < .1: x = rng.choice([(1 << p.w) - 1, 1 << (p.w - 1), (1 << (p.w - 1)) - 1])
            x %= 1 << p.w
            if p.signed and x >= 1 << (p.w - 1): x -= 1 << p.w
            if sized and not 0 <= x <= 8192: continue
            if p.lo is not None and x < p.lo or p.hi is not None and x > p.hi: continue
            inp[p.name] = x
    for p in c.params:
        if isinstance(p, Buf) and isinstance(inp.get(p.name), (bytes, bytearray)):
            size = inp[p.size] if isinstance(p.size, str) else None
            if callable(p.size):
                try: size = p.size(NatView(c, inp, None, {q.name: (inp.get(q.name), None) for q in c.params if isinstance(q, (Buf, CStr))}))
                except Exception: size = None
                if size is not None and not 0 <= size <= 1 << 16: size = None
            if size is None: continue
            d = bytes(inp[p.name])
            if len(d) < size: d += bytes(rng.randrange(256) for _ in range(size - len(d)))
            inp[p.name] = d[:size]
    return inp


def enc_inp(inp): return {k: ({'hex': bytes(v).hex()} if isinstance(v, (bytes, bytearray)) else v) for k, v in inp.items()}


def dec_inp(inp): return {k: (bytes.fromhex(v['hex']) if isinstance(v, dict) and 'hex' in v else v) for k, v in inp.items()}


def sane(c, inp):
    nv = NatView(c, inp, None, {p.name: (inp.get(p.name), None) for p in c.params if isinstance(p, (Buf, CStr))})
    try:
        return not c.pre or all(bool(x) for x in as_list(c.pre(nv)))
    except Exception:
        return False


def campaign(c, so, seed, secs, consts=(), first=(), nmax=10 ** 9, call_timeout=5):
    """run in a forked child; returns (violation or None, executed)"""
    res = {'n': 0}
    start = 0
    t_end = time.time() + secs
    shared = mmap.mmap(-1, 1 << 20)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 2); os.dup2(dn, 1)
            rng = random.Random(seed)
            run = Runner(c, so)
            n = 0
            lst = [dict(x) for x in first]
            i = 0
            prev = None
            while time.time() < t_end and n < nmax:
                if lst: inp = lst.pop(0)
                else:
                    if prev is not None and rng.random() < 0.45: inp = mutate(c, prev, rng, list(consts))
                    else:
                        inp = c.gen(rng, i); i += 1
                    if inp is None: continue
                    prev = inp
                if not sane(c, inp):
                    prev = None
                    n += 0
                    continue
                js = json.dumps(enc_inp(inp)).encode()
                if len(js) < (1 << 20) - 16:
                    shared[16:16 + len(js)] = js
                    shared[0:16] = struct.pack('<QQ', n, len(js))
                try:
                    bad = run.once(inp, end=(n % 3 != 2))
                except ValueError:
                    continue
                n += 1
                if bad:
                    os.write(w, json.dumps({'bad': bad, 'n': n, 'inp': enc_inp(inp)}).encode()); os._exit(0)
            os.write(w, json.dumps({'n': n}).encode())
        except BaseException as e:
            import traceback
            try: os.write(w, json.dumps({'err': traceback.format_exc()[-1500:]}).encode())
            except Exception: pass
        os._exit(0)
    os.close(w)
    data = b''
    hang = False
    last = (-1, time.time())
    while True:
        rr, _, _ = select.select([r], [], [], 0.5)
        if rr:
            x = os.read(r, 1 << 20)
            if not x: break
            data += x
            continue
        n, _ = struct.unpack('<QQ', shared[0:16])
        if n != last[0]: last = (n, time.time())
        elif time.time() - last[1] > call_timeout:
            hang = True
            os.kill(pid, signal.SIGKILL); break
    os.close(r)
    _, st = os.waitpid(pid, 0)
    n, ln = struct.unpack('<QQ', shared[0:16])
    if data:
        d = json.loads(data)
        if 'err' in d: return {'harness': d['err']}, n
        return (d if 'bad' in d else None), d['n']
    inp = json.loads(shared[16:16 + ln]) if ln else {}
    why = 'does not return within %d s' % call_timeout if hang else 'crash (signal %d)' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'abnormal exit %d' % st
    return {'bad': [why], 'inp': inp, 'n': n}, n


def model_inputs(c, res_obl, ex, view):
    """inputs read off the solver's countermodel (parameters and initial memory)"""
    m = getattr(res_obl, 'model', None)
    if m is None: return None
    inp = {}
    import z3
    for p in c.params:
        if isinstance(p, Int):
            x = m.eval(z3.Int('P_' + p.name), model_completion=True).as_long(); inp[p.name] = x
        elif isinstance(p, CStr):
            z = m.eval(z3.Int('Z_' + p.name), model_completion=True).as_long()
            if z > 2000: return None
            a = view.old[p.name][0]
            inp[p.name] = bytes((m.eval(z3.Select(a, i), model_completion=True).as_long() % 256) or 1 for i in range(z))
    for p in c.params:
        if isinstance(p, Buf):
            size = inp[p.size] if isinstance(p.size, str) else None
            if size is None or size > 4000 or p.el != 1: continue
            a = view.old[p.name]
            if a is None: continue
            inp[p.name] = bytes(m.eval(z3.Select(a[0], i), model_completion=True).as_long() % 256 for i in range(size))
    return inp
