"""Loops: a loop is cut at its header by an invariant.  The invariant is the conjunction of the candidates (affine relations
learned from concrete executions of the same IR, bounds, and templates given with the contract) that survive Houdini:
every surviving candidate is *proved* to hold on entry and to be preserved by every path through the body."""
import z3, itertools, math, os
from fractions import Fraction
from .sym import *
from . import prove as PR
from .exec import Exec, LoopCtx, Ptr, NULL, Oblig, Unsupported, Undef, Agg, CArr, FnP, _time, is_c


class Cand:
    lin = False

    def __init__(s, name, names, f):
        s.name, s.names, s.f = name, tuple(names), f

    def ev(s, ex, st, t):
        for n in s.names:
            if n not in t: return None
        r = s.f(ex.view(st) if ex.view else None, *[t[n] for n in s.names])
        return r


class Lin(Cand):
    lin = True

    def __init__(s, coefs, c, op):
        s.coefs, s.c, s.op = coefs, c, op
        s.names = tuple(n for n, _ in coefs)
        s.name = ' + '.join('%d*%s' % (k, n) for n, k in coefs) + ' %s %d' % (op, -c)

    def ev(s, ex, st, t):
        e = s.c
        for n, k in s.coefs:
            if n not in t: return None
            x = t[n]
            e = e + (x if k == 1 else k * x)
        return (e == 0) if s.op == '==' else (e >= 0)


class Mod(Cand):
    lin = True

    def __init__(s, n, m, r):
        s.names, s.m, s.r = (n,), m, r
        s.name = '%s mod %d == %d' % (n, m, r)

    def ev(s, ex, st, t):
        if s.names[0] not in t: return None
        return t[s.names[0]] % s.m == s.r


class Guarded(Cand):
    lin = True

    def __init__(s, g, zero, c):
        s.g, s.zero, s.c = g, zero, c
        s.names = tuple(c.names) + (g,)
        s.name = '(%s %s 0) => %s' % (g, '==' if zero else '!=', c.name)

    def ev(s, ex, st, t):
        if s.g not in t: return None
        r = s.c.ev(ex, st, t)
        if r is None: return None
        g = t[s.g]
        c = (g == 0) if s.zero else (g != 0)
        if isinstance(c, bool): return r if c else True
        if isinstance(r, bool): return True if r else z3.Not(c)
        return z3.Implies(c, r)


class Info:
    def __init__(s):
        s.cands = None; s.mods = set(); s.prids = {}; s.pstride = {}; s.measure = None; s.dropped = []; s.rounds = 0; s.reduced = False; s.implied = []


def nullspace(rows):
    """integer basis of { c : row . c == 0 for all rows }"""
    if not rows: return []
    n = len(rows[0])
    M = []
    piv = []
    for r in rows:
        r = [Fraction(x) for x in r]
        for p, b in zip(piv, M):
            if r[p]:
                k = r[p]
                r = [x - k * y for x, y in zip(r, b)]
        p = next((i for i in range(n) if r[i]), None)
        if p is None: continue
        k = r[p]
        r = [x / k for x in r]
        for j in range(len(M)):
            if M[j][p]:
                k = M[j][p]
                M[j] = [x - k * y for x, y in zip(M[j], r)]
        M.append(r); piv.append(p)
        if len(M) == n: return []
    free = [i for i in range(n) if i not in piv]
    out = []
    for f in free:
        v = [Fraction(0)] * n
        v[f] = Fraction(1)
        for p, b in zip(piv, M): v[p] = -b[f]
        d = 1
        for x in v: d = d * x.denominator // math.gcd(d, x.denominator)
        out.append([int(x * d) for x in v])
    return out


def learn(ex, key):
    """candidates for the loop `key` from concrete traces and the contract's templates"""
    tr = ex.traces.get(key, [])
    groups = {}
    for t, st in tr:
        groups.setdefault(frozenset(n for n in t if not n.endswith('#B')), []).append((t, st))
    cands = {}

    def add(c):
        cands.setdefault(c.name, c)
    for names, g in groups.items():
        nm = sorted(n for n in names if not n.endswith('#b'))
        nmb = sorted(names)
        if not g: continue
        const_names = [n for n in nm if n.startswith('P:')]
        # affine equalities; prefer to express loop terms through (it, params): order columns so that free vars are the terms
        order = [n for n in nm if n == 'it'] + const_names + [n for n in nm if n != 'it' and not n.startswith('P:')]
        cols = ['1'] + order
        rows = [[1] + [t[n] for n in order] for t, _ in g]
        for v in nullspace(rows):
            if max(abs(x) for x in v) > 4096 and max(abs(x) for x in v[1:]) > 300: continue
            co = [(n, k) for n, k in zip(order, v[1:]) if k]
            if not any(not n.startswith('P:') for n, _ in co): continue
            add(Lin(co, v[0], '=='))
        # equalities that hold while some loop variable is non-zero (and what is left of them when it is zero)
        allns = nullspace(rows)
        for gd in [n for n in nm if not n.startswith('P:') and n != 'it']:
            A = [r for r, (t, _) in zip(rows, g) if t[gd] != 0]
            B = [r for r, (t, _) in zip(rows, g) if t[gd] == 0]
            if len(A) < 4 or len(B) < 2: continue
            if all(t['it'] == 0 for t, _ in g if t[gd] == 0) or all(t['it'] == 0 for t, _ in g if t[gd] != 0): continue
            for zero, X, Y in ((False, A, B), (True, B, A)):
                ns = nullspace(X)
                if len(ns) <= len(allns): continue
                for v in ns:
                    if max(abs(x) for x in v) > 300: continue
                    if all(sum(x * y for x, y in zip(v, r)) == 0 for r in rows): continue
                    co = [(n, k) for n, k in zip(order, v[1:]) if k]
                    if not any(not n.startswith('P:') for n, _ in co): continue
                    add(Guarded(gd, zero, Lin(co, v[0], '==')))
                    if zero: continue
                    ys = [sum(x * y for x, y in zip(v, r)) for r in Y]
                    lo, hi = min(ys), max(ys)
                    if lo >= -16: add(Guarded(gd, True, Lin(co, v[0] - lo, '>=')))
                    if hi <= 16: add(Guarded(gd, True, Lin([(n, -k) for n, k in co], -v[0] + hi, '>=')))
                    if lo >= -16: add(Lin(co, v[0] - min(lo, 0), '>='))
                    if hi <= 16: add(Lin([(n, -k) for n, k in co], -v[0] + max(hi, 0), '>='))
        act = [n for n in nm if not n.startswith('P:')]
        for a in act:
            lo = min(t[a] for t, _ in g); hi = max(t[a] for t, _ in g)
            for b in (0, 1, -1):
                if lo >= b: add(Lin([(a, 1)], -b, '>='))
            if hi <= 0: add(Lin([(a, -1)], 0, '>='))
            if hi <= 300 and len(g) > 20: add(Lin([(a, -1)], hi, '>='))
            if lo > 1 and lo < 300: add(Lin([(a, 1)], -lo, '>='))
            for m in (2, 3, 4, 8):
                rs = {t[a] % m for t, _ in g}
                if len(rs) == 1 and hi > lo: add(Mod(a, m, rs.pop()))
            for b in nm:
                if b == a: continue
                dm = min(t[b] - t[a] for t, _ in g)
                if dm >= 0: add(Lin([(b, 1), (a, -1)], 0, '>='))
                if 1 <= dm <= 4: add(Lin([(b, 1), (a, -1)], -dm, '>='))
                if dm == -1: add(Lin([(b, 1), (a, -1)], 1, '>='))
                if b.startswith('P:'):
                    dm = min(t[a] - t[b] for t, _ in g)
                    if dm >= 0: add(Lin([(b, -1), (a, 1)], 0, '>='))
        for a, b, c in itertools.permutations([n for n in nm if n != 'it'], 3) if len(nm) <= 7 else ():
            if a < b and any(not x.startswith('P:') for x in (a, b, c)):
                if min(t[c] - t[a] - t[b] for t, _ in g) >= 0: add(Lin([(c, 1), (a, -1), (b, -1)], 0, '>='))
                if min(t[a] + t[b] - t[c] for t, _ in g) >= 0: add(Lin([(c, -1), (a, 1), (b, 1)], 0, '>='))
        if ex.poolf:
            for name, ar, f, sel in ex.poolf(key):
                ts = [n for n in nmb if sel is None or isinstance(sel, tuple) or sel(n)]
                if isinstance(sel, tuple):
                    tups = [x for x in itertools.product(*[[n for n in nmb if q(n)] for q in sel]) if len(set(x)) == len(x)]
                else: tups = [()] if ar == 0 else [x for x in itertools.permutations(ts, ar) if any(not y.startswith('P:') for y in x)]
                for tup in tups:
                    c = Cand('%s[%s]' % (name, ','.join(tup)), tup, f)
                    ok = True
                    step = max(1, len(g) // 250)
                    for t, st in g[::step]:
                        try:
                            r = c.ev(ex, st, t)
                        except Exception as e:
                            if os.environ.get('VC_DEBUG'): print('template', c.name, repr(e)[:200])
                            ok = False; break
                        if r is None or r is NotImplemented: ok = False; break
                        if not r: ok = False; break
                    if ok: add(c)
    if not tr and ex.poolf:
        # never reached concretely: no learning; the templates of arity 0 still apply
        for name, ar, f, sel in ex.poolf(key):
            if ar == 0: add(Cand(name + '[]', (), f))
    if getattr(ex, 'nolearn', False):
        # the contract brings its invariants along; of the learned facts keep the bounds only
        return [c for c in cands.values() if type(c) is Cand or isinstance(c, Lin) and c.op == '>=' and c.c == 0 and len(c.names) <= 2 and any(n.startswith('P:') for n in c.names)]
    return list(cands.values())


def stride_of(ex, v):
    """(step, residue) of a pointer into an array of records"""
    r = ex.regions[v.rid]
    S = r.stride if r.kind == 'arr' else 1
    if S > 1 and all(k % S == 0 for k, _ in v.terms): return S, v.c % S
    return 1, 0


def havoc_val(ex, h, name, old, stride=None):
    if isinstance(old, V):
        if old.w == 8 and (old.lo >= 0):
            x = ex.fresh(name)
            h.pc.append(z3.And(x >= 0, x <= 255))
            return byte_val(x)
        x = ex.fresh(name)
        if old.lo is not None and old.lo < 0: lo, hi = -(1 << (old.w - 1)), (1 << (old.w - 1)) - 1
        else: lo, hi = 0, (1 << old.w) - 1
        h.pc.append(z3.And(x >= lo, x <= hi))
        return V(old.w, x, lo, hi)
    if isinstance(old, Bv):
        ex.n += 1
        return Bv(z3.Bool('%s!%d' % (name, ex.n)))
    if isinstance(old, Ptr):
        if old.rid is None or old.rid in ('int', 'exc'): return old
        x = ex.fresh(name)
        S, r = stride if isinstance(stride, tuple) else (stride or 1, 0)
        return Ptr(old.rid, r).addt(S, x)
    if isinstance(old, (Undef,)): return old
    if isinstance(old, FnP): return old
    if isinstance(old, Agg): return Agg([havoc_val(ex, h, name, x) for x in old.vals])
    raise Unsupported('havoc of %r' % (old,))


def signed_view(v, lo, hi):
    return v


def loop(self, s, header):
    fr = s.frames[-1]
    key = self.lkey(s, header)
    frm, to = s.pend
    if s.mods is None: self.visits += 1
    info = self.loopinfo.get(key)
    if info is None: info = self.loopinfo[key] = Info()
    if self.fresh_ctx and s.mods is None:
        # second attempt: every outermost visit starts again from all candidates
        for i2 in self.loopinfo.values(): i2.cands, i2.implied, i2.reduced = None, [], False
    if info.cands is None:
        if key not in self.learned: self.learned[key] = learn(self, key)
        info.cands = list(self.learned[key])
    depth = len(s.frames)
    ctx = LoopCtx(depth, header, fr.fn.loops[header])
    outer = s.mods
    e = s.clone()
    self.enter(e, frm, to); e.its[key] = 0; e.pend = None
    ephi = {i.id: e.frames[-1].regs[i.id] for i in self.phis(e.frames[-1], header)}
    # entry: which candidates hold initially
    where = self.where(e)
    self.loops_done.setdefault(key, where)
    et = self.terms(e, key, header)
    mark = len(self.obls)
    keep = []
    for c in info.cands:
        g = c.ev(self, e, et)
        if g is None or (isinstance(g, bool) and g) or self.holds(e, g, c): keep.append(c)
        else: info.dropped.append(('init', c.name))
    info.cands = keep
    for p, v in ephi.items():
        if isinstance(v, Ptr):
            info.prids.setdefault(p, set()).add(v.rid if v.rid not in ('int',) else None)
            if v.rid is not None and v.rid in self.regions and (p, v.rid) not in info.pstride: info.pstride[(p, v.rid)] = stride_of(self, v)
    init_obl = [(c, c.ev(self, e, et)) for c in info.cands]
    while True:
        info.rounds += 1
        if info.rounds > 400: raise Unsupported('invariant inference does not converge')
        del self.obls[mark:]
        changed = False
        outs = []
        backs = []
        opts = []
        pp = [p for p in ephi if isinstance(ephi[p], Ptr)]
        mods = set()
        hs = []
        for combo in itertools.product(*[sorted(info.prids[p], key=str) for p in pp]):
            h = e.clone()
            h.mods = mods
            it = self.fresh('it'); h.pc.append(it >= 0); h.its[key] = it
            f = h.frames[-1]
            for p, v in ephi.items():
                nm = p
                if isinstance(v, Ptr):
                    rid = combo[pp.index(p)]
                    f.regs[p] = havoc_val(self, h, 'p_' + nm, Ptr(rid), info.pstride.get((p, rid), (1, 0)))
                else:
                    if isinstance(v, V) and v.w > 8: v = V(v.w, -1, -1, 0) if self.phi_signed(f.fn, p) else V(v.w, 0, 0, 0)
                    f.regs[p] = havoc_val(self, h, nm, v)
            for m in sorted(info.mods, key=str): self.havoc_mem(h, m)
            t = self.terms(h, key, header)
            for c in info.cands:
                g = c.ev(self, h, t)
                if g is not None: h.assume(zb(g) if not isinstance(g, Bv) else g)
            if self.invhook: self.invhook(self, h, key)
            hs.append((h, t))
            start = h.clone()
            if len(hs) > 1 and PR.feasible(h.pc) is False: continue
            for k, x in self.run(start, ctx):
                if k == 'back':
                    if PR.feasible(x.pc, 1.0) is False: continue
                    backs.append((h, t, x))
                elif k == 'exit':
                    outs.append(('cont', x))
                else: outs.append((k, x))
        if not mods <= info.mods:
            info.mods |= mods
            continue
        # back edges
        live = list(info.cands)
        bts = []
        for h, t, x in backs:
            b = x.clone()
            bf, bt = b.pend
            self.enter(b, bf, bt); b.pend = None
            b.its[key] = h.its[key] + 1
            for p, v in ephi.items():
                nv = b.frames[-1].regs[p]
                if isinstance(nv, Ptr):
                    if isinstance(v, Ptr):
                        rid = nv.rid if nv.rid != 'int' else None
                        if rid not in info.prids[p]:
                            info.prids[p].add(rid); changed = True
                            if rid is not None and rid in self.regions: info.pstride[(p, rid)] = stride_of(self, nv)
                        st_, res_ = info.pstride.get((p, rid), (1, 0))
                        if st_ > 1 and nv.rid is not None and not ((nv.c - res_) % st_ == 0 and all(k % st_ == 0 for k, _ in nv.terms)):
                            info.pstride[(p, rid)] = (1, 0); changed = True
                    else: raise Unsupported('phi changes kind')
            if x.freed != h.freed and not self.free_ok(h, x): raise Unsupported('memory released inside a loop')
            bts.append((h, t, b, x))
        if changed:
            info.cands = live
            continue
        allbad = {}
        btl = []
        for h, t, b, x in bts:
            tb = self.terms(b, key, header)
            lins, others = [], []
            for c in live:
                if id(c) in allbad: continue
                g = c.ev(self, b, tb)
                if g is None: continue
                if isinstance(g, bool) and g: continue
                (lins if c.lin else others).append((c, zb(g) if isinstance(g, bool) else (g.b if isinstance(g, Bv) else g)))
            for c in self.batch(b, lins): allbad[id(c)] = c
            btl.append((b, others))
        lindrop = bool(allbad)
        if not lindrop and not info.reduced and hs:
            # keep an irredundant set of linear facts (fewer facts, faster proofs)
            red = self.redundant(e, hs, [c for c in live if c.lin])
            if red:
                info.implied = [c for c in live if id(c) in red]
                live = [c for c in live if id(c) not in red]
                changed = True
            info.reduced = True
        elif not lindrop:
            for b, others in btl:
                for c, g in others:
                    if id(c) in allbad: continue
                    if not self.holds(b, g, c): allbad[id(c)] = c
        if allbad:
            changed = True
            live = [c for c in live if id(c) not in allbad]
            info.dropped += [('step', c.name) for c in allbad.values()]
            if lindrop and info.implied:
                live += info.implied; info.implied = []
            if lindrop: info.reduced = False
        if changed:
            info.cands = live
            continue
        break
    # obligations of the invariant
    for c, g in init_obl:
        if any(c is x for x in info.cands) and g is not None and not (isinstance(g, bool) and g):
            o = Oblig('invariant holds on entry: ' + c.name, g, e, where); o.status = 'proved'; self.obls.append(o)
    for h, t, b, x in bts:
        tb = self.terms(b, key, header)
        for c in info.cands:
            g = c.ev(self, b, tb)
            if g is None or (isinstance(g, bool) and g): continue
            o = Oblig('invariant preserved: ' + c.name, g if not isinstance(g, Bv) else g.b, b, where); o.status = 'proved'; self.obls.append(o)
    if self.termination: self.check_measure(key, header, info, bts, where, e)
    if outer is not None: outer |= {m for m in info.mods}
    for k, x in outs: x.mods = outer
    return outs


def nonneg(self, st, v):
    """is the signed reading of v always >= 0 here"""
    if v.lo >= 0: return True
    return self.known(st, zi(v.e) >= 0) is True


def phi_signed(self, fn, pid):
    """a phi is read as signed when the code treats it as signed (nsw arithmetic, sext, signed comparison); both readings are
    exact, this only chooses the one the solver sees"""
    c = fn.__dict__.setdefault('_sg', {}) if hasattr(fn, '__dict__') else self._sg.setdefault(fn.name, {})
    if pid in c: return c[pid]
    r = False
    defs = {}
    for b in fn.blocks:
        for i in b.ins: defs[i.id] = i
    inc = set()
    ph = defs.get(pid)
    if ph is not None:
        for o, _ in ph.ops:
            if o.k == 'reg': inc.add(o.v)
    inc.add(pid)
    for b in fn.blocks:
        for i in b.ins:
            if i.op == 'phi': continue
            if any(o.k == 'reg' and o.v in inc for o in i.ops):
                if i.op in ('sext', 'sdiv', 'srem', 'ashr'): r = True
                if i.op == 'icmp' and i.x.startswith('s'): r = True
            if i.op in ('add', 'sub', 'mul') and i.x[0] and (i.id in inc or any(o.k == 'reg' and o.v == pid for o in i.ops)): r = True
    c[pid] = r
    return r


def free_ok(self, h, x):
    """locals of functions inlined into the body come and go within an iteration; nothing else may be released"""
    new = x.freed - h.freed
    if not (h.freed <= x.freed) or any(not r.startswith('L:') or r in h.mem for r in new): return False

    def stale(v): return isinstance(v, Ptr) and v.rid in new
    if any(stale(v) for fr in x.frames for v in fr.regs.values()):
        live = set(x.frames[-1].regs)
        if any(stale(v) for fr in x.frames[:-1] for v in fr.regs.values()): return False
    for rid, m in x.mem.items():
        if rid in x.freed or not isinstance(m, dict): continue
        for c in m.values():
            if stale(c) or (isinstance(c, tuple) and any(stale(y) for y in c)): return False
    return True


def holds(self, st, g, c=None):
    if isinstance(g, bool): return g
    if isinstance(g, Bv): g = g.b
    if isinstance(g, bool): return g
    if st.dec.get(g.get_id()) is True: return True
    if c is not None and c.lin:
        if PR.feasible(st.pc + [z3.Not(g)], 2.0) is False: return True
        if not st.hyps: return False
    r, m, why = PR.prove(st.pc + st.hyps, g, self.cand_timeout)
    return r == 'proved'


def batch(self, st, lins):
    """candidates (linear) not implied by the path; model-guided"""
    bad = []
    live = list(lins)
    if not live: return bad
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(*st.pc)
    retry = []
    while live:
        s.push()
        s.add(z3.Not(z3.And([g for _, g in live])))
        r = s.check()
        if r == z3.unsat:
            s.pop(); break
        if r == z3.sat:
            m = s.model()
            nl = []
            for c, g in live:
                if z3.is_false(m.eval(g, model_completion=True)): retry.append((c, g))
                else: nl.append((c, g))
            s.pop()
            if len(nl) == len(live):
                retry += nl; live = []
            else: live = nl
        else:
            s.pop()
            if len(live) > 1:
                for c, g in live:
                    if PR.feasible(st.pc + [z3.Not(g)], 2.0) is not False: retry.append((c, g))
            else: retry += live
            live = []
    for c, g in retry:
        if st.hyps and self.lin_retry and not isinstance(c, Mod):
            r, m, why = PR.prove(st.pc + st.hyps, g, self.cand_timeout)
            if r == 'proved': continue
        bad.append(c)
    return bad


def redundant(self, e, hs, lins):
    h, t = hs[0]
    base = h.pc[:]
    ev = [(c, c.ev(self, h, t)) for c in lins]
    ev = [(c, zb(g)) for c, g in ev if g is not None]
    ids = {g.get_id() for _, g in ev}
    base = [f for f in base if f.get_id() not in ids]
    s = z3.Solver(); s.set('timeout', 500)
    s.add(*base)
    bs = [z3.Bool('r!%d' % i) for i in range(len(ev))]
    for b_, (c, g) in zip(bs, ev): s.add(z3.Implies(b_, g))
    keep = list(range(len(ev)))
    red = set()
    # try to remove guarded facts and inequalities first
    order = sorted(keep, key=lambda i: (0 if isinstance(ev[i][0], Guarded) else 1 if isinstance(ev[i][0], Mod) else 2 if ev[i][0].op == '>=' else 3, -len(ev[i][0].names)))
    for i in order:
        rest = [bs[j] for j in keep if j != i]
        s.push(); s.add(z3.Not(ev[i][1]))
        r = s.check(*rest)
        s.pop()
        if r == z3.unsat:
            keep.remove(i); red.add(id(ev[i][0]))
    return red


def havoc_mem(self, h, m):
    if m[0] == 'ghost':
        k = m[1]
        if k in self.ghost_havoc: self.ghost_havoc[k](self, h)
        elif isinstance(k, tuple) and k[0] in self.ghost_havoc: self.ghost_havoc[k[0]](self, h, k)
        else:
            old = h.ghost.get(k)
            if isinstance(old, bool) or z3.is_bool(old) if old is not None and not isinstance(old, int) else False:
                self.n += 1
                h.ghost[k] = z3.Bool('gh!%d' % self.n)
            else: h.ghost[k] = self.fresh('gh_%s' % (k[1] if isinstance(k, tuple) else k))
        return
    rid, fo = m
    r = self.regions[rid]
    if rid in h.freed or rid not in h.mem: return
    if r.kind == 'arr':
        mm = dict(h.mem[rid])
        fs = r.fields[fo]
        a = self.fresh_arr('%s.%s' % (rid, fo))
        mm[fo] = a
        if not isinstance(fs, tuple): self.range_fact(h, a, fs)
        else:
            k = z3.Int('k!r'); sel = z3.Select(a, k)
            h.hyps.append(z3.ForAll([k], sel >= 0, patterns=[sel]))
        h.mem[rid] = mm
    elif r.kind == 'obj':
        mm = dict(h.mem[rid])
        if fo in mm:
            sz, v = mm[fo]
            if isinstance(v, Ptr): raise Unsupported('pointer field %s+%s modified in a loop' % (r.name, fo))
            mm[fo] = (sz, havoc_val(self, h, '%s.%s' % (rid, fo), asu(v) if isinstance(v, V) else v))
        h.mem[rid] = mm
    else:
        getattr(self, 'havoc_' + r.kind)(h, r, fo)


def check_measure(self, key, header, info, bts, where, e):
    if not bts: return
    tr = self.traces.get(key, [])
    names = None
    # an iteration that begins with other kinds of pointers (say, null) than any iteration that is followed by another one is the last
    kind = lambda t: frozenset(n for n in t if n.startswith('phi:') and '@' in n)
    src = {kind(t) for h, t, b, x in bts}
    bts, all_ = [y for y in bts if kind(self.terms(y[2], key, header)) in src], bts
    if not bts:
        o = Oblig('loop terminates: no further iteration', z3.BoolVal(True), all_[0][2], where); o.status = 'proved'; self.obls.append(o)
        info.measure = 'none'
        return
    for h, t, b, x in bts:
        ns = {n for n in t if not n.endswith('#B') and not n.endswith('#b')} & {n for n in self.terms(b, key, header)}
        names = ns if names is None else names & ns
    names = sorted(n for n in names if n != 'it')
    ms = [((n, 1),) for n in names if not n.startswith('P:')]
    ms += [((a, 1), (b, -1)) for a in names for b in names if a != b and not (a.startswith('P:') and b.startswith('P:'))]
    ms += [((n, -1),) for n in names if not n.startswith('P:')]
    if self.measures: ms += self.measures(key, names)

    def val(m, t):
        if callable(m): return m(t)
        r = 0
        for n, k in m: r = r + k * t[n]
        return r
    good = []
    seqs = []
    cur = None
    for t, _ in tr:
        if t['it'] == 0:
            cur = [t]; seqs.append(cur)
        elif cur is not None: cur.append(t)
    for m in ms:
        ok = True
        for q in seqs:
            try:
                vs = [val(m, t) for t in q]
            except KeyError:
                continue
            if any(b >= a for a, b in zip(vs, vs[1:])) or any(v < -1000 for v in vs): ok = False; break
        if ok: good.append(m)
    for m in good[:40]:
        allok = True
        goals = []
        for h, t, b, x in bts:
            tb = self.terms(b, key, header)
            g = None
            for lb in (0, -1, -300):
                gg = z3.And(zi(val(m, t)) >= lb, zi(val(m, tb)) < zi(val(m, t)))
                if self.holds(b, gg, Lin([], 0, '>=')): g = gg; break
            if g is None:
                allok = False; break
            goals.append((b, g))
        if allok:
            info.measure = m
            for b, g in goals:
                o = Oblig('loop terminates: measure %s' % (m if not callable(m) else 'custom',), g, b, where); o.status = 'proved'; self.obls.append(o)
            return
    o = Oblig('loop terminates: no decreasing measure found', z3.BoolVal(False), bts[0][2], where)
    o.status = 'failed'; o.soft = 'termination'
    self.obls.append(o)


for _f in (loop, redundant, phi_signed, nonneg, free_ok, holds, batch, havoc_mem, check_measure): setattr(Exec, _f.__name__, _f)
Exec.view = None
Exec.fresh_ctx = False
Exec.visits = 0
Exec._sg = {}
Exec.invhook = None
Exec.termination = True
Exec.cand_timeout = 2.0
Exec.lin_retry = True
Exec.ghost_havoc = {}
Exec.measures = None
