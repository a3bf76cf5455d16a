"""Deductive verification of one function against its contract."""
import z3, time, random, os, traceback
from .sym import *
from . import prove as PR
from .ir import Module
from .exec import *
from .exec import Dead, ConcreteBad, Fork
from . import loop as _loop
from .spec import *
from . import handlers as H
from . import cxxstd as CX
from . import syslib as SY


class Result:
    def __init__(s, name):
        s.name = name
        s.obls = []            # (kind, where, status, reason)
        s.failed = []
        s.error = None
        s.inlined = []; s.called = []; s.trusted = []
        s.time = 0; s.loops = []; s.rets = 0
        s.smt = []

    @property
    def ok(s): return not s.failed and not s.error


def mk_exec(mod, c, concrete):
    hs = dict(H.STD)
    hs.update(CX.STR)
    hs.update(SY.SYS)
    if c.opts.get('world'):
        from . import world as WD
        hs.update(WD.WORLD)
    hs.update(c.handlers)
    ex = Exec(mod, handlers=hs, contracts=dict(c.contracts or {}), concrete=concrete, name=c.fn)
    ex.cand_timeout = c.cand_timeout
    ex.guard = c.opts.get('guard')
    ex.ginit_all = c.opts.get('ginit')
    ex.nolearn = c.opts.get("nolearn")
    ex.unroll = c.opts.get("unroll", 0)
    ex.unroll_top = c.opts.get("unroll_top", False)
    return ex


def bind(ex, c, v):
    ex.view = lambda st: v.at(st)
    ex.poolf = lambda key: [(n, a, f, sel if sel is not None else None) for n, a, f, *r in c.inv for sel in [r[0] if r else None]]

    def vh(e, st, t):
        for p in c.params:
            if isinstance(p, Int) and p.w >= 8: t['P:' + p.name] = v.vals[p.name]
            if isinstance(p, CStr): t['P:z_' + p.name] = v.vals['z:' + p.name]
            if isinstance(p, (Buf, CStr)) and p.w and 'P:' + p.name in e.regions: t['lw@P:' + p.name] = st.ghost.get(('lw', 'P:' + p.name), 0)
            if isinstance(p, Out):
                cell = st.mem.get('P:' + p.name, {}).get(0)
                if cell is not None and isinstance(cell[1], V): t['out:' + p.name] = (ass if p.signed else asu)(cell[1]).e
        for k, x in st.ghost.items():
            if k[0] == 'sl' and k[1] in st.mem: t['sl@' + k[1]] = x
        for rid in e.heap_live(st):
            t['lw@' + rid] = st.ghost.get(('lw', rid), 0)
        if c.viewhook: c.viewhook(e, st, t, v)
    ex.viewhook = vh
    if c.measures: ex.measures = c.measures


def symname(mod, c):
    if c.symfind:
        return c.symfind(mod)
    return c.fn


def concrete_runs(mod, c, seed, n, budget=20.0):
    """run the IR concretely on generated inputs -> traces for candidate learning, and violations seen on the way"""
    rng = random.Random(seed)
    traces = {}
    bads = []
    t0 = time.time()
    ran = 0
    for i in range(n):
        if time.time() - t0 > budget: break
        inp = c.gen(rng, i)
        if inp is None: continue
        ex = mk_exec(mod, c, True)
        st = State()
        try:
            st.frames = []
            args, v = c.build(ex, st, inp)
            if c.pre and not all(bool(x) for x in as_list(c.pre(v))): continue
            bind(ex, c, v)
            ex.fuel = c.opts.get('fuel', 60000)
            ex.call_fn(st, symname(mod, c), args)
            outs = ex.run(st)
            ran += 1
        except ConcreteBad as e:
            bads.append((inp, e.args)); continue
        except Unsupported as e:
            if os.environ.get("VC_DEBUG") and not getattr(c, "_cd", None): print("concrete", c.fn, e); c._cd = 1
            continue
        finally:
            for k, L in ex.traces.items():
                # keep the owning executor for views
                D = traces.setdefault(k, [])
                if len(D) < 3000:
                    for t, s2 in L: D.append((t, (ex, s2, v)))
    return traces, bads, ran


def verify(mod, c, seed=1, budget=None, quick=True, log=None):
    t0 = time.time()
    r = verify1(mod, c, seed, budget, bool(c.opts.get('fresh')))
    if not r.ok and r.visits > 1 and not c.opts.get('fresh') and not c.opts.get('noretry'):
        r2 = verify1(mod, c, seed, (budget or c.budget), True)
        if r2.ok or (not r2.error and len(r2.failed) < len(r.failed)): r = r2
    if r.error and 'inside a loop' in r.error and not c.opts.get('unroll'):      # loops of a few iterations only are run out
        c.opts = dict(c.opts, unroll=6, unroll_top=True)
        r2 = verify1(mod, c, seed, (budget or c.budget), bool(c.opts.get('fresh')))
        if r2.ok or not r2.error: r = r2
    r.time = time.time() - t0
    return r


def verify1(mod, c, seed, budget, fresh):
    res = Result(c.fn)
    t0 = time.time()
    PR.SEED = seed
    deadline = t0 + (budget or c.budget)
    traces, bads, ran = concrete_runs(mod, c, seed, c.trace_n)
    res.bads = bads
    res.traced = ran
    ex = mk_exec(mod, c, False)
    ex.deadline = deadline
    ex.fresh_ctx = fresh
    st = State()
    try:
        args, v = c.build(ex, st)
        bind(ex, c, v)
        # traces carry (ex, state, view): evaluate templates in the view of the run they come from
        ex.traces = traces
        symview = ex.view
        ex.view = lambda s2: s2[2].at(s2[1]) if isinstance(s2, tuple) else symview(s2)
        if PR.feasible(st.pc, 5.0) is False:
            res.error = 'precondition is unsatisfiable (vacuous contract)'
            return res
        ex.call_fn(st, symname(mod, c), args)
        outs = ex.run(st)
        live = 0
        for k, s2 in outs:
            if k == 'throw':
                if not c.throws:
                    o = Oblig('no exception escapes (%s)' % s2.exc, z3.BoolVal(False), s2, c.fn); ex.obls.append(o)
                else:
                    w = v.at(s2); w.exc = s2.exc
                    for name, f in as_list(c.throws(w)):
                        ex.obls.append(Oblig('on exception: ' + name, zb(f), s2, c.fn))
                continue
            if k != 'ret': raise Unsupported('unexpected end of path ' + k)
            w = v.at(s2)
            r = s2.ret
            if isinstance(r, V): w.retv = (ass(r) if c.ret and c.ret.startswith('i') else asu(r)).e
            elif isinstance(r, Bv): w.retv = r.b
            else: w.retv = r
            res.rets += 1
            if PR.feasible(s2.pc, 2.0) is not False: live += 1
            if c.post:
                for name, f in as_list(c.post(w)):
                    if isinstance(f, bool) and f:
                        o = Oblig('post: ' + name, z3.BoolVal(True), s2, c.fn); o.status = 'proved'; ex.obls.append(o)
                        continue
                    ex.obls.append(Oblig('post: ' + name, zb(f), s2, c.fn))
            for rid in list(ex.regions):
                if ex.regions[rid].heap and rid in s2.mem and rid not in s2.freed and not c.opts.get('leak_ok'):
                    if s2.ghost.get(('esc', rid)): continue
                    if isinstance(w.retv, Ptr) and w.retv.rid == rid: continue
                    ex.obls.append(Oblig('allocated memory is released (%s)' % rid, z3.BoolVal(False), s2, c.fn))
        if res.rets and not live and not c.opts.get('noret'):
            res.error = 'no feasible return path (vacuous)'
        res.exec = ex
        for o in ex.obls:
            if o.status is None:
                if time.time() > deadline:
                    o.status, o.reason = 'failed', 'time budget'
                else:
                    r, m, why = PR.prove(o.pc + o.hyps, o.goal, c.timeout, deep=True)
                    o.status, o.model, o.reason = r, m, why
            if o.status != 'proved': res.failed.append(o)
            res.obls.append((o.kind, o.where, o.status))
    except Unsupported as e:
        res.error = 'unsupported: %s' % e
    except RecursionError as e:
        res.error = 'recursion'
    except Exception as e:
        if os.environ.get('VC_DEBUG'): traceback.print_exc()
        res.error = 'engine: %s: %s' % (type(e).__name__, e)
    finally:
        res.inlined = sorted(ex.inlined); res.called = sorted(ex.called); res.trusted = sorted(ex.trusted)
        res.loops = [(k[1], w, (ex.loopinfo[k].measure is not None) if k in ex.loopinfo else None, len(ex.loopinfo[k].cands or []) if k in ex.loopinfo else 0) for k, w in ex.loops_done.items()]
        res.time = time.time() - t0
        res.ex = ex
        res.visits = ex.visits
    return res
