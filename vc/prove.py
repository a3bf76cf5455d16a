"""Discharging obligations: z3, with ground unfolding of specification functions; cvc5 as an independent second opinion."""
import z3, time, subprocess, os, tempfile
from .sym import zi, zb, KEEP, TABN, _pattern, seg_expr

from z3 import z3 as _z, z3core as _zc


def _fast(*names):
    """accessors that cannot fail on a valid term: without the error query after each call"""
    for n in names:
        f = getattr(_zc, n).__defaults__[0].f
        for m in (_z, _zc):
            if hasattr(m, n): setattr(m, n, f)


_fast('Z3_get_ast_kind', 'Z3_get_app_num_args', 'Z3_get_app_arg', 'Z3_get_ast_id', 'Z3_get_sort_kind', 'Z3_inc_ref', 'Z3_dec_ref', 'Z3_get_sort', 'Z3_get_decl_kind', 'Z3_get_app_decl')
STATS = {'queries': 0, 'time': 0.0, 'cvc5': 0, 'cvc5_time': 0.0, 'cvc5_unsat': 0}
SEED = 1


class SpecFn:
    """Uninterpreted specification function with a definition that is unfolded at ground applications.
    unfold(*args)-> list of z3 facts (each a valid consequence of the definition); conc(*args)-> python value"""
    reg = {}

    def __init__(self, name, nargs, ret='int', unfold=None, conc=None, depth=2, sorts=None):
        I = z3.IntSort()
        self.f = z3.Function(name, *((sorts or [I] * nargs) + [I if ret == 'int' else z3.BoolSort()]))
        self.unfold, self.conc, self.name, self.depth, self.cache = unfold, conc, name, depth, {}
        SpecFn.reg[name] = self

    def __call__(self, *a):
        if all(isinstance(x, (int, bool)) for x in a) and self.conc is not None:
            return self.conc(*a)
        return self.f(*[zi(x) for x in a])


_sc = {}
_SEL, _STO, _UN = z3.Z3_OP_SELECT, z3.Z3_OP_STORE, z3.Z3_OP_UNINTERPRETED


def scan(f):
    """of a formula, outside quantifiers: applications of specification functions, of lookup tables, and {array/function name: {index terms}}"""
    r = _sc.get(f.get_id())
    if r is not None: return r
    apps, tabs, idx = {}, {}, {}
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if not z3.is_app(x): continue         # bodies of quantifiers contain bound variables
        n = x.num_args()
        d = x.decl()
        k = d.kind()
        if k == _UN:
            nm = d.name()
            if n == 0:
                if nm.startswith('sk!') and x.sort() == _INT: idx.setdefault('#sk', {})[i] = x
                continue
            if '.' in nm: apps[i] = x
            if n == 1:
                if nm in TABN: tabs[i] = x
                y = x.arg(0)
                if y.sort() == _INT: idx.setdefault(nm, {})[y.get_id()] = y
        elif k == _SEL or k == _STO:
            y = x.arg(1)
            if y.sort() == _INT:
                for nm in arr_base(x.arg(0)): idx.setdefault(nm, {})[y.get_id()] = y
        for j in range(n): st.append(x.arg(j))
    KEEP.append(f)
    r = _sc[f.get_id()] = (apps, tabs, idx)
    return r


_INT = z3.IntSort()


def ground_apps(f): return scan(f)[0]


def unfoldings(fs, rounds=3):
    facts = []
    done = set()
    cur = list(fs)
    for r in range(rounds):
        new = []
        for g in cur:
            for i, a in ground_apps(g).items():
                if i in done: continue
                done.add(i)
                sf = SpecFn.reg.get(a.decl().name())
                if sf is None or sf.unfold is None: continue
                if getattr(sf, 'depth', 2) <= r: continue
                u = sf.cache.get(i)
                if u is None:
                    KEEP.append(a)
                    u = sf.cache[i] = [zb(f) for f in sf.unfold(*a.children()) if f is not True]
                new += u
        if not new: break
        facts += new
        cur = new
    return facts


def mk_solver(timeout, mbqi=False, ematch=True):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.set('random_seed', SEED)
    if not mbqi:
        s.set('smt.mbqi', False)
        s.set('auto_config', False)
    return s


def tab_apps(f): return scan(f)[1]


_td = {}


def tabfacts(fs, full):
    out = []
    seen = {}
    for f in fs: seen.update(tab_apps(f))
    for i, x in seen.items():
        r = _td.get(i)
        if r is None:
            t = TABN[x.decl().name()]
            r = _td[i] = (z3.And(x >= min(t), x <= max(t)), x == seg_expr(x.arg(0), _pattern(t)[1]))
            KEEP.append(x)
        out.append(r[1] if full else r[0])
    return out


def feasible(pc, timeout=0.4):
    """True/False/None for satisfiability of quantifier-free path facts"""
    t = time.time()
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.add(*pc)
    tf = tabfacts(pc, False)
    if tf: s.add(*tf)
    r = s.check()
    if r == z3.sat and tf:
        s.add(*tabfacts(pc, True))
        r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t
    return True if r == z3.sat else False if r == z3.unsat else None


def flat(fs):
    out = []
    for f in fs:
        f = zb(f)
        if z3.is_and(f): out += flat(f.children())
        else: out.append(f)
    return out


_sk = [0]


def skolem(q):
    vs = []
    for i in range(q.num_vars()):
        _sk[0] += 1
        vs.append(z3.Const('sk!%d' % _sk[0], q.var_sort(i)))
    return z3.substitute_vars(q.body(), *reversed(vs)), vs


def split_goal(goal, assums):
    """[(assumptions, quantifier-light goal, skolems)]"""
    goal = zb(goal)
    if z3.is_and(goal):
        out = []
        for g in goal.children(): out += split_goal(g, assums)
        return out
    if z3.is_implies(goal):
        return split_goal(goal.arg(1), assums + flat([goal.arg(0)]))
    if z3.is_quantifier(goal) and goal.is_forall():
        b, vs = skolem(goal)
        KEEP.extend(vs)
        return split_goal(b, assums)
    if z3.is_not(goal) and z3.is_quantifier(goal.arg(0)) and goal.arg(0).is_exists():
        b, vs = skolem(goal.arg(0))
        return [(assums + [b], z3.BoolVal(False))]
    return [(assums, goal)]


def arr_base(a):
    """decl ids of the arrays a select term reads through (store chains, ite)"""
    out = []
    st = [a]
    while st:
        x = st.pop()
        k = x.decl().kind()
        if k == z3.Z3_OP_STORE: st.append(x.arg(0))
        elif k == z3.Z3_OP_ITE: st += [x.arg(1), x.arg(2)]
        else: out.append(x.decl().name())
    return out


def index_terms(f): return scan(f)[2]


_qt = {}


def q_triggers(q):
    """[(array name, offset)]: places where the single bound variable (plus a constant) is the index"""
    r = _qt.get(q.get_id())
    if r is not None: return r
    out = set()
    st = [q.body()]
    seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): continue
        if z3.is_app(x):
            k = x.decl().kind()
            y = None
            if k == z3.Z3_OP_SELECT: y, names = x.arg(1), None
            elif k == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1: y, names = x.arg(0), [x.decl().name()]
            if y is not None:
                off = None
                if z3.is_var(y): off = 0
                elif z3.is_add(y) and y.num_args() == 2:
                    if z3.is_var(y.arg(0)) and z3.is_int_value(y.arg(1)): off = y.arg(1).as_long()
                    elif z3.is_var(y.arg(1)) and z3.is_int_value(y.arg(0)): off = y.arg(0).as_long()
                elif z3.is_sub(y) and y.num_args() == 2 and z3.is_var(y.arg(0)) and z3.is_int_value(y.arg(1)): off = -y.arg(1).as_long()
                if off is None and z3.is_add(y) and any(z3.is_var(c) for c in y.children()):
                    rest = [c for c in y.children() if not z3.is_var(c)]
                    if len(rest) == y.num_args() - 1 and not any(_has_var(c) for c in rest): off = z3.Sum(rest) if len(rest) > 1 else rest[0]
                if off is not None:
                    for n in (arr_base(x.arg(0)) if names is None else names): out.add((n, off))
            st += x.children()
    out = sorted(out, key=lambda t: (t[0], isinstance(t[1], int), str(t[1])))       # no dependence on the hash seed
    KEEP.append(q)
    _qt[q.get_id()] = out
    return out


def _has_var(x):
    st = [x]
    while st:
        y = st.pop()
        if z3.is_var(y): return True
        if z3.is_app(y): st += y.children()
    return False


def instantiate(assums, goal, rounds=2, limit=260):
    """ground instances of universally quantified assumptions at matching index terms of the goal and the path"""
    qs = []
    ground = []
    for a in assums:
        if z3.is_quantifier(a) and a.is_forall(): qs.append((None, a))
        elif z3.is_implies(a) and z3.is_quantifier(a.arg(1)) and a.arg(1).is_forall() and not has_q(a.arg(0)): qs.append((a.arg(0), a.arg(1)))
        elif not has_q(a): ground.append(a)
    if not qs: return []
    terms = {}

    def merge(f, w):
        new = False
        for n, d in index_terms(f).items():
            t = terms.setdefault(n, {})
            for i, y in d.items():
                if i not in t:
                    t[i] = y; new = True
        return new
    merge(goal, 0)
    sks = list(terms.get('#sk', {}).values())
    for g in ground: merge(g, 1)
    out = []
    done = set()
    for r in range(rounds):
        added = []
        for qi, (g, q) in enumerate(qs):
            n = q.num_vars()
            if any(q.var_sort(i) != z3.IntSort() for i in range(n)): continue
            if n == 1:
                tr = q_triggers(q)
                cand = {}
                if r == 0:
                    for y in sks: cand[y.get_id()] = y
                for nm, off in tr:
                    for y in list(terms.get(nm, {}).values()):
                        z = y if isinstance(off, int) and off == 0 else z3.simplify(y - off)
                        KEEP.append(z)
                        cand[z.get_id()] = z
                if not tr:
                    for d in terms.values(): cand.update(d)
                for i, t in cand.items():
                    if (qi, i) in done: continue
                    done.add((qi, i))
                    b = z3.substitute_vars(q.body(), t)
                    KEEP.append(b)
                    added.append(b if g is None else z3.Implies(g, b))
                    if len(out) + len(added) >= limit: break
            elif n == 2 and r == 0:
                al = list({i: y for d in terms.values() for i, y in d.items()}.values())[:10]
                for t in sks + al:
                    for u in sks + al:
                        if (qi, t.get_id(), u.get_id()) in done: continue
                        done.add((qi, t.get_id(), u.get_id()))
                        b = z3.substitute_vars(q.body(), u, t)
                        KEEP.append(b)
                        added.append(b if g is None else z3.Implies(g, b))
        if not added: break
        out += added
        if len(out) >= limit: break
        new = False
        for b in added: new |= merge(b, 2)
        if not new: break
    return out


def prove(assums, goal, timeout=5.0, want_model=False, deep=False):
    """'proved' | ('failed', model or None, reason)"""
    goal = zb(goal)
    if z3.is_true(goal): return 'proved', None, 'trivial'
    t = time.time()
    base = flat(assums)
    for i, a in enumerate(base):
        if z3.is_quantifier(a) and a.is_exists(): base[i] = skolem(a)[0]
    base = flat(base)
    model = None
    last = None
    for asm, g in split_goal(goal, base):
        r, m, why = prove1(asm, g, timeout)
        if r != 'proved' and deep and why == 'sat': r, m, why = prove1(asm, g, timeout * 2, 3, 1200)
        if r != 'proved':
            STATS['time'] += time.time() - t
            return r, m, why
    STATS['time'] += time.time() - t
    return 'proved', None, 'z3'


def plain(fs, timeout):
    """unsat of the ground facts alone, with applications and array reads abstracted to constants"""
    g = z3.Goal(); g.add(*fs)
    r = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify')(g)
    if len(r) != 1: return False
    out, memo, pairs = list(r[0]), {}, []

    def walk(x):
        if x.get_id() in memo: return
        memo[x.get_id()] = x
        if z3.is_app(x) and x.num_args() and (x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT)) and x.sort().kind() in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT):
            pairs.append((x, z3.FreshConst(x.sort()))); return
        for c in x.children(): walk(c)
    for f in out: walk(f)
    if pairs: out = [z3.substitute(f, *pairs) for f in out]
    for k in (6, 2):
        s = z3.SimpleSolver() if k == 2 else z3.Solver()
        s.set('timeout', int(timeout * 300)); s.set('random_seed', SEED)
        if k == 2: s.set('arith.solver', 2)
        s.add(*out)
        if s.check() == z3.unsat: return True
    return False


def prove1(base, goal, timeout, rounds=2, limit=260):
    neg = z3.Not(goal)
    unf0 = flat(unfoldings([a for a in base if not has_q(a)] + [neg]))
    inst = instantiate(base + unf0, goal, rounds, limit)
    unf = unf0 + (flat(unfoldings(inst)) if inst else [])
    if len(unf) > len(unf0):
        inst = inst + instantiate(base + unf, goal, rounds, limit)
    STATS['queries'] += 1
    qf = [a for a in base if not has_q(a)]
    quant = len(qf) < len(base)
    last = None
    # 1: ground only, lookup tables opaque; then with their definitions
    gr = qf + inst + unf + [neg]
    gr = [f for f in gr if not has_q(f)]
    tf = tabfacts(gr, False)
    s = z3.Solver()
    s.set('timeout', int(timeout * 500)); s.set('random_seed', SEED)
    s.add(*gr)
    if tf: s.add(*tf)
    r = s.check()
    if r == z3.unsat: return 'proved', None, 'z3'
    if tf and r == z3.sat:
        s = z3.Solver()
        s.set('timeout', int(timeout * 500)); s.set('random_seed', SEED)
        s.add(*gr); s.add(*tabfacts(gr, True))
        r = s.check()
        if r == z3.unsat: return 'proved', None, 'z3'
    if r == z3.unknown:       # the unfoldings may only be in the way
        if plain([f for f in qf + [neg] if not has_q(f)], timeout): return 'proved', None, 'z3'
    model = s.model() if r == z3.sat else None
    last = 'sat' if r == z3.sat else s.reason_unknown()
    if quant or has_q(neg):
        s = mk_solver(timeout, mbqi=False)
        s.add(*base); s.add(*inst); s.add(*unf); s.add(neg)
        if tf: s.add(*tabfacts(gr, True))
        r = s.check()
        if r == z3.unsat: return 'proved', None, 'z3'
        if last != 'sat': last = s.reason_unknown() if r == z3.unknown else 'sat'
    return 'failed', model, last


_hq = {}
_probe = z3.Probe('has-quantifiers')


def has_q(x):
    r = _hq.get(x.get_id())
    if r is None:
        KEEP.append(x)
        r = _hq[x.get_id()] = _probe(x) != 0
    return r


def smt2(assums, goal):
    s = z3.Solver()
    neg = z3.Not(zb(goal))
    s.add(*assums); s.add(*unfoldings(list(assums) + [neg])); s.add(neg)
    return s.to_smt2()


def cvc5_check(assums, goal, timeout=20):
    txt = '(set-logic ALL)\n' + smt2(assums, goal)
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    t = time.time()
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000), f.name], capture_output=True, text=True, timeout=timeout + 5)
        out = r.stdout.strip().splitlines()
        res = out[0] if out else 'unknown'
    except subprocess.TimeoutExpired:
        res = 'unknown'
    finally:
        os.unlink(f.name)
    STATS['cvc5'] += 1
    STATS['cvc5_time'] += time.time() - t
    if res == 'unsat': STATS['cvc5_unsat'] += 1
    return res
