"""Driver: python3-vt -m vc.main <property> [--tier quick|thorough]  |  --replay <file>"""
import sys, os, json, time, tempfile, shutil, multiprocessing as mp, traceback, hashlib, re, signal, resource
sys.setrecursionlimit(30000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get('VC_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

TRUSTED = ['LLVM 18 clang -O0 front end and the mem2reg/sroa/simplifycfg passes (the verified text is the IR they produce from /repo on this run)',
           'vc/: the VC generator (memory model: disjoint objects, flat little-endian cells; exact two\'s-complement arithmetic)',
           'z3 5.3 (python3-vt)', 'parameters that the contract declares as separate objects do not overlap; no concurrent modification of buffers during a call']

T0 = 0                  # when the check began


def run_contract(c, bc, so, tier, consts_only=False):
    from .ir import Module
    from . import verify as VF, native as NT, prove as PR
    from .spec import as_list
    t0 = time.time()
    out = {'unit': c.fn, 'file': c.file, 'kind': 'contract', 'violations': [], 'undecided': [], 'obligations': 0, 'discharged': 0, 'trusted': [], 'inlined': [], 'called': []}
    mod = Module(bc)
    PR.SEED = SEED
    thorough = tier == 'thorough'
    nc = c.opts.get('alt') or c          # the native executions may go through a driver of their own

    def native(secs, seed, consts=(), first=()):
        viol, n = NT.campaign(nc, so, seed, max(secs, nc.opts.get('minsecs', 0)), consts, first)
        out['native'] = out.get('native', 0) + n
        if viol and 'harness' in viol:
            out['harness_error'] = viol['harness'][-800:]
            return False
        if viol and c.opts.get('known'):
            k = c.opts['known'](NT.dec_inp(viol['inp']), viol['bad'])
            if k:
                if k not in out.setdefault('known', []): out['known'].append(k)
                return False
        if viol: out['violations'].append({'what': '; '.join(viol['bad']), 'input': viol['inp']})
        return bool(viol)
    budget = c.budget * (3 if thorough else 1)
    # a short search first: with a failing input at hand the proof attempt only has to name obligations
    if nc.native and so and native(0.5, SEED + 1): budget = min(budget, 60)
    r = VF.verify(mod, c, seed=SEED, budget=budget)
    def take(r):
        out['obligations'] = len(r.obls)
        out['discharged'] = sum(1 for o in r.obls if o[2] == 'proved')
        out['inlined'], out['called'], out['trusted'] = r.inlined, r.called, r.trusted
        out['loops'] = [{'fn': a, 'at': b, 'terminates': t, 'invariants': n} for a, b, t, n in r.loops]
        out['paths'] = r.rets
        out['proof_s'] = round(r.time, 1)
        out['solver'] = dict(PR.STATS)
        if not r.obls and not r.error: r.error = 'no obligations generated (vacuous)'
        out['undecided'] = []
        for o in r.failed: out['undecided'].append('%s at %s (%s)' % (o.kind, o.where, getattr(o, 'reason', '')))
        if r.error: out['undecided'].append(r.error)
    take(r)
    # native executions
    if nc.native and so and not out['violations']:
        consts = []
        try: consts = NT.mine_consts(mod, r.inlined)
        except Exception: pass
        bad = bool(out['undecided'])
        native((60 if thorough else 30) if bad else (20 if thorough else nc.opts.get('secs', 2.0)), SEED, consts, [i for i, _ in (r.bads or [])] if nc is c else [])
    # no failing input: once more with another seed (a solver that was out of luck or short of time is no reason for an alarm)
    el = time.time() - (T0 or t0)
    if out['undecided'] and not out['violations'] and not (r.error or '').startswith('unsupported') and el < 300:
        r2 = VF.verify(mod, c, seed=SEED + 7, budget=min(budget, 250))
        if r2.ok: r = r2; take(r)
    out['wall_s'] = round(time.time() - t0, 1)
    if thorough and r.ok and getattr(r, 'ex', None) is not None:
        # second opinion on the final obligations
        todo = [o for o in r.ex.obls if o.kind.startswith('post')][:12]
        for o in todo: PR.cvc5_check(o.pc + o.hyps, o.goal, 10)
        out['cvc5'] = {'asked': len(todo), 'unsat': PR.STATS['cvc5_unsat']}
    return out


def worker(q, i, fn, args, mem):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, resource.getrlimit(resource.RLIMIT_AS)[1]))
        os.setpgid(0, 0)
    except Exception: pass
    try:
        q.put((i, fn(*args)))
    except MemoryError:
        q.put((i, {'undecided': ['engine: out of memory'], 'violations': [], 'obligations': 0, 'discharged': 0, 'unit': str(i)}))
    except BaseException as e:
        q.put((i, {'undecided': ['engine: %s' % traceback.format_exc()[-600:]], 'violations': [], 'obligations': 0, 'discharged': 0, 'unit': str(i)}))


def parallel(jobs, limit_s, nproc=8):
    """jobs: [(name, fn, args, budget)] -> results in order"""
    import queue
    q = mp.Queue()
    res = {}
    run = {}
    todo = list(enumerate(jobs))
    while todo or run:
        while todo and len(run) < nproc:
            i, (name, fn, args, budget) = todo.pop(0)
            p = mp.Process(target=worker, args=(q, i, fn, args, 6 << 30)); p.start()
            run[i] = (p, time.time(), budget, name)
        try:
            i, r = q.get(timeout=0.5)
            res[i] = r
            if i in run:
                run[i][0].join(5); del run[i]
            continue
        except queue.Empty: pass
        for i in list(run):
            p, t, b, name = run[i]
            dead = not p.is_alive()
            if dead:
                try:
                    while True:
                        k, r = q.get(timeout=0.3); res[k] = r
                        if k in run and k != i: run[k][0].join(5); del run[k]
                except queue.Empty: pass
            if i in res:
                run.pop(i, None); continue
            if dead or time.time() - t > b:
                try: os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    try: p.kill()
                    except Exception: pass
                p.join()
                del run[i]
                res[i] = {'unit': name, 'undecided': ['engine: worker %s' % ('died' if dead else 'exceeded its time budget')], 'violations': [], 'obligations': 0, 'discharged': 0}
    return [res[i] for i in range(len(jobs))]


def build_units(pid, units, tmp):
    """compile IR and native code for contract units"""
    from .ir import compile_ir, BuildError
    from . import native as NT
    from .spec import Contract
    jobs = []
    bcs, sos = {}, {}
    for u in units:
        if not isinstance(u, Contract): continue
        src = u.shim(REPO) if callable(u.shim) else (os.path.join(HERE, u.shim) if u.shim else os.path.join(REPO, u.file))
        key = (src, u.cxx, tuple(u.extra))
        if key not in bcs:
            bc = os.path.join(tmp, 'm%d.bc' % len(bcs))
            compile_ir(src, bc, repo=REPO, cxx=u.cxx, extra=u.extra)
            bcs[key] = bc
        u._bc = bcs[key]
        n = u.opts.get('alt') or u
        if n.native:
            srcs = [os.path.join(HERE, x[7:]) if x.startswith('/verif/') else os.path.join(REPO, x) for x in (n.opts.get('nsrc') or [])] or [src]
            k2 = (tuple(srcs), n.cxx, tuple(n.extra))
            if k2 not in sos:
                so = os.path.join(tmp, 'n%d.so' % len(sos))
                err = NT.build_so(so, srcs, REPO, cxx=n.cxx, extra=[e for e in n.extra if not e.startswith('-fno-ex')])
                sos[k2] = so if err is None else None
                if err: print('note: native build failed: ' + err[-400:], file=sys.stderr)
            u._so = sos[k2]
        else: u._so = None


def dedupe(xs):
    out = []
    for x in xs:
        if x not in out: out.append(x)
    return out


def check(pid, tier):
    from props.index import REG
    global T0
    from .spec import Contract
    T0 = t0 = time.time()
    ent = REG[pid]
    units = ent['units']()
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % pid, dir=os.environ.get('VC_TMP', '/tmp'))
    try:
        try:
            build_units(pid, units, tmp)
        except Exception as e:
            print('ERROR: cannot extract the code of %s: %s' % (pid, str(e)[-800:]))
            return 2
        jobs = []
        for u in units:
            if isinstance(u, Contract):
                b = max(u.budget + 120, 700) * (3 if tier == 'thorough' else 1)
                jobs.append((u.fn, run_contract, (u, u._bc, u._so, tier), b))
            else:
                jobs.append((u.name, u.run, ({'repo': REPO, 'tmp': tmp, 'tier': tier, 'seed': SEED},), u.budget * (3 if tier == 'thorough' else 1) + 60))
        limit = 840 if tier == 'quick' else 5400
        res = parallel(jobs, limit)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return report(pid, tier, ent, units, res, t0)


def report(pid, tier, ent, units, res, t0):
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf): known = [k for k in json.load(open(kf)) if k.get('property') == pid and k.get('status') == 'open']
    viol, undec, kn = [], [], []
    for r in res:
        for v in r['violations']:
            k = next((k for k in known if k['unit'] == r.get('unit') and re.search(k['match'], v['what'])), None)
            (kn if k else viol).append((r, v, k))
        for x in r['undecided']:
            k = next((k for k in known if k['unit'] == r.get('unit') and re.search(k['match'], x)), None)
            (kn if k else undec).append((r, x, k))
        for k in r.get('known', []): kn.append((r, None, {'what': k}))
    obls = sum(r.get('obligations', 0) for r in res)
    disch = sum(r.get('discharged', 0) for r in res)
    bounded = [r for r in res if r.get('bounded')]
    proved = [r for r in res if not r.get('bounded')]
    trusted = dedupe(TRUSTED + ent.get('trusted', []) + ['contract assumed on external function: ' + t for r in res for t in r.get('trusted', []) if not t.startswith('llvm.')])
    sv = {'queries': sum(r.get('solver', {}).get('queries', 0) for r in res), 'time_s': round(sum(r.get('solver', {}).get('time', 0) for r in res), 1)}
    cov = {'obligations': obls, 'discharged': disch,
           'checker_cmd': 'cd /verif && python3-vt -m vc.main %s --tier %s' % (pid, tier),
           'trusted_base': trusted,
           'backend': 'z3 (python3-vt); cvc5 second opinion in the thorough tier',
           'functions_under_contract': [{'fn': r.get('unit'), 'file': r.get('file'), 'obligations': r.get('obligations', 0), 'discharged': r.get('discharged', 0), 'also_covered_inline': [x for x in r.get('inlined', []) if x != r.get('unit')][:12],
                                         'callee_contracts': r.get('called', []), 'loops': r.get('loops', [])[:10], 'proof_s': r.get('proof_s'), 'native_runs': r.get('native', 0), **({'cvc5': r['cvc5']} if 'cvc5' in r else {}), **({'note': r['note']} if 'note' in r else {})} for r in proved],
           'bounded_stand_ins': [{'unit': r.get('unit'), 'bound': r.get('bound'), 'cases': r.get('native', 0), 'note': r.get('note', '')} for r in bounded],
           'solver': sv}
    if ent.get('level') == 'other' or ent.get('level') == 'exploration':
        cov['explanation'] = ent.get('explanation', '')
        cov['evaluations'] = sum(r.get('native', 0) for r in res); cov['distinct_nontrivial'] = sum(r.get('distinct', 0) for r in res)
        cov['rule'] = ent.get('rule', 'inputs generated by the contract of each unit'); cov['samples'] = [s for r in res for s in r.get('samples', [])][:5]
    ev = {'property': pid, 'tier': tier, 'seed': SEED, 'level': ent.get('level', 'proof'), 'coverage': cov, 'assumptions': ent.get('assumptions', []) + trusted[len(TRUSTED):],
          'wall_s': round(time.time() - t0, 1), 'violations': len(viol) + (1 if undec and not viol else 0)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    s = json.dumps(ev, indent=1)
    if len(s) > 60000:
        for f in cov['functions_under_contract']: f.pop('loops', None)
        s = json.dumps(ev)
    open(os.path.join(HERE, 'evidence', pid + '.json'), 'w').write(s)
    seen = set()
    for r, v, k in kn:
        if k['what'] not in seen:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
            seen.add(k['what'])
    for r in res:
        print('# %-34s obligations %4d discharged %4d native %6s  %.1fs%s' % (r.get('unit'), r.get('obligations', 0), r.get('discharged', 0), r.get('native', '-'), r.get('wall_s', 0) or 0, '  UNDECIDED: ' + r['undecided'][0][:160] if r['undecided'] else ''))
        if r.get('harness_error'): print('# note: native harness of %s unusable: %s' % (r.get('unit'), ' '.join(r['harness_error'].split())[-160:]))
    rd = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
    if viol:
        r, v, _ = viol[0]
        path = os.path.join(rd, '%s-%s.json' % (pid, re.sub(r'\W+', '_', str(r.get('unit')))[:60]))
        json.dump({'property': pid, 'unit': r.get('unit'), 'file': r.get('file'), 'what': v['what'], 'input': v.get('input'), 'failed_obligations': r['undecided'][:20],
                   'replay': 'cd /verif && python3-vt -m vc.main --replay %s' % path, 'others': [{'unit': r2.get('unit'), 'what': v2['what'], 'input': v2.get('input')} for r2, v2, _ in viol[1:8]]}, open(path, 'w'), indent=1)
        print('# %s: %s' % (r.get('unit'), v['what'][:300]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if undec:
        r, x, _ = undec[0]
        path = os.path.join(rd, '%s-%s.json' % (pid, re.sub(r'\W+', '_', str(r.get('unit')))[:60]))
        json.dump({'property': pid, 'unit': r.get('unit'), 'file': r.get('file'), 'status': 'obligation(s) that are discharged on the reference tree are not discharged on this one; no failing input was found',
                   'failed_obligations': [{'unit': a.get('unit'), 'obligation': b} for a, b, _ in undec][:60]}, open(path, 'w'), indent=1)
        print('# %s: %s' % (r.get('unit'), x[:300]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        return 1
    print('OK property=%s obligations=%d discharged=%d wall=%.1fs' % (pid, obls, disch, time.time() - t0))
    return 0


def replay(path):
    from props.index import REG
    from . import native as NT
    from .spec import Contract
    d = json.load(open(path))
    ent = REG[d['property']]
    for u in ent['units']():
        if not isinstance(u, Contract):
            if u.name == d['unit'] and hasattr(u, 'replay'): return u.replay(d)
            continue
        if u.fn != d['unit'] or not d.get('input'): continue
        tmp = tempfile.mkdtemp(prefix='vc_replay_')
        try:
            build_units(d['property'], [u], tmp)
            v, n = NT.campaign(u.opts.get('alt') or u, u._so, 1, 20, first=[NT.dec_inp(d['input'])], nmax=1)
            print('reproduced: %s' % v['bad'] if v and 'bad' in v else 'does not fail on this tree')
            return 1 if v else 0
        finally: shutil.rmtree(tmp, ignore_errors=True)
    print(json.dumps(d, indent=1)); return 0


if __name__ == '__main__':
    a = sys.argv[1:]
    if os.environ.get('PYTHONHASHSEED') != '0':       # the same run every time
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'vc.main'] + a)
    if a[0] == '--replay': sys.exit(replay(a[1]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    try:
        rc = check(a[0], tier)
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
