"""Lemmas over contracts: first-order facts about the specification functions, discharged by z3."""
import time, z3
from . import prove as PR
from .spec import zb


class Lemma:
    budget = 120

    def __init__(s, name, goals, note='', timeout=20): s.name, s.goals, s.note, s.timeout = name, goals, note, timeout

    def run(s, env):
        r = {'unit': s.name, 'file': 'lemma over the contracts', 'violations': [], 'undecided': [], 'obligations': 0, 'discharged': 0, 'note': s.note}
        t0 = time.time()
        for name, pc, goal in s.goals():
            r['obligations'] += 1
            if isinstance(goal, bool): st = 'proved' if goal else 'failed'
            else: st, m, why = PR.prove([zb(p) for p in pc if not (isinstance(p, bool) and p)], goal, s.timeout)
            if st == 'proved': r['discharged'] += 1
            else: r['undecided'].append('lemma: ' + name)
        r['proof_s'] = round(time.time() - t0, 1); r['wall_s'] = r['proof_s']
        r['solver'] = dict(PR.STATS)
        return r


class Lean(Lemma):
    """a file of lemmas about the specification functions, checked by the Lean kernel"""
    OK = {'propext', 'Quot.sound', 'Classical.choice'}

    def __init__(s, name, path, thms, note=''): s.name, s.path, s.thms, s.note = name, path, thms, note

    def run(s, env):
        import subprocess, re, os
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', s.path)
        r = {'unit': s.name, 'file': s.path + ' (lemmas over the contracts)', 'violations': [], 'undecided': [], 'obligations': len(s.thms), 'discharged': 0, 'note': s.note}
        t0 = time.time()
        src = open(p).read()
        
        def unlimit():
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2)
        x = subprocess.run(['lean', '-j1', p], capture_output=True, text=True, timeout=110, preexec_fn=unlimit)
        ax = dict((m.group(1), m.group(2) or '') for m in re.finditer(r"'([\w.]+)' (?:depends on axioms: \[([^\]]*)\]|does not depend on any axioms)", x.stdout))
        for t in s.thms:
            good = x.returncode == 0 and t in ax and {a.strip() for a in ax[t].split(',') if a.strip()} <= s.OK and 'sorry' not in src
            if good: r['discharged'] += 1
            else: r['undecided'].append('lemma: ' + t + ' ' + (x.stdout + x.stderr)[-300:])
        r['proof_s'] = round(time.time() - t0, 1); r['wall_s'] = r['proof_s']
        r['solver'] = {'queries': 0, 'time': 0}
        return r
