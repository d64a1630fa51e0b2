"""The check of one property: proves its contracts on /repo's current source, replays or searches a failing input
against the real code, writes the evidence, decides the exit code."""
import sys, os, json, time, argparse, subprocess, threading, re
from . import build, run
from .exec import Prog
from .build import VERIF, BUILD, REPO, sh

KNOWN = os.path.join(VERIF, 'known_findings.txt')

TRUSTED = [
    'rustc nightly front end and MIR construction (the MIR verified is what the compiler built from /repo in this run)',
    'vf/exec.py: the obligation generator (path-wise symbolic execution of MIR, loops by invariants, calls by contract)',
    'z3 5.3.2 and z3 4.8.12 (all obligations), sympy (equality of rational functions, marked in by_backend)',
]
ASSUME = [
    'f64 arithmetic is treated as real arithmetic (no rounding, overflow, NaN or infinity); literals such as 1.0E-14 as their decimal value',
    'usize arithmetic does not overflow above (subtraction below zero is an obligation)',
    'Rc, RefCell and Box are transparent: RefCell is never borrowed while mutably borrowed, no allocation failure',
    'float_cmp::approx_eq! with epsilon e is |a - b| <= e (its ulps alternative adds only pairs closer than 4 ulps)',
]
EXACT = 'tolerance of vertex equality abstracted: vertices are equal exactly if they have the same coordinates, ghosts are all equal (combinatorial layer)'


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


class Harness:
    """the bounded search on the real code"""

    def __init__(self, prop):
        self.prop = prop
        self.bin = prop.lower()
        self.have = os.path.exists(os.path.join(VERIF, 'harness', 'src', 'bin', self.bin + '.rs'))
        self.err = None
        self.th = None

    def start(self):
        if self.have:
            self.th = threading.Thread(target=self._build)
            self.th.start()

    def _build(self):
        rc, o = sh(['cargo', 'build', '--release', '--offline', '--bin', self.bin], cwd=os.path.join(VERIF, 'harness'),
                   env={'CARGO_TARGET_DIR': os.path.join(BUILD, 'harness')}, timeout=600)
        if rc:
            self.err = 'harness does not build against this tree: ' + o[-1500:]

    def search(self, seed, seconds):
        """-> dict(cases, kinds, violations=[{key, what, input}], note)"""
        res = {'cases': 0, 'distinct': 0, 'kinds': {}, 'violations': [], 'note': None, 'samples': []}
        if not self.have:
            res['note'] = 'no bounded search for this property'
            return res
        self.th.join()
        if self.err:
            res['note'] = self.err
            return res
        exe = os.path.join(BUILD, 'harness', 'release', self.bin)
        try:
            p = subprocess.run([exe, str(seed), str(seconds)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=seconds * 4 + 90)
            outp = p.stdout
            if p.returncode not in (0, 1):
                res['note'] = 'the search ended abnormally (status %d): %s' % (p.returncode, p.stderr[-600:])
        except subprocess.TimeoutExpired as e:
            outp = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or '')
            res['note'] = 'the search did not end in time'
        for l in outp.splitlines():
            if not l.startswith('{'):
                continue
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if 'violation' in d:
                res['violations'].append(d['violation'])
            if 'done' in d:
                res.update({k: d['done'][k] for k in ('cases', 'distinct', 'kinds', 'samples') if k in d['done']})
        return res


def rule_for(prop):
    p = os.path.join(VERIF, 'harness', 'src', 'bin', prop.lower() + '.rs')
    if os.path.exists(p):
        t = [l[3:].strip() for l in open(p) if l.startswith('//!')]
        return ' '.join(t)
    return ''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args()
    prop, tier = a.property, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    H = Harness(prop)
    os.makedirs(BUILD, exist_ok=True)
    H.start()
    try:
        dumps = build.dump()
    except build.BuildError as e:
        print(str(e))
        print('ERROR: no answer, the tree cannot be built')
        return 2
    prog = Prog(dumps)
    t1 = time.time()
    scale, deadline = (1, 300) if tier == 'quick' else (4, 1500)
    res, lem = run.verify_property(prog, prop, scale=scale, deadline=deadline, procs=8, total=480 if tier == 'quick' else 3000)
    tp = time.time() - t1
    failed, bounded, obls = [], [], 0
    disch = 0
    by, tm = {}, {}
    fns, models, inlined, samples = [], set(), set(), []
    inv = 0
    for r in res:
        if r['status'] != 'ok':
            bounded.append({'function': r['name'], 'mode': r['mode'], 'why': r.get('why', '')[:600]})
            continue
        ok = [o for o in r['obls'] if o['r'] == 'proved']
        n = len(r['obls']) + r.get('inv_obls', 0)
        obls += n
        disch += len(ok) + r.get('inv_obls', 0)
        inv += r.get('inv_obls', 0)
        fns.append({'function': r['fn'], 'mode': r['mode'], 'obligations': n, 'discharged': len(ok) + r.get('inv_obls', 0), 'seconds': r['t']})
        models |= set(r['models'])
        inlined |= set(r['inlined'])
        for o in r['obls']:
            by[o['by']] = by.get(o['by'], 0) + 1
            tm[o['by']] = tm.get(o['by'], 0) + o['t']
            if o['r'] not in ('proved', 'skipped'):
                failed.append(dict(o, contract=r['name'], mode=r['mode']))
        if ok and len(samples) < 6:
            samples.append({'function': r['fn'], 'obligation': ok[-1]['name'], 'by': ok[-1]['by'], 'seconds': ok[-1]['t']})
    for o in lem:
        models |= set(o.get('models', []))
        inlined |= set(o.get('inlined', []))
        if o['r'] == 'unsupported':
            bounded.append({'function': o['name'], 'mode': '', 'why': o['by'][:600]})
            continue
        obls += 1
        by[o['by']] = by.get(o['by'], 0) + 1
        tm[o['by']] = tm.get(o['by'], 0) + o['t']
        if o['r'] == 'proved':
            disch += 1
        else:
            failed.append(dict(o, contract='lemma', mode=''))
    clean = not failed and not bounded
    secs = (4 if clean else 25) if tier == 'quick' else 120
    hs = H.search(seed, secs)
    kf = known(prop)
    new = []
    seen = set()
    for v in hs['violations']:
        if v['key'] in kf:
            seen.add(v['key'])
        else:
            new.append(v)
    for k in sorted(kf):
        print('KNOWN-FINDING: property=%s %s' % (prop, kf[k]))
    rep = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rep, exist_ok=True)
    path = os.path.join(rep, prop + '.json')
    viol = 0
    line = None
    if new or failed:
        viol = max(1, len(new))
        json.dump({'property': prop, 'failed_obligations': failed[:40], 'failing_inputs': new[:20],
                   'how_to_replay': 'cd /verif/harness && cargo run --release --offline --bin %s -- %d %d' % (prop.lower(), seed, secs) if new else
                   'python3-vt -m vf.run dev %s -v   (in /verif; re-runs the failed obligations)' % prop}, open(path, 'w'), indent=1)
        for o in failed[:10]:
            print('FAILED OBLIGATION %s %s line %s: %s [%s]' % (o['contract'], o['name'], o['line'], o['r'], o['by']))
        for v in new[:3]:
            print('FAILING INPUT %s: %s: %s' % (v['key'], v['what'], v['input'][:400]))
        line = 'VIOLATION property=%s replay=%s' % (prop, path) + ('' if new else ' no-failing-input-found')
    elif os.path.exists(path):
        os.remove(path)
    cov = {
        'obligations': obls, 'discharged': disch,
        'checker_cmd': 'python3-vt -m vf.run --property %s' % prop,
        'trusted_base': TRUSTED + ['std/float_cmp/nalgebra models: ' + ', '.join(sorted(models))] if models else TRUSTED,
        'functions_under_contract': fns, 'inlined_functions': sorted(inlined), 'loop_invariant_obligations': inv,
        'by_backend': by, 'solver_seconds_by_backend': {k: round(v, 2) for k, v in tm.items()}, 'proof_wall_s': round(tp, 1),
        'not_proved_bounded_only': bounded,
        'samples': samples + hs['samples'][:3],
        'bounded_search': {'label': 'bounded, not counted as proved', 'evaluations': hs['cases'], 'distinct_nontrivial': hs['distinct'], 'kinds': hs['kinds'],
                           'rule': rule_for(prop), 'seconds': secs, 'note': hs['note']},
        'known_findings': sorted(kf), 'known_findings_reproduced': sorted(seen),
    }
    ass = list(ASSUME)
    if any(f['mode'] == 'exact' for f in fns):
        ass.append(EXACT)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov, 'assumptions': ass,
          'wall_s': round(time.time() - t0, 2), 'violations': viol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d functions under contract, %d outside the prover, %d bounded cases, %.0fs'
          % (prop, obls, disch, len(fns), len(bounded), hs['cases'], time.time() - t0))
    for b in bounded:
        print('BOUNDED ONLY: %s (%s): %s' % (b['function'], b['mode'], b['why'][:200]))
    if hs['note']:
        print('NOTE: ' + hs['note'][:1500])
    if line:
        print(line)
        return 1
    return 0
