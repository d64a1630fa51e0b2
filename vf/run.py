"""Decides one property: dumps the MIR of /repo, generates and discharges the obligations of its contracts."""
import sys, os, json, time, argparse, traceback, multiprocessing as mp, multiprocessing.connection
import z3
from . import build
from .exec import *
from .prove import Prover
from .contracts import REG, LEMMAS

sys.setrecursionlimit(20000)
PROG = None
VERBOSE = False


def contract_index(mode):
    return [c for c in REG if c.mode in (mode, 'both')]


def task(arg):
    """verify one contract -> dict"""
    name, mode, scale, deadline, end = arg
    t0 = time.time()
    out = {'name': name, 'mode': mode, 'obls': [], 'status': 'ok', 'used': [], 'inlined': [], 'models': [], 'stats': {}}
    try:
        E = Engine(PROG, mode, REG)
        E.deadline = min(t0 + deadline, end)
        base, _, part = name.partition('#')
        c = [x for x in REG if x.name == base and x.mode in (mode, 'both')][0]
        if part:
            c = c.part(int(part))
        f = PROG.find(base)
        if f is None:
            out['status'] = 'lost'
            out['why'], out['t'] = 'no function ' + name, 0
            return out
        out['fn'] = f['name']
        out['file'] = f.get('file')
        P = Prover(E, scale)
        obls = [] if c.det else E.verify(f, c)
        if c.fun and c.fun != 'post':
            why = PROG.nondet(f)
            out['obls'].append({'name': 'deterministic: the result depends on the arguments only', 'fn': f['name'], 'line': f['line'], 'kind': 'det',
                                'r': 'unknown' if why else 'proved', 'by': 'call graph', 't': 0, 'goal': '; '.join(why)[:1500]})
        if c.det:
            E.npaths, E.inv_kept, E.inv_dropped = 0, [], []
        rets = 0
        alive = 0
        nfail = 0
        for o in obls:
            t1 = time.time()
            late = time.time() > end
            if late and not nfail:
                raise TooBig('out of time while proving')
            if late or nfail >= 3:
                # enough failed already: the rest is not attempted
                r, how = ('proved', 'z3-fast') if not late and P.fast(o.pc, o.goal) == 'proved' else ('skipped', 'not attempted after failures')
            else:
                r, how = P.prove(o.pc, o.goal)
                nfail += r != 'proved'
            d = {'name': o.name, 'fn': o.fn, 'line': o.line, 'kind': o.kind, 'r': r, 'by': how, 't': round(time.time() - t1, 3)}
            if r != 'proved':
                d['goal'] = str(o.goal)[:1500]
                if r == 'refuted':
                    d['model'] = str(P.model)[:3000]
            out['obls'].append(d)
        # vacuity: some normal return must be reachable
        seen = set()
        for o in obls:
            if o.kind == 'post':
                rets += 1
                k = tuple(x.get_id() for x in o.pc)
                if k in seen or alive:
                    continue
                seen.add(k)
                s = z3.Solver()
                s.set('rlimit', 2000000)
                s.add(*o.pc)
                s.add(*[a for _, a in E.W.axioms])
                if s.check() != z3.unsat:
                    alive += 1
        if rets and not alive:
            out['obls'].append({'name': 'vacuity: no return is reachable under the precondition', 'fn': f['name'], 'line': f['line'],
                                'kind': 'vacuity', 'r': 'unknown', 'by': 'z3', 't': 0, 'goal': 'a normal return exists'})
        out['npaths'] = E.npaths
        out['used'] = sorted(E.used)
        out['inlined'] = sorted(E.inlined)
        out['models'] = sorted(E.models)
        out['stats'] = P.stats
        out['inv'] = E.inv_kept
        out['inv_dropped'] = E.inv_dropped
        out['inv_obls'] = getattr(E, 'inv_obls', 0)
        out['feas_t'] = E.S.time
    except (Unsupported, TooBig) as e:
        out['status'] = 'unsupported'
        out['why'] = type(e).__name__ + ': ' + str(e)
    except z3.Z3Exception as e:
        out['status'] = 'unsupported'
        out['why'] = 'solver: ' + str(e)[:300]
    except Exception as e:
        out['status'] = 'unsupported'
        out['why'] = 'internal: ' + ''.join(traceback.format_exception(e))[-1500:]
    out['t'] = round(time.time() - t0, 2)
    return out


def lemma_task(arg):
    prop, name, mode, scale = arg
    t0 = time.time()
    f = [x for x in LEMMAS if x[0] == prop and x[1] == name][0][3]
    E = Engine(PROG, mode, REG)
    out = {'name': 'lemma: ' + name, 'fn': 'lemma', 'line': 0, 'kind': 'lemma'}
    P = Prover(E, scale)
    r, how, goal = 'proved', 'syntactic', ''
    try:
        gs = f(E)
        if not isinstance(gs, list):
            gs = [gs]
        if not gs:
            r, how = 'unknown', 'no case left'
        for hyps, goal in gs:
            r, how = P.fast(hyps, goal), 'z3-fast'
            if r != 'proved':
                r, how = P.prove(hyps, goal)
            if r != 'proved':
                break
    except (Unsupported, TooBig) as e:
        r, how = 'unsupported', str(e)[:200]
    except Exception as e:
        r, how = 'unsupported', 'internal: ' + ''.join(traceback.format_exception(e))[-1500:]
    out.update(r=r, by=how, t=round(time.time() - t0, 3), goal=str(goal)[:500], stats=P.stats, models=sorted(E.models), inlined=sorted(E.inlined))
    return out


def _child(conn, kind, arg, attempt):
    if attempt:
        z3.set_param('smt.random_seed', 17 * attempt)
    conn.send((task if kind == 'c' else lemma_task)(arg))
    conn.close()


def pool(pend, procs, limit):
    """runs the tasks in processes of their own (pend may grow meanwhile); a solver crash is retried with another seed"""
    ctx = mp.get_context('fork')
    live = []
    while pend or live:
        while pend and len(live) < procs:
            item = pend.pop(0)
            kind, arg = item[:2]
            attempt = item[2] if len(item) > 2 else 0
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, kind, arg, attempt))
            p.start()
            b.close()
            live.append((p, a, kind, arg, attempt, time.time()))
        mp.connection.wait([x[1] for x in live], 1)
        for x in list(live):
            p, a, kind, arg, attempt, t0 = x
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    p.join()
                    if attempt < 2:
                        pend.insert(0, (kind, arg, attempt + 1))
                        live.remove(x)
                        continue
                    r = lost(kind, arg, 'the solver crashed (status %s)' % p.exitcode, t0)
            elif time.time() > limit:
                p.kill()
                r = lost(kind, arg, 'out of time', t0)
            if r is None:
                continue
            p.join()
            live.remove(x)
            if VERBOSE:
                print('   done', arg, r.get('t'), flush=True)
            yield kind, arg, r


def lost(kind, arg, why, t0):
    t = round(time.time() - t0, 2)
    if kind == 'l':
        return {'name': 'lemma: ' + arg[1], 'fn': 'lemma', 'line': 0, 'kind': 'lemma', 'r': 'unsupported', 'by': why, 't': t, 'goal': ''}
    return {'name': arg[0], 'mode': arg[1], 'obls': [], 'status': 'unsupported', 'why': why, 'used': [], 'inlined': [], 'models': [], 'stats': {}, 't': t}


def verify_property(prog, prop, scale=1, deadline=300, procs=8, only=None, total=3000):
    """all contracts of the property and, transitively, the contracts they rely on"""
    global PROG
    PROG = prog
    end = time.time() + total
    byfn = {}
    for c in REG:
        f = prog.find(c.name)
        if f is not None:
            for m in (['eps', 'exact'] if c.mode == 'both' else [c.mode]):
                byfn[(f['name'], m)] = c
    todo, seen = [], set()
    for c in REG:
        if (prop in c.props) and (only is None or only in c.name):
            for m in (['eps', 'exact'] if c.mode == 'both' else [c.mode]):
                todo += [(n, m) for n in c.tasks()]
                seen.add((c.name, m))
    res, lem = [], []
    pend = [('l', (p, n, m, scale)) for p, n, m, f in LEMMAS if p == prop and only is None]
    pend += [('c', (n, m, scale, deadline, end)) for n, m in todo]
    for kind, arg, r in pool(pend, procs, end + 30):
        if kind == 'l':
            lem.append(r)
            continue
        res.append(r)
        for u in r['used']:
            c = byfn.get((u, r['mode']))
            if c is not None and (c.name, r['mode']) not in seen:
                seen.add((c.name, r['mode']))
                pend += [('c', (n, r['mode'], scale, deadline, end)) for n in c.tasks()]
    res.sort(key=lambda r: r['name'])
    lem.sort(key=lambda r: r['name'])
    return res, lem


def main_dev():
    """development: python3-vt -m vf.run dev PROP [only]"""
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('only', nargs='?')
    ap.add_argument('--nodump', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_intermixed_args(sys.argv[2:])
    global VERBOSE
    VERBOSE = True
    t = time.time()
    if a.nodump:
        d = [json.load(open(os.path.join(build.BUILD, 'md', 'nlsn_delaunay-%s.json' % k))) for k in ('lib', 'bin')]
    else:
        d = build.dump()
    prog = Prog(d)
    print('dump %.1fs' % (time.time() - t))
    res, lem = verify_property(prog, a.prop, only=a.only)
    for r in res:
        n = len(r['obls'])
        ok = sum(o['r'] == 'proved' for o in r['obls'])
        print('%-11s %-45s %-6s %d/%d  inv %d  %.1fs %s' % (r['status'], r['name'], r['mode'], ok, n, r.get('inv_obls', 0), r['t'], r.get('why', '')))
        for x in r.get('inv_dropped', [])[:8] if ok < n else []:
            print('     dropped', x)
        for o in r['obls']:
            if o['r'] != 'proved':
                print('   FAIL %s l.%s %s [%s] %.1fs' % (o['name'], o['line'], o['r'], o['by'], o['t']))
                if a.v:
                    print('        ', o.get('goal'))
                    print('        ', o.get('model'))
    for o in lem:
        print('%-8s %s [%s] %.1fs' % (o['r'], o['name'], o['by'], o['t']))


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'vf.run'] + sys.argv[1:])
    if sys.argv[1:2] == ['dev']:
        main_dev()
    else:
        from . import check
        sys.exit(check.main())
