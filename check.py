#!/usr/bin/env python3-vt
"""check.py <property id>: decides one property against /repo's current tree."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.abspath(__file__))
T0 = time.time()

from svc import build, native, props, solve  # noqa: E402

LIMIT = float(os.environ.get('SVC_LIMIT', '780'))
_G = {}


def work(i):
    case = _G['cases'][i]
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    left = LIMIT - (time.time() - T0)
    dead = time.time() + min(left, case.cap or _G['cap'])
    def alarm(*a):
        raise TimeoutError('time limit of the case')
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, max(dead - time.time() + 5, 1), 3)
    try:
        if isinstance(case, solve.Case):
            r = solve.run_case(case, _G['module'], _G['native'], _G['seed'], dead, _G['budget'], validate=_G['validate'],
                               bindings=_G['bindings'])
        else:
            r = case.run(_G, dead)
    except Exception as x:      # an internal limit of the tool, not a statement about the code
        r = solve.Result(case)
        r.undischarged.append('%s: %s' % (type(x).__name__, str(x)[:300]))
        if os.environ.get('SVC_DEBUG'):
            traceback.print_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return i, r


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    P = props.PROPS[pid]
    h = build.start_native()
    module, builderr = None, None
    try:
        module = build.ir_module()
    except Exception as x:
        builderr = 'IR: %s' % x
    try:
        nat = native.Native(build.finish_native(h))
    except build.BuildError as x:
        builderr = 'native: %s' % x
    bindings = {}
    try:
        if not builderr:
            bindings = build.bindings(P.bindings)
    except Exception as x:
        builderr = 'binding: %s' % x
    if builderr:
        print('cannot build /repo: ' + builderr[-2000:])
        return 2
    tb = time.time() - T0
    cases = P.cases(tier) + [solve.Fault(k, f) for k, b in bindings.items() for f in b.faults]
    only = os.environ.get('SVC_ONLY')
    if only:
        cases = [c for c in cases if only in c.id]
    _G.update(cases=cases, module=module, native=nat, seed=seed, cap=200 if tier == 'quick' else 600,
              budget=4.0 if tier == 'quick' else 12.0, validate=2 if tier == 'quick' else 8, tier=tier, bindings=bindings)
    order = sorted(range(len(cases)), key=lambda i: -cases[i].weight)
    results = {}
    known = load_known(pid)
    ctx = mp.get_context('fork')
    pool = ctx.Pool(min(8, os.cpu_count() or 1), maxtasksperchild=40)
    try:
        it = pool.imap_unordered(work, order)
        for _ in order:
            left = LIMIT + 60 - (time.time() - T0)
            try:
                i, r = it.next(timeout=max(left, 1))
            except mp.TimeoutError:
                break
            results[i] = r
            if os.environ.get('SVC_VERBOSE'):
                print('%-28s paths %d equal %d refuted %d und %d q %d %.2fs %s' % (
                    r.id, r.paths, r.equal, r.refuted, len(r.undischarged), r.stats.queries, r.wall,
                    'VIOLATION' if r.violation else ''), flush=True)
                for u in r.undischarged[:6]:
                    print('     und:', u[:300])
                if r.violation:
                    print('     ', json.dumps(r.violation)[:1500])
            if r.violation and not any(k['case'] == r.id for k in known) and not os.environ.get('SVC_ALL'):
                break
    finally:
        pool.terminate()
    return report(pid, P, tier, seed, cases, results, tb)


def report(pid, P, tier, seed, cases, results, tb):
    known = load_known(pid)
    viol, knownhits = [], []
    for i, r in sorted(results.items()):
        if r.violation:
            k = [x for x in known if x['case'] == r.id]
            (knownhits if k else viol).append(r)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    st = solve.E.Stats()
    fns, dec, paths, eq, ref, und, boxes, val, vbad, cand, pruned, ops = set(), 0, 0, 0, 0, [], 0, 0, [], 0, 0, set()
    steps = 0
    maxdev = 0.0
    assumed = set()
    samples = []
    vac = []
    for i, r in sorted(results.items()):
        for a in ('queries', 'sat', 'unsat', 'unknown', 'time'):
            setattr(st, a, getattr(st, a) + getattr(r.stats, a))
        fns |= r.called
        dec += r.decisions
        steps += r.steps
        paths += r.paths
        eq += r.equal
        ref += r.refuted
        boxes += r.boxes
        val += r.validated
        vbad += r.encoding_mismatch
        cand += r.candidates
        pruned += r.pruned
        ops |= set(r.opaque)
        maxdev = max(maxdev, r.maxdev)
        assumed |= r.assumed
        und += ['%s: %s' % (r.id, u) for u in r.undischarged]
        if r.paths == 0 and not r.undischarged:
            vac.append(r.id)
        if len(samples) < 6 and r.witness:
            samples.append(r.witness)
    missing = [cases[i].id for i in range(len(cases)) if i not in results]
    if not viol:
        und += ['%s: not reached within the time limit' % m for m in missing]
        und += ['%s: vacuous (no feasible path)' % v for v in vac]
    demangle = sorted({f.strip('@"') for f in fns})
    cov = dict(
        states=paths, transitions=dec + steps, traces_validated_against_impl=val,
        samples=samples or [dict(note='no concrete witness drawn on this run')],
        obligations=len(cases), obligations_discharged=sum(1 for r in results.values() if not r.undischarged and not
                                                           r.violation and r.paths),
        symbolic_paths=paths, paths_equal=eq, paths_refuted_by_interval_pruning=ref, interval_boxes=boxes,
        paths_pruned_by_bound=pruned, ir_instructions_executed=steps, symbolic_decisions=dec, solver_queries=st.queries,
        solver_sat=st.sat, solver_unsat=st.unsat, solver_unknown=st.unknown, solver_seconds=round(st.time, 3),
        undischarged=len(und), undischarged_list=und[:40], functions_encoded=len(demangle),
        functions=[short(f) for f in demangle][:400], opaque_functions=sorted(short(f) for f in ops),
        bounds=P.bounds, counterexample_candidates=cand, encoding_mismatches=vbad[:10],
        largest_constant_deviation_identified=maxdev, source_digest=build.source_digest(), build_seconds=round(tb, 2))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=props.ASSUMPTIONS + P.assumptions + sorted(assumed)[:20], wall_s=round(time.time() - T0, 2),
              violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if viol:
        path = os.path.join(HERE, 'evidence', 'replay-%s.json' % pid)
        with open(path, 'w') as f:
            json.dump([r.violation for r in viol], f, indent=1)
        v = viol[0].violation
        print('%s: %s returns %s, expected %s (%s)' % (viol[0].id, v.get('call'), v.get('got'), v.get('expected'),
                                                      v.get('difference', '')))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d cases, %d paths (%d equal, %d refuted), %d queries in %.1f s, %d undischarged, %d validated, %.1f s'
          % (pid, tier, len(cases), paths, eq, ref, st.queries, st.time, len(und), val, time.time() - T0))
    for u in und[:5]:
        print('  undischarged: ' + u[:200])
    for m in vbad[:3]:
        print('  encoding mismatch: %s' % m)
    if not viol and not paths:
        print('nothing could be encoded')
        return 2
    return 1 if viol else 0


def short(f):
    """Readable part of a mangled symbol."""
    import re
    parts = re.findall(r'(\d+)([A-Za-z_][A-Za-z0-9_]*)', f)
    out = []
    if f.startswith('_ZN'):
        s = f[3:]
        while s and s[0].isdigit():
            n = re.match(r'\d+', s).group(0)
            s = s[len(n):]
            out.append(s[:int(n)])
            s = s[int(n):]
        out = [x for x in out if not re.fullmatch(r'h[0-9a-f]{16}', x)]
        return '::'.join(out)
    return f


def load_known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid]


if __name__ == '__main__':
    sys.exit(main())
