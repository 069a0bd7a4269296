"""One property: discharge its obligations from /repo's current source, write the evidence.

usage: python3-vt -m cppv.check PROPERTY quick|thorough"""
import importlib, json, os, re, subprocess, sys, time, hashlib
from . import program, task
from .props import PROPS

VERIF = program.VERIF
ENGINE_TRUST = [
    'clang 18 front end (the AST the verifier reads is the AST clang builds for /repo/src with g++-compatible flags)',
    'cppv, the symbolic executor and its C++ semantics (x86-64 LP64 little-endian, two\'s complement, wrapping unsigned arithmetic exact)',
    'z3 5.3.2 and cvc5 1.1.2 (sequence theory, linear integer arithmetic, datatypes)',
    'allocation never fails; no string or container exceeds 2^58 bytes',
]


def log(*a):
    print(*a, flush=True)


def evidence(prop, tier, seed, coverage, assumptions, wall, violations, level='proof'):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    d = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': coverage,
         'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': violations}
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(d, f, indent=1)
    os.rename(path + '.tmp', path)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                out.append(line.split(' ', 2)[2])
    return out


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = PROPS[prop]
    t0 = time.time()
    world = None
    extraction = ''
    results = []
    try:
        prog = program.load()
        from .interp import World
        world = World(prog)
        tasks = []
        for modname, args in spec['tasks']:
            mod = importlib.import_module('cppv.' + modname)
            try:
                tasks.extend(mod.tasks(world, *args))
            except program.ExtractionError as x:
                extraction += '%s; ' % x
        only = os.environ.get('CPPV_ONLY')
        if only:
            tasks = [t for t in tasks if only in t.name]
        if tier == 'thorough':
            for t in tasks:
                t.budget *= 2
        results = task.run_all(world, tasks, jobs=8, overall=420 if tier == 'quick' else 600, verbose=True)
    except program.ExtractionError as x:
        extraction += str(x)
    except Exception as x:
        import traceback
        extraction += 'the program could not be loaded into the verifier: %s' % traceback.format_exc()[-800:]
    obls = [(r.name,) + tuple(o) for r in results for o in r.obls]
    # obligations of the same functions that another property is about: if one of
    # those fails, this property is left undecided by the proof
    focus = re.compile(spec.get('focus', ''))
    failed = [o for o in obls if o[3] == 'failed' and focus.search(o[1])]
    unknown = [o for o in obls if o[3] == 'unknown' or o[3] == 'failed' and not focus.search(o[1])]
    unsupported = [(r.name, r.unsupported) for r in results if r.unsupported]
    vacuous = [r.name for r in results if not r.unsupported and not r.obls]
    if extraction:
        unsupported.append(('extraction', extraction))
    for o in (failed + unknown)[:12]:
        log('  %s: [%s] %s (%s) %s' % (o[3].upper(), o[0], o[1], o[2], o[6][:300]))
    for n, u in unsupported:
        log('  OUTSIDE THE VERIFIER: [%s] %s' % (n, u[:300]))
    for n in vacuous:
        log('  VACUOUS: [%s] no obligation reached' % n)
    for r in results:
        if r.error:
            log(r.error[-600:])
    functions, contracts, models = {}, {}, {}
    for r in results:
        functions.update(r.functions)
        for k, v in r.contracts.items():
            contracts[k] = contracts.get(k, 0) + v
        for k, v in r.models.items():
            models[k] = models.get(k, 0) + v
    complete = not failed and not unknown and not unsupported and not vacuous and results
    bounded = None
    violation = None
    if not complete or tier == 'thorough':
        from . import driver
        bounded = driver.run(spec.get('driver'), prop, seed, tier, log)
    replay = os.path.join(VERIF, 'evidence', 'replay-%s.txt' % prop)
    if os.path.exists(replay):
        os.unlink(replay)
    if bounded and bounded.get('failed'):
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        with open(replay, 'w') as f:
            f.write('property %s: failing input on the real code (%s)\n\n' % (prop, bounded['cmd']))
            f.write(bounded['failed'] + '\n\n')
            for o in failed[:20]:
                f.write('failed obligation: [%s] %s (%s)\n%s\n\n' % (o[0], o[1], o[2], o[6]))
        violation = 'VIOLATION property=%s replay=%s' % (prop, replay)
    elif failed:
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        with open(replay, 'w') as f:
            f.write('property %s: obligations that the verifier refutes\n\n' % prop)
            for o in failed[:40]:
                f.write('obligation: [%s] %s\n at %s\n%s\n\n' % (o[0], o[1], o[2], o[6]))
            f.write('bounded search for a failing input: %s\n' % json.dumps(bounded))
        violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay)
    # evidence
    backends = {}
    for o in obls:
        if o[3] == 'proved':
            backends[o[4]] = backends.get(o[4], 0) + 1
    labels = {}
    for o in obls:
        k = (o[0].split('(')[0], o[1], o[2])
        labels[k] = labels.get(k, 0) + 1
    coverage = {
        'obligations': len(obls), 'discharged': sum(o[3] == 'proved' for o in obls),
        'checker_cmd': 'cd /verif && python3-vt -m cppv.check %s %s' % (prop, tier),
        'trusted_base': ENGINE_TRUST + ['assumed contract: ' + k for k in sorted(models)],
        'distinct_obligations': len(labels),
        'discharged_by': backends,
        'focus': 'obligations whose label matches: ' + (spec.get('focus') or '(all)'),
        'refuted': len(failed), 'undecided': len(unknown),
        'outside_the_verifier': ['%s: %s' % u for u in unsupported] + ['%s: vacuous' % v for v in vacuous],
        'functions_verified': sorted(set(functions.values())),
        'function_count': len(functions),
        'contracts_used_at_calls': contracts,
        'tasks': [{'task': r.name, 'obligations': len(r.obls), 'proved': sum(o[2] == 'proved' for o in r.obls), 'paths': r.paths,
                   'queries': r.queries, 'solver_s': round(r.solver_time, 2), 'wall_s': round(r.time, 2)} for r in results],
        'solver_s': round(sum(r.solver_time for r in results), 2),
        'samples': ['[%s] %s (%s)' % k for k in sorted(labels)][:40],
    }
    if bounded is not None:
        coverage['bounded_stand_in'] = {k: v for k, v in bounded.items() if k != 'failed'}
    evidence(prop, tier, seed, coverage, spec.get('assumptions', []), time.time() - t0, 1 if violation else 0)
    for k in known_findings(prop):
        log('KNOWN-FINDING: property=%s %s' % (prop, k))
    log('%s %s: %d obligations, %d discharged, %d refuted, %d undecided, %d functions, %.1fs%s' % (
        prop, tier, len(obls), coverage['discharged'], len(failed), len(unknown), len(functions), time.time() - t0,
        '' if complete else ' (NOT a complete proof%s)' % (
            ': bounded stand-in over %s cases passed' % bounded.get('cases') if bounded and not bounded.get('failed') else '')))
    if violation:
        log(violation)
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
