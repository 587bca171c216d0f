import argparse
import ast
import importlib
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

from vf import boot  # noqa
from vf import core  # noqa


def exec_lines(path):
    """Line numbers that carry code, by compiling the file."""
    try:
        code = compile(open(path, 'rb').read(), path, 'exec')
    except (OSError, SyntaxError):
        return set()
    res = set()
    todo = [code]
    while todo:
        c = todo.pop()
        if c.co_flags & 1:      # a function, not a module or class body
            res |= {ln for _, _, ln in c.co_lines() if ln}
        todo += [k for k in c.co_consts if hasattr(k, 'co_code')]
    return res


def sanitized(prop):
    """Compile the extension with sanitizers and run this check again in an
    interpreter that has their runtime loaded."""
    import glob
    import subprocess
    d = boot.scratch()
    try:
        so = boot.compile_okascore(d, prop.SANITIZE)
    except boot.BuildError as e:
        print('ERROR', e)
        return 2
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'],
                         capture_output=True, text=True).stdout.strip()
    opts = f'exitcode=77:halt_on_error=1:log_path={d}/san'
    env = dict(os.environ, VF_SO=so, LD_PRELOAD=lib, PYTHONMALLOC='malloc',
               ASAN_OPTIONS=opts + ':detect_leaks=0:handle_segv=1:'
               'allocator_may_return_null=1:'
               'max_free_fill_size=65536:free_fill_byte=221',
               UBSAN_OPTIONS=opts + ':print_stacktrace=1', VF_SAN_LOG=d)
    r = subprocess.run([sys.executable, '-B', '-W', 'ignore'] + sys.argv,
                       env=env)
    reports = ''
    for f in sorted(glob.glob(d + '/san*'))[:3]:
        reports += open(f, errors='replace').read()[:3000]
    if reports:
        print(reports)
    if r.returncode not in (0, 1, 2, 3) or (reports and r.returncode != 1):
        # a sanitizer stopped the main process itself
        path = core.save_replay(prop.ID, os.environ.get('VERIF_SEED'), '-', -1,
                                None, reports or f'exit {r.returncode}')
        print(f'VIOLATION property={prop.ID} replay={path}')
        return 1
    return r.returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--no-shrink', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    sys.setrecursionlimit(5000)
    prop = importlib.import_module('vf.props.' + a.id.lower()).PROP
    if prop.SANITIZE and not os.environ.get('VF_SO'):
        return sanitized(prop)
    try:
        boot.boot(prop.NATIVE)
    except boot.BuildError as e:
        print('ERROR', e)
        return 2
    pkg = boot.PKG

    if a.replay:
        case = core.load_replay(a.replay)
        mon = core.Monitor()
        r = core.judge_timed(prop, case, mon, pkg, 300)
        print(r, dict(mon.features), mon.observations, 'observations')
        if r and r[0] == 'violation':
            print(f'VIOLATION property={prop.ID} replay={a.replay}')
            return 1
        return 0 if r is None else 3

    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    n = a.cases or (prop.QUICK if tier == 'quick' else prop.THOROUGH)
    budget = a.budget or (prop.QUICK_S if tier == 'quick' else prop.THOROUGH_S)
    total = core.run_cases(prop, a.seed, tier, n, budget, boot.scratch(), pkg)
    extra = None
    violations = [p for p in total['problems'] if p[1][0] == 'violation']
    if not violations:
        extra = prop.extra(a.seed, tier, boot.scratch())
    extra_problems = list((extra or {}).get('problems', ()))

    hit = {}
    for fn, no in total['lines']:
        hit.setdefault(fn, set()).add(no)
    reached = {}
    for fn in prop.FILES:
        if fn.endswith('.py'):
            want = exec_lines(os.path.join(pkg, fn))
            reached[fn] = f'{len(want & hit.get(fn, set()))}/{len(want)}'
    cov = dict(
        evaluations=total['cases'],
        distinct_nontrivial=len(total['distinct']),
        rule=prop.RULE,
        samples=total['samples'][:3],
        observations_judged=total['observations'],
        features=dict(sorted(total['features'].items())),
        distinct_observed={k: len(v) for k, v in
                           sorted(total['states'].items())},
        function_lines_reached=reached,
        skipped=total['skipped'],
        stopped_by_time_budget=total['truncated'],
        known_findings_met=dict(total['known']),
    )
    if extra:
        cov.update(extra.get('coverage', {}))
    ev = dict(property=prop.ID, tier=tier, seed=a.seed, level=prop.LEVEL,
              coverage=cov, assumptions=list(prop.ASSUMPTIONS),
              wall_s=round(time.time() - t0, 2),
              violations=len(violations) + len(extra_problems))
    core.write_evidence(prop.ID, ev)

    for kind, p, key, text in core.findings():
        if p == prop.ID:
            if prop.probe_known(key):
                print(f'KNOWN-FINDING: property={p} {text}')
    print(f'{prop.ID} tier={tier} seed={a.seed} cases={total["cases"]} '
          f'nontrivial={len(total["distinct"])} '
          f'observations={total["observations"]} wall={time.time() - t0:.1f}s'
          + (' (time budget)' if total['truncated'] else ''))
    for k, v in sorted(total['features'].items()):
        print(f'  {k}: {v}')
    for k, v in sorted(total['states'].items()):
        print(f'  distinct {k}: {len(v)}')
    if reached:
        print('  lines reached:', ', '.join(f'{k} {v}' for k, v in reached.items()))

    if violations:
        i, (_, msg, key) = violations[0]
        case = core.generate(prop, a.seed, i, tier) if i is not None and i >= 0 else None
        if case is not None and key != 'crash' and not a.no_shrink:
            try:
                small, verdict = core.shrink(prop, case, pkg)
                if verdict:
                    case, msg = small, verdict[1]
            except Exception as e:  # the unshrunk case is still a witness
                print('  (shrinking failed:', repr(e), ')')
        path = core.save_replay(prop.ID, a.seed, tier, i, case, msg)
        print('\n'.join('  ' + x for x in msg.splitlines()[:30]))
        print(f'VIOLATION property={prop.ID} replay={path}')
        return 1
    if extra_problems:
        msg = '\n'.join(extra_problems)
        path = core.save_replay(prop.ID, a.seed, tier, -1,
                                (extra or {}).get('replay'), msg)
        print('\n'.join('  ' + x for x in msg.splitlines()[:40]))
        print(f'VIOLATION property={prop.ID} replay={path}')
        return 1
    if total['problems']:
        for i, r in total['problems'][:3]:
            print(f'INCONCLUSIVE case {i}: {r[0]}: {r[1]}')
        return 3
    req = dict(prop.REQUIRE)
    if total['truncated']:
        # a slow machine: expect as much of what was run
        req = {k: max(1, int(v * total['cases'] / n / 2))
               for k, v in req.items()}
    missing = {k: v for k, v in req.items() if total['features'].get(k, 0) < v}
    if missing or not total['observations']:
        print(f'INCONCLUSIVE: the workload did not reach {missing}')
        return 3
    if (extra or {}).get('inconclusive'):
        print('INCONCLUSIVE:', extra['inconclusive'])
        return 3
    return 0


if __name__ == '__main__':
    rc = main()
    boot.cleanup()
    sys.stdout.flush()
    os._exit(rc)
