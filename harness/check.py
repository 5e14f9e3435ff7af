"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import argparse
import concurrent.futures
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core   # noqa: E402
import mcnet   # noqa: E402
import plan   # noqa: E402


def trace_parts(run, parts):
    jobs, rels = [], {}
    for i, (kind, profile, nq, nt, rel) in enumerate(parts):
        n = nt if run.thorough() else nq
        for j in range(n):
            tid = '%s-%s-%d' % (kind[0], profile, j)
            seed = (run.seed * 1000003 + i * 100003 + j) % (2 ** 31)
            jobs.append({'fn': 'jobs:' + kind, 'id': tid, 'args': {'seed': seed, 'profile': profile}})
            rels[tid] = rel
    step = 1500
    for a in range(0, len(jobs), step):
        batch = jobs[a:a + step]
        res = run.drive(batch)
        run.validate(res, lambda tid, *x: rels[tid](*x), part='traces', timeout=3000)


def model_parts(run, ex):
    fs = []
    for item in plan.MC.get(run.prop, ()):
        module, cfg, tier = item[:3]
        env = item[3] if len(item) > 3 else None
        if tier == 'thorough' and not run.thorough():
            continue
        fs.append(ex.submit(run.model_check, module, cfg, None, env,
                            5000 if run.thorough() else 500, core.NCPU if run.thorough() else 3))
    if run.prop in mcnet.SCENARIOS:
        fs.append(ex.submit(mcnet.model, run))
    return fs


def check(prop, tier, seed):
    run = core.Run(prop, tier, seed)
    try:
        run.build()
        with concurrent.futures.ThreadPoolExecutor(1 if run.thorough() else 2) as ex:
            fs = model_parts(run, ex)
            if run.prop in plan.TRACES:
                trace_parts(run, plan.TRACES[prop])
            for f in plan.EXTRA.get(prop, ()):
                f(run)
            for f in fs:
                f.result()
        return run.finish(plan.ASSUMPTIONS.get(prop, ()))
    finally:
        run.close()


def replay(prop, path):
    """Re-executes the recorded job on the current tree and judges it again."""
    with open(path) as f:
        d = json.load(f)
    run = core.Run(d['property'], d['tier'], d['seed'])
    try:
        print(d['signature'], '--', d['what'])
        job = d['payload'].get('job')
        if job is None:
            print(json.dumps(d['payload'], indent=1))
            return 1
        run.build()
        res = run.drive([job])
        if job['fn'] in ('jobs:queue', 'jobs:net'):
            run.validate(res, lambda *a: True)
        else:
            plan.replayer(job)(run, res)
        for sig, what, payload in run.violations:
            print('REPRODUCED', sig, what)
            print(json.dumps(payload, indent=1, default=str)[:6000])
        if not run.violations:
            print('not reproduced on the current tree')
        return 1 if run.violations else 0
    finally:
        run.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    try:
        if a.replay:
            return replay(a.prop, a.replay)
        return check(a.prop, a.tier, a.seed)
    except core.CheckError as ex:
        print('CHECK ERROR: %s' % ex, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
