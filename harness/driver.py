"""Runs jobs on the real code (in the library's interpreter) and writes what
was recorded.   usage: driver.py JOBS.json OUT.json

JOBS: list of {"fn": "module:function", "args": {...}, "id": str}
OUT:  list of {"id", "out": ..., "fail": null | [kind, text], "secs"}

An exception that comes out of the library is part of the result ("library");
one raised while recording what the library returned, because it is not of the
documented kind, too ("observation"); any other is an error of the harness
("harness").
"""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import qtload  # noqa: E402


def in_library(tb):
    root = os.path.realpath(qtload.REPO) + os.sep
    hit = False
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            hit = True
        tb = tb.tb_next
    return hit


def main(jobs_file, out_file):
    with open(jobs_file) as f:
        jobs = json.load(f)
    try:
        qt = qtload.load()
    except qtload.BuildError as ex:
        print(ex, file=sys.stderr)
        return 3
    if jobs_file.endswith('build.json'):
        import queueing_tool.network.priority_queue  # noqa: F401
    res = []
    for job in jobs:
        mod, fn = job['fn'].split(':')
        t = time.time()
        r = {'id': job['id'], 'out': None, 'fail': None}
        try:
            r['out'] = getattr(importlib.import_module(mod), fn)(qt, job['id'], **job['args'])
        except Exception as ex:
            if in_library(ex.__traceback__) or getattr(ex, 'library', False):
                kind = 'library'
            elif isinstance(ex, (ArithmeticError, LookupError, TypeError, ValueError, AssertionError)) \
                    or (isinstance(ex, AttributeError) and 'NoneType' in str(ex)):
                kind = 'observation'        # what the library returned cannot be recorded
            else:
                kind = 'harness'
            r['fail'] = [kind, '%s: %s' % (type(ex).__name__, ex),
                         traceback.format_exc()[-1500:]]
        r['secs'] = round(time.time() - t, 3)
        res.append(r)
    with open(out_file, 'w') as f:
        json.dump(res, f)
    return 0


if __name__ == '__main__':
    sys.exit(main(*sys.argv[1:3]))
