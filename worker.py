"""Symbolic worker: reads one JSON task per line on stdin, answers with one JSON line."""
import glob
import json
import os
import resource
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(1000000)
threading.stack_size(1 << 29)


def run(mod, t):
    import symex
    t0 = time.time()
    e = symex.Engine(mod, t['mode'], {'witness': t.get('witness', 2), 'seed': t.get('seed', 1),
                                      'stop_on_violation': not t.get('all', False), 'max_paths': t.get('max_paths', 400000)})
    e.deadline = e.sol.deadline = t0 + t['limit']
    out = {'status': 'ok', 'why': ''}
    try:
        e.explore_all('@' + t['harness'], [t['case']])
    except symex.Escalate as x:
        out.update(status='escalate', why=str(x)[:300])
    except symex.Inconclusive as x:
        out.update(status='inconclusive', why=str(x)[:300])
    except RecursionError as x:
        out.update(status='inconclusive', why='recursion')
    s = e.sol.stats
    out.update(paths=e.paths_done, infeasible=e.paths_infeasible, assumed=e.paths_assumed, instrs=e.instrs, blocks=e.blocks,
               forks=e.forks, merges=e.merges, queries=s.queries, cached=s.cached, solver_s=round(s.solver_s, 3), max_query_s=round(s.max_query_s, 3),
               by_solver={k: [v[0], round(v[1], 3)] for k, v in s.by_solver.items()},
               asserts={str(k): v for k, v in e.asserts.items()}, reached={str(k): v for k, v in e.reached.items()},
               executed=sorted(symex.demangle(x) for x in e.executed), violations=e.violations, witnesses=e.witnesses,
               witness_skipped=e.witness_skipped, wall=round(time.time() - t0, 3))
    return out


def main():
    import llparse
    mod = llparse.Module(sys.argv[1])
    for line in sys.stdin:
        t = json.loads(line)
        try:
            out = run(mod, t)
        except Exception as x:  # noqa: an engine bug is reported, never hidden
            import traceback
            out = {'status': 'error', 'why': traceback.format_exc()[-1500:]}
        sys.stdout.write(json.dumps(out) + '\n')
        sys.stdout.flush()


resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
th = threading.Thread(target=main)
th.start()
th.join()
