#!/usr/bin/env python3
"""Decide one property by symbolic execution of the current /repo.

usage: check.py --property C02 [--tier quick|thorough] [--seed N] [--only harness[:case]] [--setup]

exit 0: the property holds within the bounds; 1: VIOLATION line printed; 2: no verdict.
"""
import argparse
import fcntl
import glob
import hashlib
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import registry  # noqa: E402

REPO = os.environ.get('UR20_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
PY = '/opt/veriftools/pyvenv/bin/python3'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0')
ENV.pop('RUSTFLAGS', None)


class NoVerdict(Exception):
    pass


# ------------------------------------------------------------------ build
def digest():
    h = hashlib.sha256()
    fs = [os.path.join(REPO, 'Cargo.toml')]
    for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
        fs += [os.path.join(root, f) for f in files]
    for root, dirs, files in os.walk(os.path.join(HERE, 'harness')):
        dirs[:] = [d for d in dirs if d != 'target']
        fs += [os.path.join(root, f) for f in files]
    for f in sorted(fs):
        h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    h.update(subprocess.run(['rustc', '-V'], env=ENV, stdout=subprocess.PIPE).stdout)
    return h.hexdigest()


def cargo(target, args, log):
    d = os.path.join(BUILD, target)
    # cargo compares time stamps; the tree is rebuilt by content
    for pat in ('*/.fingerprint/ur20-*', '*/.fingerprint/h-*', '*/deps/h-*', '*/deps/*ur20-*'):
        for f in glob.glob(os.path.join(d, pat)):
            shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)
    os.makedirs(d, exist_ok=True)
    p = subprocess.run(['cargo'] + args, cwd=os.path.join(HERE, 'harness'), env=dict(ENV, CARGO_TARGET_DIR=d),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log[target] = (p.returncode, p.stdout)


def build():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    stamp = os.path.join(BUILD, 'stamp')
    dg = digest()
    t0 = time.time()
    paths = {'dev': os.path.join(BUILD, 'dev/debug/h'), 'release': os.path.join(BUILD, 'release/release/h')}
    if not (os.path.exists(stamp) and open(stamp).read() == dg):
        if os.path.exists(stamp):
            os.unlink(stamp)
        log = {}
        jobs = [('ir', ['rustc', '--profile', 'ir', '--', '--emit=llvm-ir', '-C', 'link-arg=-Wl,--unresolved-symbols=ignore-all']),
                ('dev', ['build', '--features', 'native']),
                ('release', ['build', '--features', 'native', '--release'])]
        ts = [threading.Thread(target=cargo, args=(t, a, log)) for t, a in jobs]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for t, (rc, out) in log.items():
            if rc:
                raise NoVerdict('build of %s failed:\n%s' % (t, out[-3000:]))
        open(stamp, 'w').write(dg)
    ll = glob.glob(os.path.join(BUILD, 'ir/ir/deps/h-*.ll'))
    if len(ll) != 1:
        raise NoVerdict('expected one IR file, found %r' % ll)
    return ll[0], paths, round(time.time() - t0, 2)


# ------------------------------------------------------------------ native replay
def replay(binary, harness, case, inputs, path=None):
    """-> (exit code, dict of lists by tag)"""
    own = path is None
    if own:
        path = os.path.join(BUILD, 'tmp-%d-%d.in' % (os.getpid(), threading.get_ident()))
        write_inputs(path, harness, case, inputs)
    try:
        p = subprocess.run([binary, harness, str(case), path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           text=True, timeout=60, errors='replace')
        rc, txt = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        rc, txt = 99, ''
    finally:
        if own:
            os.unlink(path)
    tags = {}
    for ln in txt.split('\n'):
        a, _, b = ln.partition(' ')
        tags.setdefault(a, []).append(b)
    return rc, tags


def write_inputs(path, harness, case, inputs, head=''):
    with open(path, 'w') as f:
        f.write('# %s %d\n%s' % (harness, case, head))
        for k, v in inputs:
            f.write('%s %d\n' % (k, v))


# ------------------------------------------------------------------ workers
# seconds for the cases that are still running when a violation was found
GRACE = 15


class Pool:
    def __init__(self, ll, n):
        self.ll = ll
        self.n = n
        self.res = []
        self.procs = set()

    def work(self):
        p = None
        while True:
            try:
                t = self.q.get_nowait()
            except queue.Empty:
                break
            if self.stop():
                self.res.append((t, {'status': 'skipped', 'why': 'a violation was found already or the time is over'}))
                continue
            left = self.end - time.time()
            t = dict(t, limit=min(t['limit'], max(left, 1)))
            if p is None or p.poll() is not None:
                p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), self.ll], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
                self.procs.add(p)
            try:
                p.stdin.write(json.dumps(t) + '\n')
                p.stdin.flush()
                timer = threading.Timer(t['limit'] + 60, p.kill)
                timer.start()
                ln = p.stdout.readline()
                timer.cancel()
                r = json.loads(ln)
            except (ValueError, OSError) as x:
                p.kill()
                p = None
                r = {'status': 'error', 'why': 'worker died: %r' % (x,)}
                if self.stop():
                    r = {'status': 'skipped', 'why': 'a violation was found already or the time is over'}
            self.done(t, r)
        if p is not None:
            p.stdin.close()
            p.wait()

    def run(self, tasks, end, stop, done):
        self.q = queue.Queue()
        for t in tasks:
            self.q.put(t)
        self.end, self.stop = end, stop
        lk = threading.Lock()

        def d(t, r):
            with lk:
                self.res.append((t, r))
                try:
                    done(t, r)
                except Exception as x:  # noqa
                    import traceback
                    r.update(status='error', why=traceback.format_exc()[-800:])
            if self.stop() and not self.ending:
                # the other running cases get a little time only
                self.ending = threading.Timer(GRACE, lambda: [x.kill() for x in list(self.procs)])
                self.ending.daemon = True
                self.ending.start()
        self.ending = None
        self.done = d
        ths = [threading.Thread(target=self.work) for _ in range(min(self.n, max(1, len(tasks))))]
        [t.start() for t in ths]
        [t.join() for t in ths]
        if self.ending:
            self.ending.cancel()
        return self.res


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    """Lines `known: property=C01 harness=h_x case=3 id=12 <text>` (fixed: lines suppress nothing)."""
    out = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) harness=(\S+) case=(\d+) id=(\S+) (.*)', ln.strip())
            if m and m.group(1) == prop:
                out[(m.group(2), int(m.group(3)), m.group(4))] = m.group(5)
    return out


def ident(v):
    return str(v['id']) if v['kind'] == 'assert' else v['kind']


# ------------------------------------------------------------------ main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.setup:
        build()
        return 0
    t0 = time.time()
    prop = a.property
    spec = registry.PROPS[prop]
    ll, bins, build_s = build()
    known = known_findings(prop)
    budget = 780 if a.tier == 'quick' else 5400
    end = t0 + budget
    tasks = []
    for j in spec['jobs']:
        if j.get('tier', 'quick') == 'thorough' and a.tier != 'thorough':
            continue
        cases = list(j['cases'])
        if a.tier == 'thorough':
            cases += [c for c in j.get('more', ()) if c not in cases]
        for c in cases:
            if a.only and a.only not in (j['h'], '%s:%d' % (j['h'], c)):
                continue
            tasks.append({'harness': j['h'], 'case': c, 'mode': j.get('mode', 'fp'), 'limit': j.get('limit', 400) * (1 if a.tier == 'quick' else 3),
                          'seed': a.seed, 'witness': j.get('witness', 2), 'escalate': j.get('escalate', True),
                          'all': any(k[0] == j['h'] and k[1] == c for k in known), 'weight': j.get('weight', 1)})
    tasks.sort(key=lambda t: -t['weight'])
    viol = []
    hits = {}
    validated = [0, 0]
    bad = []
    reach = set()
    samples = []
    open_cases = []

    def examine(t, r):
        """Replay counterexamples and witnesses on the real code."""
        h, c = t['harness'], t['case']
        if a.v:
            print('%-8s %4d %-12s %7.1fs paths %d queries %d solver %.1fs %s' % (
                h, c, r['status'], r.get('wall', 0), r.get('paths', 0), r.get('queries', 0), r.get('solver_s', 0), r['why'][:200]), flush=True)
        for v in r.get('violations', ()):
            got = None
            for b in ('dev', 'release'):
                rc, tags = replay(bins[b], h, c, v['inputs'])
                if rc == 10 or rc == 11 or rc < 0 or rc in (101, 134):
                    got = (b, rc, tags)
                    break
            if got is None:
                r['unconfirmed'] = r.get('unconfirmed', []) + [v]
                continue
            b, rc, tags = got
            # what the real code does decides the identity of the finding
            key = (h, c, tags['ASSERT'][0] if rc == 10 else 'panic')
            what = (tags.get('MSG') or [v['msg']])[-1]
            if rc == 11:
                what = 'panic at %s: %s' % ((tags.get('PANIC') or ['?'])[0], what)
            if key in known:
                hits[key] = known[key]
                continue
            v.update(build=b, harness=h, case=c, what=what, exit=rc)
            viol.append(v)
        for w in r.get('witnesses', ()):
            rc, tags = replay(bins['dev'], h, c, w['inputs'])
            if rc == 0:
                obs = [int(x) for x in tags.get('OBS', [])]
                same = len(obs) == len(w['obs']) and all(y is None or x == y for x, y in zip(obs, w['obs']))
                if same:
                    validated[0] += 1
                    reach.update((h, int(x)) for x in tags.get('REACH', []))
                    if len(samples) < 12 and (h, c) not in [s['at'] for s in samples]:
                        samples.append({'at': (h, c), 'inputs': ['%s %d' % tuple(x) for x in w['inputs'][:60]], 'observed': obs[:40],
                                        'reached': tags.get('REACH', [])})
                    continue
            if rc in (10, 11) or rc < 0 or rc in (101, 134):
                # the real code fails on an input of an explored path
                what = (tags.get('MSG') or ['?'])[-1]
                if rc == 11:
                    what = 'panic at %s: %s' % ((tags.get('PANIC') or ['?'])[0], what)
                key = (h, c, tags['ASSERT'][0] if rc == 10 else 'panic')
                if key not in known:
                    viol.append({'kind': 'replay', 'id': None, 'msg': what, 'inputs': w['inputs'], 'build': 'dev', 'harness': h, 'case': c,
                                 'what': what, 'exit': rc, 'stack': []})
                continue
            if t['mode'] == 'real':
                validated[1] += 1       # the path is only reachable up to rounding
                continue
            bad.append('%s %d: witness mismatch rc=%d model %r real %r' % (h, c, rc, w['obs'][:20], tags.get('OBS', [])[:20]))

    def stop():
        return bool(viol) or time.time() > end

    pool = Pool(ll, a.jobs)
    res = pool.run(tasks, end, stop, examine)
    # real-mode counterexamples that do not replay, and constructs it cannot express: exact mode
    again = [dict(t, mode='fp', limit=max(t['limit'], 500)) for t, r in res
             if t['mode'] == 'real' and (r['status'] == 'escalate' or r.get('unconfirmed'))]
    if again and not viol:
        keys = {(t['harness'], t['case']) for t in again}
        pool = Pool(ll, a.jobs)
        res2 = pool.run(again, end, stop, examine)
        res = [x for x in res if (x[0]['harness'], x[0]['case']) not in keys] + res2
    for t, r in res:
        if r['status'] == 'ok' and r.get('unconfirmed'):
            r['status'], r['why'] = 'unconfirmed', 'counterexample does not replay: %s' % r['unconfirmed'][0]['msg']
        if r['status'] != 'ok':
            open_cases.append('%s %d: %s %s' % (t['harness'], t['case'], r['status'], r['why']))
    want = {(j['h'], x) for j in spec['jobs'] if j.get('tier', 'quick') == 'quick' for x in j.get('reach', ())}
    vacuous = sorted(want - reach) if not a.only else []

    tot = lambda k: sum(r.get(k, 0) for _, r in res)
    by = {}
    asserts, symbolic = 0, 0
    fns = set()
    for _, r in res:
        for k, v in r.get('by_solver', {}).items():
            e = by.setdefault(k, [0, 0.0])
            e[0] += v[0]
            e[1] = round(e[1] + v[1], 3)
        for k, v in r.get('asserts', {}).items():
            asserts += v[0]
            symbolic += v[1]
        fns.update(r.get('executed', ()))
    own = sorted(f for f in fns if 'ur20' in f and not f.startswith('h::'))
    for s in samples:
        s['at'] = '%s case %d' % s['at']
    ev = {
        'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('blocks'), 'transitions': tot('instrs'), 'traces_validated_against_impl': validated[0], 'samples': samples,
            'states_are': 'basic blocks executed symbolically', 'transitions_are': 'IR instructions executed symbolically',
            'cases': len(res), 'cases_decided': sum(1 for _, r in res if r['status'] == 'ok'),
            'paths': tot('paths'), 'paths_infeasible': tot('infeasible'), 'forks': tot('forks'), 'merges': tot('merges'),
            'assertions_evaluated': asserts, 'assertions_decided_by_solver': symbolic,
            'queries': tot('queries'), 'queries_cached': tot('cached'), 'solver_s': round(tot('solver_s'), 2),
            'max_query_s': max([r.get('max_query_s', 0) for _, r in res] or [0]), 'by_solver': by,
            'functions_encoded': own, 'functions_encoded_total': len(fns),
            'bounds': [{'harness': j['h'], 'float_encoding': {'fp': 'exact', 'real': 'linear reals with rounding bounds'}[j.get('mode', 'fp')],
                        'cases': sum(1 for t, _ in res if t['harness'] == j['h']), 'bounds': j['bounds']} for j in spec['jobs']],
            'outside': spec.get('outside', ''),
            'traces_not_reproducible_exactly': validated[1], 'reached': sorted('%s:%d' % x for x in reach),
            'build_s': build_s, 'undecided': open_cases[:20], 'per_case_s': {'%s:%d' % (t['harness'], t['case']): r.get('wall') for t, r in res}
            if len(res) <= 60 else {'max': max(r.get('wall', 0) for _, r in res)},
        },
        'assumptions': registry.ASSUMPTIONS + spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for key, txt in sorted(hits.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, txt))
    if viol:
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        seen = set()
        for v in viol:
            k = (v['harness'], v['case'], v['what'])
            if k in seen or len(seen) >= 5:
                continue
            seen.add(k)
            path = os.path.join(d, '%s-%s-%d.txt' % (prop, v['harness'], v['case']))
            write_inputs(path, v['harness'], v['case'], v['inputs'],
                         '# %s\n# replay: %s %s %d %s\n' % (v['what'], bins[v['build']], v['harness'], v['case'], path))
            print('%s (%s build): %s' % (prop, v['build'], v['what']))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if bad:
        raise NoVerdict('model and implementation disagree:\n' + '\n'.join(bad[:5]))
    if open_cases:
        raise NoVerdict('undecided:\n' + '\n'.join(open_cases[:10]))
    if vacuous:
        raise NoVerdict('never reached: %r' % vacuous)
    if not a.only and not asserts and spec.get('need_asserts', True):
        raise NoVerdict('no assertion was evaluated')
    print('%s: holds within the bounds: %d cases, %d paths, %d queries, %.1f s solver, %d traces validated, %.1f s' % (
        prop, len(res), tot('paths'), tot('queries'), tot('solver_s'), validated[0], time.time() - t0))
    return 0


try:
    sys.exit(main())
except NoVerdict as x:
    print('NO VERDICT: %s' % x)
    sys.exit(2)
