#!/usr/bin/env python3-vt
"""Decides one property:  check.py PROPERTY [--tier quick|thorough] [--only REGEX]
Replays a reported violation:  check.py replay FILE
"""
import argparse
import glob
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.setrecursionlimit(30000)
import plan  # noqa: E402

TOOLCHAIN = 'nightly-2025-07-01-x86_64-unknown-linux-gnu'
JOBS = min(8, os.cpu_count() or 8)
PART = 40       # CPU seconds of one part


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO') or k.startswith('RUST'):
            if k not in ('CARGO_HOME', 'RUSTUP_HOME'):
                del e[k]
    e.update(CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN=TOOLCHAIN, **kw)
    return e


def ir_flags(mode):
    on = 'on' if mode == 'dev' else 'off'
    return ('-Csymbol-mangling-version=v0 --emit=llvm-ir -Ccodegen-units=1 -Zshare-generics=no -Copt-level=0 '
            '-Cno-prepopulate-passes -Cpasses=sroa -Cdebug-assertions=%s -Coverflow-checks=%s -Cdebuginfo=0 -Zinline-mir=yes -Awarnings' % (on, on))


def start(cmd, cwd, e, log):
    return subprocess.Popen(cmd, cwd=cwd, env=e, stdout=open(log, 'w'), stderr=subprocess.STDOUT)


class Build:
    """The IR of the harnesses with the repository's current code, and the natively compiled harnesses."""

    def __init__(self, work, modes):
        self.work = work
        self.p = {}
        for m in modes:
            t = os.path.join(work, 'ir-' + m)
            self.p['ir-' + m] = start(['cargo', 'build'], os.path.join(HERE, 'harness'),
                                      env(CARGO_TARGET_DIR=t, RUSTFLAGS=ir_flags(m)), os.path.join(work, 'ir-%s.log' % m))
            # the natively compiled code has the same debug assertions as the encoded code
            t = os.path.join(work, 'nat-' + m)
            self.p['nat-' + m] = start(['cargo', 'build'] + (['--release'] if m == 'rel' else []), os.path.join(HERE, 'native'),
                                       env(CARGO_TARGET_DIR=t, RUSTFLAGS='-Csymbol-mangling-version=v0 -Awarnings'),
                                       os.path.join(work, 'nat-%s.log' % m))

    def wait(self, k):
        rc = self.p[k].wait()
        if rc:
            sys.stderr.write(open(os.path.join(self.work, k + '.log')).read()[-6000:])
            raise SystemExit('build of %s failed' % k)

    def ll(self, mode):
        self.wait('ir-' + mode)
        return sorted(glob.glob(os.path.join(self.work, 'ir-' + mode, 'debug', 'deps', '*.ll')))

    def native(self, mode):
        self.wait('nat-' + mode)
        return os.path.join(self.work, 'nat-' + mode, 'release' if mode == 'rel' else 'debug', 'uvnative')


def run_native(exe, harness, inputs, fill, timeout=10):
    """(status, text): status 'ok', 'violation', 'panic', 'crash', 'diverged', 'error'."""
    f = os.path.join(os.path.dirname(exe), 'in-%d-%d' % (os.getpid(), time.monotonic_ns()))
    with open(f, 'w') as fh:
        fh.write('\n'.join(inputs) + '\n')
    try:
        r = subprocess.run([exe, harness, f, str(fill)], capture_output=True, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        return 'hang', 'no end within %d s' % timeout
    finally:
        os.unlink(f)
    out = r.stdout.strip()
    if r.returncode == 0:
        return 'ok', out
    if r.returncode == 70:
        return 'violation', out
    if r.returncode == 71:
        return 'panic', out
    if r.returncode == 72:
        return 'diverged', out
    if r.returncode < 0:
        return 'crash', 'signal %d (%s)' % (-r.returncode, (r.stderr.strip().splitlines() or [''])[-1][:200])
    return 'error', 'status %d %s' % (r.returncode, out[-200:] + r.stderr[-200:])


def known_matcher(prop):
    f = os.path.join(HERE, 'known-findings.json')
    ents = [e for e in json.load(open(f))['findings'] if e['property'] == prop] if os.path.exists(f) else []

    def m(v):
        for e in ents:
            if re.fullmatch(e['harness'], v['harness']) and e['kind'] == v['kind'] and re.search(e['match'], v['msg'] + ' | ' + (v['panic'] or '')):
                v['known'] = e['id']
                return True
        return False
    return ents, m


def task(a, conn):
    """Worker process: one part of one harness."""
    lls, prop, h, mode, tier, deadline, seed, part = a
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    import explore
    t0 = time.time()
    r = None
    try:
        explore.TIER[0] = 1 if tier == 'thorough' else 0
        explore.load_program(lls)
        ents, km = known_matcher(prop)
        r = explore.explore(h, deadline=deadline, sample_every=4, seed=seed, known=km if ents else None, part=part)
    except MemoryError:
        err = 'out of memory'
    except Exception as e:
        import traceback
        err = 'engine: %s' % ''.join(traceback.format_exception(e))[-1500:]
    if r is None:
        conn.send(lost(h, mode, part, err, time.time() - t0))
        return
    s = r.stats
    conn.send(dict(harness=h, mode=mode, part=part, split=r.split, errors=r.errors, violations=r.violations, known=r.known, paths=r.paths, ends=r.ends, samples=r.samples,
                   segs=r.segs, functions=r.functions, time=r.time, queries=s.queries, lookups=s.lookups, sat=s.sat, unsat=s.unsat,
                   unknown=s.unknown, solver_time=s.solver_time, bv=s.bv, forks=s.forks, checks=s.checks, check_queries=s.check_queries,
                   covers=s.covers, asserts=s.asserts, maxpc=s.maxpc))


def lost(h, mode, part, why, t):
    return dict(harness=h, mode=mode, part=part, split=None, errors=[why], violations=[], known=[], paths=0, ends={}, samples=[], time=t)


def run_all(jobs, deadline):
    """Runs the jobs in worker processes; yields the results as they arrive."""
    from multiprocessing.connection import wait
    jobs = list(jobs)[::-1]
    procs = {}
    try:
        while jobs or procs:
            while jobs and len(procs) < JOBS:
                a = jobs.pop()
                if time.time() > deadline:
                    yield lost(a[2], a[3], a[7], 'not started: time budget exhausted', 0)
                    continue
                rd, wr = mp.Pipe(False)
                p = mp.Process(target=task, args=(a, wr))
                p.start()
                wr.close()
                procs[rd] = p, a
            ready = wait(list(procs), timeout=5)
            for rd in ready:
                p, a = procs.pop(rd)
                try:
                    r = rd.recv()
                except EOFError:
                    r = lost(a[2], a[3], a[7], 'worker ended without an answer', 0)
                p.join(5)
                rd.close()
                yield r
            if time.time() > deadline + 60:
                for rd, (p, a) in procs.items():
                    p.kill()
                    yield lost(a[2], a[3], a[7], 'worker gave no answer in time', 0)
                procs = {}
    finally:
        for p, _ in procs.values():
            p.kill()


def merge(rs):
    """The parts of one harness as one result."""
    rs = sorted(rs, key=lambda r: r['part'])
    out = dict(rs[0])
    for r in rs[1:]:
        for k in ('errors', 'violations', 'known', 'samples'):
            out[k] = out[k] + r[k]
        for k in ('paths', 'segs', 'time', 'queries', 'lookups', 'sat', 'unsat', 'unknown', 'solver_time', 'bv', 'forks', 'checks', 'check_queries'):
            out[k] = out.get(k, 0) + r.get(k, 0)
        for k in ('ends', 'covers', 'asserts'):
            d = dict(out.get(k, {}))
            for x, n in r.get(k, {}).items():
                d[x] = d.get(x, 0) + n
            out[k] = d
        out['functions'] = {**out.get('functions', {}), **r.get('functions', {})}
    if len({r['split'] for r in rs if 'segs' in r}) > 1:
        out['errors'] = out['errors'] + ['the parts were split differently: %s' % [r['split'] for r in rs]]
    out['parts'] = len(rs)
    return out


UB = {'uninit', 'oob', 'misaligned', 'overlap', 'dangling', 'unreachable', 'overflow', 'assume', 'bad-free', 'bad-layout', 'write-const', 'div0',
      'badcall', 'ub-check', 'stack'}


def confirm(build, v):
    """Runs the counterexample against the compiled code."""
    exe = build.native(v['mode'])
    out = []
    for fill in (0xa5, 0x3c, 0x00):
        st, text = run_native(exe, v['harness'], v['inputs'], fill)
        out.append((st, text))
        if st in ('violation', 'panic', 'crash', 'hang'):
            return True, '%s: %s' % (st, text[-300:])
    if v['kind'] in UB:
        oks = {t for s, t in out if s == 'ok'}
        if len(oks) > 1:
            return True, 'the run depends on uninitialised memory'
        if all(s in ('ok', 'diverged') for s, t in out):
            # undefined behaviour that this compilation happens to survive; the same path was executed
            return True, 'undefined behaviour (%s) on a path the compiled code takes; this build survives it' % v['kind']
    return False, str(out[-1])


def check(prop, tier, only, keep):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pl = plan.PLAN[prop]
    items = []      # (harness, mode)
    for mode, names in plan.harnesses(prop, tier).items():
        items += [(h, mode) for h in names if not only or re.search(only, h)]
    modes = sorted({m for _, m in items})
    work = os.path.join(HERE, '.build', '%s-%d' % (prop, os.getpid()))
    os.makedirs(work)
    budget = int(os.environ.get('UV_BUDGET', plan.BUDGET[tier]))
    build = Build(work, modes)
    try:
        lls = {m: build.ll(m) for m in modes}
        deadline = t0 + budget
        w = plan.weights()
        jobs = []
        for h, m in items:
            # every harness counts once, heavy ones are cut into parts; the native build has its say in the estimate
            t = w.get(h, 10)
            n = max(1, min(64, int(t / PART + 0.999)))
            jobs += [(t / n, h, m, (i, n)) for i in range(n)]
        jobs.sort(key=lambda x: x[0])
        results = {}
        bad = False
        for r in run_all([(lls[m], prop, h, m, tier, deadline, seed, pt) for _, h, m, pt in jobs], deadline):
            results.setdefault((r['harness'], r['mode']), []).append(r)
            for v in r['violations']:
                v['mode'] = r['mode']
                v['confirmed'], v['native'] = confirm(build, v)
                bad |= v['confirmed']
            if bad:
                break
        return conclude(prop, tier, seed, pl, build, [merge(rs) for rs in results.values()], t0, bad)
    finally:
        for p in build.p.values():
            if p.poll() is None:
                p.kill()
                p.wait()
        if not keep:
            shutil.rmtree(work, ignore_errors=True)


def conclude(prop, tier, seed, pl, build, results, t0, cut):
    rc = 0
    viols = []
    problems = []
    for r in results:
        for v in r['violations']:
            if v['confirmed']:
                viols.append(v)
            else:
                problems.append('%s: counterexample does not reproduce natively: %s %s; %s' % (r['harness'], v['kind'], v['msg'], v['native']))
                viols_dir(prop, v, 'unconfirmed')
        for e in r['errors']:
            problems.append('%s/%s: %s' % (r['harness'], r['mode'], e))
        if not cut and not (r['ends'].get('return') or r['violations'] or r['known']):
            problems.append('%s/%s: no path reaches the end' % (r['harness'], r['mode']))
    # completed paths replayed against the compiled code, traces compared
    validated = mism = 0
    samples = []
    tv = time.time()
    for r in results:
        for ins, obs in r['samples']:
            if cut or time.time() - tv > 60:
                break
            st, text = run_native(build.native(r['mode']), r['harness'], ins, 0xa5)
            want = 'UV-OK ' + ' '.join(str(x) for x in obs)
            if st == 'ok' and text.strip() == want.strip():
                validated += 1
                if len(samples) < 3:
                    samples.append(dict(harness=r['harness'], mode=r['mode'], inputs=ins, trace=obs[:40]))
            else:
                mism += 1
                problems.append('%s/%s: native run differs from the symbolic one: %s %s | expected %s | inputs %s' % (r['harness'], r['mode'], st, text[:300], want[:300], ' ; '.join(ins)[:600]))
    knowns = {}
    for r in results:
        for v in r['known']:
            knowns.setdefault(v['known'], []).append(v)
    ents, _ = known_matcher(prop)
    for e in ents:
        # a listed finding is re-confirmed against the compiled code on every run
        hits = knowns.get(e['id'])
        if hits:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, e['id'], e['what']))
    for v in viols:
        p = viols_dir(prop, v, 'violation')
        print('VIOLATION property=%s replay=%s' % (prop, p))
        print('  harness %s (%s build): %s: %s' % (v['harness'], v['mode'], v['kind'], v['msg']))
        if v['panic']:
            print('  panic: %s' % v['panic'][:400])
        print('  native run: %s' % v['native'])
        rc = 1
    fns = {}
    for r in results:
        for f, n in r.get('functions', {}).items():
            fns[f] = n
    own = sorted(f for f in fns if re.search(r'unsized_vec|emplacable', f))

    def tot(k):
        return sum(r.get(k, 0) for r in results)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 1), violations=len(viols),
              assumptions=plan.ASSUMPTIONS + pl.get('assumptions', []),
              coverage=dict(
                  states=tot('paths') + tot('forks'), transitions=tot('segs'), traces_validated_against_impl=validated, samples=samples,
                  paths=tot('paths'), path_ends={k: sum(r['ends'].get(k, 0) for r in results) for k in sorted({k for r in results for k in r['ends']})},
                  verification_conditions=tot('checks'), verification_conditions_sent_to_solver=tot('check_queries'),
                  solver_queries=tot('queries'), solver_sat=tot('sat'), solver_unsat=tot('unsat'), solver_unknown=tot('unknown'), solver_cache_hits=tot('lookups') - tot('queries'),
                  queries_needing_bit_vectors=tot('bv'), solver_time_s=round(tot('solver_time'), 2), engine_cpu_s=round(tot('time'), 1),
                  bounds=plan.BOUNDS + pl.get('bounds', []),
                  functions_encoded=len(fns), functions_of_the_repository=own, instructions_encoded=sum(fns.values()),
                  harnesses=[dict(name=r['harness'], build=r['mode'], parts=r['parts'], paths=r['paths'], ends=r['ends'], time_s=round(r['time'], 2), queries=r.get('queries', 0),
                                  complete=not r['errors']) for r in results],
                  complete=not problems and not cut, problems=problems[:40],
                  known_findings=[dict(id=k, hits=len(v)) for k, v in knowns.items()]))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for p in problems[:40]:
        print('NOTE', p)
    done = sum(1 for r in results if not r['errors'] and r['paths'])
    if cut:
        print('stopped at the first confirmed violation')
    print('%s %s: %d harnesses (%d complete), %d paths, %d queries, solver %.1f s, %d traces validated, %d violations, %.1f s' % (
        prop, tier, len(results), done, tot('paths'), tot('queries'), tot('solver_time'), validated, len(viols), time.time() - t0))
    if rc == 0 and (not done or mism > max(2, validated) or any(not v['confirmed'] for r in results for v in r['violations'])):
        rc = 2
    return rc


def viols_dir(prop, v, kind):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s-%s.json' % (prop, v['harness'], kind))
    with open(p, 'w') as f:
        json.dump(dict(property=prop, **v), f, indent=1)
    return p


def replay(path):
    v = json.load(open(path))
    work = os.path.join(HERE, '.build', 'replay-%d' % os.getpid())
    os.makedirs(work)
    try:
        b = Build(work, [v['mode']])
        b.p['ir-' + v['mode']].wait()
        for fill in (0xa5, 0x3c):
            print(run_native(b.native(v['mode']), v['harness'], v['inputs'], fill))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    rc = 0
    props = sorted(plan.PLAN) if a.prop == 'all' else [a.prop]
    for p in props:
        rc = max(rc, check(p, a.tier, a.only, a.keep))
    sys.exit(rc)


if __name__ == '__main__':
    main()
