#!/usr/bin/env python3-vt
"""Decides one property:   check.py C01 [--tier quick|thorough] [--only CONFIG] [-v]
                           check.py --replay FILE
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken (confirmed by a concrete replay)."""
import argparse
import collections
import importlib
import json
import multiprocessing as mp
import os
import re
import resource
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
PY = '/opt/venv/bin/python'
NPROC = int(os.environ.get('TK_NPROC', '8'))


def merged(mod, cfg, tier):
    lim = dict(getattr(mod, 'LIMITS', {}))
    if tier == 'thorough':
        lim.update(time=240, max_paths=6000, z3_timeout=20000, fork_timeout=4000)
        lim.update(getattr(mod, 'LIMITS_THOROUGH', {}))
    else:
        lim.setdefault('time', 25)
    lim.update(cfg.get('limits', {}))
    lim['seed'] = int(os.environ.get('VERIF_SEED', '1') or 1)
    return lim


def layouts(mod, cfgs, tier):
    """the same claims for column-major arrays (F), strided views (S), arrays of integer type (I) and mixtures (M, N): every n-th
    configuration in one of them, or every configuration in all of them"""
    n = 'all' if tier == 'thorough' else getattr(mod, 'LAYOUTS', 4)
    out = list(cfgs)
    for i, c in enumerate(c for c in cfgs if not c.get('float_mode') and 'layout' not in c):
        for k, lay in enumerate('FSIMN'):
            if n == 'all' or (n and i % n == 0 and i // n % 5 == k):
                out.append(dict(c, name='%s@%s' % (c['name'], lay), layout=lay))
    return out


def explore_config(mod, cfg, tier):
    import numpy as np
    import z3
    from symtk import engine, loader
    from symtk.ctx import SymCtx
    np.seterr(all='ignore')
    z3.set_param('memory_max_size', 4000)
    lim = merged(mod, cfg, tier)
    kw = {k: v for k, v in cfg.items() if k not in ('name', 'float_mode', 'limits', 'layout')}
    funcs = set()
    first = [True]

    def prof(frame, event, arg):
        if event == 'call':
            fn = frame.f_code.co_filename
            if '/tenkit/' in fn and not frame.f_code.co_name.startswith('<'):
                funcs.add('%s:%s' % (fn.split('/tenkit/', 1)[1], frame.f_code.co_qualname))

    def run(eng):
        import warnings
        world = loader.World()
        ctx = SymCtx(eng, world, cfg.get('float_mode', False))
        ctx.layout = cfg.get('layout')
        if first[0]:
            sys.setprofile(prof)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                mod.harness(ctx, **kw)
        finally:
            if first[0]:
                sys.setprofile(None)
                first[0] = False
    r = engine.explore(run, lim)
    r['functions'] = sorted(f for f in funcs if not f.endswith('<module>'))
    r['tiny'] = sorted(r['tiny'])
    r['contracts'] = sorted(r['contracts'])
    r['assumed'] = sorted(r['assumed'])
    r['name'] = cfg['name']
    return r


def _worker(conn, mod, cfg, tier):
    resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
    try:
        r = explore_config(mod, cfg, tier)
    except BaseException as e:
        r = dict(name=cfg['name'], crash='%s: %s' % (type(e).__name__, e), tb=traceback.format_exc()[-2000:])
    try:
        conn.send(r)
    except BaseException as e:
        conn.send(dict(name=cfg['name'], crash='send: %s' % e))
    conn.close()
    os._exit(0)


def explore_all(mod, cfgs, tier, deadline):
    ctx = mp.get_context('fork')
    todo = list(cfgs)
    running = {}
    results = {}
    while todo or running:
        while todo and len(running) < NPROC:
            cfg = todo.pop(0)
            if time.time() > deadline:
                results[cfg['name']] = dict(name=cfg['name'], crash='not started: out of time')
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(b, mod, cfg, tier))
            p.start()
            b.close()
            running[cfg['name']] = (p, a, time.time(), merged(mod, cfg, tier)['time'] * 1.5 + 30)
        if not running:
            break
        mp.connection.wait([r[1] for r in running.values()], timeout=0.5)
        for n, (p, a, t0, lim) in list(running.items()):
            got = None
            if a.poll():
                try:
                    got = a.recv()
                except (EOFError, OSError):
                    got = dict(name=n, crash='worker died')
            elif not p.is_alive():
                got = dict(name=n, crash='worker died')
            elif time.time() - t0 > lim:
                got = dict(name=n, crash='timeout')
            if got is not None:
                results[n] = got
                if p.is_alive() and 'crash' in got:
                    p.kill()
                p.join(5)
                if p.is_alive():
                    p.kill()
                    p.join()
                a.close()
                del running[n]
    return results


def run_conc(module, jobs, nproc=NPROC, hard=240):
    if not jobs:
        return {}
    d = tempfile.mkdtemp(prefix='tkjobs_')
    out = {}
    try:
        k = max(1, min(nproc, (len(jobs) + 5) // 6))
        procs = []
        for i in range(k):
            part = jobs[i::k]
            fi, fo = os.path.join(d, 'j%d' % i), os.path.join(d, 'o%d' % i)
            json.dump(dict(module=module, jobs=part), open(fi, 'w'))
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
            env.pop('PYTHONPATH', None)
            procs.append((subprocess.Popen([PY, os.path.join(HERE, 'symtk', 'conc.py'), fi, fo], env=env,
                                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), fo))
        t0 = time.time()
        for p, fo in procs:
            try:
                _, err = p.communicate(timeout=max(5, hard - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                continue
            if os.path.exists(fo):
                for r in json.load(open(fo)):
                    out[r['id']] = r
            elif err:
                out.setdefault('stderr', err.decode()[-1500:])
    finally:
        subprocess.run(['rm', '-rf', '--', d])
    return out


def known_findings(pid):
    out = []
    f = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--noevidence', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a.replay:
        r = json.load(open(a.replay))
        out = run_conc(r['module'], [dict(id='r', config=r['config'], inputs=r['inputs'], seed=r['seed'])])
        print(json.dumps(out.get('r', out), indent=1)[:6000])
        return 1 if out.get('r', {}).get('status') == 'fail' else 0
    t0 = time.time()
    pid = a.pid.upper()
    mname = pid.lower()
    mod = importlib.import_module('symtk.props.' + mname)
    from symtk import engine, loader, ctx       # imported before the workers are forked
    cfgs = mod.configs(a.tier)
    if os.environ.get('TK_LAYOUT'):
        cfgs = [dict(c, layout=os.environ['TK_LAYOUT']) for c in cfgs]
    else:
        cfgs = layouts(mod, cfgs, a.tier)
    assert len({c['name'] for c in cfgs}) == len(cfgs), 'duplicate config names'
    if a.only:
        cfgs = [c for c in cfgs if re.search(a.only, c['name'])]
    res = explore_all(mod, cfgs, a.tier, t0 + (420 if a.tier == 'quick' else 6600))
    tsym = time.time() - t0

    # ---- concrete side: candidates, validation
    jobs, meta = [], {}

    def job(cfg, inputs, sd, kind, **info):
        i = 'j%d' % len(jobs)
        jobs.append(dict(id=i, config=cfg, inputs=inputs, seed=sd, timeout=40))
        meta[i] = dict(kind=kind, cfg=cfg['name'], **info)
    byname = {c['name']: c for c in cfgs}
    nrand = 12
    for c in cfgs:
        r = res[c['name']]
        suspicious = 'crash' in r or r.get('open') or r.get('errors') or r.get('unsupported') or r.get('truncated') or not r.get('reached')
        for o in r.get('open', ())[:12]:
            if o.get('point') is not None:
                job(c, o['point'], seed, 'model', label=o['label'], why=o['why'])
        for e in r.get('errors', ())[:8]:
            if e.get('point') is not None:
                job(c, e['point'], seed, 'model', label='exception', why=e['error'])
        for i, v in enumerate(r.get('observed', ())[:12]):
            job(c, v['inputs'], seed, 'validate', predicted=v['predicted'] if c.get('layout') not in ('I', 'M', 'N') else ())
        for i in range(nrand if suspicious else 1):
            job(c, {}, seed * 1000 + i, 'witness')
    out = run_conc(mname, jobs)
    if a.v and 'stderr' in out:
        print(out['stderr'])
    bad, validated, mismatches, discards, unconfirmed = [], 0, [], 0, 0
    for j in jobs:
        r = out.get(j['id'])
        m = meta[j['id']]
        if r is None or r['status'] == 'timeout':
            continue
        if r['status'] == 'fail':
            bad.append((j, m, r))
            continue
        if r['status'] == 'discard':
            discards += 1
            continue
        if m['kind'] == 'validate':
            obs = dict((k, v) for k, v in r['observed'])
            miss = [(k, p, obs.get(k)) for k, p in m['predicted']
                    if p is not None and (k not in obs or abs(obs[k] - p) > 1e-5 * (1 + abs(p)))]
            if miss:
                mismatches.append(dict(config=m['cfg'], miss=miss[:3]))
            else:
                validated += 1
        elif m['kind'] == 'model':
            unconfirmed += 1
    # ---- report
    known = known_findings(pid)
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
    violations, shown = [], set()
    for j, m, r in bad:
        label = r['failures'][0][0] if r['failures'] else '?'
        key = '%s:%s' % (m['cfg'], re.sub(r'[\[#].*', '', label))
        hit = [k for k in known if re.fullmatch(k[0], key)]
        if hit:
            if hit[0] not in shown:
                shown.add(hit[0])
                print('KNOWN-FINDING: property=%s %s' % (pid, hit[0][1]))
            continue
        if key in {v['key'] for v in violations}:
            continue
        violations.append(dict(key=key, config=j['config'], inputs=r['used'], seed=j['seed'], failures=r['failures'],
                               module=mname, kind=m['kind'], trace=r.get('trace')))
    for n, v in enumerate(violations[:5]):
        p = os.path.join(HERE, 'evidence', 'replays', '%s-%d.json' % (pid, n))
        json.dump(v, open(p, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        print('  %s: %s  [found by: %s]' % (v['key'], v['failures'][0][1], v['kind']))
    tot = collections.Counter()
    incon = []
    functions, contracts, assumed, tiny, samples = set(), set(), set(), set(), []
    for c in cfgs:
        r = res[c['name']]
        if 'crash' in r:
            incon.append('%s: %s' % (c['name'], r['crash']))
            if a.v:
                print(r.get('tb', ''))
            continue
        for k in ('paths', 'obligations', 'discharged', 'queries', 'forks', 'transitions', 'z3unknown', 'infeasible', 'reached'):
            tot[k] += r[k]
        tot['z3time'] += r['z3time']
        functions |= set(r['functions'])
        contracts |= set(r['contracts'])
        assumed |= set(r['assumed'])
        tiny |= set(r['tiny'])
        if not r['reached']:
            incon.append('%s: no path reached the end' % c['name'])
        for o in r['open']:
            incon.append('%s: %s %s (%s)' % (c['name'], o['label'], o['verdict'], o['why'][:120]))
        for e in r['errors']:
            incon.append('%s: error %s at %s' % (c['name'], e['error'], e['where']))
        for u in sorted(set(r['unsupported'])):
            incon.append('%s: unsupported %s' % (c['name'], u))
        if r['truncated']:
            incon.append('%s: truncated %s' % (c['name'], r['truncated']))
        if len(samples) < 6:
            samples.append(dict(config=c['name'], paths=r['paths'], obligations=r['obligations'], discharged=r['discharged'],
                                inputs={k: v.get('shape') for k, v in list(r['inputs'].items())[:6]}))
        if a.v:
            print('%-40s paths=%d reached=%d infeas=%d obl=%d/%d q=%d z3=%.1fs wall=%.1fs%s' % (
                c['name'], r['paths'], r['reached'], r['infeasible'], r['discharged'], r['obligations'], r['queries'], r['z3time'],
                r['wall'], ' OPEN' if r['open'] else ''))
    if a.v:
        for i in incon:
            print('  inconclusive:', i)
        for m in mismatches:
            print('  MISMATCH', m)
        print('validated %d, discards %d, jobs %d (%d results)' % (validated, discards, len(jobs), len(out)))
        print(dict(tot), 'sym %.1fs total %.1fs' % (tsym, time.time() - t0))
    ev = dict(property=pid, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level='model_checking',
              coverage=dict(
                  states=int(tot['paths'] + tot['forks']), transitions=int(tot['transitions']),
                  traces_validated_against_impl=int(validated),
                  samples=samples or [dict(note='none')],
                  what='states = symbolic path ends and fork points of the symbolic execution of the current sources; '
                       'transitions = branch decisions, each settled by the solver or a derived sign fact',
                  configurations=[c['name'] for c in cfgs], obligations=int(tot['obligations']), discharged=int(tot['discharged']),
                  solver_queries=int(tot['queries']), solver_seconds=round(tot['z3time'], 2), solver_unknown=int(tot['z3unknown']),
                  functions_encoded=sorted(functions), bounds=getattr(mod, 'BOUNDS', ''), contracts=sorted(contracts),
                  dropped_constants=sorted(tiny), inconclusive=incon[:60], n_inconclusive=len(incon),
                  encoding_mismatches=mismatches[:5], counterexamples_not_reproduced=unconfirmed,
                  replays=len(jobs), vacuous=[c['name'] for c in cfgs if not res[c['name']].get('reached')]),
              assumptions=sorted(assumed) + list(getattr(mod, 'ASSUMPTIONS', [])) + [
                  'real arithmetic (no rounding); numpy/scipy/h5py behave as the contracts say'],
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    if not a.noevidence:
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s: %s; %d configurations, %d paths, %d/%d obligations discharged, %d solver queries (%.1f s), %d inconclusive, %d validated, %.1f s' % (
        pid, 'VIOLATED' if violations else 'held on everything explored', len(cfgs), tot['paths'], tot['discharged'], tot['obligations'],
        tot['queries'], tot['z3time'], len(incon), validated, time.time() - t0))
    return 1 if violations else 0


if __name__ == '__main__':
    sys.exit(main())
