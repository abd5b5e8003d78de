"""python -m pbt.run <ID> [--replay FILE] | --sub NAME OUT (internal)"""
import os, sys, json, time, importlib, subprocess, argparse, re

import pbt  # sets sys.path for hypothesis
from pbt import core

TIER = os.environ.get('VERIF_TIER', 'quick')
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1


def mod_of(pid):
    return importlib.import_module('pbt.checks.' + pid.lower())


def known_findings(pid):
    out = {}
    p = os.path.join(core.ROOT, 'known_findings.jsonl')
    if os.path.isfile(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'open':
                    out[d['id']] = d
    return out


def check_import():
    import pyspod
    got = os.path.realpath(os.path.dirname(pyspod.__file__))
    want = os.path.realpath(os.path.join(core.REPO, 'pyspod'))
    if got != want:
        raise SystemExit(f'pyspod imported from {got}, not {want}')


def child(pid, name, out):
    # everything the code under test prints goes nowhere; results travel in `out`
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    try:
        check_import()
        m = mod_of(pid)
        if name == 'PROBES':
            res = dict(name=name, status='ok', probes=[])
            ctx = core.Ctx()
            for p in getattr(m, 'PROBES', []):
                s = core.Sub(p.fid, None, lambda case, c, p=p: p.fn(c))
                r = core.run_case(s, {}, ctx)
                res['probes'].append(dict(fid=p.fid, what=p.what,
                                          r=None if r in (None, 'skip') else list(r)))
            ctx.close()
        else:
            sub = [s for s in m.SUBS if s.name == name][0]
            budget = 360.0 if TIER == 'quick' else 3000.0
            res = core.run_sub(sub, SEED, TIER, budget)
    except BaseException as e:
        res = dict(name=name, status='error', msg=core.describe(e))
        # a module of the package that no longer imports is what the code does, not harness trouble
        if isinstance(e, Exception) and core.in_repo(e.__traceback__):
            res['status'] = 'violation'
            res['case'] = None
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f, default=core._jdefault)
    os.replace(out + '.tmp', out)
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(0)


def replay(pid, path):
    d = json.load(open(path))
    m = mod_of(pid)
    check_import()
    ctx = core.Ctx()
    if d.get('probe'):
        p = [p for p in m.PROBES if p.fid == d['probe']][0]
        sub = core.Sub(p.fid, None, lambda case, c: p.fn(c))
        r = core.run_case(sub, {}, ctx)
    else:
        sub = [s for s in m.SUBS if s.name == d['sub']][0]
        r = core.run_case(sub, d['case'], ctx)
    ctx.close()
    if r is None or r == 'skip':
        print('replay: property holds on this input'); sys.stdout.flush(); os._exit(0)
    print(r[1])
    if r[0] == 'infra':
        os._exit(2)
    print(f'VIOLATION property={pid} replay={path}')
    sys.stdout.flush(); os._exit(1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--sub', nargs=2)
    ap.add_argument('--only')
    a = ap.parse_args()
    pid = a.pid
    if a.selftest:
        check_import()
        import hypothesis, matplotlib, xarray, h5py, scipy, yaml
        p = core.Ctx().mpi(2)
        print('MPI ranks answer:', p.run('ping', {}))
        p.close()
        print('ready: hypothesis', hypothesis.__version__)
        sys.stdout.flush(); os._exit(0)
    if a.sub:
        child(pid, a.sub[0], a.sub[1])
    if a.replay:
        replay(pid, os.path.join(os.environ.get('VERIF_CWD', os.getcwd()), a.replay))
    t0 = time.time()
    m = mod_of(pid)
    assert m.PROPERTY == pid
    jobs = [(s.name, s.slots) for s in m.SUBS if not a.only or s.name == a.only]
    if getattr(m, 'PROBES', None) and not a.only:
        jobs.append(('PROBES', 1))
    limit = 800.0 if TIER == 'quick' else 3600.0
    slots = int(os.environ.get('VERIF_SLOTS', '8'))
    free, running, results = slots, [], {}
    pending, tries = list(jobs), {}
    while pending or running:
        started = True
        while started:
            started = False
            for j in pending:
                need = min(j[1], slots)
                if need <= free:
                    out = os.path.join(core.SCRATCH, 'res_' + re.sub(r'\W', '_', j[0]) + '.json')
                    # (a folder of its own: MPI runtimes starting at once trip over each other in a common one)
                    tries[j[0]] = tries.get(j[0], 0) + 1
                    tmp = os.path.join(core.SCRATCH, f'w{len(tries)}_{tries[j[0]]}')
                    os.makedirs(tmp)
                    p = subprocess.Popen([sys.executable, '-m', 'pbt.run', pid, '--sub', j[0], out],
                                         start_new_session=True, env=dict(os.environ, TMPDIR=tmp))
                    running.append((j[0], need, p, out)); free -= need; pending.remove(j); started = True
                    break
        time.sleep(0.05)
        for r in list(running):
            name, need, p, out = r
            if p.poll() is None and time.time() - t0 < limit:
                continue
            if p.poll() is None:
                try: os.killpg(p.pid, 9)
                except OSError: pass
                p.wait()
                results[name] = dict(name=name, status='error', msg='time limit of the whole check reached')
            elif os.path.isfile(out):
                results[name] = json.load(open(out))
            else:
                results[name] = dict(name=name, status='error', msg=f'worker ended with {p.returncode}')
                if tries[name] < 2 and p.returncode >= 0:
                    # its runtime did not come up
                    del results[name]
                    pending += [j for j in jobs if j[0] == name]
            try: os.killpg(p.pid, 9)
            except OSError: pass
            running.remove(r); free += need

    known = known_findings(pid)
    viol, errs = [], []
    rdir = os.path.join(core.ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for name, r in results.items():
        if name == 'PROBES' and r['status'] == 'ok':
            for p in r['probes']:
                if p['r'] is None:
                    continue
                if p['r'][0] == 'infra':
                    errs.append((p['fid'], p['r'][1])); continue
                if p['fid'] in known:
                    print(f'KNOWN-FINDING: property={pid} {p["fid"]}: {p["what"]}')
                else:
                    path = os.path.join(rdir, f'{pid}-{p["fid"]}.json')
                    json.dump(dict(property=pid, probe=p['fid'], msg=p['r'][1]), open(path, 'w'), indent=1)
                    viol.append((path, p['r'][1]))
            continue
        if r['status'] == 'violation':
            path = os.path.join(rdir, f'{pid}-{name}.json')
            json.dump(dict(property=pid, sub=name, case=r.get('case'), msg=r['msg']), open(path, 'w'), indent=1)
            viol.append((path, r['msg']))
        elif r['status'] == 'error':
            errs.append((name, r['msg']))
    subs = [r for n, r in results.items() if n != 'PROBES']
    cov = dict(
        evaluations=sum(r.get('evaluations', 0) for r in subs),
        distinct_nontrivial=sum(r.get('distinct', 0) for r in subs),
        rule=m.RULE,
        samples=[dict(search=r['name'], case=c) for r in subs for c in r.get('samples', [])[:2]],
        searches={r['name']: dict(evaluations=r.get('evaluations', 0), distinct_nontrivial=r.get('distinct', 0),
                                  out_of_domain=r.get('skipped', 0), not_run_for_time=r.get('notrun', 0),
                                  classes=r.get('labels', {}), wall_s=round(r.get('wall', 0), 2),
                                  status=r['status']) for r in subs})
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED,
              level='exploration', coverage=cov, assumptions=getattr(m, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not a.only:
        json.dump(ev, open(os.path.join(core.ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    for name, msg in errs:
        print(f'ERROR in {pid}/{name}: {msg}', file=sys.stderr)
    for path, msg in viol:
        print(str(msg)[-1500:])
        print(f'VIOLATION property={pid} replay={path}')
    if viol:
        rc = 1
    elif errs:
        rc = 2
    else:
        rc = 0
        print(f'{pid}: held on {cov["evaluations"]} cases ({cov["distinct_nontrivial"]} distinct non-trivial), '
              f'{ev["wall_s"]} s')
    for r in subs:
        print(f'  {r["name"]}: {r["status"]} eval={r.get("evaluations")} nontrivial={r.get("distinct")} '
              f'skipped={r.get("skipped")} {r.get("wall", 0):.1f}s')
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
