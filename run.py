#!/usr/bin/env python3
"""python3 run.py C07 [--tier quick|thorough] [--replay FILE] [--shards N]

Explores one property on /repo's working tree. Exit 0: held on everything explored
(KNOWN-FINDING lines for listed findings); exit 1 with a VIOLATION line: broken."""
import argparse, glob, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SITE = '/opt/vp/pyogp/site'


def jy_cmd(args, mem, quick):
    path = ':'.join([HERE + '/lib/stubs', HERE + '/lib', HERE + '/checks', REPO, SITE])
    return ['/usr/bin/java', '-Xss8m', '-Xmx' + mem, '-XX:+UseSerialGC', '-Xshare:auto'] + (
            ['-XX:TieredStopAtLevel=1'] if quick else []) + [
            '-cp', '/usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar',
            '-Dpython.home=/usr/share/jython', '-Dpython.cachedir.skip=true',
            '-Dpython.path=' + path, 'org.python.util.jython', '-B', HERE + '/lib/shard.py'] + args


def known_findings(cid):
    out = {}
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % cid):
                rest = line.split(' ', 2)[2]
                key, _, what = rest.partition(' ')
                out[key[len('key='):]] = what
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cid', nargs='?')
    ap.add_argument('--setup', action='store_true', help='nothing is built: sees that the interpreter starts')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--shards', type=int, default=0)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.setup:
        for f in ('/usr/bin/java', '/usr/share/java/jython.jar', SITE):
            assert os.path.exists(f), f
        return 0
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    cid = a.cid.upper()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    meta = json.load(open(HERE + '/checks/meta.json'))[cid]
    n = a.shards or meta.get('shards', {}).get(tier) or min(8, os.cpu_count() or 4)
    if a.replay:
        n = 1
    work = tempfile.mkdtemp(prefix='verif-%s-' % cid)
    env = dict(os.environ, LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', VERIF_WORK=work, VERIF_REPO=REPO)
    for k in ('JYTHONPATH', 'PYTHONPATH', 'CLASSPATH', 'JYTHON_HOME'):
        env.pop(k, None)
    procs = []
    hard = 840 if tier == 'quick' else 3600 * 3
    try:
        for i in range(n):
            out = '%s/s%d.json' % (work, i)
            args = [cid, tier, str(i), str(n), out, str(seed)]
            if a.replay:
                args.append(os.path.abspath(a.replay))
            log = open('%s/s%d.log' % (work, i), 'w')
            procs.append((out, subprocess.Popen(jy_cmd(args, '2500m', tier == 'quick'), cwd=work, env=env, stdin=subprocess.DEVNULL,
                                                stdout=log, stderr=subprocess.STDOUT)))
        res = []
        errors = []
        for i, (out, p) in enumerate(procs):
            try:
                p.wait(max(1, hard - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                errors.append('shard %d: no answer in time' % i)
                continue
            if os.path.exists(out):
                res.append(json.load(open(out)))
            else:
                errors.append('shard %d: exit %s without result: %s' % (i, p.returncode, open('%s/s%d.log' % (work, i)).read()[-1500:]))
            if a.v:
                print(open('%s/s%d.log' % (work, i)).read()[-3000:])
    finally:
        for _, p in procs:
            if p.poll() is None:
                p.kill()
    states, outcomes = set(), set()
    tot = dict(transitions=0, executions=0, cases=0)
    notes, caps, samples, viol = {}, [], [], []
    for r in res:
        states.update(r['states'])
        outcomes.update(r['outcomes'])
        for k in tot:
            tot[k] += r[k]
        for k, v in r['notes'].items():
            notes[k] = notes.get(k, 0) + v
        caps += r['caps']
        samples += r['samples']
        viol += r['violations']
    known = known_findings(cid)
    new = [v for v in viol if v['key'] not in known]
    seen = {}
    for v in viol:
        if v['key'] in known:
            seen.setdefault(v['key'], v)
    new.sort(key=lambda v: (len(json.dumps(v['case'])) + 3 * len(v['choices'] or []), v['key']))
    if a.replay:
        shutil.rmtree(work, ignore_errors=True)
        for v in viol:
            print('VIOLATION property=%s replay=%s' % (cid, a.replay))
            print('  [%s] %s' % (v['key'], v['msg']))
            if v['traceback']:
                print(v['traceback'])
        for e in errors:
            print('ERROR', e)
        if not viol and not errors:
            print('replay: no violation')
        return 1 if viol else (2 if errors else 0)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    ev = {'property': cid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': len(states), 'transitions': tot['transitions'],
                       'traces_validated_against_impl': tot['executions'],
                       'cases': tot['cases'], 'distinct_outcomes': len(outcomes),
                       'samples': samples[:8],
                       'exhaustive': not caps and not errors and not viol,
                       'bounds': meta['bounds'][tier] if isinstance(meta['bounds'], dict) else meta['bounds'],
                       'counts': notes},
          'assumptions': meta.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    if caps:
        ev['coverage']['caps_hit'] = caps
    with open('%s/evidence/%s.json' % (HERE, cid), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    shutil.rmtree(work, ignore_errors=True)
    for k in sorted(seen):
        print('KNOWN-FINDING: property=%s %s' % (cid, known[k]))
    print('%s %s: %d cases, %d executions, %d states, %d transitions, %d outcomes, %.1f s%s' % (
        cid, tier, tot['cases'], tot['executions'], len(states), tot['transitions'], len(outcomes), time.time() - t0,
        ', caps: %s' % caps if caps else ''))
    if new:
        v = new[0]
        rp = '%s/evidence/%s.replay.json' % (HERE, cid)
        with open(rp, 'w') as f:
            json.dump(dict(v, property=cid, rerun='python3 %s/run.py %s --replay %s' % (HERE, cid, rp)), f, indent=1)
        print('VIOLATION property=%s replay=%s' % (cid, rp))
        print('  %d violations (%s); simplest: [%s] %s' % (len(new), ', '.join(sorted(set(x['key'] for x in new))), v['key'], v['msg']))
        print('  case: %s choices: %s' % (json.dumps(v['case'])[:600], v['choices']))
        if v['traceback']:
            print(v['traceback'])
        return 1
    if errors:
        for e in errors[:2]:
            print('ERROR', e)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
