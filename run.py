#!/usr/bin/env python3
"""Driver: build the harness units of one property against /repo's working tree, run them, write evidence, give the verdict.

usage: run.py PROPERTY          VERIF_SEED / VERIF_TIER from the environment
       run.py --replay FILE     rebuild the unit named in a replay file and run the recorded case
"""
import concurrent.futures as cf, json, os, re, resource, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
import checks

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']
COV = ['-fsanitize-coverage=trace-pc,trace-cmp']
BASE = ['-w', '-O1', '-no-pie', '-fno-pie', '-fmax-errors=5', '-ftemplate-depth=2000', '-D_GLIBCXX_ASSERTIONS']
try:  # deep recursion of the C++11 constexpr forms under the sanitizer
    resource.setrlimit(resource.RLIMIT_STACK, (256 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
except (ValueError, OSError):
    pass


class Broken(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def unit_flags(u):
    fl = list(BASE)
    if u.get('san', True):
        fl += SAN
    if u.get('cov', True):
        fl += COV
    return fl + list(u.get('flags', []))


def unit_name(u):
    return u['src'].replace('/', '_').rsplit('.', 1)[0] + '-' + str(u['std']) + (('-' + u['tag']) if u.get('tag') else '')


def compile_cmd(u, out):
    return ['g++', '-std=c++%s' % u['std']] + unit_flags(u) + ['-I' + REPO, '-I' + os.path.join(HERE, 'harness'),
            os.path.join(HERE, 'harness', u['src']), '-o', out] + list(u.get('libs', []))


def sane_compiler(d):
    t = os.path.join(d, 'sane.cpp')
    with open(t, 'w') as f:
        f.write('#include <vector>\nint main(){std::vector<int> v(3); return v.size()!=3;}\n')
    try:
        p = subprocess.run(['g++', '-std=c++17', t, '-o', t + '.x'], capture_output=True, text=True, timeout=120)
        return p.returncode == 0
    except Exception:
        return False


def build(u, d):
    out = os.path.join(d, unit_name(u))
    log = ''
    for k in range(2):
        try:
            p = subprocess.run(compile_cmd(u, out), capture_output=True, text=True, timeout=600, cwd=d)
        except subprocess.TimeoutExpired:
            return None, 'timeout', 'compilation took over 600 s'
        if p.returncode == 0:
            return out, 'ok', ''
        log = p.stderr
        if re.search(r'internal compiler error|Killed|cannot allocate|No space left|virtual memory exhausted', log):
            continue
        if re.search(r'(^|\s)(fatal )?error:', log) or 'ld returned' in log:
            return None, 'reject', log
    return None, 'broken', log


def run_unit(u, exe, d, seed, scale, known, maxsec, shard=0, shards=1):
    out = os.path.join(d, '%s.%d.json' % (unit_name(u), shard))
    cmd = [exe, '--seed', str(seed), '--scale', str(scale * u.get('scale', 1)), '--out', out, '--maxsec', str(maxsec), '--shard', str(shard), '--shards', str(shards)]
    if known:
        cmd += ['--known', ','.join(known)]
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=7200)
    if p.returncode not in (0, 1) or not os.path.exists(out):
        raise Broken('harness %s ended with %d: %s' % (unit_name(u), p.returncode, (p.stdout + p.stderr)[-2000:]))
    with open(out) as f:
        return json.load(f)


def write_replay(prop, n, obj):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (prop, n))
    with open(path, 'w') as f:
        json.dump(obj, f, indent=1)
    return path


def replay(path):
    o = json.load(open(path))
    d = os.path.join(HERE, 'build', 'replay')
    os.makedirs(d, exist_ok=True)
    if o['kind'] == 'compile':
        out, st, log = build(o['unit'], d)
        say('unit %s: %s\n%s' % (unit_name(o['unit']), st, log[:3000]))
        return 0 if out else 1
    if o['kind'] == 'program':
        import progs
        return progs.replay(o)
    out, st, log = build(o['unit'], d)
    if not out:
        say(log[:3000]); return 1
    return subprocess.run([out, '--only', o['prop'], '--known', ','.join(known_ids(o['property'])), '--replay', o['choices']]).returncode


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []


def known_ids(prop):
    return [k['id'] for k in known_findings() if k['property'] == prop and k.get('status') == 'open']


def main(prop):
    t0 = time.time()
    spec = checks.CHECKS[prop]
    d = os.path.join(HERE, 'build', prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    quick = TIER != 'thorough'
    scale = spec.get('quick', 1.0) if quick else spec.get('thorough', spec.get('quick', 1.0) * 20)
    maxsec = spec.get('maxsec', 60) if quick else 600
    known = known_ids(prop)
    units = [u for u in spec.get('units', []) if not (quick and u.get('thorough_only'))]
    if not sane_compiler(d):
        say('error: the compiler does not work'); return 2
    viol, evals, distinct, labels, samples, perprop, present = [], 0, 0, {}, [], {}, {}
    unconfirmed = []

    def job(u):
        exe, st, log = build(u, d)
        if st == 'reject':
            return u, 'reject', log
        if st != 'ok':
            raise Broken('building %s: %s %s' % (unit_name(u), st, log[:1500]))
        n = u.get('shards', 1)
        if n == 1:
            return u, 'ran', [run_unit(u, exe, d, SEED, scale, known, maxsec)]
        with cf.ThreadPoolExecutor(n) as ex:
            return u, 'ran', list(ex.map(lambda k: run_unit(u, exe, d, SEED, scale, known, maxsec, k, n), range(n)))

    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(job, u) for u in units]
            pf = ex.submit(spec['program'], SEED, TIER, d, known) if spec.get('program') else None
            for f in futs:
                u, st, res = f.result()
                if st == 'reject':
                    viol.append(dict(kind='compile', unit=u, msg='the harness, which uses only the documented interface, no longer compiles', log=res[:6000]))
                    continue
                for r in res:
                    for p in r['props']:
                        key = '%s/%s' % (unit_name(u), p['name'])
                        if p['ok']:
                            s = p['stats']
                            evals += s['evals']; distinct += s['distinct']
                            perprop[key] = [s['evals'], s['distinct'], round(p['t'], 2)]
                            for k, v in s['labels'].items():
                                labels[k] = labels.get(k, 0) + v
                            for x in s['samples'][:1]:
                                if len(samples) < 60:
                                    samples.append('%s: %s' % (p['name'], x))
                        else:
                            evals += p['evals']
                            rec = dict(kind='case', unit=u, prop=p['name'], msg=p['msg'], first=p['first_msg'], case=p['notes'], choices=p['choices'])
                            (viol if p['confirmed'] else unconfirmed).append(rec)
                    for k, v in r['known'].items():
                        present[k] = present.get(k, False) or v
            if pf:
                r = pf.result()
                evals += r['evals']; distinct += r['distinct']; samples += r['samples'][:20]
                perprop.update(r.get('perprop', {}))
                for k, v in r.get('labels', {}).items():
                    labels[k] = labels.get(k, 0) + v
                viol += r['violations']
                present.update(r.get('known', {}))
    except Broken as e:
        say('error: %s' % e); return 2
    for k in known_findings():
        if k['property'] == prop and k.get('status') == 'open' and present.get(k['id']):
            say('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for i, v in enumerate(viol):
        v['property'] = prop; v['seed'] = SEED
        path = write_replay(prop, i, v)
        if i < 10:
            say('-- %s %s: %s' % (unit_name(v['unit']) if 'unit' in v else '', v.get('prop', v['kind']), v['msg'][:600]))
            if v.get('case'): say('   case: %s' % v['case'][:600])
            if v.get('log'): say(v['log'][:1200])
        say('VIOLATION property=%s replay=%s' % (prop, path))
    cov = dict(evaluations=evals, distinct_nontrivial=distinct, rule=spec['rule'], samples=samples[:40], labels=labels, per_unit=perprop,
               units=[unit_name(u) for u in units])
    ev = dict(property=prop, tier='quick' if quick else 'thorough', seed=SEED, level=spec.get('level', 'exploration'), coverage=cov,
              assumptions=spec.get('assumptions', checks.ASSUME), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    say('%s: %d cases, %d distinct non-trivial, %d violations, %.1f s' % (prop, evals, distinct, len(viol), time.time() - t0))
    if os.environ.get('VERIF_VERBOSE'):
        for k, v in sorted(perprop.items()):
            say('   %-60s %s' % (k, v))
        say(labels)
    if not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(d, ignore_errors=True)
    if viol:
        return 1
    if unconfirmed:
        for v in unconfirmed:
            say('error: a failure that did not reproduce: %s %s %s' % (unit_name(v['unit']), v['prop'], v['first'][:500]))
        return 2
    if evals == 0 or distinct == 0:
        say('error: nothing was tested'); return 2
    return 0


if __name__ == '__main__':
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
