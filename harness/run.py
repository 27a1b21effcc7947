#!/usr/bin/env python3
"""Runs the check of one property: run.py <property> [--tier quick|thorough].

1. TLC checks the design specification(s) of the property exhaustively.
2. TLC generates behaviours from the specification (stimuli for the code).
3. The driver replays them into the real code of /repo and records a trace.
4. TLC validates the trace against the specification (monitor modules).
Exit 0: held; 1: violation (VIOLATION line); 2: the machinery failed.
"""
import argparse
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
JAR = '/opt/veriftools/tla/tla2tools.jar'
DEPS = '/opt/veriftools/tla/CommunityModules-deps.jar'


class Broken(Exception):
    pass


def load_checks():
    spec = importlib.util.spec_from_file_location('checks', os.path.join(HERE, 'checks.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.CHECKS


def tlc(scratch, module, cfg, env=None, args=(), timeout=800, workers='1'):
    """Run TLC on spec/<module>.tla; returns (rc, output, states, distinct)."""
    meta = tempfile.mkdtemp(prefix='tlc', dir=scratch)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    # the stack of the main thread (initial states) is set on the command line only
    e.pop('JAVA_TOOL_OPTIONS', None)
    # TLC leaves *_TTrace files next to the spec if not told otherwise
    cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-cp', JAR + ':' + DEPS, 'tlc2.TLC', '-workers', workers, '-metadir', meta, '-noGenerateSpecTE', '-deadlock',
           '-config', os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module + '.tla')]
    try:
        p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken('TLC timed out on %s/%s' % (module, cfg))
    out = p.stdout
    st = re.findall(r'(\d+) states generated(?: \(.*?\))?, (\d+) distinct', out)
    g, d = (int(st[-1][0]), int(st[-1][1])) if st else (0, 0)
    if not st:
        m = re.findall(r'The number of states generated: (\d+)', out)
        g = d = int(m[-1]) if m else 0
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, out, g, d


def known_findings():
    out = []
    path = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    out.append(json.loads(line))
    return out


def run(prop, tier, seed, keep=None):
    t0 = time.time()
    cfg = load_checks()[prop]
    base = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], design=[], generated={})
    try:
        # 1. exhaustive design check
        for mod, c in cfg.get('mc', {}).get(tier, cfg.get('mc', {}).get('quick', [])):
            rc, out, g, d = tlc(base, mod, c, workers='8')
            if rc != 0 or 'No error has been found' not in out:
                raise Broken('design check %s/%s failed (rc %s):\n%s' % (mod, c, rc, out[-3000:]))
            cov['states'] += d
            cov['transitions'] += g
            cov['design'].append(dict(module=mod, config=c, distinct=d, generated=g))
        # 2. behaviours
        gens = {}
        for gname, mod, c, mode in cfg.get('gen', ()):
            path = os.path.join(base, 'gen_%s.ndjson' % gname)
            args = []
            if mode.get('simulate'):
                num = mode['simulate'][tier]
                args = ['-simulate', 'num=%d' % num, '-depth', str(mode['depth']), '-seed', str(seed)]
            rc, out, g, d = tlc(base, mod, c, env=dict(GOUT=path), args=args)
            if rc != 0 or not os.path.exists(path):
                raise Broken('generation %s/%s failed (rc %s):\n%s' % (mod, c, rc, out[-3000:]))
            with open(path) as f:
                beh = [json.loads(x) for x in f if x.strip()]
            # drop duplicates, keep order
            seen, uniq = set(), []
            for b in beh:
                k = json.dumps(b, sort_keys=True)
                if k not in seen:
                    seen.add(k)
                    uniq.append(b)
            gens[gname] = uniq
            cov['generated'][gname] = len(uniq)
            if not mode.get('simulate'):
                cov['states'] += d
                cov['transitions'] += g
        gpath = os.path.join(base, 'gen.json')
        with open(gpath, 'w') as f:
            json.dump(gens, f)
        # 3. replay into the real code
        work = os.path.join(base, 'work')
        os.makedirs(work)
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   PYTHONPYCACHEPREFIX=os.path.join(base, 'pyc'),
                   NUMBA_CACHE_DIR=os.path.join(base, 'numba'),
                   NUMBA_DISABLE_JIT='1', MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(base, 'mpl'),
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                   VERIF_TIER=tier, VERIF_SEED=str(seed))
        trace = os.path.join(base, 'trace.ndjson')
        limit = 780 if tier == 'quick' else 6 * 3600
        try:
            p = subprocess.run([PY, os.path.join(HERE, cfg['driver'] + '.py'), gpath, trace],
                               cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=limit)
        except subprocess.TimeoutExpired:
            raise Broken('driver timed out')
        if p.returncode == 3:
            # the code under test could not even be imported
            return report(prop, tier, seed, t0, cov, [dict(clause='import', scn='import', rec=p.stdout[-2000:])])
        if p.returncode != 0:
            raise Broken('driver failed (rc %s):\n%s' % (p.returncode, p.stdout[-4000:]))
        # 4. validation
        with open(trace) as f:
            recs = [json.loads(x) for x in f]
        if not recs:
            raise Broken('empty trace')
        vout = os.path.join(base, 'verdict.json')
        rc, out, g, d = tlc(base, cfg['trace'], cfg['trace'] + '.cfg', env=dict(TRACE=trace, VOUT=vout),
                            timeout=800 if tier == 'quick' else 4 * 3600)
        at = re.findall(r'^/\\ mI = (\d+)', out, re.M)
        if rc != 0 and at and re.search(r'Error: .*(evaluat|[Oo]verflow|[Aa]ttempted)', out) and 'StackOverflow' not in out and int(at[-1]) < len(recs):
            # a record holds values no state of the specification can have
            r = recs[int(at[-1])]
            why = ' '.join(x for x in out.splitlines() if 'verflow' in x or 'ttempted' in x)[:300]
            return report(prop, tier, seed, t0, cov, [dict(clause='outside-specification', scn=r['scn'], k=int(at[-1]) + 1, rec=r, why=why)])
        if rc != 0 or not os.path.exists(vout):
            raise Broken('trace validation failed (rc %s):\n%s' % (rc, out[-4000:]))
        with open(vout) as f:
            verdict = json.load(f)
        if verdict['n'] != len(recs):
            raise Broken('trace not consumed')
        cov['states'] += d
        cov['transitions'] += g
        cov['trace_records'] = len(recs)
        scns = []
        for r in recs:
            if r['scn'] not in scns[-1:]:
                scns.append(r['scn'])
        cov['traces_validated_against_impl'] = len(set(scns))
        kinds = {}
        for r in recs:
            kinds[r['ev']] = kinds.get(r['ev'], 0) + 1
        cov['events'] = kinds
        step = max(1, len(recs) // 5)
        cov['samples'] = recs[0::step][:6]
        bad = []
        for b in verdict['bad']:
            r = recs[b['k'] - 1]
            bad.append(dict(clause=b['clause'], scn=r['scn'], k=b['k'], rec=r,
                            context=[x for x in recs[max(0, b['k'] - 4):b['k'] - 1] if x['scn'] == r['scn']]))
        for b in bad:
            m = re.match(r'([A-Za-z_]+)(\d+)', b['scn'])
            if m and m.group(1) in gens and int(m.group(2)) < len(gens[m.group(1)]):
                b['behaviour'] = gens[m.group(1)][int(m.group(2))]
        if verdict['nbad'] and not bad:
            raise Broken('verdict inconsistent')
        if keep:
            shutil.copy(trace, keep)
        return report(prop, tier, seed, t0, cov, bad, verdict['nbad'])
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(base, ignore_errors=True)
        else:
            print('kept', base)


def report(prop, tier, seed, t0, cov, bad, nbad=None):
    known = [k for k in known_findings() if k.get('property') == prop and k.get('status') == 'known']
    fresh, hit = [], {}
    for b in bad:
        for k in known:
            if b['clause'] == k['clause'] and re.fullmatch(k['scn'], b['scn']):
                hit[k['what']] = k
                break
        else:
            fresh.append(b)
    for k in hit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=['code runs interpreted (numba JIT disabled), same source',
                           'observations are rounded to the fixed point units of the specification'],
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    path = os.path.join(ROOT, 'evidence', 'replay', prop + '.json')
    if os.path.exists(path):
        os.remove(path)
    if not fresh:
        print('%s %s: held on %d records of %d scenarios (%.1f s)' % (
            prop, tier, cov.get('trace_records', 0), cov['traces_validated_against_impl'], time.time() - t0))
        return 0
    with open(path, 'w') as f:
        json.dump(fresh[:50], f, indent=1)
    cl = {}
    for b in fresh:
        cl.setdefault(b['clause'], []).append(b['scn'])
    for c, s in sorted(cl.items()):
        print('  clause %s violated in %d records, e.g. scenario %s' % (c, len(s), s[0]))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--keep')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        rc = run(a.prop, a.tier, seed, a.keep)
    except Broken as e:
        print('BROKEN %s: %s' % (a.prop, e))
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
