"""The same plants run by the compiled and by the interpreted code."""
from mslab import *  # noqa: F401,F403
from mslab import ms, np, fx, run, main, guarded
import json
import os
import subprocess
import sys
import world as W
import drv_order as O
import drv_therm as T
import drv_hex as X


def pick(rows, unit):
    n = len(rows)
    idx = sorted({0, 1, n - 1} | {int(i * n / 7) for i in range(7)})
    return n, [[fx(v, unit) for v in rows[i]] for i in idx if i < n]


def outcome(kind, b):
    """[row count, sampled rows] of one run."""
    if kind == 'w':
        w = dict(b['world'], circuits=b['circuits'])
        return O.sample(run(W.build(w)), w)
    if kind == 'th':
        pl, acts, (cv, *_) = T.plant(b)
        try:
            s = T.go(T.build(pl, acts, cv, 4., adaptive_steps=True, max_stepsize=1., min_stepsize=1e-3))
        except (TypeError, ValueError) as e:  # nets the topology analysis refuses
            return 2, [[len(str(type(e)))]]
        rows = [np.concatenate([[s.time_vec[r]]] + [np.ravel(s.parts[n].res[r]) for n in pl['parts']] + [100. * np.ravel(s.parts[n].res_dm[r]) for n in pl['parts']])
                for r in range(len(s.time_vec))]
        return pick(rows, 1e-5)
    out = []
    for x in b['sit'][:2]:
        t, q, cap, n, nb = X.field(b['hx'], x, False)
        # heat flows from differences of nearly equal temperatures: 1e-7 s steps
        out.append(np.concatenate([np.ravel(t), np.ravel(q) * 1e-4]))
    return pick(out, 1e-4)


def one(recs, scn, arg):
    kind, b = arg
    n, rows = outcome(kind, b)
    recs.append(dict(ev='same', scn=scn, how='compiled', n=int(n), rows=rows))


def scenario(recs, scn, arg):
    kind, b, path = arg
    n, rows = outcome(kind, b)
    recs.append(dict(ev='ref', scn=scn, n=int(n), rows=rows))
    if not os.path.exists(path):
        raise RuntimeError('the compiled code ended the process')
    with open(path) as f:
        recs += json.load(f)


def select(g, tier):
    out = []
    for n, behs in g.items():
        if n == 'hx':
            behs = [b for b in behs if b['hx']['passes'] > 1]
        out += [('%s%03d' % (n, i), n, b) for i, b in enumerate(behs)]
    return out


def start(gen, part, parts):
    e = dict(os.environ, NUMBA_DISABLE_JIT='0')
    return subprocess.Popen([sys.executable, os.path.abspath(__file__), gen, '-', str(part), str(parts)], env=e,
                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)


def jobs(g, tier):
    """Let compiled processes do all scenarios first (the first one fills the
    compilation cache with a few of them)."""
    sel = select(g, tier)
    for part, parts in ((0, 0),) + tuple((i, 8) for i in range(8)):
        if parts == 0 or part == 0:
            procs = []
        procs.append(start(sys.argv[1], part, parts))
        if parts == 0 or part == 7:
            for p in procs:
                err = p.communicate(timeout=700 if tier == 'quick' else 7200)[1]
                if p.returncode > 0:
                    sys.stderr.write(err)
                    sys.exit(p.returncode)
    return [(scenario, scn, (n, b, os.path.abspath(scn + '.json'))) for scn, n, b in sel]


def compiled():
    import numba
    if numba.config.DISABLE_JIT:
        raise RuntimeError('not compiled')
    part, parts = int(sys.argv[3]), int(sys.argv[4])
    with open(sys.argv[1]) as f:
        sel = select(json.load(f), '')
    if parts == 0:
        # cover every kind of circuit once
        seen, few = set(), []
        for s in sel:
            k = {c['kind'] for c in s[2]['circuits']} if s[1] == 'w' else {s[1]}
            if not k <= seen:
                seen |= k
                few.append(s)
        sel = few
    else:
        sel = sel[part::parts]
    for scn, n, b in sel:
        recs = guarded((one, scn, (n, b), 300))
        if parts:
            with open(scn + '.json', 'w') as f:
                json.dump(recs, f)


if __name__ == '__main__':
    if len(sys.argv) > 3:
        compiled()
    else:
        main(jobs, seconds=120)
