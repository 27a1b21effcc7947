"""The same plant built in another order, mirrored, renamed, next to others."""
from mslab import *  # noqa: F401,F403
from mslab import ms, np, fx, run, main, quiet
import world as W
import json
import os


def units(s, w, tmap):
    u = [1e-6]
    for n in [c[1] for c in W.calls(w) if c[0] == 'part']:
        p = s.parts[tmap(n)]
        for a in W.ARR:
            if hasattr(p, a):
                k = np.asarray(getattr(p, a)[0]).size
                u += [{'res': 1e-5, 'res_dm': 1e-6, '_chp_state': 1e-6}.get(a, 1e-2)] * k
    return u


def sample(s, w, tmap=lambda x: x):
    rows = W.rows(s, tmap, w)
    u = units(s, w, tmap)
    n = len(rows)
    idx = sorted({0, 1, n - 1} | {int(i * n / 7) for i in range(7)})
    return n, [[fx(v, q) for v, q in zip(rows[i], u)] for i in idx if i < n]


def apart(fn):
    """Result of fn in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            with os.fdopen(w, 'w') as f:
                json.dump(fn(), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        out = f.read()
    os.waitpid(pid, 0)
    if not out:  # raises here as well
        return fn()
    return json.loads(out)


def order_of(rank, w):
    def order(cs):
        idx = sorted(range(len(cs)), key=lambda i: (rank[i % len(rank)], i)) if rank else list(range(len(cs)))[::-1]
        if w['dep'] != 'none':
            # a master controller has to be added before its dependents
            ct = iter([i for i in range(len(cs)) if cs[i][0] == 'ctrl'])
            idx = [next(ct) if cs[i][0] == 'ctrl' else i for i in idx]
        return [cs[i] for i in idx]
    return order


def scenario(recs, scn, b):
    w = dict(b['world'], circuits=b['circuits'])
    ident = lambda x: x

    def put(ev, s, tmap=ident, **kw):
        n, rows = sample(s, w, tmap)
        recs.append(dict(ev=ev, scn=scn, n=n, rows=rows, **kw))
    # the reference comes from a process in which nothing else has happened,
    # here an environment with parts of the same names and other values ran before
    n, rows = apart(lambda: sample(run(W.build(w)), w, ident))
    recs.append(dict(ev='ref', scn=scn, n=n, rows=rows))
    run(W.build(w, order=W.other, timeframe=3.))
    put('same', run(W.build(w)), how='not first')
    put('same', run(W.build(w, order=order_of(w['rank'], w))), how='order')
    put('same', run(W.build(w, order=order_of(None, w))), how='reversed')
    put('same', run(W.build(w, flip=w['flip'])), how='orientation')
    pre = w['names']
    perm = {}

    def tmap(x):
        # an order-changing renaming: ranks decide the first letter
        if x not in perm:
            perm[x] = '%s%c_%s' % (pre, 97 + w['rank'][len(perm) % 60] % 26, x[::-1])
        return perm[x]
    put('same', run(W.build(w, order=order_of(w['rank'][::-1], w), flip=w['flip'][::-1], tmap=tmap)), tmap, how='names')
    # other environments in the same process, with parts of the same names and other values
    run(W.build(w, order=W.other, timeframe=3.))
    put('same', run(W.build(w)), how='after another')
    # construction and running interleaved
    s2 = W.build(dict(w, tf=max(8, w['tf'] // 2)), order=W.other)
    s = W.build(w)
    with quiet():
        s2.initialize_sim()
        s.initialize_sim()
        s2.start_sim()
        s.start_sim()
    put('same', s, how='neighbour')


def jobs(g, tier):
    return [(scenario, '%s%03d' % (n, i), b) for n, behs in g.items() for i, b in enumerate(behs)]


if __name__ == '__main__':
    main(jobs, seconds=120, tasks=1)  # every scenario starts in a fresh process
