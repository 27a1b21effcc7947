"""Whole runs with chunked disk storage against the run held in memory."""
from mslab import *  # noqa: F401,F403
from mslab import ms, np, Ids, run, main
import world as W


def disk(scn, k, n):
    d = './%s_%d/' % (scn, k)
    return dict(save_every_n_steps=n, sim_name='s', path=d, start_date=W.START, resample_final=False, complevel=0, overwrite=True)


def scenario(recs, scn, b):
    w = dict(b['world'], circuits=b['circuits'])
    ids = Ids()
    grow = b['grow']
    over = None
    if grow:  # more than 100 steps per second: outgrows the preallocated rows
        w['tf'] = 1 + w['variant'] % 4
        w['fixed'] = 0
        over = dict(max_stepsize=1. / (150 + w['variant'] % 97), min_stepsize=1e-5)
    s = run(W.build(w, over=over))
    ref = [ids(x) for x in W.rows(s, w=w)]
    recs.append(dict(ev='ref', scn=scn, rows=ref, lens=len(W.lengths(s))))
    if grow:
        s = run(W.build(w, over=over, timeframe=w['tf'] / 4. + 2.))
        recs.append(dict(ev='longer', scn=scn, rows=[ids(x) for x in W.rows(s, w=w)][:len(ref)]))
    last = len(ref) - 1
    ch = list(b['world']['chunks'])[:2] + [(last, last - 1, last + 1, max(1, last // 2))[w['variant'] % 4]]
    if grow:
        ch = [ch[0] + 20, ch[2]]
    for k, n in enumerate(ch):
        n = max(1, n)
        s = run(W.build(w, over=over, save=disk(scn, k, n)))
        # rows preallocated per second bound the chunk as well
        recs.append(dict(ev='run', scn=scn, n=n, rows=[ids(x) for x in W.rows(s, w=w)], lens=len(W.lengths(s))))
        import shutil
        shutil.rmtree('./%s_%d' % (scn, k), ignore_errors=True)


def jobs(g, tier):
    out = []
    for name, behs in g.items():
        for i, b in enumerate(behs):
            out.append((scenario, '%s%03d' % (name, i), dict(b, grow=int(i % 5 == 4))))
    return out


if __name__ == '__main__':
    main(jobs, seconds=120)
