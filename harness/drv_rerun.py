"""Run, reset, run again: every run must equal the run of a fresh environment."""
from mslab import *  # noqa: F401,F403
from mslab import ms, np, Ids, run, main, quiet
import shutil
import world as W


def disk(scn, k, n):
    return dict(save_every_n_steps=n, sim_name='s', path='./%s_%d/' % (scn, k), start_date=W.START, resample_final=False,
                complevel=0, overwrite=True)


def scenario(recs, scn, b):
    w = dict(b['world'], circuits=b['circuits'])
    ids = Ids()
    save = disk(scn, 0, max(1, w['chunks'][0])) if w['disk'] else None

    def obs(s, ev, **kw):
        recs.append(dict(ev=ev, scn=scn, rows=[ids(x) for x in W.rows(s, w=w)], lens=len(W.lengths(s)), **kw))
    obs(run(W.build(w)), 'fresh', hist=w['hist'])
    s = W.build(w, save=save)
    first = True
    for a in w['hist']:
        with quiet():
            if a == 'reset':
                s.initialize_sim(build_simenv=first, reset_simenv=True)
            else:
                if first:
                    s.initialize_sim()
                s.start_sim()
                obs(s, 'run')
            first = False
    obs(run(W.build(w)), 'other')
    recs.append(dict(ev='end', scn=scn))
    shutil.rmtree('./%s_0' % scn, ignore_errors=True)


def jobs(g, tier):
    return [(scenario, '%s%03d' % (n, i), b) for n, behs in g.items() for i, b in enumerate(behs)]


if __name__ == '__main__':
    main(jobs, seconds=120)
