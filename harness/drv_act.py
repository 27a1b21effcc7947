"""Controlled actuators of every kind on scripted demands."""
from mslab import *  # noqa: F401,F403
from mslab import ms, np, fx, env, run, main, gs, connect, BC
from sensor import add_sensor, still_class, TF
import net as N

UV = 2.0 ** -20


def add_act(s, i, a):
    lim = dict(lower_limit=a['lo'] / 1024., upper_limit=a['hi'] / 1024.)
    st = a['start'] / 1024.
    n, k = 'a%d' % i, a['kind']
    const = dict(start_massflow=1 / 16., ctrl_required=False, const_val=1 / 16.)
    L = dict(length=50., n=3)
    if k == 'ppump':
        pl = dict(parts={n: dict(kind='ppump', act=dict(start_massflow=max(st, 0.), maximum_flow=a['maxi'] / 1024., **lim), **L)},
                  links=[['BC;BC_%sa' % n, n + ';in'], [n + ';out', 'BC;BC_%sz' % n]])
        a['start'] = max(a['start'], 0)
    elif k == 'pump':
        pl = dict(parts={n: dict(kind='pump', act=dict(start_massflow=st, **lim)), n + 'x': dict(kind='pipe', **L), n + 'y': dict(kind='pipe', **L)},
                  links=[['BC;BC_%sa' % n, n + 'x;in'], [n + 'x;out', n + ';in'], [n + ';out', n + 'y;in'], [n + 'y;out', 'BC;BC_%sz' % n]])
    elif k == 'pvalve':
        pl = dict(parts={n + 'x': dict(kind='ppump', act=const, **L), n: dict(kind='pvalve', loc=1, act=dict(start_portA_opening=st, **lim), **L)},
                  links=[['BC;BC_%sa' % n, n + 'x;in'], [n + 'x;out', n + ';AB'], [n + ';A', 'BC;BC_%sz' % n], [n + ';B', 'BC;BC_%sy' % n]])
    elif k == 'mv':
        pl = dict(parts={n + 'x': dict(kind='ppump', act=const, **L), n: dict(kind='split', act=dict(port_A_init=st, **lim)),
                         n + 'y': dict(kind='pipe', **L), n + 'z': dict(kind='pipe', **L)},
                  links=[['BC;BC_%sa' % n, n + 'x;in'], [n + 'x;out', n + ';AB'], [n + ';A', n + 'y;in'], [n + 'y;out', 'BC;BC_%sz' % n],
                         [n + ';B', n + 'z;in'], [n + 'z;out', 'BC;BC_%sy' % n]])
    else:
        hl = {x: y * 1000. for x, y in lim.items()}
        pl = dict(parts={n + 'x': dict(kind='ppump', act=const, **L), n: dict(kind='heated', act=dict(heat_spread='all', **hl), **L)},
                  links=[['BC;BC_%sa' % n, n + 'x;in'], [n + 'x;out', n + ';in'], [n + ';out', 'BC;BC_%sz' % n]])
        a['start'] = 0
    pl['bcs'] = {x.split(';')[1]: 20. for l in pl['links'] for x in l if x.startswith('BC;')}
    N.build(s, pl, wrap=lambda c: still_class(c) if hasattr(c, 'get_diff') else c)


def scenario(recs, scn, b):
    acts = [dict(a) for a in b['acts']]
    script = [dict(rej=0, v=[40 * 1024 - x for x in row]) for row in b['script']]
    s = env(30., **TF)
    seen = {}

    def probe(n):
        out = []
        for i, a in enumerate(acts):
            p = s.parts['a%d' % i]
            if a['kind'] in ('pvalve', 'mv'):
                f = {q: N.inflow(p, q) for q in ('A', 'B', 'AB')}
                out.append([fx(-f['A'] / f['AB'], UV), fx(-f['B'] / f['AB'], UV)])
            elif a['kind'] == 'heat':
                out.append(None)
            else:
                out.append([fx(N.inflow(p, 'in'), UV)])
        seen[n] = out
    add_sensor(s, script, probe=probe)
    for i, a in enumerate(acts):
        add_act(s, i, a)
    for i, a in enumerate(acts):
        sc = 1000. if a['kind'] == 'heat' else 1.
        kw = dict(name='c%d' % i, actuator='a%d' % i, process_CV_mode='direct' if a['mode'] == 'direct' else 'part_specific',
                  controlled_part='sen', controlled_port=i, reference_part='none', setpoint=40., sub_controller=False,
                  time_domain='discrete', deadtime=0., slope=(0, 0), invert=bool(a['inv']))
        if a['law'] == 'P':
            s.add_control(ms.ap.PID, CV_saturation=(-1e6, 1e6), off_state=0., terms='P', loop_tuning='manual', Kp=sc, anti_windup=1., **kw)
        else:
            s.add_control(ms.ap.BangBang, CV_saturation=(-1e6, sc * a['on'] / 1024.), off_state=sc * a['off'] / 1024., hysteresis=0., **kw)
    run(s)
    recs.append(dict(ev='begin', scn=scn, acts=acts))
    rows = len(s.time_vec)
    T = s.parts['sen'].res
    for n in range(1, rows):
        o = []
        for i, a in enumerate(acts):
            if a['kind'] == 'heat':
                o.append([fx(float(np.ravel(s.parts['a%d' % i].res_dQ[n])[0]) / 1000., UV)])
            else:
                o.append(seen[n][i])
                if a['kind'] in ('ppump', 'pump'):  # recorded flow agrees
                    rec = fx(float(np.ravel(s.parts['a%d' % i].res_dm[n])[0]), UV)
                    if rec != o[-1][0]:
                        o[-1] = [rec + 10 ** 9]
        recs.append(dict(ev='step', scn=scn, n=n, x=[40 * 1024 - int(round(v * 1024)) for v in T[n][:len(acts)]], o=o))
    recs.append(dict(ev='end', scn=scn, rows=rows))


def jobs(g, tier):
    return [(scenario, '%s%03d' % (n, i), b) for n, behs in g.items() for i, b in enumerate(behs)]


if __name__ == '__main__':
    main(jobs)
