"""CHP plants under scripted demands, temperatures and step sizes."""
from mslab import *  # noqa: F401,F403
from mslab import ms, np, fx, env, run, main, gs, connect, BC
from sensor import add_sensor, sensor_class, still_class, TF
import net as N

F, Q = 2.0 ** -20, 2.0 ** -14
E = np.e


# reference curves (documented fits of the plant)
def th(t):
    return 1. / (1. + (1. / 4.3715647889609857e-4 - 1.) * E ** (-8.61423130773867e-3 * t))


def lg(x, s, b0, k):
    return s - (s - b0) * k ** x


def el(t):
    return lg(t, 4.6611096613889975, -3.6832212021813398e-09, 0.9997484824090741)


def thp(m):
    return lg(m, 0.60275, 0.972917, 3.5990506789130166)


def gap(m):
    return lg(m, -1.17, 0.995828402366862, 1.9507547298681704)


def sh(t):
    return -1.2532286835042036e-09 * (t - 927.5198588530006) ** 3


def clip(x):
    return min(max(x, 0.), 1.)


def curves(recs, scn, b):
    full = min(range(1, 4000), key=lambda t: abs(th(t) - .999))
    n = full + 60
    recs.append(dict(ev='curves', scn=scn, th=[fx(clip(th(t)), F) for t in range(n)], el=[fx(clip(el(t)), F) for t in range(n)],
                     gas=[fx(clip(el(t) / 0.32733 + th(t) / 0.6334), F) for t in range(n)], sh=[fx(sh(t), F) for t in range(930)], full=full))


def scenario(recs, scn, b):
    c = b['cfg']
    ts = 2. ** c['ts']
    tick = 1 / 64. / ts
    script = [dict(rej=r['rej'], v=[40 * 1024 - r['u']] * 2, c=[x * 1024 for x in r['v']]) for r in b['script']]
    s = env((40. if c['prof'] else 25.) / ts, **dict(TF, min_stepsize=TF['min_stepsize'] / ts, max_stepsize=TF['max_stepsize'] / ts))
    add_sensor(s, script, hmin=TF['min_stepsize'] / ts, T0=40.)
    T0 = 60.
    s.add_part(part=sensor_class(script, [s], base=ms.ap.CHPPlant, key='c', reject=False), name='chp', length=5000., grid_points=3,
               power_electrical=float(c['pel']), p2h_ratio=c['p2h'] / 1e6, eta_el=c['eta'] / 1e6, modulation_range=(c['lo'] / 1024., c['up'] / 1024.),
               max_slope_el=c['slope'] / 16384. / tick, min_on_time=c['minon'] * tick, min_off_time=c['minoff'] * tick,
               heat_spread='all', lower_limit=0., upper_limit=1., connect_fluegas_hex=False, fluegas_flow=1.2,
               start_modulation=c['start'] / 1024., chp_on_at_start=bool(c['on']), **gs(T_init=T0))
    N.build(s, dict(parts={'px': dict(kind='ppump', length=5000., n=3, act=dict(start_massflow=0.0, ctrl_required=False, const_val=0.0))},
                    bcs={'BC_pa': 20., 'BC_pz': 20.}, links=[['BC;BC_pa', 'px;in'], ['px;out', 'chp;in'], ['chp;out', 'BC;BC_pz']]), wrap=still_class)
    s.add_control(ms.ap.PID, name='c', actuator='chp', process_CV_mode='direct', CV_saturation=(-1e6, 1e6), off_state=0., controlled_part='sen',
                  controlled_port=0, reference_part='none', setpoint=40., sub_controller=False, time_domain='continuous', deadtime=0., slope=(0, 0),
                  invert=False, terms='P', loop_tuning='manual', Kp=1., anti_windup=1.)
    run(s)
    tv = np.asarray(s.time_vec)
    p = s.parts['chp']
    rows = len(tv)
    P = float(c['pel'])

    def hot(n):
        return dict(hot=int(p.res[n][0] > 75.), emrg=int((p.res[n] > 110.).any()))
    cfg = dict(lo=c['lo'] * 16, up=c['up'] * 16, slope=c['slope'], minon=c['minon'], minoff=c['minoff'], maxexc=int(round(120. / tick)), on=c['on'],
               start=c['start'] * 16, tick8=int(round(8 * tick)),
               thq=[fx(thp(i / 64.) / thp(1.) / (c['p2h'] / 1e6), Q) for i in range(66)],
               gsq=[fx(gap(i / 64.) / gap(1.) / (c['eta'] / 1e6), Q) for i in range(66)])
    recs.append(dict(ev='begin', scn=scn, cfg=cfg, **hot(0)))
    for n in range(1, rows):
        recs.append(dict(ev='step', scn=scn, n=n, dt=int(round((tv[n] - tv[n - 1]) / tick)), u=int(round(max(40. - s.parts['sen'].res[n][0], 0.) * 16384)),
                         m=fx(float(np.ravel(p._chp_state[n])[0]), Q), pel=fx(float(np.ravel(p.res_Pel[n])[0]) / P, Q),
                         gas=fx(float(np.ravel(p.res_Pgas[n])[0]) / P, Q), q=fx(float(np.ravel(p.res_dQ[n])[0]) / P, Q), **hot(n)))
    recs.append(dict(ev='end', scn=scn, rows=rows, tick=int(all(float((tv[n] - tv[n - 1]) / tick).is_integer() for n in range(1, rows)))))


def jobs(g, tier):
    return [(curves, 'curves', None)] + [(scenario, '%s%03d' % (n, i), b) for n, behs in g.items() for i, b in enumerate(behs)]


if __name__ == '__main__':
    main(jobs)
