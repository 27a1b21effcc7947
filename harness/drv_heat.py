"""Heated parts with a plain twin: both see the same scripted temperatures and
flows, so the difference of their derivatives is the heat put into each cell."""
from mslab import *  # noqa: F401,F403
from mslab import ms, np, fx, fxv, env, run, main, gs
from sensor import add_sensor, sensor_class, still_class, box_step, TF
import net as N


def recorder(base, box, tape):
    """Logs (step, timestep, T, derivative) before it is overridden."""
    class Rec(base):
        def get_diff(self, timestep):
            T = np.array(self.T, copy=True)
            d = base.get_diff(self, timestep)
            tape.append((box_step(box), float(timestep), T, np.array(d, copy=True), N.capacity(dict(kind='pipe', n=T.size, length=200.), np.ravel(T))))
            return d
    return Rec


def scenario(recs, scn, b):
    hs = b['hs']
    script = [dict(rej=r['rej'], v=[40 * 1024 - u for u in r['u']], **{'t%d' % i: r['t'][i] for i in range(len(hs))}) for r in b['script']]
    s = env(10., **TF)
    add_sensor(s, script, T0=40.)
    tapes = {}
    for i, h in enumerate(hs):
        n = h['n']
        sc = [dict(rej=r['rej'], t=r['t%d' % i][:n]) for r in script]
        for kind in (h['kind'], 'twin'):
            nm = kind[0] + str(i)
            tape = tapes[nm] = []
            base = dict(heated=ms.ap.HeatedPipe, chp=ms.ap.CHPPlant, twin=ms.ap.Pipe)[kind]
            kw = dict(length=200., grid_points=n, **gs(T_init=60.))
            if kind != 'twin':
                kw.update(heat_spread=h['spread'], lower_limit=float(h['lo']), upper_limit=float(h['hi']))
                if h['spread'] != 'all':
                    kw.update(heated_cells=h['a'] if h['spread'] == 'single' else [h['a'], h['b']])
            if kind == 'chp':
                kw.update(power_electrical=5000., modulation_range=(.5, 1.), min_on_time=.1, min_off_time=.1, max_slope_el=1., lower_limit=0., upper_limit=1.,
                          connect_fluegas_hex=False, fluegas_flow=1.2, start_modulation=.75, chp_on_at_start=True)
            s.add_part(part=sensor_class(sc, [s], base=recorder(base, [s], tape), key='t', reject=False), name=nm, **kw)
            d = h['dm'] / 1024.
            px = 'p' + nm
            N.build(s, dict(parts={px: dict(kind='ppump', length=200., n=3, act=dict(start_massflow=d, ctrl_required=False, const_val=d))},
                            bcs={'BC_a' + nm: 20., 'BC_z' + nm: 20.},
                            links=[['BC;BC_a' + nm, px + ';in'], [px + ';out', nm + ';in'], [nm + ';out', 'BC;BC_z' + nm]]), wrap=still_class)
    for i, h in enumerate(hs):
        Kp = 1024. if h['kind'] == 'heated' else 1024 / 25000.
        s.add_control(ms.ap.PID, name='c%d' % i, actuator=h['kind'][0] + str(i), process_CV_mode='direct', CV_saturation=(-1e6, 1e6), off_state=0.,
                      controlled_part='sen', controlled_port=i, reference_part='none', setpoint=40., sub_controller=False, time_domain='continuous',
                      deadtime=0., slope=(0, 0), invert=False, terms='P', loop_tuning='manual', Kp=Kp, anti_windup=1.)
    run(s)
    rows = len(s.time_vec)
    recs.append(dict(ev='begin', scn=scn, hs=hs))
    sen = s.parts['sen'].res
    for i, h in enumerate(hs):
        A, B = tapes[h['kind'][0] + str(i)], tapes['t' + str(i)]
        if len(A) != len(B):
            raise RuntimeError('evaluations differ')
        p = s.parts[h['kind'][0] + str(i)]
        dts = np.diff(s.time_vec)
        for x, y in zip(A, B):
            n, dt = x[0], x[1]
            if (x[2] != y[2]).any() or n != y[0]:
                raise RuntimeError('twin differs')
            if h['kind'] == 'chp':
                if n >= rows or dt != dts[n - 1]:
                    continue  # rejected try: its power is not reported
                w = float(np.ravel(p.res_dQ[n])[0])
            else:
                w = 0 if n == 1 else (40. - sen[n - 1][i]) * 1024
            q = (x[3] - y[3]) * y[4]
            recs.append(dict(ev='eval', scn=scn, k=i + 1, n=n, w=int(round(w)), T=fxv(x[2], 1 / 1024.), q=[fx(v, 1 / 16.) for v in q]))
        if h['kind'] == 'heated':
            for n in range(2, rows):
                recs.append(dict(ev='step', scn=scn, k=i + 1, n=n, w=int(round((40. - sen[n - 1][i]) * 1024)), T=fxv(p.res[n - 1], 1 / 1024.),
                                 rep=fx(float(np.ravel(p.res_dQ[n])[0]), 1 / 16.)))
    recs.append(dict(ev='end', scn=scn, rows=rows))


def jobs(g, tier):
    return [(scenario, '%s%03d' % (n, i), b) for n, behs in g.items() for i, b in enumerate(behs)]


if __name__ == '__main__':
    main(jobs)
