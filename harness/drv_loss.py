"""Parts at rest or with a flow and equal temperatures everywhere: rates of
temperature change, from two rows of the results."""
from mslab import *  # noqa: F401,F403
from mslab import ms, np, fx, env, main, quiet, run
import net as N

H = 1e-5
ROWS = 12


def scenario(recs, scn, c):
    k, n = c['kind'], c['n']
    t = list(c['T'])
    flow = c['flow']
    if c['style'] == 'flat' or flow:
        t = [t[0]] * n
    elif c['style'] == 'sorted':
        t = sorted(t, reverse=True)
    elif c['style'] == 'step':
        a, b = max(t), min(t)
        t = [a] * c['cut'] + [b] * (n - c['cut'])
    T = np.array(t) / 8.
    mat = dict(carbon='carbon_steel', stainless='stainless_steel')[c['mat']]
    A = ms.ap
    g = dict(insulation_thickness=c['sins'] * 1e-4, insulation_lambda=c['lins'] * 1e-3, T_init=T, T_amb=c['amb'] / 8., material=mat,
             pipe_specs={'all': {'pipe_type': 'EN10255_' + c['type'], 'DN': c['dn']}})
    pu = dict(g, T_init=T[-1], length=1., grid_points=2, start_massflow=0., ctrl_required=False, const_val=0.)
    lim = dict(lower_limit=-10., upper_limit=10., maximum_flow=10.)
    s = env(ROWS * H, adaptive_steps=False, timestep=H)
    L = dict(length=n * c['dx'] * 1e-3, grid_points=n)
    f = flow / 1000.
    first, last = 'in', 'out'
    bcs = dict(BC_a=T[0], BC_b=T[-1])
    links = []
    side = None
    if k == 'pipe':
        s.add_part(part=A.Pipe, name='x', **L, **g)
    elif k == 'ppump':
        s.add_part(part=A.PipeWithPump, name='x', **L, **g, **dict(start_massflow=f, ctrl_required=False, const_val=f, **lim))
    elif k == 'heated':
        s.add_part(part=A.HeatedPipe, name='x', heat_spread='all', lower_limit=0., upper_limit=1000., **L, **g)
    elif k == 'pvalve':
        s.add_part(part=A.PipeWith3wValve, name='x', valve_location=1, start_portA_opening=1., lower_limit=0., upper_limit=1.,
                   ctrl_required=False, const_val=1., **L, **g)
        first, last, side = 'A', 'AB', 'B'
    elif k == 'branched':
        s.add_part(part=A.PipeBranched, name='x', new_ports=dict(y=[c['cut'], 'index']), **L, **g)
        side = 'y'
    else:
        d = c['d'] * 1e-4
        di = d - 2 * c['shell'] * 1e-4
        s.add_part(part=A.Tes, name='x', volume=np.pi / 4 * di ** 2 * L['length'], grid_points=n, outer_diameter=d, shell_thickness=c['shell'] * 1e-4, new_ports=None, **g)
    if k == 'ppump':
        links += [('x;' + last, 'BC;BC_b')]
    else:
        s.add_part(part=A.PipeWithPump, name='pu', **dict(pu, start_massflow=f, const_val=f, **lim))
        links += [('x;' + last, 'pu;in'), ('pu;out', 'BC;BC_b')]
    if k == 'heated':  # nothing to heat
        s.add_control(ms.ap.PID, name='ctl', actuator='x', process_CV_mode='direct', CV_saturation=(0., 10.), controlled_part='x', controlled_port=0,
                      reference_part='none', setpoint=-100., sub_controller=False, off_state=0., time_domain='discrete', deadtime=0.,
                      slope=(0, 0), invert=False, terms='P', loop_tuning='manual', Kp=1., anti_windup=1.)
    if side:
        ts = float(T[c['cut']]) if k == 'branched' else float(T[1])
        bcs['BC_c'] = bcs['BC_d'] = ts
        if k == 'branched':
            s.add_part(part=A.PipeWithPump, name='ps', **dict(pu, T_init=ts))
            links += [('x;' + side, 'ps;in'), ('ps;out', 'BC;BC_c')]
            del bcs['BC_d']
        else:
            links += [('x;' + side, 'BC;BC_c')]
            del bcs['BC_d']
    links.append(('BC;BC_a', 'x;' + first))
    for b, v in bcs.items():
        s.add_open_port(b, constant=True, temperature=float(v))
    for a, b in links:
        N.connect(s, a.replace('BC;', N.BC + ';'), b.replace('BC;', N.BC + ';'))
    run(s)
    p = s.parts['x']
    r = (np.ravel(p.res[-1]) - np.ravel(p.res[-2])) / H
    x = np.ravel(p.res[-1])
    fl = N.inflow(p, first)
    recs.append(dict(ev='rates', scn=scn, c=c, T=[fx(v, 1e-3) for v in x], r=[fx(v, 1e-9) for v in r], fl=fx(fl, 1e-3)))
    recs.append(dict(ev='end', scn=scn))


def jobs(g, tier):
    return [(scenario, 'l%04d' % i, b) for i, b in enumerate(g['lo'])]


if __name__ == '__main__':
    main(jobs)
