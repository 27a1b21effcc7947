"""Controllers acting on scripted process values."""
from mslab import *  # noqa: F401,F403
from mslab import ms, np, fx, fxv, env, run, main
from sensor import add_sensor, add_actuator, TF, U

PI2 = 2 * np.pi


def kw_of(i, c, ctrls, ts=1.):
    """ts: all times are divided by ts (the law must not care)."""
    d = dict(name='c%d' % i, actuator='a%d' % i,
             process_CV_mode='direct' if c['mode'] == 'direct' else 'part_specific',
             CV_saturation=(c['sat'][0] / 1e6, c['sat'][1] / 1e6), controlled_part='sen', controlled_port=c['pvc'] - 1,
             off_state=c['off'] / 1e6, time_domain='discrete' if c['disc'] else 'continuous',
             deadtime=c['dead'] / 64. / ts, slope=(c['slope'][0] / 1e6 * ts, c['slope'][1] / 1e6 * ts), invert=bool(c['inv']))
    if c['ref']:
        d.update(reference_part='sen', reference_port=c['ref'] - 1, ref_SP_diff=c['diff'] / U)
    else:
        d.update(reference_part='none', setpoint=c['sp'] / U)
    if c['dep'] == 'none':
        d.update(sub_controller=False)
    else:
        d.update(sub_controller=True, dependency_kind=c['dep'])
        if c['master']:
            d.update(master_type='controller', master_controller='c%d' % (c['master'] - 1))
        else:
            d.update(master_type='part', master_part='sen', master_variable='T', master_variable_index=3)
    if c['kind'] == 'bb':
        d.update(hysteresis=c['hyst'] / U)
        return ms.ap.BangBang, d
    if c['kind'] == 'ts':
        d.update(on_sensor_part='sen', on_sensor_port=c['onc'] - 1, activation_value=c['act'] / U,
                 activation_sign=c['actsign'], deactivation_sign=c['deasign'])
        return ms.ap.TwoSensors, d
    t = ''.join(c['terms'])
    d.update(terms=t)
    if c['tuning'] == 'zn':
        d.update(loop_tuning='ziegler-nichols', Kp_crit=c['kp'] / 1e6, T_crit=float(c['tcrit']) / ts, rule=c['rule'])
    elif c['tuning'] == 'tune':
        d.update(loop_tuning='tune', Kp=c['kp'] / 1e6)
    else:
        d.update(loop_tuning='manual', Kp=c['kp'] / 1e6, Ki=c['ki'] / 1e6 * ts, Kd=c['kd'] / 1e6 / ts)
    if c['multset']:
        d.update(K_mult=[x / 100. for x in c['mult']])
    if 'D' in t:
        d.update(filter_derivative=bool(c['filt']))
        if c['filt']:
            d.update(cutoff_freq=ts / (PI2 * c['rc'] / 64.))
    d.update(anti_windup={'num': c['awu'] / 1e3 / (1. if c['disc'] else ts), 'inf': np.inf, 'auto': 'auto_%s' % (c['awu'] / 1e3 * (ts if c['disc'] else 1.))}[c['awumode']])
    return ms.ap.PID, d


def scenario(recs, scn, b):
    ctrls = b['ctrls']
    ts = float(b.get('tscale', 1))
    s = env(b.get('timeframe', 14.0) / ts, **dict(TF, min_stepsize=TF['min_stepsize'] / ts, max_stepsize=TF['max_stepsize'] / ts))
    add_sensor(s, b['script'], hmin=TF['min_stepsize'] / ts)
    for i, c in enumerate(ctrls):
        add_actuator(s, 'a%d' % i, maximum_flow=c['maxflow'] / 1e3, lower_limit=c['llim'] / 1e6, upper_limit=c['ulim'] / 1e6)
    for i, c in enumerate(ctrls):
        cls, kw = kw_of(i, c, ctrls, ts)
        s.add_control(cls, **kw)
    run(s)
    tv = np.asarray(s.time_vec)
    T = s.parts['sen'].res
    flows = [s.parts['a%d' % i].res_dm for i in range(len(ctrls))]
    cfgs = []
    for c in ctrls:
        c = dict(c)
        c['filt'] = c['filt'] if 'D' in c['terms'] else 0
        cfgs.append(c)
    recs.append(dict(ev='begin', scn=scn, ctrls=cfgs))
    for n in range(1, len(tv) - 1):
        recs.append(dict(ev='step', scn=scn, n=n, dt=int(round((tv[n] - tv[n - 1]) * 64 * ts)),
                         v=[int(round(x * U)) for x in T[n]],
                         exact=int(all(float(x * U).is_integer() for x in T[n]) and float((tv[n] - tv[n - 1]) * 64 * ts).is_integer()),
                         f=[fx(float(np.ravel(fl[n + 1])[0])) for fl in flows]))
    recs.append(dict(ev='end', scn=scn, rows=len(tv), want=len(b['script'])))


def jobs(g, tier):
    out = []
    for name, behs in g.items():
        for i, b in enumerate(behs):
            out.append((scenario, '%s%03d' % (name, i), b))
    return out


if __name__ == '__main__':
    main(jobs)
