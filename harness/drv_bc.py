"""Boundary time series of every target kind under scripted step sizes."""
from mslab import *  # noqa: F401,F403
from mslab import ms, np, pd, fx, env, run, main, gs, connect, BC, quiet
from sensor import add_sensor, still_class, box_step, TF
import net as N

RAW = dict(port=8., portlate=8., ppump=4096., pump=4096., pvalve=1024., sp=8., amb=8.)
L = dict(length=5000., n=3)


def amb_class(seen, box):
    base = still_class(ms.ap.Pipe)

    class Amb(base):
        def get_diff(self, timestep):
            seen.setdefault(box_step([box]), float(np.ravel(self._T_amb)[0]))
            return base.get_diff(self, timestep)
    return Amb


def add_target(s, i, t, ser, seen):
    """Adds the parts; returns what is to be assigned after initialization."""
    n, k = 't%d' % i, t['kind']
    const = dict(start_massflow=1 / 16., ctrl_required=False, const_val=1 / 16.)
    bc = {}
    late = None
    if k in ('port', 'portlate'):
        # the pump is passed by the boundary value without delay
        pl = dict(parts={n: dict(kind='pump', act=dict(start_massflow=1 / 16., no_control=True, dm_const=1 / 16.)), n + 'y': dict(kind='pipe', **L)},
                  links=[['BC;BC_%sa' % n, n + ';in'], [n + ';out', n + 'y;in'], [n + 'y;out', 'BC;BC_%sz' % n]])
        if k == 'port':
            bc['BC_%sa' % n] = ser
        else:
            late = dict(open_port='BC_%sa' % n)
    elif k == 'ppump':
        pl = dict(parts={n: dict(kind='ppump', act=dict(start_massflow=0., ctrl_required=False, time_series=ser), **L)},
                  links=[['BC;BC_%sa' % n, n + ';in'], [n + ';out', 'BC;BC_%sz' % n]])
    elif k == 'pump':
        pl = dict(parts={n: dict(kind='pump', act=dict(start_massflow=0., no_control=True, time_series=ser)), n + 'x': dict(kind='pipe', **L), n + 'y': dict(kind='pipe', **L)},
                  links=[['BC;BC_%sa' % n, n + 'x;in'], [n + 'x;out', n + ';in'], [n + ';out', n + 'y;in'], [n + 'y;out', 'BC;BC_%sz' % n]])
    elif k == 'pvalve':
        pl = dict(parts={n + 'x': dict(kind='ppump', act=const, **L), n: dict(kind='pvalve', loc=1, act=dict(start_portA_opening=.5, ctrl_required=False, time_series=ser), **L)},
                  links=[['BC;BC_%sa' % n, n + 'x;in'], [n + 'x;out', n + ';AB'], [n + ';A', 'BC;BC_%sz' % n], [n + ';B', 'BC;BC_%sy' % n]])
    elif k == 'sp':
        pl = dict(parts={n: dict(kind='ppump', act=dict(start_massflow=0., lower_limit=-10., upper_limit=10., maximum_flow=10.), **L)},
                  links=[['BC;BC_%sa' % n, n + ';in'], [n + ';out', 'BC;BC_%sz' % n]])
        late = dict(control='c%d' % i)
    else:
        pl = dict(parts={n + 'x': dict(kind='ppump', act=const, **L), n: dict(kind='pipe', **L)},
                  links=[['BC;BC_%sa' % n, n + 'x;in'], [n + 'x;out', n + ';in'], [n + ';out', 'BC;BC_%sz' % n]])
        late = dict(part=n, variable_name='_T_amb', array_index=0)
    pl['bcs'] = {x.split(';')[1]: 20. for l in pl['links'] for x in l if x.startswith('BC;')}
    pl['bcs'].update(bc)

    def wrap(c):
        return still_class(c) if hasattr(c, 'get_diff') else c
    for name, o in pl['parts'].items():
        if k == 'amb' and name == n:
            s.add_part(part=amb_class(seen, s), name=n, **N.part_kw(n, o)[1])
        else:
            N.add(s, name, o, wrap)
    N.build(s, dict(parts={}, links=pl['links'], bcs=pl['bcs']))
    return late


def scenario(recs, scn, b):
    ts = 2. ** b['ts']
    D = b['D']
    dt = D / 64. / ts
    tgt = b['tgt']
    script = [dict(rej=r, v=[20 * 1024] * 2) for r in b['script']]
    tfr = 10. / ts
    s = env(tfr, **dict(TF, min_stepsize=TF['min_stepsize'] / ts, max_stepsize=TF['max_stepsize'] / ts))
    add_sensor(s, script, hmin=TF['min_stepsize'] / ts, T0=20.)
    ns = int(round(dt * 1e9))
    assert ns / 1e9 == dt
    num = int((tfr + 4. / ts) / dt) + 6
    idx = pd.date_range('2020-01-01 00:00:00', periods=num, freq='%dns' % ns)
    late, seen, sers = [], [{} for _ in tgt], []
    for i, t in enumerate(tgt):
        vals = np.resize(np.array(t['pat'], dtype=float), num) / RAW[t['kind']]
        ser = pd.Series(vals, index=idx)
        if t['df']:
            ser = ser.to_frame('v')
        sers.append(ser)
        late.append(add_target(s, i, t, ser, seen[i]))
    for i, t in enumerate(tgt):
        if t['kind'] == 'sp':
            s.add_control(ms.ap.PID, name='c%d' % i, actuator='t%d' % i, process_CV_mode='direct', CV_saturation=(-1e6, 1e6), off_state=0.,
                          controlled_part='sen', controlled_port=0, reference_part='none', setpoint=sers[i].values.ravel()[0], sub_controller=False,
                          time_domain='continuous', deadtime=0., slope=(0, 0), invert=False, terms='P', loop_tuning='manual', Kp=1 / 1024., anti_windup=1.)
    with quiet():
        s.initialize_sim(build_simenv=True)
        for x, ser in zip(late, sers):
            if x:
                s.assign_boundary_cond(ser, **x)
        s.start_sim()
    tv = np.asarray(s.time_vec)
    rows = len(tv)
    val = []
    for i, t in enumerate(tgt):
        p, k = s.parts['t%d' % i], t['kind']
        if k in ('port', 'portlate'):
            v = [p.res[n][1] for n in range(1, rows)]
        elif k in ('ppump', 'pump'):
            v = [np.ravel(p.res_dm[n])[0] for n in range(1, rows)]
        elif k == 'pvalve':
            v = [abs(p.res_dm[n][0]) * 16. for n in range(1, rows)]
        elif k == 'sp':
            # acting flow of step n+2 follows from the setpoint after step n
            v = [np.ravel(p.res_dm[n])[0] * 1024. + 20. for n in range(2, rows)]
        else:
            v = None
        val.append(v)
    return tv, rows, val, seen, s


def job(recs, scn, b):
    tv, rows, val, seen, s = scenario(recs, scn, b)
    ts = 2. ** b['ts']
    tgt = b['tgt']
    for i, t in enumerate(tgt):
        if t['kind'] == 'amb':
            # value at the first evaluation of each step
            val[i] = [seen[i][n] for n in range(1, rows)]
    recs.append(dict(ev='begin', scn=scn, tgt=tgt, D=b['D'], exact=int(bin(b['D']).count('1') == 1)))

    def o(n):
        return [fx(val[i][n] * RAW[t['kind']], 1 / 1024.) for i, t in enumerate(tgt)]
    recs.append(dict(ev='first', scn=scn, o=o(0)))
    dts = (tv[1:] - tv[:-1]) * 64 * ts
    for n in range(1, rows - 2):
        recs.append(dict(ev='step', scn=scn, n=n, dt=int(round(dts[n - 1])), o=o(n)))
    recs.append(dict(ev='end', scn=scn, rows=rows, tick=int(all(float(x).is_integer() for x in dts))))


def jobs(g, tier):
    return [(job, '%s%03d' % (n, i), b) for n, behs in g.items() for i, b in enumerate(behs)]


if __name__ == '__main__':
    main(jobs)
