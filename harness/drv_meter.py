"""Meters on whole plants against the simulated rows they observe."""
import shutil
from mslab import *  # noqa: F401,F403
from mslab import ms, np, pd, Ids, fx, fxv, run, main
import world as W

U = 1e-5  # s
UNIT = dict(T_ff=1e-6, T_rf=1e-6, T_diff=1e-6, massflow_kgps=1e-6, volume_flow_m3ps=1e-9, flown_mass_kg=1e-6, flown_volume_m3=1e-9, flown_mass_pos_kg=1e-6,
            flown_volume_pos_m3=1e-9, heatflow_kW=1e-3, flown_heat_MJ=1e-6, flown_heat_kWh=1e-6, flown_heat_pos_MJ=1e-6, flown_heat_pos_kWh=1e-6)


def obs(p):
    T = np.asarray(p.res, dtype=float).reshape(len(p.res), -1)
    kind = {'HeatExchanger': 'hex'}.get(p.constr_type, 'part')
    return dict(kind=kind, T=[fxv(r, 1e-6) for r in T], dm=[fxv(r, 1e-6) for r in np.asarray(p.res_dm, dtype=float).reshape(len(T), -1)])


def scenario(recs, scn, b):
    w = dict(b['world'], circuits=b['circuits'])
    st = b['st']
    start = pd.Timestamp('2020-01-01') + pd.Timedelta(seconds=st['off'], microseconds=3700)  # rows never on an interval's edge
    W.START = str(start)
    disk = st['some'] and st['comp'] != 1
    rs = disk and st['rs']
    d = './%s/' % scn
    save = dict(save_every_n_steps=st['n'], sim_name='s', path=d, start_date=W.START, resample_final=bool(rs), resample_freq='%dms' % st['freq'],
                complevel=st['comp'], overwrite=True)
    w['tf'] = min(w['tf'], 40)
    s = W.env(w['tf'] / 4., save=save if disk else None, **W.settings(w))
    if not disk:
        s.set_disksaving(save=False, start_date=W.START)
    W.apply(s, W.calls(w))
    run(s)
    if any(np.isnan(p.res).any() or (abs(p.res) > 109).any() or (p.res < 0).any() for p in s.parts.values()):
        recs.append(dict(ev='failed', scn=scn))
        return
    f = int(round(st['freq'] / 1000. / U)) if rs else 0
    off = (int(round(st['off'] / U)) + 370) % f if f else 0
    if f and any((fx(x, U) + off + 2) % f <= 4 for x in s.time_vec):
        recs.append(dict(ev='failed', scn=scn))  # a row on an interval's edge: rounding decides
        return
    recs.append(dict(ev='begin', scn=scn, f=f, off=off, t=[fx(x, U) for x in s.time_vec]))
    ids = Ids()
    before = [ids(x) for x in W.rows(s, w=w)]
    m = ms.Meters(s, start_time=start)
    names = [c[1] for c in W.calls(w) if c[0] == 'part']
    rk = w['rank']
    todo = []
    pts = []
    for i, kind in enumerate(('temperature', 'massflow', 'volumeflow') * 2):
        n = names[rk[i] % len(names)]
        size = s.parts[n].T.size
        c = rk[i + 10] % size
        c = c - size if rk[i + 10] % 7 == 0 else c
        getattr(m, kind)(name='%s%d' % (kind, i), part=n, cell=c)
        pts.append((kind, '%s%d' % (kind, i), n, c))
    for i in range(3):
        a, z = names[rk[i + 20] % len(names)], names[rk[i + 30] % len(names)]
        ca, cz = rk[i + 24] % s.parts[a].T.size, rk[i + 34] % s.parts[z].T.size
        hot, full = bool(rk[i + 40] % 2), bool(rk[i + 44] % 2)
        nm = 'hm%d' % i
        m.heat_meter(name=nm, warm_part=a, warm_cell=ca, cold_part=z, cold_cell=cz, massflow_from_hot_part=hot, full_output=full)
        todo.append((nm, a, ca, z, cz, hot, full))
    stored = s.return_stored_data().get('meters', {}) if disk else None
    sdf, sdict = m.get_sensors_df(), m.get_sensors_dict()

    def common(kind, name, df):
        ok = all(np.array_equal(sdf[(kind, name, c)].values, df[c].values) for c in df.columns) and (sdf.index == df.index).all()
        dk = (not disk) or (name in stored and np.array_equal(stored[name].values, df.values) and (stored[name].index == df.index).all())
        return dict(idx=[fx((x - start).total_seconds(), U) for x in df.index], frame=bool(ok), disk=bool(dk))
    for kind, name, n, c in pts:
        df = sdict[kind][name]
        recs.append(dict(ev='point', scn=scn, kind=kind, cell=c, p=obs(s.parts[n]), got=fxv(df.iloc[:, 0].values, 1e-9 if kind == 'volumeflow' else 1e-6), **common(kind, name, df)))
    for nm, a, ca, z, cz, hot, full in todo:
        df = sdict['heat_meter'][nm]
        recs.append(dict(ev='heat', scn=scn, w=obs(s.parts[a]), wc=ca, c=obs(s.parts[z]), cc=cz, hot=hot, full=full,
                         got={k: fxv(df[k].values, UNIT[k]) for k in df.columns}, **common('heat_meter', nm, df)))
    bad = []
    n0 = names[0]
    for j, fn in enumerate((lambda: m.temperature(name='x', part=n0, cell=s.parts[n0].T.size), lambda: m.temperature(name='temperature0', part=n0, cell=0),
                            lambda: m.massflow(name='x', part='nobody', cell=0), lambda: m.volumeflow(name='x', part=n0, cell=1.5),
                            lambda: m.heat_meter(name='hm0', warm_part=n0, warm_cell=0, cold_part=n0, cold_cell=0),
                            lambda: m.heat_meter(name='x', warm_part=n0, warm_cell=0, cold_part=n0, cold_cell=99))):
        try:
            fn()
            bad.append(j)
        except Exception:
            pass
    recs.append(dict(ev='end', scn=scn, before=before, after=[ids(x) for x in W.rows(s, w=w)], accepted=bad))
    shutil.rmtree(d, ignore_errors=True)


def jobs(g, tier):
    return [(scenario, '%s%03d' % (n, i), b) for n, behs in g.items() for i, b in enumerate(behs)]


if __name__ == '__main__':
    main(jobs, seconds=90)
