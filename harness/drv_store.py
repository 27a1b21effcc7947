"""What ends up in the result file, against the simulated rows in memory."""
import shutil
from mslab import *  # noqa: F401,F403
from mslab import ms, np, pd, Ids, fx, run, main
import world as W

U = 1e-5  # s, unit of times


def selection(o, n):
    """(python argument, record) for a generated selection on n cells (None: no grid)."""
    k = o['kind']
    if n is None and k not in ('all', 'none'):
        k = 'all'
    if k == 'all':
        return True, dict(kind=k)
    if k == 'none':
        return False, dict(kind=k)
    ok = lambda a: a if -n <= a < n else a % n  # noqa: E731
    if k == 'int':
        return ok(o['a']), dict(kind=k, a=ok(o['a']))
    if k == 'list':
        v = [ok(a) for a in o['l']]
        return (v if o['step'] == 1 else tuple(v)), dict(kind=k, l=v)
    a = o['a'] % n
    b = max(o['b'], a + 1)
    return slice(a, b, o['step']), dict(kind=k, a=a, b=b, step=o['step'])


def mem(p):
    out = {}
    for key, a in (('res', 'res'), ('dm', 'res_dm'), ('heating', 'res_dQ'), ('Pel', 'res_Pel'), ('Pgas', 'res_Pgas'), ('chp_state', '_chp_state')):
        if hasattr(p, a):
            v = np.asarray(getattr(p, a), dtype=float)
            out[key] = v.reshape(len(v), -1)
    return out


def same(a, b):
    return bool(a.shape == b.shape and (a.index == b.index).all() and np.array_equal(a.values, b.values))


def scenario(recs, scn, b):
    w = dict(b['world'], circuits=b['circuits'])
    st = b['st']
    start = pd.Timestamp('2020-01-01') + pd.Timedelta(seconds=st['off'], microseconds=3700)  # rows never on an interval's edge
    W.START = str(start)
    cs = W.calls(w)
    sels, i = {}, 0
    out = []
    for c in cs:
        if c[0] == 'part':
            n = c[3].get('grid_points')
            o = st['sel'][i % len(st['sel'])] if st['some'] else dict(kind='all')
            arg, rec = selection(o, n)
            sels[c[1]] = rec
            kw = dict(c[3])
            if rec['kind'] != 'all' or i % 2:
                kw['store_results'] = arg
            out.append((c[0], c[1], c[2], kw))
            i += 1
        else:
            out.append(c)
    d = './%s/' % scn
    dyn = any(c[0] == 'bc' and not isinstance(c[2], float) for c in cs) or any(c['kind'] == 'ts' for c in w['circuits'])
    s = W.env(w['tf'] / 4., save=dict(save_every_n_steps=st['n'], sim_name='s', path=d, start_date='infer' if st['infer'] and dyn else W.START,
                                      resample_final=bool(st['rs']), resample_freq='%dms' % st['freq'], complevel=st['comp'], overwrite=True), **W.settings(w))
    W.apply(s, out)
    run(s)
    if any(np.isnan(p.res).any() for p in s.parts.values()):
        recs.append(dict(ev='failed', scn=scn))  # the plant is unstable with this fixed step: see C12
        return
    rs = st['rs']
    ids = Ids()
    f = int(round(st['freq'] / 1000. / U)) if rs else 0
    off = (int(round(st['off'] / U)) + 370) % f if f else 0
    if f and any((fx(x, U) + off + 2) % f <= 4 for x in s.time_vec):
        recs.append(dict(ev='failed', scn=scn))  # a row on an interval's edge: rounding decides
        return
    recs.append(dict(ev='begin', scn=scn, f=f, off=off, t=[fx(x, U) for x in s.time_vec]))
    got = s.return_stored_data()
    path = s._disk_store['path']
    with pd.HDFStore(path, mode='r') as store:
        raw = {k: store[k].copy() for k in store.keys()}
    dct = ms.ut.load_sim_results(path, path='', multiindex=False)
    mi = {}
    if len(raw) > 1:  # anything stored
        mi = ms.ut.load_sim_results(path, path='')
        mi = mi['data'] if isinstance(mi, dict) else mi
    import os
    alt = ms.ut.load_sim_results(os.path.basename(path), path=os.path.dirname(path), multiindex=False)
    used = {'/sim_vecs'}
    for name, sel in sels.items():
        m = mem(s.parts[name])
        for key, v in m.items():
            k = '/%s/%s' % (name, key)
            used.add(k)
            r = dict(ev='table', scn=scn, part=name, key=key, sel=sel, n=v.shape[1], nc=m['res'].shape[1] if key in ('res', 'dm') else 0, there=k in raw, load=0, idx=[], mem=[], file=[])
            if k in raw:
                t = raw[k]
                r['idx'] = [fx((x - start).total_seconds(), U) for x in t.index]
                if rs:
                    sc = float(max(1e-4, np.abs(v).max() * 1e-5))
                    r['mem'] = [[fx(x, sc) for x in row] for row in v]
                    r['file'] = [[fx(x, sc) for x in row] for row in t.values]
                else:
                    r['mem'] = [[ids(float(x)) for x in row] for row in v]
                    r['file'] = [[ids(float(x)) for x in row] for row in t.values]
                try:
                    r['load'] = int(same(got[name][key], t)) + 2 * int(same(dct[name][key], t)) + 4 * int(same(mi[(name, key)], t)) + 8 * int(same(alt[name][key], t))
                except KeyError:
                    r['load'] = 0
            recs.append(r)
    sv = raw.get('/sim_vecs')
    ok = sv is not None and np.array_equal(sv['time'].values, s.time_vec) and np.array_equal(sv['timestep'].values, s.time_step_vec) \
        and same(dct['sim_vecs'], sv) and same(got['sim_vecs'], sv) \
        and np.array_equal(sv['solver_state'].values, s._solver_state)
    recs.append(dict(ev='end', scn=scn, vecs=bool(ok), idx=[fx((x - start).total_seconds(), U) for x in sv.index] if ok else [], extra=sorted(set(raw) - used), tmp=int(any(x.endswith('_tmp') for x in os.listdir(d)))))
    # selections that do not exist
    bad = []
    for j, a in enumerate((3, -4, [0, 3], [-4, 1], 'x', [1.5])):
        e = W.env(10., adaptive_steps=True)
        try:
            e.add_part(part=ms.ap.Pipe, name='p', length=1., grid_points=3, store_results=a, **W.gs())
            bad.append(j)
        except Exception:
            pass
    recs.append(dict(ev='refuse', scn=scn, accepted=bad))
    shutil.rmtree(d, ignore_errors=True)


def jobs(g, tier):
    return [(scenario, '%s%03d' % (n, i), b) for n, behs in g.items() for i, b in enumerate(behs)]


if __name__ == '__main__':
    main(jobs, seconds=90)
