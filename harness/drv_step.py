"""Step control and Heun integration: records every derivative evaluation,
every accepted row and the step sizes of real runs."""
from mslab import *  # noqa: F401,F403
from mslab import ms, np, pd, fx, fxv, Ids, env, gs, connect, BC, run, recording, main
from sensor import still_class

HMIN = dict(tiny=1e-8, low=0.02, mid=0.3)
HMAX = dict(huge=100.0, two=2.0, sub=0.6)
ERR = dict(zero=0.0, nil=0.0, none=0.0, small=1e-3, half=0.4, near=0.97, over=1.04, bad=4.0, awful=200.0)
AREA = None


def scripted(base, script, rtol, atol):
    """A part whose derivatives produce the scripted errors."""

    class S(base):
        def get_diff(self, timestep):
            super().get_diff(timestep)  # flows, results
            if not hasattr(self, '_s_n'):
                self._s_n = 0
                self._s_out = np.zeros_like(self.T)
            k, stage = divmod(self._s_n, 2)
            self._s_n += 1
            e = ERR[script[k]] if k < len(script) else 0.0
            ramp = np.linspace(0.5, 1.5, self.T.size)
            sgn = np.where(self.T > 45.0, -1.0, 1.0)
            if stage == 0:
                self._s_out[:] = 1e-3 * ramp * sgn
                self._s_g = self._s_out.copy()
            else:
                self._s_out[:] = self._s_g + 2 / timestep * e * (self.T * rtol + atol) * sgn * ramp / np.sqrt((ramp ** 2).mean())
            return self._s_out

    S.__name__ = base.__name__
    return S


def series(vals, dt):
    idx = pd.date_range('2020-01-01', periods=len(vals), freq='%dms' % int(dt * 1000))
    return pd.Series(np.array(vals, dtype=float), index=idx)


def build(s, b, tape):
    c = b['cfg']
    box = [s]
    cls = lambda x: recording(x, tape, box)
    links = []
    loc = {}  # port -> cell
    if c['kind'] == 'script':
        S = scripted(ms.ap.PipeWithPump, b['script'], c['rtol'] / 1e4, 1e-6)
        s.add_part(part=cls(S), name='p', length=1., grid_points=4, start_massflow=0., ctrl_required=False,
                   const_val=0., **gs(T_init=np.linspace(30., 60., 4), lam=1e-4))
        s.add_part(part=cls(still_class(ms.ap.Pipe) if c['calm'] else ms.ap.Pipe), name='q', length=1., grid_points=3, **gs(T_init=40., lam=1e-4))
        chain = [BC + ';BC_a', 'p;in', 'p;out', 'q;in', 'q;out', BC + ';BC_z']
        loc.update({'p;in': 0, 'p;out': -1, 'q;in': 0, 'q;out': -1})
    else:
        vals = [q / 1000. for q in b['script']]
        ts = series(vals, 3.0)
        k = c['plant']
        pump = dict(start_massflow=vals[0], ctrl_required=False, time_series=ts) if k != 'still' else dict(
            start_massflow=0.0, ctrl_required=False, const_val=0.0)
        g = gs(T_init=35., lam=1e-4)
        if k in ('chain', 'still'):
            s.add_part(part=cls(ms.ap.PipeWithPump), name='p', length=1., grid_points=5, **pump,
                       **gs(T_init=np.linspace(30., 60., 5), lam=1e-4))
            s.add_part(part=cls(ms.ap.Pipe), name='q', length=.8, grid_points=4, **g)
            chain = [BC + ';BC_a', 'p;in', 'p;out', 'q;in', 'q;out', BC + ';BC_z']
            loc.update({'p;in': 0, 'p;out': -1, 'q;in': 0, 'q;out': -1})
        elif k == 'two':
            # two independent networks
            s.add_part(part=cls(ms.ap.PipeWithPump), name='p', length=1., grid_points=5, **pump, **g)
            s.add_part(part=cls(ms.ap.PipeWithPump), name='q', length=.5, grid_points=4, start_massflow=.03,
                       ctrl_required=False, const_val=.03, **gs(T_init=70., lam=1e-4))
            chain = [BC + ';BC_a', 'p;in', 'p;out', BC + ';BC_z', BC + ';BC_a2', 'q;in', 'q;out', BC + ';BC_z2']
            loc.update({'p;in': 0, 'p;out': -1, 'q;in': 0, 'q;out': -1})
        elif k == 'valve':
            s.add_part(part=cls(ms.ap.PipeWith3wValve), name='v', length=1., grid_points=5, valve_location=2,
                       start_portA_opening=.3, ctrl_required=False, const_val=.3, lower_limit=0., upper_limit=1., **g)
            s.add_part(part=cls(ms.ap.PipeWithPump), name='p', length=.7, grid_points=4, **pump, **g)
            chain = [BC + ';BC_a', 'v;A', BC + ';BC_b', 'v;B', 'v;AB', 'p;in', 'p;out', BC + ';BC_z']
            loc.update({'p;in': 0, 'p;out': -1, 'v;A': 0, 'v;B': 2, 'v;AB': -1})
        elif k == 'tes':
            s.add_part(part=cls(ms.ap.Tes), name='t', volume=.02, grid_points=5, outer_diameter=.2, shell_thickness=5e-3,
                       new_ports=None, **gs(T_init=np.linspace(30., 60., 5), lam=1e-4))
            s.add_part(part=cls(ms.ap.PipeWithPump), name='p', length=.7, grid_points=4, **pump, **g)
            chain = [BC + ';BC_a', 't;in', 't;out', 'p;in', 'p;out', BC + ';BC_z']
            loc.update({'p;in': 0, 'p;out': -1, 't;in': 0, 't;out': -1})
    temps = dict(BC_a=80., BC_z=15., BC_b=20., BC_a2=10., BC_z2=55.)
    for n in dict.fromkeys(x.split(';')[1] for x in chain if x.startswith(BC)):
        s.add_open_port(n, constant=True, temperature=temps[n])
    for a, b2 in zip(chain[::2], chain[1::2]):
        connect(s, a, b2)
        links.append((a, b2))
    return loc, links, temps


def scenario(recs, scn, b):
    c = b['cfg']
    tape = []
    hmin, hmax = HMIN[c['hmin']], HMAX[c['hmax']]
    rtol, atol = c['rtol'] / 1e4, 1e-6
    if c['adaptive']:
        tf = dict(adaptive_steps=True, min_stepsize=hmin, max_stepsize=hmax, rtol=rtol, atol=atol,
                  max_factor=c['maxf'] / 1e3, min_factor=c['minf'] / 1e3, safety_factor=c['safe'] / 1e3,
                  factor_recovery=c['rec'])
        if hmin > 0.1 and c['kind'] == 'plant':
            tf['min_stepsize'] = hmin = 1e-3
    else:
        # constant steps: below the stability limit of the fastest flow
        step = 0.1 if c['kind'] == 'plant' else HMAX[c['hmax']] if c['hmax'] != 'huge' else 0.25
        tf = dict(adaptive_steps=False, timestep=step)
        hmin = hmax = step
    timeframe = 8.0 if c['kind'] == 'script' else 20.0 if c['adaptive'] else 4.0
    s = env(timeframe, **tf)
    loc, links, temps = build(s, b, tape)
    run(s)
    parts = list(dict.fromkeys(t[0] for t in tape))
    recs.append(dict(ev='begin', scn=scn, minf=c['minf'] * 1000, maxf=c['maxf'] * 1000, rec=c['rec'],
                     adaptive=int(c['adaptive']), h0=fx(min(max(1.0, hmin), hmax) if c['adaptive'] else hmin),
                     script=int(c['kind'] == 'script')))
    hid, tid = Ids(), Ids()
    # blocks of simultaneous evaluations
    blocks = []
    for name, n, h, T, d, tp in tape:
        if not blocks or name in blocks[-1]['p'] or blocks[-1]['h'] != h or blocks[-1]['n'] != n:
            blocks.append(dict(n=n, h=h, p={}))
        blocks[-1]['p'][name] = (T, d, tp)
    res = {p: s.parts[p].res for p in parts}
    tv = s.time_vec
    cells = sum(s.parts[p].T.size for p in parts)
    areas = {p: s.parts[p].V_cell if hasattr(s.parts[p], 'V_cell') else None for p in parts}
    row = 0
    prev = None

    def vec(blk, i):
        return np.concatenate([blk['p'][p][i].ravel() for p in parts if p in blk['p']])

    def rowrec(n):
        full = np.concatenate([res[p][n].ravel() for p in parts])
        recs.append(dict(ev='row', scn=scn, n=n, Tid=tid(full), T=fxv(full), t=fx(tv[n]),
                         h=fx(tv[n] - tv[n - 1]) if n else 0))

    rowrec(0)
    for blk in blocks:
        while row < blk['n'] - 1:
            row += 1
            rowrec(row)
            
        T, d, h = vec(blk, 0), vec(blk, 1), blk['h']
        full = len(blk['p']) == len(parts)
        r = dict(ev='eval', scn=scn, n=blk['n'], hid=hid(h), h=fx(h), full=int(full),
                 r=fx(h / prev['h']) if prev else 1000000, atmax=int(h == hmax), atmin=int(h == hmin),
                 above=int(h > hmax), below=int(h < hmin),
                 Tid=tid(T), did=tid(d), T=fxv(T), inc=fxv(h * d), d=fxv(d, 1e-5), e=0, sug=0, s2=0)
        if full and prev is not None and prev['full'] and prev['blk']['h'] == h and prev['blk']['n'] == blk['n']:
            d0 = vec(prev['blk'], 1)
            T0 = vec(prev['blk'], 0)
            new = T0 + h / 2 * (d0 + d)
            pred = T0 + h * d0
            err = np.sqrt((((new - pred) / (np.maximum(T0, new) * rtol + atol)) ** 2).sum() / cells)
            r.update(e=fx(err), z=int(err == 0.0),
                     sug=fx(c['safe'] / 1e3 * err ** (-1 / 3)) if err > 0 else 2000000000)
        # Courant number of the fastest part (density 1000 kg/m3)
        cour = 0.0
        row_n = min(blk['n'], len(tv) - 1)
        for p in parts:
            part = s.parts[p]
            V = float(np.min(np.asarray(part.V_cell)))
            cour = max(cour, float(np.abs(part.res_dm[row_n]).max()) * h / (1000. * V))
        r['cour'] = fx(cour)
        # values seen at the ports and values of the connected cells
        ports = []
        if full:
            for a, b2 in links:
                for own, oth in ((a, b2), (b2, a)):
                    if own.startswith(BC):
                        continue
                    po, pp = own.split(';')
                    names = list(s.parts[po].port_names)
                    tp = blk['p'][po][2]
                    if tp is None or tp.size != len(names):
                        continue
                    seen = float(tp.ravel()[names.index(pp)])
                    if oth.startswith(BC):
                        want = temps[oth.split(';')[1]]
                    else:
                        want = float(blk['p'][oth.split(';')[0]][0].ravel()[loc[oth]])
                    ports.append([fx(seen), fx(want)])
        r['ports'] = ports
        recs.append(r)
        prev = dict(h=h, blk=blk, full=full)
    while row < len(tv) - 1:
        row += 1
        rowrec(row)
    recs.append(dict(ev='end', scn=scn, rows=len(tv), tlast=fx(tv[-1]), tprev=fx(tv[-2]), tf=fx(timeframe)))


def jobs(g, tier):
    return [(scenario, 'step%03d-%s-%s' % (i, b['cfg']['kind'], b['cfg']['plant']), b) for i, b in enumerate(g['step'])]


if __name__ == '__main__':
    main(jobs)
