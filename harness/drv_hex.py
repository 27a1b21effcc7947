"""Plate heat exchangers between pipes with scripted temperatures and flows,
together with a twin whose sides are swapped; and whole runs."""
from mslab import *  # noqa: F401,F403
from mslab import ms, np, fx, env, run, main
from sensor import add_sensor, sensor_class, TF
import net as N
import world as W
from drv_therm import heat

HOLD = 4
GRID = np.linspace(0., 105., 2101)
CP = ms.pf.cp_water(GRID.copy())
ENT = np.concatenate([[0.], np.cumsum((CP[1:] + CP[:-1]) / 2. * np.diff(GRID))])


def enth(t):
    return float(np.interp(t, GRID, ENT)) if 0. <= t <= 105. else float('nan')


def hex_kw(h, swap, T=20.):
    a = dict(W.HEXA, length=h['len'] / 8., width=h['wid'] / 10., channel_width=h['chan'] / 1000., T_init=T,
             pipe_specs={'all': {'pipe_type': 'EN10255_medium', 'DN': h['dn']}})
    m = h['max']
    if swap:
        m = dict(supply='demand', demand='supply')[m]
    return dict(a, HEx_type='plate_hex', passes=h['passes'], plates=h['plates'], max_channels=m)


def scenario(recs, scn, b):
    h, sit = b['hx'], b['sit']
    script = []
    for k in b['seq']:
        x = sit[k - 1]
        r = dict(v=[40 * 1024 - x['f'][0], 40 * 1024 - x['f'][1]])
        for i in range(4):
            r['t%d' % i] = [x['t'][i] * 128] * 3
        script += [r] * HOLD
    s = env(len(script), **TF)
    add_sensor(s, script, T0=40.)

    def scripted(name, key, kind, n):
        cls, kw = N.part_kw(name, dict(kind=kind, n=n, dn=h['dn'], length=60., act=dict(start_massflow=0., maximum_flow=1., lower_limit=-1., upper_limit=1.)))
        s.add_part(part=sensor_class([dict(t=r[key][:n]) for r in script], [s], base=cls, key='t', reject=False), name=name, **kw)
    for x, swap in (('h', False), ('m', True)):
        s.add_part(part=ms.ap.HeatExchanger, name=x, **hex_kw(h, swap))
        for j, (side, k0, rev) in enumerate((('sup', 0, h['ra']), ('dmd', 2, h['rb']))):
            sd = dict(sup='dmd', dmd='sup')[side] if swap else side
            ent, ext = ('_out', '_in') if rev else ('_in', '_out')
            p, q = 'p%s%d' % (x, j), 'q%s%d' % (x, j)
            scripted(p, 't%d' % k0, 'ppump', h['na'])
            scripted(q, 't%d' % (k0 + 1), 'pipe', h['nb'])
            bc = ['BC_%s%d%s' % (x, j, e) for e in 'az']
            N.build(s, dict(parts={}, bcs={bc[0]: 20., bc[1]: 30.},
                            links=[['BC;' + bc[0], p + ';in'], [p + ';out', x + ';' + sd + ent], [x + ';' + sd + ext, q + ';in'], [q + ';out', 'BC;' + bc[1]]]))
            s.add_control(ms.ap.PID, name='c' + p, actuator=p, process_CV_mode='direct', CV_saturation=(-10., 10.),
                          controlled_part='sen', controlled_port=j, reference_part='none', setpoint=40.,
                          sub_controller=False, off_state=0., time_domain='discrete', deadtime=0., slope=(0, 0),
                          invert=False, terms='P', loop_tuning='manual', Kp=1. / 64., anti_windup=1.)
    run(s)
    recs.append(dict(ev='begin', scn=scn))
    rows = len(s.time_vec)

    def shown(x, side, n, rev):
        v = np.ravel(s.parts[x].res[n])
        i = dict(sup=(0, 1), dmd=(2, 3))[side]
        p = [float(v[i[0]]), float(v[i[1]])]
        return p[::-1] if rev else p
    for n in range(HOLD - 1, rows, HOLD):
        # the situation has held for some steps: row n is the HOLD-th of its kind
        if n + 1 > len(script):
            break
        x = sit[b['seq'][n // HOLD] - 1]
        r = dict(ev='hex', scn=scn, n=n)
        for key, hx, side, j, rev in (('a', 'h', 'sup', 0, h['ra']), ('b', 'h', 'dmd', 1, h['rb']), ('ma', 'm', 'dmd', 0, h['ra']), ('mb', 'm', 'sup', 1, h['rb'])):
            nb = [float(s.parts['p%s%d' % (hx, j)].res[n][-1]), float(s.parts['q%s%d' % (hx, j)].res[n][0])]
            want = [x['t'][2 * j] / 8., x['t'][2 * j + 1] / 8.]
            if max(abs(nb[0] - want[0]), abs(nb[1] - want[1])) > 1e-9:
                raise RuntimeError('script not followed %d %r %r' % (n, nb, want))
            f = float(np.ravel(s.parts['p%s%d' % (hx, j)].res_dm[n])[0])
            if abs(f - x['f'][j] / 65536.) > 1e-9:
                raise RuntimeError('flow not followed %d %r %r' % (n, f, x['f']))
            p = shown(hx, side, n, rev)
            r[key] = dict(f=fx(f, 2. ** -20), p=[fx(v) for v in p], n=[fx(v) for v in nb], up=[fx(enth(v), 1e-2) for v in p], un=[fx(enth(v), 1e-2) for v in nb])
        recs.append(r)
    # two closed circuits exchanging heat
    x = next((y for y in sit if all(y['f'])), None)
    if x is not None:
        s = env(120., adaptive_steps=True, max_stepsize=2., min_stepsize=1e-4)
        s.add_part(part=ms.ap.HeatExchanger, name='h', **hex_kw(h, False, T=x['t'][0] / 8.))
        parts = dict()
        for j, side in enumerate(('sup', 'dmd')):
            f, t = x['f'][j] / 65536., x['t'][2 * j] / 8.
            rev = f < 0
            ent, ext = ('_out', '_in') if rev else ('_in', '_out')
            p, q = 'p%d' % j, 'q%d' % j
            parts[p] = dict(kind='ppump', n=3, T=t, T_amb=t, lam=1e-13, act=dict(start_massflow=abs(f), ctrl_required=False, const_val=abs(f)))
            parts[q] = dict(kind='pipe', n=4, T=t, T_amb=t, lam=1e-13, length=3.)
            N.build(s, dict(parts={k: parts[k] for k in (p, q)}, links=[[p + ';out', 'h;%s%s' % (side, ent)], ['h;%s%s' % (side, ext), q + ';in'], [q + ';out', p + ';in']]))
        run(s)
        e = np.concatenate([heat(s.parts[n], parts[n]) for n in parts])
        v = np.concatenate([np.ravel(s.parts[n].res) for n in parts] + [np.ravel(s.parts['h'].res[2:])])
        given = [x['t'][0] / 8., x['t'][2] / 8.]
        recs.append(dict(ev='run', scn=scn, rows=len(s.time_vec), lo=fx(min(given)), hi=fx(max(given)), min=fx(np.min(v)), max=fx(np.max(v)), tol=1000,
                         sum=fx(e.sum(), 1.), moved=fx(np.abs(e).sum(), 1.)))
    recs.append(dict(ev='end', scn=scn))


def field(h, x, swap):
    """Instantaneous heat flows in a HexNum whose cells have given temperatures."""
    gp = h['na'] + 2
    T = np.array([x['t'][(3 * i + 5 * c + i * c) % 4] / 8. + ((7 * i + 3 * c) % 5) for i in range(gp) for c in range(3)]).reshape(gp, 3)
    f = [min(8192, v) / 65536. for v in map(abs, x['f'])]
    s = env(3e-7, adaptive_steps=False, timestep=1e-7)
    s.add_part(part=ms.ap.HexNum, name='h', grid_points=gp, flow_type='counter', mass_base=1., mass_per_plate=.1, **hex_kw(h, swap, T=T[:, ::-1].copy() if swap else T.copy()))
    rev = [x['f'][0] < 0, x['f'][1] < 0]
    nb = {}
    for j, side in enumerate(('dmd', 'sup') if swap else ('sup', 'dmd')):
        p, q = 'p%d' % j, 'q%d' % j
        ent, ext = ('_out', '_in') if rev[j] else ('_in', '_out')
        # HexNum: supply runs from row 0 to the last row, demand the other way
        if swap:
            ent, ext = ext, ent
        top = (side + ent in ('sup_in', 'dmd_out'))
        te, tx = (T[0, 2 * j], T[-1, 2 * j]) if top else (T[-1, 2 * j], T[0, 2 * j])
        te, tx = float(te) + h['nb'], float(tx)
        N.build(s, dict(parts={p: dict(kind='ppump', n=3, T=te, T_amb=te, lam=1e-13, dn=h['dn'], act=dict(start_massflow=f[j], ctrl_required=False, const_val=f[j])),
                               q: dict(kind='pipe', n=2, T=tx, T_amb=tx, lam=1e-13, dn=h['dn'])},
                        bcs={'BC_a%d' % j: te, 'BC_z%d' % j: tx},
                        links=[['BC;BC_a%d' % j, p + ';in'], [p + ';out', 'h;' + side + ent], ['h;' + side + ext, q + ';in'], [q + ';out', 'BC;BC_z%d' % j]]))
        nb[j] = (top, te)
    run(s)
    hx = s.parts['h']
    x2, x3 = np.array(hx.res[2]), np.array(hx.res[3])
    cap = np.array(hx._mcp)
    cap[:, ::2] = hx.V_cell_fld * ms.pf.rho_water(x2[:, ::2].copy()) * ms.pf.cp_water(x2[:, ::2].copy())
    q = cap * (x3 - x2) / 1e-7
    if swap:
        x2, q, cap = x2[:, ::-1], q[:, ::-1], cap[:, ::-1]
    # advection per channel, exactly
    if h['passes'] == 1:
        n = [h['plates'] // 2, h['plates'] // 2 - 1]
        if h['max'] == 'demand':
            n = n[::-1]
    else:
        n = [(h['plates'] - 1) // (2 * h['passes'])] * 2
    adv = np.zeros_like(q)
    tot = []
    for j in (0, 1):
        c = 2 * j
        col = x2[:, c] if nb[j][0] else x2[::-1, c]
        t = np.concatenate([[nb[j][1]], col])
        u = ms.pf.cp_water(t.copy()) * t
        a_ = f[j] / n[j] * (u[:-1] - u[1:])
        adv[:, c] = a_ if nb[j][0] else a_[::-1]
        tot.append(n[j])
    return x2, q - adv, cap, tot, nb


def numeric(recs, scn, b):
    for x in b['sit'][:4]:
        T, q, cap, n, nb = field(b['hx'], x, False)
        mT, mq, mcap, mn, _ = field(b['hx'], x, True)
        recs.append(dict(ev='num', scn=scn, T=[[fx(v) for v in r] for r in T], q=[[fx(v, 1e-4) for v in r] for r in q], cap=[[fx(v, 1.) for v in r] for r in cap],
                         mq=[[fx(v, 1e-4) for v in r] for r in mq], n=n,
                         nb=[[1 if nb[j][0] else len(T), 2 * j + 1, fx(nb[j][1])] for j in (0, 1)]))


KNOWN = dict(passes=1, plates=10, max='supply', len=4, wid=1, chan=2, ra=False, rb=False, na=3, nb=3, dn='DN25')


def jobs(g, tier):
    beh = [b for behs in g.values() for b in behs]
    num = [b for b in beh if b['hx']['passes'] > 1]
    return [(numeric, 'kn000', dict(hx=KNOWN, sit=[dict(f=[128, 64], t=[480, 0, 160, 0])]))] + \
        [(numeric, 'num%03d' % i, b) for i, b in enumerate(num)] + [(scenario, '%s%03d' % (n, i), b) for n, behs in g.items() for i, b in enumerate(behs)]


if __name__ == '__main__':
    main(jobs)
