"""Plate heat exchangers of generated geometry between pump pipes of given
temperatures: the heat they transfer."""
from mslab import *  # noqa: F401,F403
from mslab import ms, np, fx, env, run, main
import net as N
import world as W

RHO = dict(carbon=7850., stainless=7900.)


def hex_kw(h):
    u, v = 1e-5, 1e-6
    L, w, r, chan, s = h['L'] * u, h['W'] * u, h['corner'] * u, h['chan'] * v, h['thick'] * v
    a = dict(W.HEXA, HEx_type='plate_hex', passes=h['passes'], plates=h['plates'], max_channels=h['max'],
             material=h['mat'] + '_steel', length=L, width=w, port_diameter=h['dport'] * u, corner_radius=r)
    for k in ('channel_width', 'plate_thickness'):
        del a[k]
    sheet = L * w - (4. - np.pi) * r ** 2
    area = h['area'] * 1e-6 or sheet - np.pi * (h['dport'] * u) ** 2
    if h['area']:
        a['A_plate'] = h['area'] * 1e-6
    if h['cross']:
        a['channel_area'] = h['cross'] * 1e-8
    if h['corr']:
        a['Reynolds_correction'] = h['corr']
    g = h['given']
    if g in ('width', 'depth'):
        a['channel_width'] = chan
    if g != 'depth' and g != 'massthin':
        a['plate_thickness'] = s
    if g in ('depth', 'mass', 'massthin'):
        a['depth_per_plate'] = chan + s
    if g == 'volume':
        a['V_channel'] = chan * sheet
    if g in ('mass', 'massthin'):
        a['mass_per_plate'] = s * RHO[h['mat']] * (area + (chan + s) * (2 * L + 2 * w - 8 * r + 2 * np.pi * r))
    return a


def scenario(recs, scn, b):
    h = b['hx']
    s = env(4e-5, adaptive_steps=False, timestep=1e-5)
    names = []
    for i, x in enumerate(b['sit']):
        hn = 'h%d' % i
        s.add_part(part=ms.ap.HeatExchanger, name=hn, **dict(hex_kw(h), T_init=x['t'][0] / 8.))
        for j, side in enumerate(('sup', 'dmd')):
            ent, ext = ('_out', '_in') if h['rev'][j] else ('_in', '_out')
            f, te, tx = x['f'][j] / 65536., x['t'][2 * j] / 8., x['t'][2 * j + 1] / 8.
            p, q, c, d = ('%s%d%d' % (k, i, j) for k in 'pqcd')
            N.build(s, dict(parts={p: dict(kind='ppump', n=2, T=te, T_amb=te, lam=1e-13, act=dict(start_massflow=f, ctrl_required=False, const_val=f)),
                                   q: dict(kind='pipe', n=2, T=tx, T_amb=tx, lam=1e-13)},
                            bcs={'BC_' + c: te, 'BC_' + d: tx},
                            links=[['BC;BC_' + c, p + ';in'], [p + ';out', hn + ';' + side + ent], [hn + ';' + side + ext, q + ';in'], [q + ';out', 'BC;BC_' + d]]))
    run(s)
    for i, x in enumerate(b['sit']):
        o = np.ravel(s.parts['h%d' % i].res[-1])
        r = dict(ev='ntu', scn=scn, h=h)
        for j, k in enumerate('ab'):
            f = float(np.ravel(s.parts['p%d%d' % (i, j)].res_dm[-1])[0])
            if abs(f - x['f'][j] / 65536.) > 1e-9:
                raise RuntimeError('flow not followed')
            # the temperatures the exchanger saw: those of the row before
            e, z = float(np.ravel(s.parts['p%d%d' % (i, j)].res[-2])[-1]), float(np.ravel(s.parts['q%d%d' % (i, j)].res[-2])[0])
            if max(abs(e - x['t'][2 * j] / 8.), abs(z - x['t'][2 * j + 1] / 8.)) > 1e-2:
                raise RuntimeError('temperature not followed')
            r[k] = dict(f=fx(f, 2. ** -20), n=[fx(e, 1e-3), fx(z, 1e-3)], out=fx(o[2 * j + (0 if h['rev'][j] else 1)], 1e-3))
        recs.append(r)
    recs.append(dict(ev='end', scn=scn))


def jobs(g, tier):
    return [(scenario, 'n%04d' % i, b) for i, b in enumerate(g['nt'])]


if __name__ == '__main__':
    main(jobs)
