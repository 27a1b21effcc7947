"""All variants of the property functions at generated temperatures."""
from mslab import *  # noqa: F401,F403
from mslab import ms, np, fx, main
import math

MODS = [m for m in (getattr(ms, 'pf', None), getattr(ms, 'matprops', None), getattr(ms, 'dimless_no', None)) if m is not None]
# quantity: (unit of the reference, returning functions, in-place functions, fine unit)
FUN = dict(
    rho=(1e-2, ['rho_water'], ['get_rho_water']), cp=(1e-1, ['cp_water'], ['get_cp_water']),
    lam=(1e-4, ['lambda_water'], ['get_lambda_water']), ny=(1e-10, ['ny_water'], ['get_ny_water']),
    pr=(1e-3, ['Pr_water_return'], ['get_Pr_water']), beta=(1e-6, ['beta_water_return'], ['get_beta_water']),
    arho=(1e-4, [], ['get_rho_dryair']), alam=(1e-5, ['lam_dryair_return'], ['get_lam_dryair']), any=(1e-8, ['ny_dryair_return'], ['get_ny_dryair']),
    psat=(1., ['humid_air_saturation_pressure'], []), wsat=(1e-5, ['humid_air_sat_water_mass'], []))
WATER = ['cp', 'lam', 'rho', 'ny']


def values(q, T):
    """Arrays of the quantity at the temperatures, one per variant."""
    out, kept = [], True
    for m in MODS:
        for f in FUN[q][1]:
            f = getattr(m, f, None)
            if f is not None:
                x = T.copy()
                out.append(np.array(f(x)))
                out.append(np.array([float(f(float(t))) for t in T]))
                y = np.repeat(T, 2)
                out.append(np.array(f(y[::2])))
                kept &= bool((x == T).all() and (y == np.repeat(T, 2)).all())
        for f in FUN[q][2]:
            f = getattr(m, f, None)
            if f is not None:
                x, o = T.copy(), np.full_like(T, -7.)
                f(x, o)
                out.append(o)
                kept &= bool((x == T).all())
                o = np.full(2 * T.size, -7.)
                f(np.repeat(T, 2)[::2], o[1::2])
                out.append(o[1::2])
                kept &= bool((o[::2] == -7.).all())
    if q in WATER:
        m = ms.pf
        i = WATER.index(q)
        ext = np.concatenate([[33.], T, [44.]])
        if hasattr(m, 'water_mat_props'):
            o = [np.zeros_like(T) for _ in WATER]
            m.water_mat_props(T.copy(), *o)
            out.append(o[i])
        if hasattr(m, 'water_mat_props_ext'):
            r = m.water_mat_props_ext(ext.copy())[i]
            out.append(r[1:-1] if q == 'cp' else r)
        if hasattr(m, 'water_mat_props_ext_view'):
            o = [np.zeros_like(ext)] + [np.zeros_like(T) for _ in WATER[1:]]
            m.water_mat_props_ext_view(ext.copy(), *o)
            out.append(o[i][1:-1] if q == 'cp' else o[i])
    return out, kept


def every(name):
    return [getattr(m, name) for m in MODS if hasattr(m, name)]


def scenario(recs, scn, b):
    T = np.array(b['T']) / 8.
    for q in FUN:
        u = FUN[q][0]
        t = T if q != 'wsat' else np.clip(T, -30., 80.)
        vals, kept = values(q, t)
        if not vals:
            continue
        for k, x in enumerate(t):
            v = [float(a[k]) for a in vals]
            # relative to the first: one in 10^9
            s = max(abs(v[0]), 1e-12) * 1e-9
            recs.append(dict(ev='value', scn=scn, q=q, T=fx(x, 1e-3), v=sorted({fx(y, u) for y in v}), fine=[fx(y - v[0], s) for y in v], kept=kept))
    g = [x / 1000. for x in b['g']]
    r = dict(ev='circuit', scn=scn, g=b['g'], s=[], p=[])
    for f in every('series_circuit_UA'):
        r['s'] += [fx(f(*g), 1e-3)] + [fx(y, 1e-3) for y in f(*[np.array([x, x]) for x in g])]
    for f in every('parallel_circuit_UA'):
        r['p'] += [fx(f(*g), 1e-3)] + [fx(y, 1e-3) for y in f(*[np.array([x, x]) for x in g])]
    recs.append(r)
    ny, any_ = 5e-7, 1.6e-5
    r = dict(ev='numbers', scn=scn, v=b['v'], L=b['L'], ny=5000, any=160000, dT=b['dT'] * 125, T0=b['T0'] * 125, pr=b['p'], re=[], ra=[])
    v, L = b['v'] / 1000., b['L'] / 10000.
    for f in every('Re_water_return'):
        r['re'] += [fx(math.log(f(v, L, ny)), 1e-5), fx(math.log(f(-v, L, ny)), 1e-5)]
    for f in every('get_Re_water'):
        o = np.zeros(2)
        f(np.array([v, -v]), L, np.array([ny, ny]), o)
        r['re'] += [fx(math.log(y), 1e-5) for y in o]
    for f in every('rayleigh_number'):
        for sg in (1, -1):
            r['ra'].append(fx(math.log(f(b['T0'] / 8. + sg * b['dT'] / 8., b['T0'] / 8., b['p'] / 1000., any_, 273.15, L)), 1e-5))
            r['ra'].append(fx(math.log(f(b['T0'] / 8. + sg * b['dT'] / 8. + 273.15, b['T0'] / 8. + 273.15, b['p'] / 1000., any_, 0., L)), 1e-5))
    recs.append(r)
    recs.append(dict(ev='end', scn=scn))


def jobs(g, tier):
    return [(scenario, 'p%04d' % i, b) for i, b in enumerate(g['pr'])]


if __name__ == '__main__':
    main(jobs)
