"""Heat transport of generated plants: instantaneous rates, ranges, equilibria
and mirrored plants."""
from mslab import *  # noqa: F401,F403
from mslab import ms, np, fx, env, main, quiet
import copy
import net as N
from sensor import add_sensor
from drv_flow import Plant, describe, NONNUM

H = 1e-7
HOLD = 4
LAM = dict(ins=1e-13, normal=.035, bare=1.)


def cells(o):
    return o.get('n', {'tes': 5}.get(o['kind'], 4))


def plant(b):
    th = b['th']
    P = Plant(b['plan'])
    pl = P.build()
    k = 0
    for i, (n, o) in enumerate(pl['parts'].items()):
        if o['kind'] in NONNUM:
            continue
        if o['kind'] == 'pipe' and th['bc'][i % 9] > 320:
            o.update(kind='heated', act=dict(heat_spread='all', lower_limit=0., upper_limit=1000., ))
            P.acts.append((n, 'heat', 0, 0, 0))
        if o['kind'] in ('pipe', 'ppump', 'heated'):
            o['n'] = max(2, th['n'] - i % 2)
        if o['kind'] != 'tes':
            o['length'] = th['len'] / 2. + (i % 3) / 4.
        else:
            o.update(volume=.04 + .02 * (i % 2), d=.3)
        o['dn'] = th['dn'] if i % 4 else 'DN25'
        o['T_amb'] = th['amb'] / 8.
        o['lam'] = LAM[th['lam']]
        m = cells(o)
        v = [th['prof'][(k + j) % 97] / 8. for j in range(m)]
        if th['style'] == 'flat':
            v = [v[0]] * m
        elif th['style'] == 'step':
            cut = 1 + i % (m - 1)
            v = [v[0]] * cut + [v[-1]] * (m - cut)
        elif th['style'] == 'even':
            v = [th['prof'][0] / 8.] * m
        k += m
        o['T'] = np.array(v)
    for i, n in enumerate(pl['bcs']):
        pl['bcs'][n] = th['bc'][i % 9] / 8.
    cvs = []
    for row in b['script']:
        fl, op = list(row['fl']), list(row['op'])
        cvs.append([fl.pop(0) if fl and k == 'flow' else op.pop(0) if op and k == 'op' else 0 if k == 'heat' else 33 for _, k, *_ in P.acts])
    return pl, P.acts, cvs


def build(pl, acts, cv, tf, **kw):
    s = env(tf, **kw)
    # a circuit in equilibrium, so the controllers see a constant value
    many = isinstance(cv[0], list)
    if many:  # or a script
        s.v_flows = {}

        def probe(n):
            s.v_flows[n] = N.flows(s, pl['parts'])
        add_sensor(s, [dict(v=[40 * 1024 - x for x in row] + [40 * 1024] * (2 - len(row))) for row in cv for _ in range(HOLD)],
                   T0=40. - cv[0][0] / 1024., probe=probe)
    else:
        N.build(s, dict(parts=dict(sen=dict(kind='ppump', n=2, T=40., T_amb=40., act=dict(start_massflow=.0, ctrl_required=False, const_val=.0))),
                        bcs=dict(BC_s1=40., BC_s2=40.), links=[['BC;BC_s1', 'sen;in'], ['sen;out', 'BC;BC_s2']]))
    N.build(s, pl)
    for i, (n, k, *_) in enumerate(acts):
        s.add_control(ms.ap.PID, name='ctl' + n, actuator=n, process_CV_mode='part_specific' if k == 'op' else 'direct', CV_saturation=(-10., 10.),
                      controlled_part='sen', controlled_port=i if many else 0, reference_part='none', setpoint=40. if many else 40. + cv[i] / 1024.,
                      sub_controller=False, off_state=0., time_domain='discrete', deadtime=0., slope=(0, 0),
                      invert=False, terms='P', loop_tuning='manual', Kp=1., anti_windup=1.)
    return s


def go(s):
    with quiet():
        s.initialize_sim()
        s.start_sim()
    return s


def enth(T):
    return ms.pf.cp_water(np.asarray(T, dtype=float)) * T


def rate(s, pl, ports, th, j):
    k = HOLD * (j + 1)
    fl = s.v_flows[k]
    T, u, q, cap = [], [], [], []
    for n, o in pl['parts'].items():
        p = s.parts[n]
        hollow = o['kind'] in NONNUM
        x = np.ravel(p.res[k if hollow else k - 1]).astype(float)
        T.append([fx(v, 1e-6) for v in x])
        u.append([fx(v, 1e-3) for v in enth(x)])
        if hollow:
            q.append([0] * len(x))
            cap.append([0] * len(x))
        else:
            c = N.capacity(o, x)
            d = (np.ravel(p.res[k]) - x) / H
            q.append([fx(v, 1e-3) for v in c * d])
            cap.append([fx(v, 1.) for v in c])
    bT = list(pl['bcs'].values())
    return dict(T=T, u=u, q=q, cap=cap, bT=[fx(v, 1e-6) for v in bT], bu=[fx(v, 1e-3) for v in enth(np.array(bT))] if bT else [],
                amb=fx(th['amb'] / 8., 1e-6), ins=th['lam'] == 'ins', f=[fx(fl[x], 2. ** -20) for x in ports])


def span(s, pl):
    v = [np.ravel(s.parts[n].res[1:] if o['kind'] in NONNUM else s.parts[n].res) for n, o in pl['parts'].items()]
    v = np.concatenate(v)
    return float(np.min(v)), float(np.max(v)), bool(np.all(np.isfinite(v)))


def heat(p, o):
    """Heat taken up by the cells of a part during the run."""
    a, z = np.ravel(p.res[0]), np.ravel(p.res[-1])
    x = np.linspace(a, z, 101)
    c = N.capacity(o, x)
    return np.trapz(c, axis=0) / 100. * (z - a)


def mirrored(pl, mir):
    m = copy.deepcopy(pl)
    names = []
    for i, (n, o) in enumerate(m['parts'].items()):
        if o['kind'] in ('pipe', 'heated') and mir[i % len(mir)]:
            o['T'] = o['T'][::-1].copy()
            names.append(n)
    sw = {'in': 'out', 'out': 'in'}

    def port(x):
        a, b = x.split(';')
        return a + ';' + sw[b] if a in names else x
    m['links'] = [[port(a), port(b)] for a, b in m['links']]
    return m, names


def scenario(recs, scn, b):
    th = b['th']
    pl, acts, cvs = plant(b)
    cv, tiny = cvs[0], HOLD * len(cvs) * H
    s = build(pl, acts, cvs, tiny, adaptive_steps=False, timestep=H)
    try:
        with quiet():
            s.initialize_sim()
    except (TypeError, ValueError, AssertionError) as e:
        if any(x in str(e).replace('\n', ' ') for x in ('not able to solve', 'requires division', 'valves may only be connected')):
            recs.append(dict(ev='refused', scn=scn))
            return
        raise
    with quiet():
        s.start_sim()
    ports, net = describe(s, pl, acts, None)
    at = {p: i + 1 for i, p in enumerate(ports)}
    bcs = list(pl['bcs'])
    peer = [0] * len(ports)
    for x, y in pl['links']:
        for a, c in ((x, y), (y, x)):
            if a in at:
                peer[at[a] - 1] = at[c] if c in at else -(bcs.index(c.split(';')[1]) + 1)
    own = [None] * len(ports)
    for k, p in enumerate(net['parts']):
        for j, q in enumerate(p['ports']):
            own[q - 1] = [k + 1, j + 1]
    net = dict(ports=net['ports'], parts=net['parts'], links=net['links'], peer=peer, own=own)
    recs.append(dict(ev='begin', scn=scn, net=net))
    for j in range(len(cvs)):
        recs.append(dict(ev='rate', scn=scn, s=rate(s, pl, ports, th, j)))
    if th['lam'] != 'ins':
        i_ = copy.deepcopy(pl)
        for o in i_['parts'].values():
            o['lam'] = LAM['ins']
        s1 = go(build(i_, acts, cvs, tiny, adaptive_steps=False, timestep=H))
        for j in (0, len(cvs) - 1):
            recs.append(dict(ev='ambient', scn=scn, s=rate(s, pl, ports, th, j), i=rate(s1, i_, ports, th, j)))
    # the same plant with some pipes the other way around
    m, names = mirrored(pl, th['mir'])
    if names:
        s2 = go(build(m, acts, cvs, tiny, adaptive_steps=False, timestep=H))

        def diff(s_, flip, k):
            out = []
            for n in pl['parts']:
                r = s_.parts[n].res
                d = (np.ravel(r[k]) - np.ravel(r[k - 1])) / H
                out.append([fx(v, 1e-5) for v in (d[::-1] if n in flip else d)])
            return out
        for j in range(len(cvs)):
            k = HOLD * (j + 1)
            recs.append(dict(ev='mirror', scn=scn, a=diff(s, [], k), b=diff(s2, names, k)))
    # a whole run
    kw = dict(adaptive_steps=True, rtol=10. ** -th['rtol'], atol=1e-4, max_stepsize=2., min_stepsize=1e-4)
    s = go(build(pl, acts, cv, th['tf'], **kw))
    lo, hi, fin = span(s, pl)
    given = np.concatenate([np.ravel(o['T']) for o in pl['parts'].values() if 'T' in o] + [np.array(list(pl['bcs'].values()) + ([] if th['lam'] == 'ins' else [th['amb'] / 8.]))])
    mixer = any(o['kind'] in ('conn', 'mix') for o in pl['parts'].values())
    recs.append(dict(ev='range', scn=scn, rows=len(s.time_vec), lo=fx(min(given)), hi=fx(max(given)), min=fx(lo), max=fx(hi),
                     tol=fx(1. if mixer else 1e-3)))
    if th['lam'] == 'ins' and not pl['bcs'] and not any(o['kind'] in ('conn', 'mix', 'split') for o in pl['parts'].values()):
        e = np.concatenate([heat(s.parts[n], o) for n, o in pl['parts'].items() if o['kind'] not in NONNUM])
        recs.append(dict(ev='kept', scn=scn, sum=fx(e.sum(), 1.), moved=fx(np.abs(e).sum(), 1.)))
    # equilibrium
    e = copy.deepcopy(pl)
    T0 = th['prof'][0] / 8.
    for o in e['parts'].values():
        if 'T' in o:
            o['T'] = T0
            o['T_amb'] = T0
    e['bcs'] = {n: T0 for n in e['bcs']}
    s = go(build(e, acts, cv, th['tf'], **kw))
    lo, hi, fin = span(s, e)
    recs.append(dict(ev='still', scn=scn, rows=len(s.time_vec), T=fx(T0), min=fx(lo), max=fx(hi)))
    recs.append(dict(ev='end', scn=scn))


def jobs(g, tier):
    return [(scenario, '%s%03d' % (n, i), b) for n, behs in g.items() for i, b in enumerate(behs)]


if __name__ == '__main__':
    main(jobs)
