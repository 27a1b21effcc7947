"""Plants with everything: independent hydraulic circuits whose controllers
observe one another. A world (generated by spec/GenWorld) is turned into a list
of construction calls, so that checks may reorder, rename or mirror them."""
from mslab import ms, np, pd, gs, connect, BC, env
import net as N

HEXA = dict(insulation_thickness=1e-2, insulation_lambda=.035, T_init=20., T_amb=20., material='carbon_steel',
            pipe_specs={'all': {'pipe_type': 'EN10255_medium', 'DN': 'DN25'}}, length=.5, width=.1, port_diameter=.02,
            corner_radius=.01, depth=.1, channel_width=.002, plate_thickness=.0005, mass_total=5.)
HEXC = dict(HEx_type='plate_hex', passes=1, plates=10, max_channels='supply')
START = '2020-01-01 00:00:00'


def series(vals, step, n):
    """Series sampled every `step` s (ints / 8 K), repeated to n samples."""
    v = [vals[i % len(vals)] / 8. for i in range(n)]
    return pd.Series(v, index=pd.date_range(START, periods=n, freq='%dms' % int(round(step * 1000))))


def ctrl_kw(c, name, act, part, port, sat, gain, ref=None):
    cls, kw = _ctrl_kw(c, name, act, part, port, sat, gain)
    if c.get('slp') and c['law'] == 'pid':
        kw['slope'] = (-gain / 4., gain / 8.)
    if c.get('ref') and ref is not None and c['law'] != 'ts':
        del kw['setpoint']
        kw.update(reference_part=ref, reference_port=0, ref_SP_diff=c['sp'] / 80.)
    return cls, kw


def _ctrl_kw(c, name, act, part, port, sat, gain):
    kw = dict(name=name, actuator=act, process_CV_mode='part_specific' if c['mode'] == 'part' else 'direct',
              CV_saturation=sat, controlled_part=part, controlled_port=port, reference_part='none', setpoint=c['sp'] / 8.,
              off_state=sat[0], time_domain='discrete' if c['disc'] else 'continuous', deadtime=c['dead'] / 8.,
              slope=(0, 0), invert=bool(c['inv']), sub_controller=False)
    if c['law'] == 'bb':
        kw.update(hysteresis=c['hyst'] / 8.)
        return ms.ap.BangBang, kw
    if c['law'] == 'ts':
        kw.update(on_sensor_part=part, on_sensor_port=0, activation_value=c['sp'] / 8. - c['hyst'] / 8.,
                  activation_sign='lower', deactivation_sign='greater')
        return ms.ap.TwoSensors, kw
    t = c.get('terms', 'PID')
    gain = gain / c.get('soft', 1)
    kw.update(terms=t, loop_tuning='manual', Kp=gain / 8., Ki=gain / 64., Kd=gain / 64., anti_windup=2.)
    if 'D' in t:
        kw.update(filter_derivative=bool(c.get('filt')))
        if c.get('filt'):
            kw.update(cutoff_freq=.25)
    return ms.ap.PID, kw


def calls(w, nser=64):
    """[(kind, args...)] in canonical order; kinds part, bc, link, ctrl."""
    out = []
    pv = []  # observable parts
    circ = w['circuits']
    for i, c in enumerate(circ):
        pv.append('h%d' % i if c['kind'] == 'hex' else 'm%d' % i)
    sstep = w['sstep'] / 4.

    var = [w.get('variant', 0)]

    def part(name, o):
        if var[0]:  # parts differ in material, diameter, insulation and ambient
            var[0] = v = (var[0] * 69069 + 12345) % 65536
            o = dict(o, mat=('carbon_steel', 'stainless_steel')[v // 8 % 2], dn=('DN25', 'DN25', 'DN32')[v // 64 % 3],
                     s_ins=(1e-2, 4e-2)[v // 512 % 2], lam=(.035, .4)[v // 2048 % 2], T_amb=(20., 12.)[v // 8192 % 2])
        cls, kw = N.part_kw(name, o)
        out.append(('part', name, cls, kw))

    def bc(name, val):
        out.append(('bc', name, val))

    def link(a, b):
        out.append(('link', a, b))

    def bcs(i, c):
        a = 'BC_a%d' % i
        bc(a, series(c['ser'], sstep, nser) if c['dyn'] else c['tin'] / 8.)
        bc('BC_z%d' % i, 20.)
        return 'BC;' + a, 'BC;BC_z%d' % i
    ctr = []
    for i, c in enumerate(circ):
        k = c['kind']
        m = 'm%d' % i
        p = dict(kind='ppump', n=c['n'], length=c['len'] / 4., T=c['t0'] / 8.,
                 act=dict(start_massflow=c['dm'] / 64., ctrl_required=False, const_val=c['dm'] / 64.))
        if k == 'ts':
            p['act'] = dict(start_massflow=c['dm'] / 64., ctrl_required=False,
                            time_series=pd.Series([x / 640. for x in (c['ser'] * nser)[:nser]], index=series([0], sstep, nser).index))
        pc = dict(kind='ppump', n=c['n'], length=c['len'] / 4., T=c['t0'] / 8.,
                  act=dict(start_massflow=c['dm'] / 64., maximum_flow=.25, lower_limit=0., upper_limit=.2))
        w_ = pv[c['obs'] % len(pv)]
        if k in ('flow', 'ts'):
            part(m, p)
            a, z = bcs(i, c)
            link(a, m + ';in')
            link(m + ';out', z)
        elif k == 'pump':
            part(m, pc)
            part('p%d' % i, dict(kind='pipe', n=c['n'] + 1, length=1.5, T=c['t0'] / 8.))
            a, z = bcs(i, c)
            link(a, m + ';in')
            link(m + ';out', 'p%d;in' % i)
            link('p%d;out' % i, z)
            ctr.append(ctrl_kw(c, 'c%d' % i, m, w_, 0 if w_[0] == 'h' else -1, (0., 1.) if c['mode'] == 'part' else (0., .2), 1. if c['mode'] == 'part' else .2, ref=pv[(c['obs'] + 1) % len(pv)]))
        elif k == 'heat':
            part('p%d' % i, p)
            part(m, dict(kind='heated', n=c['n'] + 1, length=1.5, T=c['t0'] / 8., act=dict(heat_spread='all', lower_limit=0., upper_limit=5000.)))
            a, z = bcs(i, c)
            link(a, 'p%d;in' % i)
            link('p%d;out' % i, m + ';in')
            link(m + ';out', z)
            ctr.append(ctrl_kw(dict(c, mode='direct'), 'c%d' % i, m, w_, 0 if w_[0] == 'h' else -1, (0., 5000.), 5000., ref=pv[(c['obs'] + 1) % len(pv)]))
        elif k == 'valve':
            part('p%d' % i, p)
            part(m, dict(kind='pvalve', n=c['n'] + 2, length=2., loc=1, T=c['t0'] / 8., act=dict(start_portA_opening=.5, lower_limit=0., upper_limit=1.)))
            a, z = bcs(i, c)
            bc('BC_y%d' % i, 30.)
            link(a, 'p%d;in' % i)
            link('p%d;out' % i, m + ';AB')
            link(m + ';A', z)
            link(m + ';B', 'BC;BC_y%d' % i)
            ctr.append(ctrl_kw(dict(c, mode='part'), 'c%d' % i, m, w_, 0 if w_[0] == 'h' else -1, (0., 1.), 1., ref=pv[(c['obs'] + 1) % len(pv)]))
        elif k == 'split':
            part(m, p)
            part('v%d' % i, dict(kind='split', act=dict(port_A_init=.25, lower_limit=.1, upper_limit=.9)))
            part('p%d' % i, dict(kind='pipe', n=3, length=1., T=c['t0'] / 8.))
            part('q%d' % i, dict(kind='pipe', n=2, length=2., T=c['t0'] / 8.))
            part('k%d' % i, dict(kind='conn'))
            part('r%d' % i, dict(kind='pipe', n=2, length=1., T=c['t0'] / 8.))
            a, z = bcs(i, c)
            link(a, m + ';in')
            link(m + ';out', 'v%d;AB' % i)
            link('v%d;A' % i, 'p%d;in' % i)
            link('v%d;B' % i, 'q%d;in' % i)
            link('p%d;out' % i, 'k%d;A' % i)
            link('q%d;out' % i, 'k%d;B' % i)
            link('k%d;C' % i, 'r%d;in' % i)
            link('r%d;out' % i, z)
            ctr.append(ctrl_kw(dict(c, mode='part'), 'c%d' % i, 'v%d' % i, w_, 0 if w_[0] == 'h' else -1, (0., 1.), 1., ref=pv[(c['obs'] + 1) % len(pv)]))
        elif k == 'tes':
            part('p%d' % i, p)
            part(m, dict(kind='tes', n=c['n'] + 3, volume=.02, T=c['t0'] / 8. + 10.,
                         new_ports={'mi': [.004, 'volume'], 'mo': [.015, 'volume']}))
            part('q%d' % i, dict(kind='ppump', n=2, length=1.5, T=c['t0'] / 8.,
                                 act=dict(start_massflow=.125, ctrl_required=False, const_val=.125)))
            a, z = bcs(i, c)
            link(a, 'p%d;in' % i)
            link('p%d;out' % i, m + ';in')
            link(m + ';out', z)
            link('q%d;in' % i, m + ';mo')
            link('q%d;out' % i, m + ';mi')
        elif k == 'chp':
            part('p%d' % i, p)
            out.append(('part', m, ms.ap.CHPPlant, dict(
                length=4., grid_points=c['n'] + 1, power_electrical=5000., modulation_range=(.5, 1.), heat_spread='all',
                lower_limit=0., upper_limit=1., min_on_time=3, min_off_time=2, max_slope_el=.05, connect_fluegas_hex=False,
                fluegas_flow=1.2, start_modulation=c['cm'], chp_on_at_start=bool(c['con']), **gs(T_init=c['t0'] / 8.))))
            a, z = bcs(i, c)
            link(a, 'p%d;in' % i)
            link('p%d;out' % i, m + ';in')
            link(m + ';out', z)
            ctr.append(ctrl_kw(dict(c, mode='direct'), 'c%d' % i, m, w_, 0 if w_[0] == 'h' else -1, (0., 1.), 1., ref=pv[(c['obs'] + 1) % len(pv)]))
        else:  # hex
            part('p%d' % i, p)
            part('q%d' % i, dict(kind='ppump', n=3, length=1.5, T=c['t0'] / 8., act=dict(start_massflow=.125, ctrl_required=False, const_val=.125)))
            part('r%d' % i, dict(kind='pipe', n=2, length=1.5, T=c['t0'] / 8.))
            part('o%d' % i, dict(kind='pipe', n=2, length=1.5, T=c['t0'] / 8.))
            out.append(('part', 'h%d' % i, ms.ap.HeatExchanger, dict(HEXC, **HEXA)))
            a, z = bcs(i, c)
            bc('BC_x%d' % i, 15.)
            bc('BC_y%d' % i, 20.)
            link(a, 'p%d;in' % i)
            link('p%d;out' % i, 'h%d;sup_in' % i)
            link('h%d;sup_out' % i, 'r%d;in' % i)
            link('r%d;out' % i, z)
            link('BC;BC_x%d' % i, 'q%d;in' % i)
            link('q%d;out' % i, 'h%d;dmd_in' % i)
            link('h%d;dmd_out' % i, 'o%d;in' % i)
            link('o%d;out' % i, 'BC;BC_y%d' % i)
    for cls, kw in ctr:
        out.append(('ctrl', cls, kw))
    # dependent controller
    if len(ctr) > 1 and w['dep'] != 'none':
        kw = ctr[-1][1]
        kw.update(sub_controller=True, dependency_kind=w['dep'], master_type='controller', master_controller=ctr[0][1]['name'])
        if w.get('mpart') and circ[0]['kind'] in ('flow', 'ts', 'pump'):
            del kw['master_controller']
            kw.update(master_type='part', master_part='m0', master_variable='dm', master_variable_index=0)
    return out


def apply(s, cs, tmap=lambda x: x):
    """Issue construction calls; tmap renames parts and open ports."""
    def ref(x):
        a, b = x.split(';')
        if a == 'BC':
            return BC + ';' + bcn(b)
        return tmap(a) + ';' + b

    def bcn(b):
        return 'BC_' + tmap(b[3:])
    for c in cs:
        if c[0] == 'part':
            s.add_part(part=c[2], name=tmap(c[1]), **c[3])
        elif c[0] == 'bc':
            if isinstance(c[2], float):
                s.add_open_port(bcn(c[1]), constant=True, temperature=c[2])
            else:
                s.add_open_port(bcn(c[1]), constant=False, temperature=c[2])
        elif c[0] == 'link':
            connect(s, ref(c[1]), ref(c[2]))
        else:
            kw = dict(c[2])
            for k in ('actuator', 'controlled_part', 'name', 'master_controller', 'master_part', 'reference_part', 'on_sensor_part'):
                if k in kw and kw[k] != 'none':
                    kw[k] = tmap(kw[k])
            s.add_control(c[1], **kw)


def other(cs):
    """The same calls with other values: nothing of them may be seen elsewhere."""
    out = []
    for c in cs:
        if c[0] == 'part':
            kw = dict(c[3])
            kw['material'] = 'stainless_steel' if kw['material'] == 'carbon_steel' else 'carbon_steel'
            kw['pipe_specs'] = {'all': {'pipe_type': 'EN10255_medium', 'DN': 'DN40' if kw['pipe_specs']['all']['DN'] == 'DN25' else 'DN25'}}
            for k, v in (('T_init', 7.), ('T_amb', 5.), ('insulation_lambda', .2), ('insulation_thickness', .01), ('length', .5)):
                if k in kw and c[2] is not ms.ap.HeatExchanger:
                    kw[k] = kw[k] + v
            if 'grid_points' in kw:
                kw['grid_points'] += 1
            out.append(('part', c[1], c[2], kw))
        elif c[0] == 'bc':
            out.append(('bc', c[1], c[2] + 4.))
        elif c[0] == 'ctrl':
            kw = dict(c[2])
            for k, v in (('setpoint', 3.), ('Kp', .01), ('Ki', .001), ('deadtime', 1.), ('hysteresis', 2.)):
                if k in kw and kw[k]:
                    kw[k] = kw[k] + v
            out.append(('ctrl', c[1], kw))
        else:
            out.append(c)
    return out


def settings(w):
    if w['fixed']:
        return dict(adaptive_steps=False, timestep=w['hmax'] / 16.)
    return dict(adaptive_steps=True, max_stepsize=w['hmax'] / 8., min_stepsize=1e-3, rtol=10.0 ** -w['rtol'], atol=1e-4)


def build(w, save=None, timeframe=None, order=None, flip=(), tmap=lambda x: x, over=None):
    tf = settings(w)
    tf.update(over or {})
    s = env(timeframe or w['tf'] / 4., save=save, **tf)
    cs = calls(w)
    if flip:
        cs = [('link', c[2], c[1]) if c[0] == 'link' and flip[i % len(flip)] else c for i, c in enumerate(cs)]
    if order is not None:
        cs = order(cs)
    apply(s, cs, tmap)
    return s


ARR = ('res', 'res_dm', 'res_dQ', 'res_Pel', 'res_Pgas', '_chp_state')


def rows(s, tmap=lambda x: x, w=None):
    """Per row one tuple of all results, parts in canonical order."""
    names = [c[1] for c in calls(w) if c[0] == 'part'] if w else list(s.parts)
    out = []
    for r in range(len(s.time_vec)):
        v = [np.array([s.time_vec[r]])]
        for n in names:
            p = s.parts[tmap(n)]
            for a in ARR:
                if hasattr(p, a):
                    v.append(np.ravel(np.asarray(getattr(p, a)[r], dtype=float)))
        out.append(np.concatenate(v))
    return out


def lengths(s):
    """Row counts of all result arrays."""
    n = set()
    for p in s.parts.values():
        for a in ARR:
            if hasattr(p, a):
                n.add(len(getattr(p, a)))
    n.add(len(s.time_vec))
    return sorted(n)
