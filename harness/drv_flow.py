"""Mass flows of generated plants with scripted pump flows and openings."""
from mslab import *  # noqa: F401,F403
from mslab import ms, np, fx, env, run, main
from sensor import add_sensor, still_class, TF
import net as N

UF = 2.0 ** -26
NONNUM = ('conn', 'mix', 'split', 'pump')
FLO, FHI = -200, 230


class Plant:
    """Turns the generated plan into parts and links."""

    def __init__(self, plan):
        self.p = plan
        self.parts, self.links, self.bcs = {}, [], {}
        self.acts = []  # (name, 'flow'|'op', lo, hi, start)
        self.cnt = {}

    def name(self, k):
        self.cnt[k] = self.cnt.get(k, 0) + 1
        return '%s%d' % (k, self.cnt[k])

    def bc(self):
        n = self.name('BC_')
        self.bcs[n] = 20. + 5 * len(self.bcs)
        return 'BC;' + n

    def link(self, a, b):
        def nn(x):
            return x.split(';')[0] != 'BC' and self.parts[x.split(';')[0]]['kind'] in NONNUM
        if nn(a) and nn(b):  # two parts without volume must not touch
            q = self.name('z')
            self.parts[q] = dict(kind='pipe', length=50., n=2)
            self.links.append([a, q + ';in'])
            self.links.append([q + ';out', b])
        else:
            self.links.append([a, b])

    def pump(self, typ, flip=0):
        n = self.name('p')
        lim = dict(lower_limit=FLO / 1024., upper_limit=FHI / 1024.)
        if typ == 'ppump':
            self.parts[n] = dict(kind='ppump', length=50., n=2, act=dict(start_massflow=64 / 1024., maximum_flow=1., **lim))
        else:
            self.parts[n] = dict(kind='pump', act=dict(start_massflow=64 / 1024., **lim))
        self.acts.append((n, 'flow', FLO, FHI, 64))
        return n

    def valve(self, typ):
        n = self.name('v')
        lo, hi = self.p['olim']
        lim = dict(lower_limit=lo / 1024., upper_limit=hi / 1024.)
        if typ == 'pvalve':
            self.parts[n] = dict(kind='pvalve', length=50., n=5, loc=1 + len(self.parts) % 3, act=dict(start_portA_opening=400 / 1024., **lim))
        else:
            self.parts[n] = dict(kind=typ, act=dict(port_A_init=400 / 1024., **lim))
        self.acts.append((n, 'op', lo, hi, 400))
        return n

    def two(self, end, kind, rev, **o):
        n = self.name(kind[0])
        self.parts[n] = dict(kind=kind, **o)
        a, b = (';out', ';in') if rev else (';in', ';out')
        if end:
            self.link(end, n + a)
        return n + a, n + b

    def pipe(self, end, rev=0):
        return self.two(end, 'pipe', rev, length=50., n=3)

    def through(self, end, n, a, b):
        if end:
            self.link(end, n + ';' + a)
        return n + ';' + a, n + ';' + b

    def seg(self, end, s, pump=None):
        """append segment; returns (first port, last port)"""
        k = s['k']
        if k == 'pipe':
            return self.pipe(end, s['rev'])
        if k == 'tes':
            return self.two(end, 'tes', s['rev'], volume=1., d=.8)
        if k == 'tesloop':
            r = self.two(end, 'tes', s['rev'], volume=1., d=.8, n=6, new_ports={'i2': [s['pos'], 'index'], 'o2': [(s['pos'] + 2) % 6, 'index']})
            n = r[0].split(';')[0]
            p = self.pump('ppump')
            self.link(n + ';o2', p + ';in')
            q = self.pipe(p + ';out')
            self.link(q[1], n + ';i2')
            return r
        if k == 'join':
            t = s['jt']
            p = self.pump('ppump')
            if t in ('conn', 'leave'):
                n = self.name('c')
                self.parts[n] = dict(kind='conn')
                a, b, c = ('A', 'B', 'C') if s['swap'] else ('C', 'A', 'B')
                r = self.through(end, n, a, b)
                side = n + ';' + c
            else:
                kw = dict(length=50., n=6) if t == 'branched' else dict(volume=1., d=.8, n=6)
                r = self.two(end, t, s['rev'], new_ports={'x': [s['pos'], 'index']}, **kw)
                side = r[0].split(';')[0] + ';x'
            if t == 'leave':
                self.link(side, p + ';in')
                self.link(p + ';out', self.bc())
            else:
                self.link(self.bc(), p + ';in')
                self.link(p + ';out', side)
            return r
        if k == 'vsplit':
            v, c = self.valve(s['type']), self.name('c')
            self.parts[c] = dict(kind='conn')
            va, vb = ('B', 'A') if s['swap'] else ('A', 'B')
            if s['merge']:  # connector divides, valve unites
                ca, cb, start, stop = c + ';B', c + ';C', c + ';A', v + ';AB'
                ea, eb = v + ';' + va, v + ';' + vb
            else:
                ca, cb, start, stop = v + ';' + va, v + ';' + vb, v + ';AB', c + ';C'
                ea, eb = c + ';A', c + ';B'
            if end:
                self.link(end, start)
            for e, tgt, cntp, nest in ((ca, ea, s['na'], 0), (cb, eb, s['nb'], s['nest'])):
                for i in range(cntp):
                    e = self.pipe(e, (i + s['rev']) % 2)[1]
                if nest:
                    e = self.seg(e, dict(s, nest=0, na=1, nb=1, type='pvalve', swap=1 - s['swap']))[1]
                    e = self.pipe(e)[1]
                if pump is not None and cntp and e.split(';')[0] and s.get('inb') and e is not None and tgt == ea:
                    p = self.pump(pump['type'])
                    self.link(e, p + (';out' if pump['rev'] else ';in'))
                    e = p + (';in' if pump['rev'] else ';out')
                self.link(e, tgt)
            return start, stop
        raise KeyError(k)

    def build(self):
        p = self.p
        segs = list(p['pre'])
        cand = [i for i, s in enumerate(p['pre'] + p['post']) if s['k'] == 'vsplit' and s['type'] == 'pvalve' and not s['nest']]
        inb = p['pump']['inb'] and cand and p['olim'][0] >= 100 and sum(s['k'] == 'vsplit' for s in p['pre'] + p['post']) == 1
        line = list(p['pre']) + ([] if inb else [p['pump']]) + list(p['post'])
        if inb:
            tgt = (p['pre'] + p['post'])[cand[0]]
        end = None if p['closed'] else self.bc()
        first = None
        for s in line:
            if s is p['pump']:
                n = self.pump(s['type'])
                a, b = (';out', ';in') if s['rev'] else (';in', ';out')
                if end:
                    self.link(end, n + a)
                r = (n + a, n + b)
            elif inb and s is tgt:
                r = self.seg(end, dict(s, inb=1), p['pump'])
            else:
                r = self.seg(end, s)
            first = first or r[0]
            end = r[1]
        self.link(end, first if p['closed'] else self.bc())
        return dict(parts=self.parts, links=self.links, bcs=self.bcs)


def describe(s, pl, acts, chans):
    ports, idx = [], {}
    for n in pl['parts']:
        for q in s.parts[n].port_names:
            idx['%s;%s' % (n, q)] = len(ports) + 1
            ports.append('%s;%s' % (n, q))
    parts = []
    for n, o in pl['parts'].items():
        pt = s.parts[n]
        pn = pt.port_names
        k = o['kind']
        rec = 'one' if k in ('pipe', 'ppump', 'pump') else 'ports' if k in ('conn', 'mix', 'split') else 'cells'
        parts.append(dict(ports=[idx['%s;%s' % (n, q)] for q in pn], kind=k, rec=rec,
                          cells=[int(x) for x in pt._port_own_idx], sign=[1 if c == 'in' else -1 for c in pt.dm_char]))
    links = [[idx[a], idx[b]] for a, b in pl['links'] if a in idx and b in idx]
    pumps = [dict(port=idx[n + ';in'], cmd=i + 1) for i, (n, k, *_) in enumerate(acts) if k == 'flow']
    valves = [dict(a=idx[n + ';A'], b=idx[n + ';B'], ab=idx[n + ';AB'], cmd=i + 1) for i, (n, k, *_) in enumerate(acts) if k == 'op']
    return ports, dict(ports=len(ports), parts=parts, links=links, pumps=pumps, valves=valves,
                       start=[a[4] for a in acts], lo=[a[2] for a in acts], hi=[a[3] for a in acts],
                       isop=[int(a[1] == 'op') for a in acts])


def scenario(recs, scn, b):
    P = Plant(b['plan'])
    pl = P.build()
    acts = P.acts
    script, last = [], None
    for row in b['script']:
        fl, op = list(row['fl']), list(row['op'])
        v = [fl.pop(0) if fl and k == 'flow' else op.pop(0) if op and k == 'op' else 33 for _, k, *_ in acts]
        v = v + [0] * (2 - len(v))
        if row['hold'] and last:
            v = last
        last = v
        script.append(dict(rej=0, v=[40 * 1024 - x for x in v]))
    s = env(60., **TF)
    seen = {}

    def probe(n):
        seen[n] = {q: N.inflow(s.parts[q.split(';')[0]], q.split(';')[1]) for q in names}
    add_sensor(s, script, probe=probe)
    N.build(s, pl, wrap=lambda c: still_class(c) if hasattr(c, 'get_diff') else c)
    for i, (n, k, *_) in enumerate(acts):
        s.add_control(ms.ap.PID, name='ctl' + n, actuator=n, process_CV_mode='direct' if k == 'flow' else 'part_specific', CV_saturation=(-10., 10.),
                      controlled_part='sen', controlled_port=i, reference_part='none', setpoint=40.,
                      sub_controller=False, off_state=0., time_domain='discrete', deadtime=0., slope=(0, 0),
                      invert=False, terms='P', loop_tuning='manual', Kp=1., anti_windup=1.)
    names = []
    why = None
    try:
        with_quiet_init(s)
    except (TypeError, ValueError, AssertionError) as e:
        why = 'unsolvable' if 'not able to solve' in str(e) else 'division' if 'requires division' in str(e) else \
            'side' if 'valves may only be connected' in str(e).replace('\n', ' ') else None
        if why is None:
            raise
    ports, desc = describe(s, pl, acts, None)
    recs.append(dict(ev='begin', scn=scn, net=desc))
    if why:
        recs.append(dict(ev='refused', scn=scn, why=why))
        return
    names.extend(ports)
    start(s)
    rows = len(s.time_vec)
    T = s.parts['sen'].res
    for n in range(1, rows):
        recs.append(dict(ev='step', scn=scn, n=n, f=[fx(seen[n][q], UF) for q in ports],
                         v=[40 * 1024 - int(round(x * 1024)) for x in T[n][:len(acts)]],
                         rec=[[fx(x, UF) for x in np.ravel(s.parts[m].res_dm[n])] for m in pl['parts']]))
    recs.append(dict(ev='end', scn=scn, rows=rows))


def with_quiet_init(s):
    from mslab import quiet
    with quiet():
        s.initialize_sim(build_simenv=True, reset_simenv=False)


def start(s):
    from mslab import quiet
    with quiet():
        s.start_sim()
    return s


def jobs(g, tier):
    return [(scenario, '%s%03d' % (n, i), b) for n, behs in g.items() for i, b in enumerate(behs)]


if __name__ == '__main__':
    main(jobs)
