"""Programs of set-up calls executed on the real environment, and runs in which
values become invalid."""
from mslab import *  # noqa: F401,F403
from mslab import ms, np, pd, env, main, quiet, BC
import os
import net as N

TOPO = ('not able to solve', 'requires division', 'valves may only be connected', 'topology', 'opology')


def spec(kind):
    act = dict(lower_limit=0., upper_limit=1.)
    if kind == 'ppump':
        return dict(kind='ppump', n=3, act=dict(start_massflow=.1, maximum_flow=1., **act))
    if kind == 'fixed':
        return dict(kind='ppump', n=3, act=dict(start_massflow=.1, ctrl_required=False, const_val=.1))
    if kind == 'heated':
        return dict(kind='heated', n=3, act=dict(heat_spread='all', lower_limit=0., upper_limit=1000.))
    return dict(kind=kind, n=4)


def port(p):
    return (BC if p[0] == 'BC' else p[0]) + ';' + p[1]


def call(s, o):
    k = o['op']
    if k == 'tf':
        s.set_timeframe(timeframe=3., adaptive_steps=True)
    elif k == 'disk':
        s.set_disksaving(save=False, sim_name='x', start_date='2020-01-01 00:00:00')
    elif k == 'solver':
        s.set_solver(solver='heun', allow_implicit=False)
    elif k == 'part':
        N.add(s, o['n'], spec(o['kind']))
    elif k == 'bc':
        s.add_open_port(o['n'], constant=True, temperature=30.)
    elif k == 'link':
        connect(s, port(o['a']), port(o['b']))
    elif k == 'ctrl':
        s.add_control(ms.ap.PID, name=o['n'], actuator=o['act'], process_CV_mode='direct', CV_saturation=(0., 1.), controlled_part=o['part'],
                      controlled_port=o['port'], reference_part='none', setpoint=40., sub_controller=False, off_state=0., time_domain='discrete',
                      deadtime=0., slope=(0, 0), invert=False, terms='P', loop_tuning='manual', Kp=.01, anti_windup=1.)
    elif k == 'init':
        s.initialize_sim()
    elif k == 'start':
        s.start_sim()


def program(recs, scn, b):
    s = ms.SimEnv(suppress_printing=True)
    out, what, started, at = 'ran', '', False, 0
    ops = b['ops']  # what comes after the run is not judged
    k = [i for i, o in enumerate(ops) if o['op'] == 'start']
    ops = ops[:k[0] + 1] if k else ops
    with quiet():
        for i, o in enumerate(ops):
            try:
                started = started or o['op'] == 'start'
                call(s, o)
            except Exception as e:  # a refusal, judged below
                txt = str(e).replace('\n', ' ')
                out = 'unsolvable' if any(x in txt for x in TOPO) else 'refused'
                at = i + 1
                what = '%s %s: %s' % (o['op'], type(e).__name__, txt[:200])
                break
    ran = any(o['op'] == 'start' for o in ops)
    steps = 0
    if started and hasattr(s, 'time_vec'):
        steps = int(np.count_nonzero(np.asarray(s.time_vec)))
    recs.append(dict(ev='prog', scn=scn, ops=ops, untouched=b['ops'] == b['base'], out=out, what=what, at=at, steps=steps,
                     over=bool(out == 'ran' and (not ran or (steps > 0 and float(s.time_vec[-1]) >= 3.)))))


def poisoned(base, box, n, one):
    """Part whose derivative becomes invalid in step n."""
    class P(base):
        def get_diff(self, timestep):
            d = base.get_diff(self, timestep)
            if n and int(box[0].stepnum[0]) + int(getattr(box[0], '_total_stepnum', 0)) >= n:
                d = np.array(d, copy=True)
                if one:
                    d.flat[-1] = np.nan
                else:
                    d[:] = np.nan
            return d
    P.__name__ = base.__name__
    return P


def invalid(recs, scn, b):
    nan = b['nan']
    disk = nan['row'] > 0
    kw = dict(adaptive_steps=True, max_stepsize=.25, min_stepsize=.01) if nan['adaptive'] else dict(adaptive_steps=False, timestep=.25)
    path = os.path.join(os.getcwd(), scn)
    os.makedirs(path, exist_ok=True)
    save = dict(path=path + '/', sim_name='n', start_date='2020-01-01 00:00:00', save_every_n_steps=max(5, nan['row']), resample_final=False) if disk else None
    s = env(4., save=save, **kw)
    box = [s]
    parts = [o for o in b['base'] if o['op'] == 'part']
    victim = parts[(nan['part'] - 1) % len(parts)]['n']
    for o in b['base']:
        if o['op'] == 'part':
            cls, k = N.part_kw(o['n'], spec(o['kind']))
            s.add_part(part=poisoned(cls, box, nan['step'] if o['n'] == victim else 0, nan['where'] == 'one'), name=o['n'], **k)
        elif o['op'] not in ('tf', 'disk', 'solver', 'init', 'start'):
            call(s, o)
    with quiet() as buf:
        s.initialize_sim()
        try:
            s.start_sim()
        except AssertionError as e:
            # parts that check their own results refuse invalid ones: then
            # there is no report
            if 'Temperature range exceeding' not in str(e):
                raise
            disk = False
    rows = len(s.time_vec)
    v = s.parts[victim].res
    r = dict(ev='nan', scn=scn, rows=rows, disk=disk, warned='Invalid value' in buf.getvalue(), over=bool(float(s.time_vec[-1]) >= 4.),
             state98=bool((np.asarray(s._solver_state) == 98).any()), report=False, stored=0, told=[], seen=[], nfail=0, nok=0)
    first = [i for i in range(rows) if not np.isfinite(v[i]).all()]
    r['bad'] = first[0] if first else 0
    if nan['step'] and not first:
        raise RuntimeError('nothing became invalid')
    r['success'] = not r['state98']
    if disk:
        reps = [x for x in os.listdir(path) if x.endswith('_REPORT.csv')]
        if len(reps) == 1:
            t = dict(x.split(';', 1) for x in open(os.path.join(path, reps[0])).read().splitlines() if ';' in x)
            r['report'] = True
            r['success'] = t.get('Simulation success') == 'True'
            st = np.asarray(s._solver_state)
            told = [t.get(x) for x in ('Normal steps (including repeated)', 'Steps limited to maximum stepsize', 'Steps limited to minimum stepsize',
                                       'Number of repeated steps', 'Total timeframe in s', 'Sim. failed at step', 'Sim. solved in n steps')]
            seen = [int((st == k).sum()) for k in (4, 5, 6)] + [int(np.sum(s._failed_steps)), float(s.time_vec[-1])]
            r['told'] = [int(round(1e4 * float(x))) for x in told[:5]]
            r['seen'] = [int(round(1e4 * float(x))) for x in seen]
            r['nfail'], r['nok'] = [int(x or 0) for x in told[5:]]
        r['stored'] = len(s.return_stored_data()[victim]['res'])
    recs.append(r)


def jobs(g, tier):
    out = []
    for n, behs in g.items():
        for i, b in enumerate(behs):
            out.append((program, '%s%03d' % (n, i), b))
    for n, behs in g.items():
        for i, b in enumerate(behs[::6]):
            out.append((invalid, 'v%s%03d' % (n, i), b))
    return out


if __name__ == '__main__':
    main(jobs)
