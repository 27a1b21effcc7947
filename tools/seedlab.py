"""Builders for demonstrations; the code is imported from the working directory."""
import contextlib, io, os, sys, warnings
warnings.filterwarnings('ignore')
REPO = os.getcwd()
sys.path.insert(0, REPO)
import numpy as np
import pandas as pd
import multisim as ms
assert os.path.abspath(ms.__file__).startswith(REPO + os.sep), ms.__file__
BC = 'BoundaryCondition'
os.chdir(os.environ['DEMO_SCRATCH'])


def gs(T=20., T_amb=20., dn='DN25', s_ins=1e-2, lam=.035):
    return dict(insulation_thickness=s_ins, insulation_lambda=lam, T_init=T, T_amb=T_amb, material='carbon_steel',
                pipe_specs={'all': {'pipe_type': 'EN10255_medium', 'DN': dn}})


def env(timeframe, save=None, **tf):
    s = ms.SimEnv(suppress_printing=True)
    tf.setdefault('adaptive_steps', True)
    s.set_timeframe(timeframe=timeframe, **tf)
    if save is None:
        s.set_disksaving(save=False, sim_name='sim', start_date='2020-01-01 00:00:00')
    else:
        s.set_disksaving(save=True, **save)
    s.set_solver(solver='heun', allow_implicit=False)
    return s


def link(s, a, b):
    (p, q), (r, t) = a.split(';'), b.split(';')
    f = lambda x: BC if x == 'BC' else x
    s.connect_ports(first_part=f(p), first_port=q, scnd_part=f(r), scnd_port=t)


def pump(s, name, dm=.1, n=4, length=2., ctrl=False, **kw):
    kw = dict(gs(), **kw)
    if ctrl:
        kw.update(start_massflow=dm, maximum_flow=.25, lower_limit=0., upper_limit=.2)
    else:
        kw.update(start_massflow=dm, ctrl_required=False, const_val=dm)
    s.add_part(ms.ap.PipeWithPump, name, length=length, grid_points=n, **kw)


def pipe(s, name, n=4, length=2., **kw):
    s.add_part(ms.ap.Pipe, name, length=length, grid_points=n, **dict(gs(), **kw))


def port(s, name, T):
    s.add_open_port(name, constant=isinstance(T, float), temperature=T)


def run(s, build=True, reset=False):
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        s.initialize_sim(build_simenv=build, reset_simenv=reset)
        s.start_sim()
    return s


def pid(s, name, act, part, port=-1, **kw):
    d = dict(process_CV_mode='part_specific', CV_saturation=(0., 1.), controlled_port=port, reference_part='none',
             setpoint=40., sub_controller=False, off_state=0., time_domain='discrete', deadtime=0., slope=(0, 0),
             invert=False, terms='PID', loop_tuning='manual', Kp=.01, Ki=.001, Kd=0., filter_derivative=False, anti_windup=1.)
    d.update(kw)
    s.add_control(ms.ap.PID, name, actuator=act, controlled_part=part, **d)


def check(ok, what):
    if not ok:
        print('FAILED:', what)
        sys.exit(1)
