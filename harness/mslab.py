"""Shared laboratory for the conformance drivers.

Builds simulation environments of the real code (imported from /repo) from a
declarative description and runs them silently.  Everything that happens on
disk happens in the scratch directory the runner created (cwd).
"""
import contextlib
import io
import os
import signal
import sys
import warnings

warnings.filterwarnings('ignore')

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

try:
    import multisim as ms  # noqa: E402
except BaseException:  # the code under test cannot be used at all
    import traceback
    traceback.print_exc()
    sys.exit(3)

BC = 'BoundaryCondition'
PS = {'all': {'pipe_type': 'EN10255_medium', 'DN': 'DN25'}}


def gs(T_init=20.0, T_amb=20.0, dn='DN25', s_ins=1e-2, lam=0.035):
    """General part specs."""
    return dict(
        insulation_thickness=s_ins,
        insulation_lambda=lam,
        T_init=T_init,
        T_amb=T_amb,
        material='carbon_steel',
        pipe_specs={'all': {'pipe_type': 'EN10255_medium', 'DN': dn}},
    )


class Timeout(Exception):
    pass


@contextlib.contextmanager
def limit(seconds):
    """Raise Timeout in the main thread after `seconds`."""

    def onalarm(signum, frame):
        raise Timeout('no result after %s s' % seconds)

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        with np.errstate(all='ignore'):
            yield buf


def env(timeframe=60.0, save=None, allow_implicit=False, **tf):
    """New environment with timeframe, disk saving and solver set."""
    s = ms.SimEnv(suppress_printing=True)
    tf.setdefault('adaptive_steps', True)
    s.set_timeframe(timeframe=timeframe, **tf)
    if save is None:
        s.set_disksaving(save=False, sim_name='sim', start_date='2020-01-01 00:00:00')
    else:
        s.set_disksaving(save=True, **save)
    s.set_solver(solver='heun', allow_implicit=allow_implicit)
    return s


def connect(s, a, b):
    """Connect 'part;port' strings."""
    (p1, q1), (p2, q2) = a.split(';'), b.split(';')
    s.connect_ports(first_part=p1, first_port=q1, scnd_part=p2, scnd_port=q2)


def pid_kw(**kw):
    d = dict(
        process_CV_mode='part_specific',
        CV_saturation=(0.0, 1.0),
        controlled_port=-1,
        reference_part='none',
        setpoint=40.0,
        sub_controller=False,
        off_state=0.0,
        time_domain='discrete',
        deadtime=0.0,
        slope=(0, 0),
        invert=False,
        terms='PID',
        loop_tuning='manual',
        Kp=0.01,
        Ki=0.001,
        Kd=0.0,
        filter_derivative=False,
        anti_windup=1.0,
    )
    d.update(kw)
    return d


def run(s, build=True, reset=False):
    with quiet():
        s.initialize_sim(build_simenv=build, reset_simenv=reset)
        s.start_sim()
    return s


# --------------------------------------------------------------------------
# recording helpers
BIG = 2000000000
NAN = 2100000000


def fx(x, unit=1e-6):
    """Fixed point integer of x in units of `unit` (32 bit, saturating)."""
    x = float(x)
    if x != x:
        return NAN
    y = x / unit
    if y > BIG:
        return BIG
    if y < -BIG:
        return -BIG
    return int(round(y))


def fxv(a, unit=1e-6):
    return [fx(x, unit) for x in np.asarray(a, dtype=float).ravel()]


class Ids:
    """Interning of values: equal bits <-> equal id."""

    def __init__(self):
        self.d = {}

    def __call__(self, x):
        if isinstance(x, np.ndarray):
            k = (str(x.dtype), x.shape, x.tobytes())
        else:
            k = repr(x)
        return self.d.setdefault(k, len(self.d) + 1)


def guarded(job):
    """Run fn(scn, arg) -> records; whatever escapes the code is recorded."""
    import traceback
    fn, scn, arg, secs = job
    recs = []
    try:
        with limit(secs):
            fn(recs, scn, arg)
    except Timeout:
        recs.append(dict(ev='timeout', scn=scn, what='no result after %d s' % secs))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[::-1][:4])
        recs.append(dict(ev='raise', scn=scn, what='%s: %s at %s' % (type(e).__name__, str(e)[:300], at)))
    return recs


def drive(jobs, out, procs=None, seconds=60, tasks=50):
    """jobs: list of (fn, scn, arg); run them in parallel, write one trace."""
    import json
    import multiprocessing as mp
    procs = procs or int(os.environ.get('VERIF_PROCS', '8'))
    todo = [(f, s, a, seconds) for f, s, a in jobs]
    names = [s for _, s, _ in jobs]
    if len(set(names)) != len(names):
        raise RuntimeError('scenario names not unique')
    with open(out, 'w') as f:
        if procs == 1:
            it = map(guarded, todo)
        else:
            pool = mp.get_context('fork').Pool(procs, maxtasksperchild=tasks)
            it = pool.imap(guarded, todo, chunksize=1)
        for recs in it:
            for r in recs:
                f.write(json.dumps(r) + '\n')
        if procs != 1:
            pool.close()
            pool.join()


def main(make_jobs, seconds=60, tasks=50):
    import json
    gen, out = sys.argv[1], sys.argv[2]
    with open(gen) as f:
        g = json.load(f)
    tier = os.environ.get('VERIF_TIER', 'quick')
    drive(make_jobs(g, tier), out, seconds=seconds, tasks=tasks)


# --------------------------------------------------------------------------
# recording subclasses: observe every evaluation of a part's derivative
class Tape(list):
    pass


def recording(base, tape, simbox):
    """Subclass of part class `base` that logs each get_diff evaluation."""

    class R(base):
        def get_diff(self, timestep):
            T = self.T.copy()
            d = super().get_diff(timestep)
            tp = getattr(self, '_T_port', None)
            tape.append((self.name, int(simbox[0].stepnum[0]), float(timestep), T, np.array(d, copy=True),
                         None if tp is None else np.array(tp, copy=True)))
            return d

    R.__name__ = base.__name__
    return R
