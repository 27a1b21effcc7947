"""A part whose temperatures follow a script, exactly: cell k has after step n
the scripted value. Tries can be rejected on demand, which makes the step sizes
controllable (powers of two)."""
from mslab import ms, np, gs, connect, BC, env

U = 1024.0  # script unit: 1/1024 K
HMIN = 0.125
TF = dict(adaptive_steps=True, min_stepsize=HMIN, max_stepsize=1.0, max_factor=2.0, min_factor=0.5,
          factor_recovery=1, rtol=1e-3, atol=1e-6)


def sensor_class(script, box, hmin=HMIN, probe=None, base=None, key='v', reject=True):
    """script: list of dict(rej, v); v in units of 1/1024 K per cell."""

    class Sensor(base or ms.ap.PipeWithPump):
        def get_diff(self, timestep):
            super().get_diff(timestep)
            if not hasattr(self, '_s_step'):
                self._s_step, self._s_try, self._s_stage = 0, 0, 0
                self._s_out = np.zeros_like(self.T)
            n = box_step(box)
            if n != self._s_step:
                self._s_step, self._s_try, self._s_stage = n, 0, 0
            row = script[(n - 1) % len(script)]
            if probe is not None:
                probe(n)
            if self._s_stage == 0:
                self._s_stage = 1
                self._s_out[:] = (np.array(row[key], dtype=float) / U - self.T) / timestep
                self._s_keep = self._s_out.copy()
            else:
                self._s_stage = 0
                self._s_out[:] = self._s_keep
                if reject and self._s_try < row.get('rej', 0) and timestep > hmin:
                    self._s_out += 1e12 / timestep
                self._s_try += 1
            return self._s_out

    return Sensor


def box_step(box):
    s = box[0]
    return int(s.stepnum[0]) + int(getattr(s, '_total_stepnum', 0))


def still_class(base):
    """Part without temperature dynamics (flows are processed as usual)."""

    class Still(base):
        def get_diff(self, timestep):
            super().get_diff(timestep)
            if not hasattr(self, '_s_zero'):
                self._s_zero = np.zeros_like(self.T)
            return self._s_zero

    Still.__name__ = base.__name__
    return Still


def add_sensor(s, script, name='sen', hmin=HMIN, T0=25.0, probe=None):
    n = len(script[0]['v'])
    s.add_part(part=sensor_class(script, [s], hmin, probe), name=name, length=2., grid_points=n, start_massflow=0.,
               ctrl_required=False, const_val=0., **gs(T_init=T0))
    s.add_open_port('BC_%s_a' % name, constant=True, temperature=20.)
    s.add_open_port('BC_%s_b' % name, constant=True, temperature=20.)
    connect(s, BC + ';BC_%s_a' % name, name + ';in')
    connect(s, name + ';out', BC + ';BC_%s_b' % name)


def add_actuator(s, name, **kw):
    """Pump pipe of its own network without temperature dynamics."""
    s.add_part(part=still_class(ms.ap.PipeWithPump), name=name, length=50., grid_points=2, start_massflow=0., **kw, **gs())
    s.add_open_port('BC_%s_a' % name, constant=True, temperature=20.)
    s.add_open_port('BC_%s_b' % name, constant=True, temperature=20.)
    connect(s, BC + ';BC_%s_a' % name, name + ';in')
    connect(s, name + ';out', BC + ';BC_%s_b' % name)
