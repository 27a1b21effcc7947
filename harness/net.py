"""Declarative plants. A plant is a dict
   parts: {name: dict(kind=..., **options)}
   links: [[part;port, part;port], ...]   (BC;<name> is an open port)
   bcs:   {name: temperature}
Port flows are reported positive into the part.
"""
from mslab import ms, np, gs, connect, BC

PORTS = dict(pipe=('in', 'out'), ppump=('in', 'out'), pump=('in', 'out'), heated=('in', 'out'),
             pvalve=('A', 'B', 'AB'), mix=('A', 'B', 'AB'), split=('A', 'B', 'AB'), conn=('A', 'B', 'C'))


def _g(o, **kw):
    d = dict(T_init=o.get('T', 20.), T_amb=o.get('T_amb', 20.), dn=o.get('dn', 'DN25'),
             s_ins=o.get('s_ins', 1e-2), lam=o.get('lam', 0.035))
    d.update(kw)
    return dict(gs(**d), material=o.get('mat', 'carbon_steel'))


def part_kw(name, o):
    """(class, keyword arguments) of one part."""
    k = o['kind']
    A = ms.ap
    g = _g(o)
    store = dict(store_results=o['store']) if 'store' in o else {}
    if k == 'pipe':
        return A.Pipe, dict(length=o.get('length', 2.), grid_points=o.get('n', 4), **store, **g)
    if k in ('ppump', 'heated', 'pvalve'):
        d = dict(length=o.get('length', 2.), grid_points=o.get('n', 4), **store, **g)
        d.update(o['act'])
        if k == 'pvalve':
            d.update(valve_location=o.get('loc', 1))
        return dict(ppump=A.PipeWithPump, heated=A.HeatedPipe, pvalve=A.PipeWith3wValve)[k], d
    if k == 'pump':
        d = {x: g[x] for x in ('material', 'pipe_specs')}
        d.update(o['act'], **store)
        return A.Pump, d
    if k in ('mix', 'split'):
        d = {x: g[x] for x in ('material', 'pipe_specs')}
        d.update(o['act'], **store)
        d.update(mix_or_split=k)
        return A.MixingValve, d
    if k == 'conn':
        return A.Connector3w, dict({x: g[x] for x in ('material', 'pipe_specs')}, **store)
    if k == 'branched':
        return A.PipeBranched, dict(length=o.get('length', 2.), grid_points=o.get('n', 5), new_ports=o['new_ports'], **store, **g)
    if k == 'tes':
        return A.Tes, dict(volume=o.get('volume', .05), grid_points=o.get('n', 5), outer_diameter=o.get('d', .3),
                           shell_thickness=5e-3, new_ports=o.get('new_ports'), **store, **g)
    raise KeyError(k)


def add(s, name, o, wrap=None):
    cls, kw = part_kw(name, o)
    if wrap is not None:
        cls = wrap(cls)
    s.add_part(part=cls, name=name, **kw)


def build(s, plant, wrap=None):
    for name, o in plant['parts'].items():
        add(s, name, o, wrap)
    for name, t in plant.get('bcs', {}).items():
        if isinstance(t, (int, float)):
            s.add_open_port(name, constant=True, temperature=float(t))
        else:
            s.add_open_port(name, constant=False, temperature=t)
    for a, b in plant['links']:
        connect(s, a.replace('BC;', BC + ';'), b.replace('BC;', BC + ';'))


def inflow(part, port):
    """Mass flow into the part through the port (current step)."""
    f = float(np.ravel(part.info_topology[port]['Massflow'])[0])
    return f if part.dm_char[part.port_names.index(port)] == 'in' else -f


def flows(s, parts):
    return {'%s;%s' % (n, q): inflow(s.parts[n], q) for n in parts for q in s.parts[n].port_names}


DIM = dict(DN20=(.0216, .0269), DN25=(.0272, .0337), DN32=(.0359, .0424), DN40=(.0418, .0483), DN50=(.053, .0603))
RHOCP = dict(carbon_steel=7402.2 * 1170.4, stainless_steel=7700.9 * 1400.4)


def capacity(o, x):
    """Heat capacity of the cells of a part at the temperatures x, from its geometry."""
    if o['kind'] == 'tes':
        n, do = o.get('n', 5), o.get('d', .3)
        di = do - 2 * 5e-3
        V = o.get('volume', .05) / n
    else:
        n = o.get('n', 5 if o['kind'] == 'branched' else 4)
        di, do = DIM[o.get('dn', 'DN25')]
        V = np.pi / 4 * di ** 2 * o.get('length', 2.) / n
    return V * ms.pf.rho_water(x) * ms.pf.cp_water(x) + V * ((do / di) ** 2 - 1) * RHOCP[o.get('mat', 'carbon_steel')]
