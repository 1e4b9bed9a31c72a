"""Small real objects built through the public API."""
import numpy as np
from .common import *


def events_mod():
    return need("kmcpy.event", "Event", "EventLib")


def rand_event(r, n_sites, env_max=6, allow_self=False):
    Event = need("kmcpy.event", "Event")
    a = r.randrange(n_sites)
    b = r.randrange(n_sites)
    while b == a and n_sites > 1 and not allow_self:
        b = r.randrange(n_sites)
    m = r.i(0, env_max)
    env = tuple(r.randrange(n_sites) for _ in range(m))
    return Event(mobile_ion_indices=(a, b), local_env_indices=env)


def rand_lib(r, n_events, n_sites, env_max=6, deps=True):
    Event, EventLib = events_mod()
    lib = EventLib()
    for _ in range(n_events):
        lib.add_event(rand_event(r, n_sites, env_max))
    if deps:
        lib.generate_event_dependencies()
    return lib


def sites_of(ev):
    return set(ev.mobile_ion_indices) | set(ev.local_env_indices)


def mk_config(**kw):
    Configuration = need("kmcpy.simulator.config", "Configuration")
    base = dict(structure_file="x.cif", supercell_shape=(1, 1, 1), dimension=3, mobile_ion_specie="Na", mobile_ion_charge=1.0,
                elementary_hop_distance=1.0, temperature=300.0, attempt_frequency=1e13, equilibration_passes=0, kmc_passes=1,
                random_seed=1, name="t")
    base.update(kw)
    return Configuration(**base)


def mk_structure(n, r=None, specie="Na", skew=False, others=()):
    from pymatgen.core import Lattice, Structure
    if r is None or not skew:
        lat = Lattice.cubic(10.0)
    else:
        lat = Lattice.from_parameters(r.uniform(4, 12), r.uniform(4, 12), r.uniform(4, 12), r.uniform(65, 115), r.uniform(65, 115), r.uniform(65, 115))
    rr = r or random.Random(0)
    coords = [[rr.random(), rr.random(), rr.random()] for _ in range(n + len(others))]
    return Structure(lat, [specie] * n + list(others), coords)


class LocalModel:
    """Rate = a function of the occupations of the event's own sites (zero for some)."""

    def __init__(self, r, kill=0.0):
        self.w = [r.random() for _ in range(4096)]
        self.kill = kill
        self.calls = 0

    def rate(self, ev, occ):
        f, t = ev.mobile_ion_indices
        s = 0.1
        for k, i in enumerate((f, t) + tuple(ev.local_env_indices)):
            s += self.w[(7 * int(i) + 131 * k + 977 * int(occ[i])) % 4096]
        if occ[f] == occ[t]:
            return 0.0
        if self.kill and (s * 37.0) % 1.0 < self.kill:      # the environment alone can block the hop
            return 0.0
        return s

    def compute_probability(self, event, runtime_config=None, simulation_state=None, **kw):
        self.calls += 1
        return self.rate(event, simulation_state.occupations)


def mk_kmc(r, lib, occ, model=None, structure=None, config=None, lookup=None, **kw):
    KMC = need("kmcpy.simulator.kmc", "KMC")
    State = need("kmcpy.simulator.state", "State")
    st = State(occupations=list(occ))
    model = model or LocalModel(r)
    structure = structure or mk_structure(len(occ), r)
    k = KMC(structure=structure, model=model, event_lib=lib, config=config or mk_config(), simulation_state=st, hop_state_lookup=lookup, **kw)
    return k


class FixedRng:
    """numpy Generator whose next uniform draws are prescribed (usable from numba)."""


def gen_with_draws(us):
    """A real numpy Generator that returns exactly the given doubles (53-bit)."""
    import numpy as np
    vals = [int(round(u * 2 ** 53)) for u in us]
    return vals
