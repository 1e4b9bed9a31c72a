"""C14: configuration fields."""
from .common import *
from .build import *
from .r_round import rand_config_fields, cfg_fields, same


DEFAULTS = dict(structure_file="", supercell_shape=(1, 1, 1), dimension=3, mobile_ion_specie="Li", mobile_ion_charge=1.0, elementary_hop_distance=1.0, model_type="composite_lce",
                model_file="", event_file="", site_mapping=None, convert_to_primitive_cell=False, initial_state_file=None, initial_occupations=None, temperature=300.0, attempt_frequency=1e13,
                equilibration_passes=1000, kmc_passes=10000, random_seed=None, name="DefaultSimulation", property_sampling_interval=None, property_sampling_time_interval=None,
                builtin_property_enabled={}, property_callbacks=[])


def expect(c, want, what, **info):
    got = cfg_fields(c)
    check(set(got) == set(want), "set of fields differs", got=sorted(got))
    for k, v in want.items():
        check(same(got[k], v), f"field {k} is {got[k]!r}, not {v!r} ({what})", **info)
        check(same(getattr(c, k), v), f"field {k} reads as {getattr(c, k)!r}, not {v!r} ({what})", **info)


@case("C14", weight=2)
def fields_reach_their_place(r):
    C, S, U = need("kmcpy.simulator.config", "Configuration", "SystemConfig", "RuntimeConfig")
    f, _ = rand_config_fields(r)
    ks = list(f)
    r.shuffle(ks)
    f = {k: f[k] for k in ks}
    want = dict(DEFAULTS, **f)
    sysf = {k: v for k, v in f.items() if k in S.__dataclass_fields__}
    runf = {k: v for k, v in f.items() if k in U.__dataclass_fields__}
    expect(C(**f), want, "fields by name", fields=f)
    expect(C.from_dict(dict(f)), want, "from_dict", fields=f)
    if sysf or runf:
        expect(C(system_config=S(**sysf), runtime_config=U(**runf)), want, "prepared parts", fields=f)
        expect(C(system_config=S(**sysf), **runf), want, "prepared system", fields=f)
        expect(C(runtime_config=U(**runf), **sysf), want, "prepared runtime", fields=f)
    # mixing: given names override the prepared part, everything else is kept
    g, _ = rand_config_fields(r)
    s, u = S(**{k: v for k, v in g.items() if k in S.__dataclass_fields__}), U(**{k: v for k, v in g.items() if k in U.__dataclass_fields__})
    expect(C(system_config=s, runtime_config=u, **f), dict(DEFAULTS, **{**g, **f}), "prepared parts with overrides", fields=f, base=g)
    expect(C(system_config=s, runtime_config=u), dict(DEFAULTS, **g), "prepared parts after they were overridden elsewhere", fields=f, base=g)
    bad = dict(f)
    nm = r.choice(["temperatur", "T", "structure", "supercell", "Temperature", "seed", "mobile_ion", "kmc_pass", "v", "immutable_sites", "system", "name_"])
    bad[nm] = r.choice([1, None, "x"])
    check(raises((ValueError, TypeError), C, **bad), "unknown field accepted", field=nm)
    check(raises((ValueError, TypeError), C.from_dict, bad), "unknown field accepted by from_dict", field=nm)
    check(raises(ValueError, C), "a configuration without any input was made")


@case("C14", weight=2)
def changes_touch_only_the_named_fields(r):
    C, S, U = need("kmcpy.simulator.config", "Configuration", "SystemConfig", "RuntimeConfig")
    f, _ = rand_config_fields(r)
    g, pool = rand_config_fields(r)
    c = C(**f)
    old = dict(DEFAULTS, **f)
    sysf = {k: v for k, v in g.items() if k in S.__dataclass_fields__}
    runf = {k: v for k, v in g.items() if k in U.__dataclass_fields__}
    d = c.with_runtime_changes(**runf)
    expect(d, {**old, **runf}, "with_runtime_changes", base=f, changes=runf)
    expect(c, old, "the original after with_runtime_changes", base=f, changes=runf)
    e = d.with_system_changes(**sysf)
    expect(e, {**old, **runf, **sysf}, "with_system_changes", base=f, changes=sysf)
    expect(d, {**old, **runf}, "the original after with_system_changes", base=f, changes=sysf)
    check(raises(TypeError, c.with_runtime_changes, nonsense=1) and raises(TypeError, c.with_system_changes, nonsense=1), "unknown change accepted")
    k = r.choice(list(old))
    for obj in (c, c.system_config if k in S.__dataclass_fields__ else c.runtime_config):
        try:
            setattr(obj, k, pool[k]())
        except (AttributeError, TypeError):
            pass
        try:
            delattr(obj, k)
        except (AttributeError, TypeError):
            pass
    for part in ("system_config", "runtime_config"):
        check(raises((AttributeError, TypeError), setattr, c, part, S() if part[0] == "s" else U()), "a part of a configuration can be replaced in place", part=part)
    expect(c, old, "after assigning to a field", field=k)
    # records handed out are copies of the switches and callbacks
    rec = c.as_dict(include_loader_paths=True)
    rec["builtin_property_enabled"]["msd"] = "changed"
    rec["property_callbacks"].append("changed")
    if rec["property_callbacks"][0] != "changed":
        rec["property_callbacks"][0]["callable"] = "changed"
    for v in (rec["site_mapping"], rec["initial_occupations"]):
        if isinstance(v, dict):
            v["changed"] = 1
        elif isinstance(v, list):
            v.append(99)
    rec["supercell_shape"][0] = 99
    expect(c, old, "after editing the dictionary it was written to", base=f)


BAD = [("temperature", [0, 0.0, -1, -300.0, -1e-9]), ("attempt_frequency", [0, -1.0, -1e13, -1e-9]), ("kmc_passes", [0, -1, -1000, -0.5]), ("equilibration_passes", [-1, -1000, -0.5, -1e-6]), ("dimension", [0, 4, -1, 6, 2.5, "x", None]),
       ("supercell_shape", [(1, 1), (1,), (1, 1, 1, 1), [2, 2], ()]), ("property_sampling_interval", [0, -1, -7]), ("property_sampling_time_interval", [0, 0.0, -1e-9]),
       ("builtin_property_enabled", [{"nonsense": True}, {"msd": 1}, {"msd": "no"}, {"msd": None}, [], "msd"]),
       ("property_callbacks", [{}, "m:f", ({"callable": "m:f"},), ["m:f"], [{"callable": ""}], [{"callable": "  "}], [{"callable": 3}], [{"name": "x"}], [{"callable": "m:f", "nope": 1}], [{"callable": "m:f", "interval": 0}],
                               [{"callable": "m:f", "interval": -3}], [{"callable": "m:f", "time_interval": 0.0}], [{"callable": "m:f", "time_interval": -1.0}], [{"callable": "m:f", "max_records": 0}],
                               [{"callable": "m:f", "max_records": -2}], [{"callable": "m:f", "max_records": 2.5}], [{"callable": "m:f", "store": 1}], [{"callable": "m:f", "enabled": "yes"}],
                               [{"callable": "m:f"}, {"callable": "m:g", "interval": 0}], [{"callable": "m:f"}, {"callable": "m:g"}, 7]])]


@case("C14", weight=1.5)
def invalid_values_are_rejected(r):
    C, S, U = need("kmcpy.simulator.config", "Configuration", "SystemConfig", "RuntimeConfig")
    k, vals = BAD[r.k % len(BAD)] if r.b(0.7) else r.choice(BAD)
    v = vals[(r.k // len(BAD)) % len(vals)]
    if isinstance(v, (int, float)) and not isinstance(v, bool) and k in ("temperature", "attempt_frequency", "property_sampling_time_interval") and r.b(0.3):
        v = -abs(r.uniform(0, 1e6))
    f, _ = rand_config_fields(r)
    good = C(**{x: y for x, y in f.items() if x != k}) if set(f) - {k} else C(name="x")
    f[k] = v
    err = (ValueError, TypeError)
    check(raises(err, C, **f), "invalid value accepted", field=k, value=v, fields=f)
    check(raises(err, C.from_dict, f), "invalid value accepted by from_dict", field=k, value=v)
    part, change = (S, good.with_system_changes) if k in S.__dataclass_fields__ else (U, good.with_runtime_changes)
    check(raises(err, part, **{k: v}), "invalid value accepted by the part", field=k, value=v)
    before = cfg_fields(good)
    check(raises(err, change, **{k: v}), "invalid change accepted", field=k, value=v)
    check(same(cfg_fields(good), before), "a rejected change altered the configuration", field=k)
    check(raises(err, lambda: C(system_config=S(), runtime_config=U(), **{k: v})), "invalid override accepted", field=k, value=v)
