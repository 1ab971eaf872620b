"""C27: annual mode changes neither sizing nor the building."""
import copy

from hypothesis import strategies as st

from harness import design
from harness.core import Skip, Sub, Violation, require

PROPERTY = "C27"
RULE = ("Cases: a multi-family building in a random climate zone, once with its daily and once with its annual load shape, a system of any kind (swing ER "
        "included) and a history of sizing, curve, plot, trade-off, simulation, step and failing calls on it. Oracle: every sizing result and error of the annual twin equals the "
        "daily twin's; after every call the building still has the same mode, shapes and use. Non-trivial: at least two calls besides reading the sizes.")
SIZING = ("resize", "sizes", "curve", "lscurve", "plot", "other", "fail", "er", "noinlet", "badls", "mpsize")


def fail(d, kind, s, bld, args):
    """calls that must be refused"""
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    from ecoengine.objects.dhwsystems.InstantWHSystem import InstantWHSystem
    from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
    from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    from harness.gen import mk_cmap
    sup, sto, ret = d["supply"], d["storage"], d["supply"] - d["dret"]
    high = mk_cmap({"normal": {"on_f": 0.999, "on_t": sto + 60, "off_f": 0.99, "off_t": sto + 60, "out_t": sto}})
    if kind == "aquastat":                            # nothing usable above the aquastat
        DHWSystem.from_size(bld, sup, sto, control_schedule=["normal"] * 24, control_map=high)
    elif kind == "swing_large":
        SwingSystem.from_size(bld, sup, sto, sup - 10, 4000.0)
    elif kind == "swing_aquastat":
        SwingSystem.from_size(bld, sup, sto, ret, d["gpm"], control_schedule=["normal"] * 24, control_map=high)
    elif kind == "er_large":
        SwingERTrdOffSystem.from_size(bld, sup, sto, sup - 10, 4000.0)
    elif kind == "parallel_tm":
        ParallelLoopSystem.from_size(bld, sup, sto, ret, d["gpm"], sup, sup - 5.0)
    elif kind == "mp_ls":
        MultiPassRTPSystem.from_size(bld, sup, sto, ret, d["gpm"], control_schedule=["shed"] * 3 + ["normal"] * 21,
                                     control_map={"normal": args.cmap["normal"], "shed": args.cmap["normal"]})
    elif kind.startswith("noinlet_"):                 # the building itself loses its design temperatures for the duration of the call
        zone, bld.climate_zone = bld.climate_zone, None
        try:
            noinlet(kind[8:], d, s, bld, args, sup, sto, ret)
        finally:
            bld.climate_zone = zone
    elif kind == "ls_curve_noshed":
        s.get_ls_sizing_curve(bld, ["normal"] * 24, {"normal": args.cmap["normal"]})
    else:
        raise AssertionError(kind)


def noinlet(kind, d, s, bld, args, sup, sto, ret):
    from ecoengine.objects.dhwsystems.InstantWHSystem import InstantWHSystem
    from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
    if kind == "build":
        design.build(d, bld, args)
    elif kind == "instant":
        InstantWHSystem.from_size(bld, sup, sto)
    elif kind == "swing":
        SwingSystem.from_size(bld, sup, sto, ret, d["gpm"])
    elif kind == "er":
        SwingERTrdOffSystem.from_size(bld, sup, sto, ret, d["gpm"], tm_safety_factor=1.5)
    elif kind == "sprtp":
        SinglePassRTPSystem.from_size(bld, sup, sto, ret, d["gpm"])
    elif kind == "mp":
        MultiPassRTPSystem.from_size(bld, sup, sto, ret, d["gpm"], control_schedule=["normal"] * 24, control_map={"normal": args.cmap["normal"]})
    elif kind == "curve":
        s.get_sizing_curve(bld)
    elif kind == "lscurve":
        s.get_ls_sizing_curve(bld, args.sched, args.cmap)
    elif kind == "points":                            # trade-off points of an element plant that was sized before
        z, bld.climate_zone = bld.climate_zone, args.zone
        x = SwingERTrdOffSystem.from_size(bld, sup, sto, ret, d["gpm"], tm_safety_factor=1.5)
        bld.climate_zone = z
        x.get_er_sized_points(bld)
    else:
        raise AssertionError(kind)


FAILS = ("aquastat", "swing_large", "swing_aquastat", "er_large", "parallel_tm", "mp_ls", "ls_curve_noshed")


def er(d, bld):
    from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem
    s = SwingERTrdOffSystem.from_size(bld, d["supply"], d["storage"], d["supply"] - d["dret"], d["gpm"], tm_safety_factor=1.5, max_daily_run_hr=d["run"])
    out = [s.get_er_capacity_kbtuh(), s.get_minimum_tm_capacity_kbtuh(), s.get_minimum_capacity_kbtuh()]
    kw, cov, ind = s.get_er_sized_points(bld)
    return ("er", tuple(float(x) for x in out), tuple(float(k) for k in kw), tuple(cov), ind)


def call(op, d, s, bld, args):
    try:
        if op[0] == "fail":
            args.zone = bld.climate_zone
            fail(d, op[1], s, bld, args)
            return ("accepted",)
        if op[0] == "er":
            return er(d, bld)
        if op[0] == "mpsize":                         # the plain sizing of a multi-pass plant, without the capacity trial
            x = copy.copy(s)
            x.size(bld, control_schedule=args.sched, control_map=args.cmap, strat_slope=d["slope"])
            return ("sizes", design.sizes(d, x))
    except (ValueError, RuntimeError, ZeroDivisionError, AttributeError, KeyError, IndexError) as e:
        return ("raised", type(e).__name__)
    return design.call(op, d, s, bld, args)


@st.composite
def case(draw, kinds=design.KINDS):
    d = draw(design.design(kinds=kinds, stock=True))
    o = design.ops_for(d, sims=False) + fails_for(d) + [("er",), ("steps", 0)]
    if d["kind"] == "mprtp":
        o += [("mpsize",)] * 4
    return {"d": d, "ops": [list(x) for x in draw(st.lists(st.sampled_from(o), min_size=2, max_size=6))]}


def fails_for(d):
    o = [("fail", k) for k in FAILS[:6]] + [("fail", "noinlet_" + k) for k in ("build", "instant", "swing", "er", "sprtp", "mp", "points")]
    if d["kind"] not in ("instant", "mprtp"):
        o += [("fail", "ls_curve_noshed"), ("fail", "noinlet_curve"), ("fail", "noinlet_lscurve")]
    if d["kind"] == "mprtp":
        o += [("fail", "noinlet_curve")]
    return o


@st.composite
def fail_case(draw, kinds):
    """every refused call once, in some order"""
    d = draw(design.design(kinds=kinds, stock=True))
    return {"d": d, "ops": [list(x) for x in draw(st.permutations(fails_for(d)))]}


def check(c):
    d = c["d"]
    try:
        ba, aa, sa = design.make(d, annual=True)
    except Skip:
        b = design.mk_building(d["b"], False)
        try:
            design.build(d, b, design.Args(d))
            small = False
        except (ValueError, RuntimeError, ZeroDivisionError):
            small = True
        # feasibility is the daily twin's
        try:
            x = design.mk_building(d["b"], True)
            x0 = design.bld_state(x)
            design.build(d, x, design.Args(d))
            require(not small, "sizing succeeds in annual mode only")
        except (ValueError, RuntimeError, ZeroDivisionError):
            require(small, "sizing fails in annual mode only")
            require(design.bld_state(x) == x0, "a failing sizing changed the annual building")
        raise Skip
    require(ba.is_annual_load_shape(), "sizing left an annual building in daily mode")
    fresh = design.mk_building(d["b"], True)
    s0 = design.bld_state(fresh)
    require(design.bld_state(ba) == s0, "sizing changed the annual building")
    bd, ad, sd = design.make(d, annual=False)
    d0 = design.bld_state(bd)
    require(not bd.is_annual_load_shape(), "sizing left a daily building in annual mode")
    pa, pd = design.plant(d, sa), design.plant(d, sd)
    require(pa == pd, f"plant in annual mode {pa}, daily {pd}")
    for i, op in enumerate(c["ops"]):
        x = call(op, d, sa, ba, aa)
        if design.bld_state(ba) != s0:
            raise Violation(f"call {i} {op} ({x[0]}) left the annual building with {len(ba.peak_load_shape)} hours, use {ba.daily_dhw_use_supplyT_gal}")
        if op[0] in SIZING:
            y = call(op, d, sd, bd, ad)
            if x != y:
                raise Violation(f"call {i} {op}: annual {str(x)[:300]}, daily {str(y)[:300]}")
            require(design.bld_state(bd) == d0, f"call {i} {op} changed the daily building")
        require(design.plant(d, sa) == pa, f"call {i} {op} changed the plant")
    return len([o for o in c["ops"] if o[0] != "sizes"]) >= 2, (d["kind"],) + (("ls",) if design.is_ls(d) else ())


def sim_check(c):
    """simulating does not change the mode either, and uses the shape of the mode"""
    from ecoengine.interfaces.Simulator import simulate_3day
    from ecoengine.objects.building.Building import Building  # noqa: F401
    d = c["d"]
    b, a, s = design.make(d, annual=c["annual"])
    s0 = design.bld_state(b)
    r = simulate_3day(s, b)
    require(design.bld_state(b) == s0, "a simulation changed the building")
    ls = design.is_ls(d)
    n = len(r.dhw_demand_supplyT_gal)
    for i in range(0, n, 7):
        shape = b.avg_load_shape if ls else b.peak_load_shape
        want = float(shape[(i // 60) % len(shape)]) * b.daily_dhw_use_supplyT_gal / 60.0
        require(abs(r.dhw_demand_supplyT_gal[i] - want) <= 1e-9 * (1 + want), f"demand of minute {i} is {r.dhw_demand_supplyT_gal[i]}, expected {want}")
    return True, (d["kind"], "annual" if c["annual"] else "daily")


@st.composite
def sim_case(draw):
    return {"d": draw(design.design(kinds=("primary", "parallel", "swing", "sprtp", "instant"), stock=True)), "annual": draw(st.booleans())}


@st.composite
def switch_case(draw):
    return {"d": draw(design.design(kinds=("primary", "swing", "instant", "sprtp"), stock=True)),
            "modes": draw(st.lists(st.booleans(), min_size=3, max_size=8))}


def check_switch(c):
    """size after every switch of mode: always the same plant, and the mode stays as set"""
    d = c["d"]
    b, a, s = design.make(d)
    want = design.sizes(d, s)
    for i, m in enumerate(c["modes"]):
        (b.set_to_annual_load_shape if m else b.set_to_daily_load_shape)()
        ref_state = design.bld_state(design.mk_building(d["b"], m))
        require(design.bld_state(b) == ref_state, f"switch {i} to {'annual' if m else 'daily'} mode")
        got = design.sizes(d, design.build(d, b, a))
        require(got == want, f"sized in mode {m} after {c['modes'][:i]}: {got}, expected {want}")
        require(design.bld_state(b) == ref_state, f"sizing after switch {i} changed the building")
    return len(set(c["modes"])) == 2, (d["kind"],)


SUBS = [
    Sub("histories", case(("primary", "parallel", "swing", "sprtp", "instant")), check, quick=128, thorough=3000, shards=16),
    Sub("multi_pass", case(("mprtp",)), check, quick=32, thorough=400, shards=8),
    Sub("refused", fail_case(("swing", "primary", "sprtp", "parallel", "instant")), check, quick=40, thorough=600, shards=8),
    Sub("refused_mp", fail_case(("mprtp",)), check, quick=8, thorough=80, shards=2),
    Sub("switching", switch_case(), check_switch, quick=64, thorough=800, shards=8),
    Sub("simulation", sim_case(), sim_check, quick=32, thorough=300, shards=8),
]
