"""C05: primary sizing equals an independent computation for every load and design."""
import warnings

from hypothesis import strategies as st

from harness import ref
from harness.core import Skip, Sub, Violation, expect_raises, require, require_close
from harness.gen import control, load_shape, mk_building, mk_cmap, num, temps

PROPERTY = "C05"
RULE = ("Cases: random 24 h load shapes (spiky, sparse, flat, general), daily volume, inlet/supply/storage "
        "temperatures, run hours 4..24, defrost 0.5..1, stratification slope, aquastat heights and triggers, with and "
        "without controls.  Oracle: windowed worst net withdrawal of the repeating day and exact integral of the "
        "stratified profile.  Non-trivial: required storage > 0.5 % of the daily volume.")
ASSUMPTIONS = ["numpy load shapes; sizing inputs finite and physically ordered (inlet < supply <= storage)"]


@st.composite
def sizing_case(draw, with_controls=None):
    t = draw(temps())
    if draw(st.integers(0, 11)) == 5:
        t = {**t, "storage": t["supply"]}           # no hotter than it is supplied
    c = {"daily": draw(st.one_of(num(20, 20000), num(1, 20), num(20000, 400000))), "peak": draw(load_shape()), "run": draw(st.one_of(num(4, 24), num(12, 24), num(1, 8))),
         "defrost": draw(st.one_of(st.just(1.0), num(0.5, 1.0))),
         "slope": draw(st.one_of(st.just(2.8), num(0.5, 6.0))), **t}
    kind = draw(st.sampled_from(["none", "normal", "normal", "several", "other"])) if with_controls is None \
        else ("normal" if with_controls else "none")
    c["kind"] = kind
    if kind == "none":
        c["cmap"] = None
    elif kind == "normal":
        c["cmap"] = {"normal": draw(control(t["supply"], t["storage"]))}
    elif kind == "several":
        c["cmap"] = {"normal": draw(control(t["supply"], t["storage"])),
                     "loadUp": draw(control(t["supply"], t["storage"]))}
    else:
        c["cmap"] = {"loadUp": draw(control(t["supply"], t["storage"])),
                     "eco": draw(control(t["supply"], t["storage"]))}
    return c


def strat_factor(c):
    if not c["cmap"]:
        ks = [(0.0, c["supply"])]
    elif "normal" in c["cmap"]:
        k = c["cmap"]["normal"]
        ks = [(k["on_f"], k["on_t"])]
    else:
        ks = [(k["on_f"], k["on_t"]) for k in c["cmap"].values()]
    return min(ref.usable_gal_per_100(f, t, c["slope"], c["inlet"], c["supply"], c["storage"]) for f, t in ks) / 100.0


def expected(c):
    gph = c["daily"] / c["run"]
    cap = ref.capacity_kbtuh(gph, c["supply"] - c["inlet"], c["defrost"])
    runv = ref.worst_deficit([c["daily"] * p for p in c["peak"]], [gph] * 24)
    sf = strat_factor(c)
    if sf < 0.02:
        raise Skip()
    return cap, runv / sf, sf


def build(c, cls=None):
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    cmap = mk_cmap(c["cmap"]) if c["cmap"] else None
    sched = ["normal"] * 24 if cmap else None
    return DHWSystem.from_size(mk_building(c), c["supply"], c["storage"], c["run"], c["defrost"],
                               control_schedule=sched, control_map=cmap, strat_slope=c["slope"])


def check_size(c):
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    cap, vol, sf = expected(c)
    s = build(c)
    tol = 1e-7 * c["daily"] / sf
    require_close(s.get_minimum_capacity_kbtuh(), cap, "capacity", 1e-8, 1e-9)
    require_close(s.get_minimum_storage_storageT_gal(), vol, "storage volume", 1e-7, tol)
    # the built plant is the sized plant
    require_close(s.storage_tank.total_volume_gal, vol, "built tank volume", 1e-7, tol)
    require_close(sum(h.get_capacity_kbtuh(40.0, c["storage"], c["inlet"]) for h in s.water_heaters), cap,
                  "built heater capacity", 1e-8, 1e-9)
    require(s.storage_tank.strat_slope == c["slope"], "tank slope differs from the sizing slope")
    require(s.max_daily_run_hr == c["run"], "run hours changed by sizing")
    # size() on an existing system gives the same answer
    s2 = DHWSystem([], None, c["supply"], c["storage"], c["run"], c["defrost"])
    expect_raises(s2.get_minimum_capacity_kbtuh, (RuntimeError,), "capacity before sizing")
    expect_raises(s2.get_minimum_storage_storageT_gal, (RuntimeError,), "storage before sizing")
    s2.size(mk_building(c), control_map=mk_cmap(c["cmap"]) if c["cmap"] else None, strat_slope=c["slope"])
    require_close(s2.get_minimum_capacity_kbtuh(), cap, "size() capacity", 1e-8, 1e-9)
    require_close(s2.get_minimum_storage_storageT_gal(), vol, "size() storage", 1e-7, tol)
    return vol > 0.005 * c["daily"], [c["kind"]]


def check_defaults(c):
    """documented defaults: 24 h, no defrost derate, slope 2.8"""
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    c = dict(c, run=24.0, defrost=1.0, slope=2.8, cmap=None)
    cap, vol, sf = expected(c)
    s = DHWSystem.from_size(mk_building(c), c["supply"], c["storage"])
    require_close(s.get_minimum_capacity_kbtuh(), cap, "capacity with defaults", 1e-8, 1e-9)
    require_close(s.get_minimum_storage_storageT_gal(), vol, "storage with defaults", 1e-7, 1e-7 * c["daily"] / sf)
    b = mk_building(c)
    b.climate_zone = None
    expect_raises(lambda: DHWSystem.from_size(b, c["supply"], c["storage"]), (ValueError,),
                  "sizing without a design inlet temperature")
    return vol > 0.005 * c["daily"]


def check_cover(c):
    """Definition of a sufficient plant: starting with the aquastat just tripped (the running volume in the
    tank) and generating at the sized rate, no hour of the repeating day ends with the volume exhausted; and
    1 % less volume does run out (when any is needed)."""
    cap, vol, sf = expected(c)
    s = build(c)
    runv = s.get_minimum_storage_storageT_gal() * sf
    rate = s.get_minimum_capacity_kbtuh() * 1000 * c["defrost"] / (ref.RHO_CP * (c["supply"] - c["inlet"]))
    need = [c["daily"] * p for p in c["peak"]]

    def lowest(v0):
        low = v0
        for start in range(24):
            v = v0
            for k in range(48):
                v = min(v0, v + rate - need[(start + k) % 24])
                low = min(low, v)
        return low
    tol = 1e-6 * c["daily"]
    require(lowest(runv) >= -tol, f"running volume {runv} is exhausted (down to {lowest(runv)})")
    if runv > 0.01 * c["daily"]:
        require(lowest(runv * 0.99) < tol - 1e-12 and lowest(runv * 0.9) < 0, "volume is larger than needed")
    return runv > 0.005 * c["daily"]


def check_warning(c):
    """short-cycling / inverted-deadband warnings appear exactly when their condition holds"""
    cap, vol, sf = expected(c)
    if c["storage"] - c["supply"] < 0.5:
        raise Skip()
    heat_gph = cap * 1000 / (ref.RHO_CP * (c["storage"] - c["supply"]))
    want = []
    for k, v in c["cmap"].items():
        if v["off_f"] > v["on_f"]:
            want.append((k, True))
            continue
        cyc = (v["on_f"] - v["off_f"]) * vol / heat_gph * 60
        if abs(cyc - 10) < 0.05:
            raise Skip()
        want.append((k, cyc < 10))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        build(c)
    msgs = [str(x.message) for x in w if issubclass(x.category, UserWarning)]
    n_want = sum(1 for _, x in want if x)
    require(len(msgs) == n_want, f"{len(msgs)} warnings, expected {n_want}: {msgs}")
    for k, x in want:
        if x:
            require(any(k in m for m in msgs), f"no warning names control {k!r}: {msgs}")
    return n_want > 0, ["warn" if n_want else "silent"]


@st.composite
def warn_case(draw):
    c = draw(sizing_case(True))
    for extra in draw(st.lists(st.sampled_from(["loadUp", "eco", "night"]), max_size=3, unique=True)):
        c["cmap"][extra] = draw(control(c["supply"], c["storage"]))
    if len(c["cmap"]) > 1 and draw(st.booleans()):
        c["cmap"] = {k: c["cmap"][k] for k in draw(st.permutations(sorted(c["cmap"])))}
    quiet = draw(st.booleans())
    for k in c["cmap"].values():
        how = "wide" if quiet else draw(st.sampled_from(["as is", "wide", "any", "tight"]))
        if how == "wide":
            k["on_f"] = max(k["on_f"], 0.3)
            k["off_f"] = 0.0
        if how == "any":
            k["off_f"] = draw(num(0, 1))
        elif how == "tight":
            k["off_f"] = max(0.0, k["on_f"] - draw(num(0, 0.05)))
    return c


SUBS = [
    Sub("sizing", sizing_case(), check_size, quick=6000, thorough=80000),
    Sub("defaults", sizing_case(False), check_defaults, quick=500, thorough=8000),
    Sub("sufficiency", sizing_case(), check_cover, quick=3000, thorough=30000),
    Sub("warnings", warn_case(), check_warning, quick=1600, thorough=15000),
]
