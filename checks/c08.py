"""C08: load-shift sizing rides through the shed period."""
from hypothesis import strategies as st

from checks.c05 import strat_factor
from checks.c07 import plant_state, snap
from harness import ref
from harness.core import Skip, Sub, expect_raises, require, require_close
from harness.gen import load_shape, mk_building, mk_cmap, num, peaky_shape, smooth_shape, temps

PROPERTY = "C08"
RULE = ("Cases: random peak and average day shapes, temperatures, run hours, schedules with one or two shed blocks and 0-6 "
        "load-up hours anywhere in the day, normal/load-up/shed aquastats, percent of days covered; no-recirc, parallel-loop, "
        "single-pass RTP and swing plants; sizing and the whole load-shift curve.  Oracle: independent load-shift model.  "
        "Non-trivial: the load-shift volume or capacity governs (exceeds the normal one).")
ASSUMPTIONS = ["the load-up set point stores more than the shed set point (a positive load-shift band)"]


@st.composite
def ls_case(draw, systems=("primary", "parallel", "sprtp")):
    t = draw(temps())
    h0 = draw(st.integers(0, 22))
    n = draw(st.integers(1, min(8, 24 - h0)))
    lu = draw(st.integers(0, min(6, h0)))
    sched = ["normal"] * 24
    for h in range(h0, h0 + n):
        sched[h] = "shed"
    for h in range(h0 - lu, h0):
        sched[h] = "loadUp"
    if h0 + n + 2 < 23 and draw(st.booleans()):
        sched[draw(st.integers(h0 + n + 1, 23))] = "shed"       # a second, later block
    if h0 - lu >= 2 and draw(st.booleans()):
        sched[draw(st.integers(0, h0 - lu - 2))] = "loadUp"     # load-up hours not adjacent to the shed block
    supply, storage = t["supply"], t["storage"]
    on_n = draw(num(0.3, 0.6))
    on_s = draw(num(on_n, 0.85))
    on_l = draw(num(0.1, on_n))

    def ctl(on_f, off_hi):
        return {"on_f": on_f, "on_t": draw(st.one_of(st.just(supply), num(supply - 5, min(storage, supply + 5)))),
                "off_f": draw(num(0.0, off_hi)), "off_t": draw(st.one_of(st.just(storage), num(supply, storage))),
                "out_t": storage}
    cmap = {"normal": ctl(on_n, on_n), "shed": ctl(on_s, on_s)}
    if draw(st.integers(0, 4)):
        cmap["loadUp"] = ctl(on_l, on_l)
    sysk = draw(st.sampled_from(systems))
    c = {"daily": draw(num(100, 15000)), "peak": draw(st.one_of(peaky_shape(), load_shape())),
         "avg": draw(st.one_of(peaky_shape(), smooth_shape(), load_shape())), **t,
         "run": draw(num(10, 24)), "defrost": draw(st.one_of(st.just(1.0), num(0.6, 1.0))),
         "slope": draw(st.one_of(st.just(2.8), st.just(1.7), num(0.8, 5))), "cmap": cmap, "sched": sched,
         "pct": draw(st.one_of(st.just(0.95), num(0.25, 1.0, 2), st.just(1.0), num(0.25, 1.0, 2), num(0.25, 1.0, 4), num(0.001, 0.25, 3))), "gpm": draw(num(0.5, 20)), "dret": 5.0, "sys": sysk, "kind": "ls"}
    return c


def build(c, b, fract, cmap=None, sched=None, run=None):
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
    kw = dict(max_daily_run_hr=run or c["run"], defrost_factor=c["defrost"], strat_slope=c["slope"],
              control_schedule=list(sched or c["sched"]), control_map=mk_cmap(cmap or c["cmap"]),
              load_shift_fract_total_vol=fract)
    s, h, ret = c["supply"], c["storage"], c["supply"] - c["dret"]
    if c["sys"] == "primary":
        return DHWSystem.from_size(b, s, h, **kw)
    if c["sys"] == "parallel":
        return ParallelLoopSystem.from_size(b, s, h, ret, c["gpm"], s, s + 8.0, **kw)
    if c["sys"] == "sprtp":
        return SinglePassRTPSystem.from_size(b, s, h, ret, c["gpm"], **kw)
    return SwingSystem.from_size(b, s, h, ret, c["gpm"], tm_safety_factor=1.5, **kw)


def domain(c):
    if strat_factor(c) < 0.05 or ref.ls_band(c["cmap"], c["slope"], c["inlet"], c["supply"], c["storage"]) < 0.03:
        raise Skip()
    if not any(c["avg"][i] > 0 for i in range(24) if c["sched"][i] == "shed"):
        raise Skip()
    p = {}
    for k in ("normal", "loadUp", "shed"):
        v = c["cmap"].get(k, c["cmap"]["normal"])
        p[k] = ref._strat_pct(v["on_f"], v["on_t"], c["slope"], c["supply"], c["storage"])
    if abs(p["loadUp"] - p["shed"]) < 1e-3:
        raise Skip()          # division by a vanishing load-up band


def model(c, fract):
    args = (c["daily"], c["peak"], c["avg"], c["run"], c["supply"], c["storage"], c["inlet"], c["defrost"], c["slope"])
    if c["sys"] == "swing":
        n = c["cmap"]["normal"]
        m = ref.swing_size(*args, c["gpm"], c["supply"] - c["dret"], 1.5, (n["on_f"], n["on_t"]), c["sched"], c["cmap"], fract)
        if m["margin"] < 1e-9:
            raise Skip()
        return m["cap_normal"], m["vol_normal"], m["cap_ls"], m["vol_ls"], m["cap"], m["vol"]
    rc = ref.recirc_loss_kbtuh(c["gpm"], c["supply"], c["supply"] - c["dret"]) if c["sys"] == "sprtp" else 0.0
    return ref.size_load_shift(*args, c["sched"], c["cmap"], fract, rc, c["sys"] == "sprtp")


def check_size(c):
    domain(c)
    fract = ref.load_shift_fraction(c["pct"])
    try:
        m = model(c, fract)
    except ValueError:
        raise Skip()          # swing tank not feasible: C10
    b = mk_building(c)
    s0 = snap(b)
    s = build(c, b, fract)
    rel = 1e-5 if c["sys"] == "swing" else 1e-7
    require_close(s.get_minimum_capacity_kbtuh(), m[4], "capacity", rel, 1e-9)
    require_close(s.get_minimum_storage_storageT_gal(), m[5], "storage", rel, 1e-6 * c["daily"])
    require_close(s.storage_tank.total_volume_gal, s.get_minimum_storage_storageT_gal(), "built tank")
    require(s.max_daily_run_hr == c["run"], "sizing changed the run hours")
    a = snap(b)
    require_close(a[0], s0[0], "daily use of the building after sizing", 1e-9)
    require(a[1:] == s0[1:], "sizing changed the building's shapes")
    return m[2] > m[0] * (1 + 1e-9) or m[3] > m[1] * (1 + 1e-9), [c["sys"], "ls-vol" if m[3] > m[1] else "normal-vol",
                                                                 "ls-cap" if m[2] > m[0] else "normal-cap"]


def check_relations(c):
    """never smaller than the plant without load shift; more days covered never need less"""
    domain(c)
    fract = ref.load_shift_fraction(c["pct"])
    b = mk_building(c)
    s = build(c, b, fract)
    non_shed = float(sum(x != "shed" for x in c["sched"]))
    cm = {"normal": c["cmap"]["normal"]}
    n = build(c, b, fract, cm, ["normal"] * 24, min(c["run"], non_shed))
    tol = 1e-7 * c["daily"]
    require(s.get_minimum_capacity_kbtuh() >= n.get_minimum_capacity_kbtuh() * (1 - 1e-9), "less capacity than without load shift")
    require(s.get_minimum_storage_storageT_gal() >= n.get_minimum_storage_storageT_gal() * (1 - 1e-9) - tol,
            "less storage than without load shift")
    f2 = min(1.0, fract + 0.1)
    s2 = build(c, b, f2)
    require(s2.get_minimum_capacity_kbtuh() >= s.get_minimum_capacity_kbtuh() * (1 - 1e-9)
            or ls_negative(c), "less capacity for more days covered")
    return s.get_minimum_storage_storageT_gal() > n.get_minimum_storage_storageT_gal() * 1.001, [c["sys"]]


def ls_negative(c):
    """load-up set point below the normal one: then charging needs fall with the shifted volume"""
    p = {}
    for k in ("normal", "loadUp", "shed"):
        v = c["cmap"].get(k, c["cmap"]["normal"])
        p[k] = ref._strat_pct(v["on_f"], v["on_t"], c["slope"], c["supply"], c["storage"])
    return (p["loadUp"] - p["normal"]) / (p["loadUp"] - p["shed"]) < 0


def check_curve(c):
    domain(c)
    b = mk_building(c)
    try:
        ms = {}
        for pct in (0.25, 0.5, c["pct"], 1.0):
            ms[pct] = model(c, ref.load_shift_fraction(pct))
    except ValueError:
        raise Skip()
    fract = ref.load_shift_fraction(c["pct"])
    s = build(c, b, fract)
    before = plant_state(s), snap(b)
    cmap = mk_cmap(c["cmap"])
    cur = s.get_ls_sizing_curve(b, list(c["sched"]), cmap, load_shift_percent=c["pct"])
    require(plant_state(s) == before[0], "computing the curve changed the plant")
    require_close(snap(b)[0], before[1][0], "daily use after the curve", 1e-9)
    require(snap(b)[1:] == before[1][1:], "computing the curve changed the building's shapes")
    pc = cur["load_shift_percent"]
    require(len(pc) == 76 == len(cur["capacity_kbtuh"]) == len(cur["storage_storageT_gal"]), f"{len(pc)} points, expected 76")
    for i in range(76):
        require_close(pc[i], 0.25 + i / 100, f"percent of point {i}", 1e-9)
    rec = cur["recommended_index"]
    x = (c["pct"] - 0.25) * 100
    require(abs(rec - max(x, 0.0)) <= 0.5 + 1e-6, f"recommended index {rec} for {c['pct']}")
    rel = 1e-5 if c["sys"] == "swing" else 1e-7
    for i, p in ((0, 0.25), (25, 0.5), (75, 1.0)) + (((rec, c["pct"]),) if abs(rec - x) < 1e-6 else ()):
        m = ms[p]
        require_close(cur["capacity_kbtuh"][i], m[4], f"capacity at {p:.0%}", rel, 1e-9)
        require_close(cur["storage_storageT_gal"][i], m[5], f"storage at {p:.0%}", rel, 1e-6 * c["daily"])
    if abs(rec - x) < 1e-6:
        require_close(cur["capacity_kbtuh"][rec], s.get_minimum_capacity_kbtuh(), "recommended capacity", 1e-7)
        require_close(cur["storage_storageT_gal"][rec], s.get_minimum_storage_storageT_gal(), "recommended storage", 1e-7, 1e-6 * c["daily"])
    if c["sys"] != "swing":
        for i in range(76):
            m = model(c, ref.load_shift_fraction(pc[i]))
            require_close(cur["capacity_kbtuh"][i], m[4], f"capacity of point {i}", rel, 1e-9)
            require_close(cur["storage_storageT_gal"][i], m[5], f"storage of point {i}", rel, 1e-6 * c["daily"])
    n = dict(c["cmap"])
    del n["shed"]
    expect_raises(lambda: s.get_ls_sizing_curve(b, list(c["sched"]), mk_cmap(n)), (ValueError,),
                  "load-shift curve without shed controls")
    d = s.get_ls_sizing_curve(b, list(c["sched"]), cmap)
    require(d["recommended_index"] == 75, f"default recommended index {d['recommended_index']}, expected the 100 % point")
    return ms[1.0][3] > ms[1.0][1] or ms[1.0][2] > ms[1.0][0], [c["sys"]]


def check_fraction(c):
    """helper the engine uses: fraction of the design draw that covers a percent of days"""
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem  # noqa: F401
    b = mk_building(c)
    c = dict(c, sys="primary")
    domain(c)
    s = build(c, b, 1.0)
    cur = s.get_ls_sizing_curve(b, list(c["sched"]), mk_cmap(c["cmap"]))
    sto, cap = cur["storage_storageT_gal"], cur["capacity_kbtuh"]
    for i in range(1, 76):
        require(sto[i] >= sto[i - 1] - 1e-9 * abs(sto[i]) or ls_negative(c) or cap[i] > cap[i - 1],
                f"storage falls from {pc(i - 1)} to {pc(i)}")
    return sto[-1] > sto[0]


def pc(i):
    return f"{25 + i} %"


SUBS = [
    Sub("sizing", ls_case(), check_size, quick=2000, thorough=40000),
    Sub("relations", ls_case(), check_relations, quick=800, thorough=10000),
    Sub("curve", ls_case(), check_curve, quick=240, thorough=4000),
    Sub("swing_sizing", ls_case(("swing",)), check_size, quick=120, thorough=2000, shards=8),
    Sub("swing_curve", ls_case(("swing",)), check_curve, quick=40, thorough=500, shards=8),
    Sub("curve_order", ls_case(), check_fraction, quick=100, thorough=1500),
]
