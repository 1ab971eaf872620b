"""C26: the electric resistance element of a swing trade-off plant makes up exactly the missing heat."""
from hypothesis import strategies as st

from checks import c10
from harness import ref
from harness.core import Skip, Sub, Violation, expect_raises, require, require_close
from harness.gen import load_shape, mk_building, mk_cmap, num, peaky_shape, smooth_shape

PROPERTY = "C26"
RULE = ("Cases: random days, loops, temperatures, presized primaries from far too small to oversized, swing tanks, base elements, safety factors; and fully "
        "sized plants. Oracle: an independent two-day minute model of primary level and swing tank (element = worst one-minute shortfall), evaluated again for "
        "every trade-off point; the plant the sizing curve belongs to. Non-trivial: an element is needed.")
ASSUMPTIONS = ["problems whose first peak hour is decided by less than 1e-9 are left out"]


@st.composite
def comp_case(draw):
    supply = draw(num(108, 130))
    c = {"daily": draw(st.one_of(num(200, 8000), num(200, 8000), num(20, 200), num(8000, 60000))), "peak": draw(st.one_of(peaky_shape(), smooth_shape(), load_shape())), "inlet": draw(num(36, 72)), "supply": supply,
         "storage": supply + draw(num(5, 40)), "dret": draw(num(2, 15)), "safety": draw(st.one_of(st.just(1.0), num(0.5, 2.5))),
         "add": draw(st.one_of(st.just(1.0), num(0.8, 2.0))), "oat": draw(num(0, 90))}
    c["gpm"] = c["daily"] * draw(num(0.0003, 0.003, 6))
    c["vol"] = c["daily"] * draw(num(0.02, 0.8))
    hours = draw(st.one_of(num(10, 24), num(16, 60)))
    c["cap"] = c["daily"] * ref.RHO_CP * (supply - c["inlet"]) / 1000.0 / hours
    c["split"] = draw(st.integers(1, 3))
    c["tm_vol"] = draw(st.one_of(st.sampled_from([float(v) for v in ref.SWING_TABLE]), num(30, 600)))
    c["tm_cap"] = ref.recirc_loss_kbtuh(c["gpm"], supply, supply - c["dret"]) * draw(st.one_of(num(1.05, 3.0), num(0.6, 1.2)))
    return c


def comp(c, bld, tm=None):
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem
    cm = mk_cmap({"normal": {"on_f": 0.4, "on_t": c["supply"], "off_f": 0.1, "off_t": c["storage"], "out_t": c["storage"]}})
    whs = [WaterHeater.from_nominal_capacity(c["cap"] / c["split"], ["normal"] * 24, cm) for _ in range(c["split"])]
    tank, swing = StratifiedTank(c["vol"]), MixedStorageTank(c["tm_vol"])
    s = SwingERTrdOffSystem.from_components(whs, tank, swing, c["tm_cap"], bld, c["supply"], c["storage"], c["supply"] - c["dret"], c["gpm"],
                                            er_safety_factor=c["safety"])
    require(s.storage_tank is tank and s.tm_storage_tank is swing and list(s.water_heaters) == whs, "the plant does not use the given components")
    return s


def short(c, pct=100.0, run=24.0):
    w, m = ref.er_shortfall(c["daily"] * pct / 100.0, c["peak"], run, c["supply"], c["storage"], c["inlet"], c["gpm"], c["supply"] - c["dret"],
                            c["cap"], c["vol"], c["tm_vol"], c["tm_cap"])
    if m < 1e-9:
        raise Skip
    return w


def close_er(got, want, what):
    require_close(got, want, what, 1e-6, 1e-6)


def check_plant(c, s, er):
    close_er(s.get_er_capacity_kbtuh(), er, "ER element")
    require(s.get_er_capacity_kbtuh() >= 0, f"negative ER element {s.get_er_capacity_kbtuh()}")
    close_er(s.get_er_capacity_kw(), er / ref.KBTUH_PER_KW, "ER element in kW")
    close_er(s.get_minimum_tm_capacity_kbtuh(), c["tm_cap"] + er, "swing heater with ER")
    close_er(s.tm_water_heater.get_capacity_kbtuh(40.0, c["supply"], c["inlet"]), c["tm_cap"] + er, "built swing heater")
    k = s.tm_water_heater.get_controls_for_hour(5)
    require_close(k.on_trigger_t_f, c["supply"], "swing heater on set point")
    require_close(k.off_trigger_t_f, c["supply"] + 8.0, "swing heater off set point")
    require_close(s.get_minimum_capacity_kbtuh(), c["cap"], "primary capacity", 1e-9)
    require_close(s.get_minimum_storage_storageT_gal(), c["vol"], "primary storage", 1e-9)
    require_close(s.get_minimum_tm_volume_gal(), c["tm_vol"], "swing tank", 1e-9)
    require_close(s.tm_storage_tank.total_volume_gal, c["tm_vol"], "built swing tank", 1e-9)


def check_comp(c):
    b = mk_building(c)
    try:
        w = short(c)
    except ValueError:
        expect_raises(lambda: comp(c, b), (ValueError,), "swing tank smaller than a minute's draw")
        return True, ["infeasible"]
    s = comp(c, b)
    check_plant(c, s, ref.er_kbtuh(w, c["tm_vol"], c["safety"]))
    require(b.daily_dhw_use_supplyT_gal == c["daily"], "sizing changed the building")
    require_close(s.er_safety_factor, c["safety"], "safety factor")
    return w > 1e-6, ["needed" if w > 1e-6 else "not needed"]


def state(s, b):
    return (b.daily_dhw_use_supplyT_gal, tuple(b.peak_load_shape), s.get_er_capacity_kbtuh(), s.get_minimum_tm_capacity_kbtuh(), s.er_safety_factor,
            s.get_minimum_capacity_kbtuh(), s.get_minimum_storage_storageT_gal(), s.get_minimum_tm_volume_gal())


def check_points(c, s, b, run):
    """the trade-off of a built plant whose base element is c['tm_cap']"""
    before = state(s, b)
    if s.get_er_capacity_kbtuh() <= 0:
        expect_raises(lambda: s.get_er_sized_points(b, c["add"]), (RuntimeError,), "trade-off of a plant that needs no element")
        return False, ["no element"]
    pts, pct, stop = [], 120.0, False
    try:
        while pct > 0:
            total = s.get_minimum_tm_capacity_kbtuh()
            w = None
            if pct != 100.0:
                w = short(c, pct, run)
                total = c["tm_cap"] + ref.er_kbtuh(w, c["tm_vol"], c["add"])
                if 0 < w < 1e-7:
                    raise Skip
            pts.append((pct, total / ref.KBTUH_PER_KW))
            if w == 0:
                break
            pct -= 10.0
    except ValueError:
        expect_raises(lambda: s.get_er_sized_points(b, c["add"]), (ValueError,), "trade-off point with too small a swing tank")
        require(state(s, b) == before, "a failing trade-off changed the system or building")
        return True, ["infeasible point"]
    pts.reverse()
    kw, cov, ind = s.get_er_sized_points(b, c["add"])
    require(state(s, b) == before, "computing the trade-off changed the system or building")
    if [float(x) for x in cov] != [p for p, _ in pts]:
        raise Violation(f"coverage {list(cov)}, expected {[p for p, _ in pts]}")
    require(len(kw) == len(cov), "as many sizes as coverages")
    require(0 <= ind < len(cov) and cov[ind] == 100.0, f"start index {ind} of {list(cov)}")
    for (p, want), got in zip(pts, kw):
        require(abs(got - want) <= 0.5 + 1e-6 and float(got) == round(float(got)), f"element at {p} %: {got} kW, expected {want} rounded")
    check_figure(s.get_er_sizing_curve(b, c["add"]), kw, cov, ind)
    require(state(s, b) == before, "plotting the trade-off changed the system or building")
    return True, [f"{len(cov)} points"]


def check_figure(f, kw, cov, ind):
    """the trade-off figure shows those points, the start point marked"""
    require([float(x) for x in f.data[0].x] == [float(x) for x in cov] and [float(y) for y in f.data[0].y] == [float(k) for k in kw], "curve of the figure")
    vis = [i for i, t in enumerate(f.data[1:]) if t.visible is True]
    require(vis == [ind] and len(f.data) == len(cov) + 1, f"visible markers {vis}, start {ind}")
    for i, t in enumerate(f.data[1:]):
        require([float(t.x[0]), float(t.y[0])] == [float(cov[i]), float(kw[i])], f"marker {i}")
    require(f.layout.sliders[0].active == ind and len(f.layout.sliders[0].steps) == len(cov), "slider")
    for i, step in enumerate(f.layout.sliders[0].steps):
        v = step.args[0]["visible"]
        require([j for j, x in enumerate(v) if x] == [0, i + 1], f"slider step {i} shows {v}")


def check_curve(c):
    b = mk_building(c)
    try:
        short(c)
    except ValueError:
        raise Skip
    return check_points(c, comp(c, b), b, 24.0)


def check_sized(x):
    """a fully sized plant: the swing plant plus the element"""
    from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem
    c = dict(x["c"])
    if c10.strat_factor(c) < 0.05 or c10.near_table(c):
        raise Skip
    cm = mk_cmap(c["cmap"]) if c["cmap"] else None
    b = mk_building(c)
    args = (b, c["supply"], c["storage"], c["supply"] - c["dret"], c["gpm"])
    kw = dict(tm_safety_factor=c["sf"], max_daily_run_hr=c["run"], defrost_factor=c["defrost"], strat_slope=c["slope"])
    if cm:
        kw.update(control_schedule=["normal"] * 24, control_map=cm)
    try:
        plain = c10.build(c)
    except ValueError:
        expect_raises(lambda: SwingERTrdOffSystem.from_size(*args, er_safety_factor=x["safety"], **kw), (ValueError,), "infeasible swing plant")
        return False, ["infeasible"]
    c.update(cap=plain.get_minimum_capacity_kbtuh(), vol=plain.get_minimum_storage_storageT_gal(), tm_vol=plain.get_minimum_tm_volume_gal(),
             tm_cap=plain.get_minimum_tm_capacity_kbtuh(), safety=x["safety"], add=x["add"])
    try:
        w = short(c, run=c["run"])
    except ValueError:
        expect_raises(lambda: SwingERTrdOffSystem.from_size(*args, er_safety_factor=x["safety"], **kw), (ValueError,), "infeasible swing plant")
        return False, ["infeasible"]
    s = SwingERTrdOffSystem.from_size(*args, er_safety_factor=x["safety"], **kw)
    er = ref.er_kbtuh(w, c["tm_vol"], c["safety"])
    check_plant(c, s, er)
    require_close(s.storage_tank.total_volume_gal, c["vol"], "built primary tank", 1e-9)
    require_close(sum(h.get_capacity_kbtuh(40.0, c["storage"], c["inlet"]) for h in s.water_heaters), c["cap"], "built primary heaters", 1e-9)
    if c["vol"] > 0:
        a, p = s.get_sizing_curve(b, step=2.0), plain.get_sizing_curve(b, step=2.0)
        for k in a:
            if k == "recommended_index":
                require(a[k] == p[k], "recommended point of the sizing curve")
                continue
            require(len(a[k]) == len(p[k]), f"{k} of the sizing curve: {len(a[k])} points, swing plant {len(p[k])}")
            for i, (u, v) in enumerate(zip(a[k], p[k])):
                require_close(u, v, f"{k}[{i}] of the sizing curve", 1e-6, 1e-6)
    if x["again"]:
        s.size(b, **{k: v for k, v in kw.items() if k in ("strat_slope", "control_schedule", "control_map")})
        check_plant(c, s, er)
    r = check_points(c, s, b, c["run"]) if x["points"] and er > 1e-6 else None
    return er > 1e-6, ["needed" if er > 1e-6 else "not needed"] + (r[1] if r else [])


sized_case = st.fixed_dictionaries({"c": c10.swing_case(), "safety": st.one_of(st.just(1.0), num(0.5, 2.5)), "add": num(0.8, 2.0),
                                    "again": st.booleans(), "points": st.integers(0, 3).map(lambda k: k == 0)})


def check_unsized(c):
    from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem
    s = SwingERTrdOffSystem([], None, c["supply"], c["storage"], c["supply"] - c["dret"], c["gpm"])
    for g in (s.get_er_capacity_kbtuh, s.get_er_capacity_kw, s.get_minimum_tm_capacity_kbtuh, lambda: s.get_er_sized_points(mk_building(c))):
        expect_raises(g, (RuntimeError,), "result of a plant that was not sized")
    return True


SUBS = [
    Sub("components", comp_case(), check_comp, quick=640, thorough=16000, shards=16),
    Sub("trade_off", comp_case(), check_curve, quick=96, thorough=3000, shards=16),
    Sub("sized", sized_case, check_sized, quick=240, thorough=4000, shards=16),
    Sub("unsized", comp_case(), check_unsized, quick=50, thorough=200, shards=1),
]
