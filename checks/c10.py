"""C10: swing tank systems are sized for loop loss and swing mixing."""
from hypothesis import strategies as st

from checks.c05 import strat_factor
from harness import ref
from harness.core import Skip, Sub, expect_raises, require, require_close
from harness.gen import control, load_shape, mk_building, mk_cmap, num, peaky_shape, smooth_shape, temps

PROPERTY = "C10"
RULE = ("Cases: random day shapes, use, temperatures, loops from none to too large, safety factors, run hours, aquastats.  "
        "Oracle: catalogue rule and an independent minute-by-minute swing tank model; feasible and infeasible problems must "
        "agree.  Non-trivial: storage > 0.5 % of the daily use, or a rejected problem.")
ASSUMPTIONS = ["problems whose feasibility or peak hour is decided by less than 1e-9 are left out"]


@st.composite
def swing_case(draw, big=False):
    t = draw(temps())
    c = {"daily": draw(st.one_of(num(50, 60000 if big else 20000), num(50, 60000 if big else 20000), num(3, 50))),
         "peak": draw(st.one_of(peaky_shape(), smooth_shape(), load_shape())), **t,
         "run": draw(st.one_of(num(8, 24), num(14, 20))), "defrost": draw(st.one_of(st.just(1.0), num(0.6, 1.0))),
         "slope": draw(st.one_of(st.just(2.8), num(1, 5))),
         "gpm": draw(num(0.05, 500) if big else num(0.05, 40)), "dret": draw(st.one_of(num(1, 20), num(0.05, 45))),
         "sf": draw(st.one_of(num(1.01, 3.0), st.just(1.2))),
         "cmap": draw(st.one_of(st.none(), st.fixed_dictionaries(
             {"normal": control(t["supply"], t["storage"], on_hi=0.6)}))), "kind": "swing"}
    return c


def build(c, **over):
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    cmap = mk_cmap(c["cmap"]) if c["cmap"] else None
    kw = dict(tm_safety_factor=c["sf"], max_daily_run_hr=c["run"], defrost_factor=c["defrost"], strat_slope=c["slope"],
              control_schedule=["normal"] * 24 if cmap else None, control_map=cmap)
    kw.update(over)
    kw = {k: v for k, v in kw.items() if v is not None}
    return SwingSystem.from_size(mk_building(c), c["supply"], c["storage"], c["supply"] - c["dret"], c["gpm"], **kw)


def model(c):
    n = c["cmap"]["normal"] if c["cmap"] else None
    return ref.swing_size(c["daily"], c["peak"], c["peak"], c["run"], c["supply"], c["storage"], c["inlet"], c["defrost"],
                          c["slope"], c["gpm"], c["supply"] - c["dret"], c["sf"], (n["on_f"], n["on_t"]) if n else None)


def near_table(c):
    loss = ref.recirc_loss_kbtuh(c["gpm"], c["supply"], c["supply"] - c["dret"])
    need = max(loss * 1000 / (100 * ref.KBTUH_PER_KW), c["daily"] * max(c["peak"]) / 60)
    return any(abs(need - v) < 1e-6 * v for v in ref.SWING_TABLE + ref.SWING_TABLE_CA)


def check_size(c):
    sf = strat_factor(c)
    if sf < 0.05 or near_table(c):
        raise Skip()
    try:
        m = model(c)
    except ValueError as e:
        expect_raises(lambda: build(c), (ValueError,), f"infeasible swing problem ({e})")
        return True, ["infeasible: " + str(e)]
    s = build(c)
    require(s.get_minimum_tm_volume_gal() == m["tm_vol"], f"swing tank {s.get_minimum_tm_volume_gal()}, expected {m['tm_vol']}")
    require(s.get_minimum_tm_ca_volume_gal() == m["tm_ca"], f"CA swing tank {s.get_minimum_tm_ca_volume_gal()}, expected {m['tm_ca']}")
    require_close(s.get_minimum_tm_capacity_kbtuh(), m["tm_cap"], "swing heater", 1e-9)
    require_close(s.tm_storage_tank.total_volume_gal, m["tm_vol"], "built swing tank", 1e-9)
    require_close(s.tm_water_heater.get_capacity_kbtuh(40.0, c["supply"], c["inlet"]), m["tm_cap"], "built swing heater", 1e-9)
    k = s.tm_water_heater.get_controls_for_hour(3)
    require_close(k.on_trigger_t_f, c["supply"], "swing heater on set point")
    require_close(k.off_trigger_t_f, c["supply"] + 8.0, "swing heater off set point")
    require_close(s.tm_off_temp_f, c["supply"] + 8.0, "swing tank off temperature")
    require_close(s.get_recirc_loss_kbtuh(), ref.recirc_loss_kbtuh(c["gpm"], c["supply"], c["supply"] - c["dret"]), "loop loss", 1e-9)
    if m["margin"] < 1e-9:
        return False, ["knife-edge"]
    require_close(s.get_minimum_storage_storageT_gal(), m["vol"], "primary storage", 1e-5, 1e-6 * c["daily"] / sf)
    require_close(s.get_minimum_capacity_kbtuh(), m["cap"], "primary capacity", 1e-5)
    require_close(s.storage_tank.total_volume_gal, s.get_minimum_storage_storageT_gal(), "built primary tank", 1e-9, 1e-9)
    require_close(sum(h.get_capacity_kbtuh(40.0, c["storage"], c["inlet"]) for h in s.water_heaters),
                  s.get_minimum_capacity_kbtuh(), "built primary heaters", 1e-9)
    return m["vol"] > 0.005 * c["daily"], ["feasible", f"tank {m['tm_vol']}"]


def check_bounds(c):
    """never more hot water through the swing tank than the building uses; energy: primary + loop"""
    if near_table(c) or strat_factor(c) < 0.05:
        raise Skip()
    try:
        m = model(c)
    except ValueError:
        raise Skip()
    s = build(c)
    # the primary makes the day's draw at storage temperature: never more than undiluted
    daily_kbtu = s.get_minimum_capacity_kbtuh() * c["run"] * c["defrost"]
    full = c["daily"] * ref.RHO_CP * (c["storage"] - c["inlet"]) / 1000
    require(daily_kbtu <= full * (1 + 1e-6), f"primary makes {daily_kbtu} kBTU/day, more than {full}")
    # rotating the day keeps the tank and heater
    r = 5
    d = dict(c, peak=c["peak"][r:] + c["peak"][:r])
    s2 = build(d)
    require(s2.get_minimum_tm_volume_gal() == s.get_minimum_tm_volume_gal(), "swing tank of a rotated day")
    require_close(s2.get_minimum_tm_capacity_kbtuh(), s.get_minimum_tm_capacity_kbtuh(), "swing heater of a rotated day")
    return m["vol"] > 0.005 * c["daily"]


def check_reject(c):
    bad = dict(c, sf=c["bad_sf"])
    expect_raises(lambda: build(bad), (ValueError,), f"swing safety factor {c['bad_sf']}")
    if not near_table(c):
        try:
            m = model(dict(c, sf=1.2))
        except ValueError:
            return True
        s = build(c, tm_safety_factor=None)
        require_close(s.get_minimum_tm_capacity_kbtuh(), m["tm_cap"], "default swing heater (safety factor 1.2)", 1e-9)
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    u = SwingSystem([], None, c["supply"], c["storage"], c["supply"] - c["dret"], c["gpm"])
    for g in (u.get_minimum_tm_volume_gal, u.get_minimum_tm_ca_volume_gal, u.get_minimum_tm_capacity_kbtuh,
              u.get_minimum_capacity_kbtuh, u.get_minimum_storage_storageT_gal):
        expect_raises(g, (RuntimeError,), "result of a plant that was not sized")
    return True


@st.composite
def reject_case(draw):
    c = draw(swing_case())
    c["bad_sf"] = draw(st.one_of(st.just(1.0), num(-1, 1)))
    return c


@st.composite
def exact_case(draw):
    """peak draws of exactly a catalogue size (every figure is an exact binary number), or a little off it"""
    c = draw(swing_case())
    k = draw(st.sampled_from([2, 3, 4, 6, 8, 12, 16]))
    base = [k] + [1] * 23                      # 24 whole parts of 32, none above k
    short, i = 32 - sum(base), 1
    while short != 0:
        add = max(min(k - base[i], short), -base[i])
        base[i] += add
        short -= add
        i += 1
    c["peak"] = [base[j] / 32 for j in draw(st.permutations(range(24)))]
    v = draw(st.sampled_from(ref.SWING_TABLE + ref.SWING_TABLE_CA + [1250] * 4))
    c["off"] = draw(st.sampled_from([0, 0, 1, -1]))
    c["daily"] = v * 60 * 32 / k * (1 + 1e-4 * c["off"])
    c["gpm"], c["v"] = draw(num(0.05, 1)), v
    return c


def check_exact(c):
    loss = ref.recirc_loss_kbtuh(c["gpm"], c["supply"], c["supply"] - c["dret"])
    need = c["v"] if c["off"] == 0 else c["daily"] * max(c["peak"]) / 60
    if loss * 1000 / (100 * ref.KBTUH_PER_KW) > 0.9 * need or strat_factor(c) < 0.05:
        raise Skip()
    try:
        s = build(c)
    except ValueError:
        if need <= ref.SWING_TABLE[-1]:
            try:
                model(c)
            except ValueError:
                return False, ["infeasible"]
            raise
        return True, ["too large"]
    require(need <= ref.SWING_TABLE[-1], f"a peak draw of {need} gal/min was given a {s.get_minimum_tm_volume_gal()} gal tank")
    want = next(v for v in ref.SWING_TABLE if v >= need)
    want_ca = next((v for v in ref.SWING_TABLE_CA if v >= need), 480) if want < 480 else 480
    require(s.get_minimum_tm_volume_gal() == want, f"swing tank {s.get_minimum_tm_volume_gal()} for a need of {need}, expected {want}")
    require(s.get_minimum_tm_ca_volume_gal() == want_ca, f"CA swing tank {s.get_minimum_tm_ca_volume_gal()} for {need}, expected {want_ca}")
    return True, ["exact" if c["off"] == 0 else "near"]


SUBS = [
    Sub("exact_sizes", exact_case(), check_exact, quick=160, thorough=2000, shards=8),
    Sub("sizing", swing_case(), check_size, quick=800, thorough=16000, shards=16),
    Sub("large_loops", swing_case(True), check_size, quick=300, thorough=6000, shards=8),
    Sub("bounds", swing_case(), check_bounds, quick=200, thorough=3000, shards=8),
    Sub("rejects", reject_case(), check_reject, quick=200, thorough=2000, shards=8),
]
