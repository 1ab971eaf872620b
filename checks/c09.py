"""C09: recirculation loss and parallel-loop temperature-maintenance sizing."""
from hypothesis import strategies as st

from harness import ref
from harness.core import Skip, Sub, expect_raises, require, require_close
from harness.gen import load_shape, mk_building, num, temps

PROPERTY = "C09"
RULE = ("Cases: random loop flow, return temperature, TM set points, off time, safety factor and heater count (valid ones and "
        "single faults at and beyond each limit), on random buildings.  Oracle: closed-form loop loss, TM capacity and "
        "volume, and the cooling time of the sized tank.  Non-trivial: loop loss > 0.1 kBTU/h, or an invalid parameter.")


@st.composite
def tm_case(draw):
    t = draw(temps())
    off = draw(num(0.05, 1.0))
    sf = 1.0 + draw(num(0.02, 0.999)) * min(3.0, off * 3.0)
    on = t["supply"] + draw(num(-10, 10))
    return {"daily": draw(st.one_of(num(50, 8000), num(2, 50), num(8000, 200000))), "peak": draw(load_shape()), **t, "gpm": draw(st.one_of(num(0.1, 60), num(0.1, 60), num(0.001, 0.1), num(60, 900))),
            "dret": draw(st.one_of(num(0.5, 30), num(0.5, 30), num(0.01, 60))), "on": on, "off_t": on + draw(num(0.5, 25)), "off_time": off, "sf": sf,
            "n": draw(st.integers(1, 15)), "run": draw(num(8, 24)), "defrost": draw(num(0.6, 1.0))}


def build(c, **over):
    from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
    kw = dict(tm_off_time_hr=c["off_time"], tm_safety_factor=c["sf"], num_tm_heaters=c["n"],
              max_daily_run_hr=c["run"], defrost_factor=c["defrost"])
    kw.update(over)
    kw = {k: v for k, v in kw.items() if v is not None}
    return ParallelLoopSystem.from_size(mk_building(c), c["supply"], c["storage"], c["supply"] - c["dret"], c["gpm"],
                                        c["on"], c["off_t"], **kw)


def valid(c):
    run = c["off_time"] / (c["sf"] - 1.0)
    if abs(run - 1 / 3) < 1e-6:
        raise Skip()
    return run > 1 / 3


def check_tm(c):
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    if not valid(c):
        expect_raises(lambda: build(c), (ValueError,), "TM runtime under 20 min")
        return True, ["short-runtime"]
    s = build(c)
    loss = ref.recirc_loss_kbtuh(c["gpm"], c["supply"], c["supply"] - c["dret"])
    require_close(s.get_recirc_loss_kbtuh(), loss, "recirculation loss", 1e-9)
    require_close(s.get_daily_recirc_loss_kbtu(), loss * 24, "daily recirculation loss", 1e-9)
    require_close(s.get_minimum_tm_capacity_kbtuh(), loss * c["sf"], "TM capacity", 1e-9)
    vol = s.get_minimum_tm_volume_gal()
    require_close(vol, loss * 1000 * c["off_time"] / (ref.RHO_CP * (c["off_t"] - c["on"])), "TM volume", 1e-9)
    # the built TM plant is the sized one, split over the heaters
    require_close(s.tm_storage_tank.total_volume_gal, vol, "built TM tank", 1e-9)
    one = s.tm_water_heater.get_capacity_kbtuh(40.0, c["off_t"], c["on"])
    require(s.num_tm_heaters == c["n"], "number of TM heaters")
    require_close(one * c["n"], loss * c["sf"], "total built TM capacity", 1e-9)
    k = s.tm_water_heater.get_controls_for_hour(7)
    require_close(k.on_trigger_t_f, c["on"], "TM on set point")
    require_close(k.off_trigger_t_f, c["off_t"], "TM off set point")
    # ride-through: cooling from off to on set point by the loop loss takes the off time
    t = s.tm_storage_tank
    t.initialize(c["off_t"], c["on"], 1.0)
    t0 = t.get_temperature_at_fraction(0.5)
    require_close(t0, c["off_t"], "initial TM temperature")
    minutes = c["off_time"] * 60
    t.apply_fixed_heat_loss_kbtuh(loss, minutes)
    require_close(t.get_temperature_at_fraction(0.5), c["on"], "TM temperature after the off time without heat", 1e-7, 1e-6)
    # heating against the loop for off_time/(sf-1) brings it back
    back = minutes / (c["sf"] - 1)
    t.heat(one * c["n"], back, c["off_t"])
    t.apply_fixed_heat_loss_kbtuh(loss, back)
    require_close(t.get_temperature_at_fraction(0.5), c["off_t"], "TM temperature after one heating cycle", 1e-6, 1e-4)
    # the loop does not change the primary plant
    p = DHWSystem.from_size(mk_building(c), c["supply"], c["storage"], c["run"], c["defrost"])
    require_close(s.get_minimum_capacity_kbtuh(), p.get_minimum_capacity_kbtuh(), "primary capacity", 1e-9)
    require_close(s.get_minimum_storage_storageT_gal(), p.get_minimum_storage_storageT_gal(), "primary storage", 1e-9, 1e-9)
    return loss > 0.1, ["valid"]


def check_defaults(c):
    """defaults: off time 0.5 h, safety factor 1.2, one heater"""
    s = build(c, tm_off_time_hr=None, tm_safety_factor=None, num_tm_heaters=None)
    loss = ref.recirc_loss_kbtuh(c["gpm"], c["supply"], c["supply"] - c["dret"])
    require_close(s.get_minimum_tm_capacity_kbtuh(), loss * 1.2, "default TM capacity", 1e-9)
    require_close(s.get_minimum_tm_volume_gal(), loss * 1000 * .5 / (ref.RHO_CP * (c["off_t"] - c["on"])), "default TM volume", 1e-9)
    require(s.num_tm_heaters == 1, "default number of TM heaters")
    return loss > 0.1


@st.composite
def bad_case(draw):
    c = draw(tm_case())
    c["sf"] = min(c["sf"], 1.0 + 2.9 * c["off_time"])
    f = draw(st.sampled_from(["sf1", "sf_low", "off0", "off_neg", "off_long", "band0", "band_neg", "runtime", "runtime_edge", "ok_hour"]))
    c["fault"] = f
    if f == "sf1":
        c["sf"] = 1.0
    elif f == "sf_low":
        c["sf"] = draw(num(-2, 0.999))
    elif f == "off0":
        c["off_time"] = 0.0
    elif f == "off_neg":
        c["off_time"] = -draw(num(0.01, 2))
    elif f == "off_long":
        c["off_time"] = 1.0 + draw(num(0.001, 5))
    elif f == "band0":
        c["off_t"] = c["on"]
    elif f == "band_neg":
        c["off_t"] = c["on"] - draw(num(0.01, 20))
    elif f == "runtime":
        c["sf"] = 1.0 + c["off_time"] * draw(num(3.001, 30))
    elif f == "runtime_edge":        # exactly the 20 minute minimum is not above it
        c["off_time"], c["sf"] = draw(st.sampled_from([(0.5, 2.5), (0.25, 1.75), (1.0, 4.0)]))
    else:
        c["off_time"], c["sf"] = 1.0, min(3.9, c["sf"])
    return c


def check_bad(c):
    if c["fault"] == "ok_hour":
        s = build(c)
        require_close(s.get_minimum_tm_capacity_kbtuh(),
                      c["sf"] * ref.recirc_loss_kbtuh(c["gpm"], c["supply"], c["supply"] - c["dret"]), "TM capacity", 1e-9)
        return True, ["ok_hour"]
    expect_raises(lambda: build(c), (ValueError,), f"invalid TM parameter ({c['fault']})")
    from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
    u = ParallelLoopSystem([], None, c["supply"], c["storage"], c["supply"] - c["dret"], c["gpm"], c["on"], c["off_t"],
                           tm_off_time_hr=c["off_time"], tm_safety_factor=c["sf"])
    expect_raises(lambda: u.size(mk_building(c)), (ValueError,), f"size() with invalid TM parameter ({c['fault']})")
    for g in (u.get_minimum_tm_volume_gal, u.get_minimum_tm_capacity_kbtuh, u.get_minimum_capacity_kbtuh):
        expect_raises(g, (RuntimeError,), "result of a plant that was not sized")
    return True, [c["fault"]]


SUBS = [
    Sub("tm", tm_case(), check_tm, quick=3000, thorough=60000),
    Sub("defaults", tm_case(), check_defaults, quick=300, thorough=4000),
    Sub("invalid", bad_case(), check_bad, quick=1500, thorough=20000),
]
