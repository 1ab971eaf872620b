"""C11: return-to-primary plants include the recirculation load."""
from hypothesis import strategies as st

from checks import c08
from checks.c05 import sizing_case, strat_factor
from checks.c07 import mp_build, mp_case, mp_model, snap
from harness import ref
from harness.core import Skip, Sub, expect_raises, require, require_close
from harness.gen import control, mk_building, mk_cmap, num

PROPERTY = "C11"
RULE = ("Cases: random day shapes, use, loops, temperatures, run hours, aquastats for single-pass and multi-pass "
        "return-to-primary plants; multi-pass faults (load-shift controls, sensors below the usable region).  Oracle: closed "
        "form for single-pass, an independent slug model of the design days for multi-pass, and a replay of the capacity "
        "trial.  Non-trivial: loop loss > 1 % of the capacity.")
ASSUMPTIONS = ["multi-pass problems whose slug release is decided by less than 1e-6 F are left out",
               "multi-pass plants with at least 5 gal of storage (smaller ones are degenerate)"]


@st.composite
def sp_case(draw):
    c = draw(sizing_case())
    c["gpm"] = draw(st.one_of(num(0.05, 40), num(0.05, 40), num(0, 300)))
    c["dret"] = draw(st.one_of(num(1, 25), num(0, 60)))
    if draw(st.booleans()):
        c["slope"] = 1.7
    return c


def check_sp(c):
    from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
    sf = strat_factor(c)
    if sf < 0.02:
        raise Skip()
    cmap = mk_cmap(c["cmap"]) if c["cmap"] else None
    b = mk_building(c)
    s0 = snap(b)
    kw = dict(control_schedule=["normal"] * 24 if cmap else None, control_map=cmap)
    if c["slope"] != 1.7:
        kw["strat_slope"] = c["slope"]
    ret = c["supply"] - c["dret"]
    s = SinglePassRTPSystem.from_size(b, c["supply"], c["storage"], ret, c["gpm"], c["run"], c["defrost"], **kw)
    require(snap(b) == s0, "sizing changed the building")
    loss = ref.recirc_loss_kbtuh(c["gpm"], c["supply"], ret)
    rate = c["daily"] / c["run"]
    rc = loss * 24 / c["run"] / c["defrost"]
    cap = ref.capacity_kbtuh(rate, c["supply"] - c["inlet"], c["defrost"]) + rc
    vol = ref.worst_deficit([c["daily"] * p for p in c["peak"]], [rate] * 24) / sf
    require_close(s.get_recirc_loss_kbtuh(), loss, "loop loss", 1e-9)
    require_close(s.get_recirc_capacity_kbtuh(), rc, "capacity for the loop", 1e-9)
    require_close(s.get_minimum_capacity_kbtuh(), cap, "capacity", 1e-8)
    require_close(s.get_minimum_storage_storageT_gal(), vol, "storage", 1e-7, 1e-7 * c["daily"] / sf)
    require_close(s.storage_tank.total_volume_gal, s.get_minimum_storage_storageT_gal(), "built tank", 1e-9, 1e-9)
    require(s.storage_tank.strat_slope == c["slope"], f"built tank slope {s.storage_tank.strat_slope}, expected {c['slope']}")
    require_close(sum(h.get_capacity_kbtuh(40., c["storage"], c["inlet"]) for h in s.water_heaters), cap, "built heaters", 1e-8)
    u = SinglePassRTPSystem([], None, c["supply"], c["storage"], ret, c["gpm"])
    expect_raises(u.get_recirc_capacity_kbtuh, (RuntimeError,), "loop capacity before sizing")
    d = SinglePassRTPSystem.from_size(b, c["supply"], c["storage"], ret, c["gpm"])
    require_close(d.get_minimum_capacity_kbtuh(), ref.capacity_kbtuh(c["daily"] / 16, c["supply"] - c["inlet"], 1.0) + loss * 24 / 16,
                  "capacity with default run hours (16 h)", 1e-8)
    return rc > 0.01 * cap, [c["kind"]]


def mp_size_only(c, b):
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    s = MultiPassRTPSystem([], None, c["supply"], c["storage"], c["supply"] - c["dret"], c["gpm"],
                           max_daily_run_hr=c["run"], defrost_factor=c["defrost"])
    s.size(b, control_map=mk_cmap(c["cmap"]), strat_slope=c["slope"])
    return s


def check_mp_size(c):
    if strat_factor(c) < 0.05:
        raise Skip()
    cap, vol, near = mp_model(c, c["run"])
    if near < 1e-6 or vol < 5:
        raise Skip()
    b = mk_building(c)
    s0 = snap(b)
    s = mp_size_only(c, b)
    require(snap(b) == s0, "sizing changed the building")
    require_close(s.get_minimum_capacity_kbtuh(), cap, "capacity", 1e-8)
    require_close(s.get_minimum_storage_storageT_gal(), vol, "storage", 1e-7)
    loss = ref.recirc_loss_kbtuh(c["gpm"], c["supply"], c["supply"] - c["dret"])
    require_close(s.get_recirc_loss_kbtuh(), loss, "loop loss", 1e-9)
    return loss * 24 / c["run"] > 0.01 * cap, [f"pu={c['pu']}"]


@st.composite
def mp_multi(draw):
    """multi-pass with several control sets and arbitrary triggers"""
    c = draw(mp_case())
    c["cmap"]["normal"]["on_t"] = draw(st.one_of(st.just(c["supply"]), num(c["supply"] - 5, c["supply"] + 5)))
    if draw(st.booleans()):
        c["cmap"]["eco"] = draw(control(c["supply"], c["storage"], 0.15, 0.7))
    return c


def check_mp_full(c):
    """from_size: the sized volume, and the capacity of size() plus what the trial days show to be missing"""
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    if strat_factor(c) < 0.05:
        raise Skip()
    cap, vol, near = mp_model(c, c["run"])
    if near < 1e-6 or vol < 5:
        raise Skip()
    b = mk_building(c)
    days = c["days"]
    s = mp_build(c, b, **({} if days == 3 else {"capacity_boost_trial_days": days}))
    require_close(s.get_minimum_storage_storageT_gal(), vol, "storage", 1e-7)
    require_close(s.storage_tank.total_volume_gal, vol, "built tank", 1e-7)
    require(s.storage_tank.strat_slope == c["slope"], "built tank slope")
    require_close(s.storage_tank.percent_useable, c["pu"], "usable share of the built tank")
    got = s.get_minimum_capacity_kbtuh()
    require_close(sum(h.get_capacity_kbtuh(40., c["storage"], c["inlet"]) for h in s.water_heaters), got, "built heaters", 1e-8)
    require(got >= cap * (1 - 1e-9), "the trial reduced the capacity")
    # replay the trial on plants built from parts
    vol = s.storage_tank.total_volume_gal
    want, n_out = mp_size_only(c, b).get_minimum_capacity_kbtuh(), 0
    for _ in range(3):
        t = SlugOverlayTank(total_volume_gal=vol, cold_temp_f=c["inlet"], storage_temp_f=c["storage"], supply_temp_f=c["supply"],
                            percent_useable=c["pu"], strat_slope=c["slope"])
        wh = WaterHeater.from_nominal_capacity(nominal_capacity_kbtuh=want, control_schedule=["normal"] * 24,
                                               control_map=mk_cmap(c["cmap"]))
        q = MultiPassRTPSystem([wh], t, c["supply"], c["storage"], c["supply"] - c["dret"], c["gpm"],
                               max_daily_run_hr=c["run"], defrost_factor=c["defrost"])
        t.initialize(storage_temp_f=c["storage"], cold_temp_f=c["inlet"], percent_useable=1 - c["cmap"]["normal"]["on_f"])
        low, minutes, on, start = c["supply"], 0, False, 0
        for i in range(1440 * days):
            step = q.simulate_step(b, i, 1)
            h = step["heater_output_kbtuh"] > 0
            if h and not on:
                start = i
            on = h
            top = step["tank_temps_f"][-1]
            if abs(step["usable_volume_supplyT_gal"]) < 1e-6 and top >= c["supply"] - 1e-6:
                continue
            if step["usable_volume_supplyT_gal"] <= 0 and top < low:
                low, minutes = top, i - start
        if minutes <= 0:
            break
        n_out += 1
        want += vol * c["pu"] * ref.RHO_CP * (c["supply"] - low) / 1000 / (minutes / 60)
    require_close(got, want, f"capacity after {n_out} trial increases", 1e-4)
    return n_out > 0, [f"boosts={n_out}"]


@st.composite
def mp_full(draw):
    c = draw(mp_case())
    c["days"] = draw(st.sampled_from([3, 3, 1]))
    return c


@st.composite
def bad_case(draw):
    c = draw(mp_case())
    f = draw(st.sampled_from(["shed", "on_low", "off_low"]))
    c["fault"] = f
    if f == "shed":
        c["cmap"]["shed"] = dict(c["cmap"]["normal"], on_f=0.7)
    else:
        c["pu"] = draw(num(0.4, 0.8))
        lim = 1 - c["pu"]
        n = c["cmap"]["normal"]
        n["on_f"], n["off_f"] = min(0.95, lim + 0.1), min(0.95, lim + 0.05)
        c["good"] = draw(st.booleans())
        if not c["good"]:
            n["on_f" if f == "on_low" else "off_f"] = draw(num(0, lim - 0.01))
    return c


def check_bad(c):
    b = mk_building(c)
    if c["fault"] == "shed":
        expect_raises(lambda: mp_size_only(c, b), (ValueError,), "size() with load-shift controls")
        expect_raises(lambda: mp_build(c, b), (ValueError,), "from_size() with load-shift controls")
    elif not c["good"]:
        expect_raises(lambda: mp_build(c, b), (ValueError,), f"sensor below the usable region ({c['fault']})")
    else:
        if mp_model(c, c["run"])[1] < 5 or strat_factor(c) < 0.05:
            raise Skip()
        mp_build(c, b, capacity_boost_trial_days=1, capacity_boost_iterations=1)
    return True, [c["fault"]]


SUBS = [
    Sub("single_pass", sp_case(), check_sp, quick=2500, thorough=50000),
    Sub("single_pass_shed", c08.ls_case(("sprtp",)), c08.check_size, quick=600, thorough=10000, shards=8),
    Sub("multi_pass", mp_multi(), check_mp_size, quick=600, thorough=12000, shards=16),
    Sub("multi_pass_trial", mp_full(), check_mp_full, quick=40, thorough=800, shards=8),
    Sub("multi_pass_invalid", bad_case(), check_bad, quick=120, thorough=1500, shards=8),
]
