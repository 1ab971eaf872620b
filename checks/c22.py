"""C22: parallel-loop and swing simulation balances heat every step (lockstep)."""
from hypothesis import strategies as st

from checks.c23 import run
from harness import plants, ref
from harness.core import Skip, Sub
from harness.gen import num

PROPERTY = "C22"
RULE = ("Cases: plants as in C23 plus a recirculation loop and a temperature-maintenance tank and heater (fixed capacity, 1-3 units, or a catalogue "
        "model for the parallel loop; a resistance element for the swing tank), from starved to oversized. Every step of the real system is compared "
        "with a reference simulation keeping its own state. Non-trivial: the TM heater switched at least twice.")


@st.composite
def base(draw):
    b = draw(plants.building())
    p = draw(plants.primary(b, models=plants.sp_models()))
    return b, p, {"ts": draw(st.sampled_from([1, 1, 1, 5, 7, 10, 10, 15, 25])), "start": draw(st.integers(0, 364)), "n": draw(st.integers(200, 1440))}


@st.composite
def par_case(draw):
    b, p, c = draw(base())
    gpm = b["daily"] * draw(num(0.0004, 0.004))
    ret = p["supply"] - draw(num(2, 18))
    on = p["supply"] + draw(num(-4, 8))
    tm = {"gpm": gpm, "ret": ret, "on": on, "off": on + draw(num(1, 20)), "n": draw(st.integers(1, 3))}
    loss = ref.recirc_loss_kbtuh(gpm, tm["off"], ret)
    tm["cap"] = loss * draw(st.one_of(num(1.05, 4), num(1.05, 4), num(0.4, 1))) / tm["n"]
    tm["vol"] = gpm * draw(st.one_of(num(40, 300), num(15.5, 60)))
    if draw(st.integers(0, 2)) == 0:
        tm["model"] = draw(st.sampled_from(plants.mp_models() or plants.sp_models()))
    return {"b": b, "p": p, "tm": tm, **c}


def par_mk(c):
    from ecoengine.objects.components.heating.Controls import Controls
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
    p, tm = c["p"], c["tm"]
    env = plants.Env(c["b"])
    ctl = {"normal": Controls(on_sensor_fract=0.5, on_trigger_t_f=tm["on"], off_sensor_fract=0.5, off_trigger_t_f=tm["off"], outlet_temp_f=tm["off"])}
    if "model" in tm:
        w = WaterHeater.from_model_name(tm["model"], ["normal"] * 24, ctl, num_units=1, design_inlet_temp_f=tm["ret"], nominal_capacity_kbtuh=tm["cap"])
    else:
        w = WaterHeater.from_nominal_capacity(tm["cap"], ["normal"] * 24, ctl)
    return ParallelLoopSystem(plants.mk_heaters(p, env.design_inlet()), StratifiedTank(p["vol"], p["slope"]), p["supply"], p["storage"], tm["ret"], tm["gpm"],
                           tm["on"], tm["off"], tm_storage_tank=MixedStorageTank(tm["vol"]), tm_water_heater=w, num_tm_heaters=tm["n"])


def par_check(c):
    p, tm = c["p"], c["tm"]
    env = plants.Env(c["b"])
    s = par_mk(c)
    m = plants.RefParallel(p, env, tm)
    s.tm_storage_tank.initialize(tm["off"], env.design_inlet(), 1.0)
    m.tmt.t = tm["off"]

    def step(i, rec):
        m.step(i, c["ts"], rec, [h.is_active() for h in s.water_heaters])
        m.tm_step(i, c["ts"], rec, s.tm_water_heater.is_active())
    try:
        run(c, s, m, step)
    except plants.refmap.Near:
        raise Skip
    return m.tmflips >= 2, tuple(k for k, v in (("model", "model" in tm), ("outage", m.outage), ("several", tm["n"] > 1)) if v)


@st.composite
def swing_case(draw):
    b, p, c = draw(base())
    gpm = b["daily"] * draw(num(0.0004, 0.004))
    tm = {"gpm": gpm, "ret": p["supply"] - draw(num(2, 18))}
    loss = ref.recirc_loss_kbtuh(gpm, p["supply"], tm["ret"])
    tm["cap"] = loss * draw(st.one_of(num(1.05, 4), num(1.05, 4), num(0.4, 1)))
    tm["vol"] = max(b["daily"] * draw(num(0.02, 0.4)), b["daily"] * max(max(b["peak"]), max(b["avg"])) * c["ts"] / 60.0 * 1.05)
    return {"b": b, "p": p, "tm": tm, **c}


def swing_mk(c):
    from ecoengine.objects.components.heating.Controls import Controls
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    p, tm = c["p"], c["tm"]
    env = plants.Env(c["b"])
    s = SwingSystem(plants.mk_heaters(p, env.design_inlet()), StratifiedTank(p["vol"], p["slope"]), p["supply"], p["storage"], tm["ret"], tm["gpm"])
    x = p["supply"]
    s.tm_storage_tank = MixedStorageTank(tm["vol"])
    s.tm_water_heater = WaterHeater.from_nominal_capacity(tm["cap"], ["normal"] * 24, {"normal": Controls(
        on_sensor_fract=0.5, on_trigger_t_f=x, off_sensor_fract=0.5, off_trigger_t_f=x + 8.0, outlet_temp_f=x + 8.0)})
    return s


def swing_check(c):
    p, tm = c["p"], c["tm"]
    env = plants.Env(c["b"])
    x = p["supply"]
    s = swing_mk(c)
    m = plants.RefSwing(p, env, tm)
    s.tm_storage_tank.initialize(x + 8.0, env.design_inlet(), 1.0)
    m.sw.t = x + 8.0
    low = [0]

    def step(i, rec):
        m.step(i, c["ts"], rec, [h.is_active() for h in s.water_heaters], s.tm_water_heater.is_active())
        low[0] += rec["delivery_temp_f"] < x
    try:
        run(c, s, m, step)
    except plants.refmap.Near:
        raise Skip
    return m.tmflips >= 2, ("cold delivery",) if low[0] else ()


SUBS = [
    Sub("parallel", par_case(), par_check, quick=480, thorough=6000, shards=8),
    Sub("swing", swing_case(), swing_check, quick=560, thorough=7000, shards=8),
]
