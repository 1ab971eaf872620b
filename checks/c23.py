"""C23: primary and single-pass RTP simulation balances heat every step (lockstep)."""
from hypothesis import strategies as st

from harness import plants
from harness.core import Skip, Sub
from harness.gen import num

PROPERTY = "C23"
RULE = ("Cases: plants (1-3 heaters of fixed capacity or catalogue models with individual controls, load-shift schedules, stratified tank from "
        "undersized to oversized), loads, fixed or hourly climates, timesteps 1-60 min, starts anywhere in the year; no-recirc and single-pass "
        "return-to-primary. Every step of the real system is compared with a reference simulation that keeps its own state (decisions within "
        "0.003 F of a trigger are adopted). Non-trivial: heaters switched at least twice.")


@st.composite
def case(draw, rtp):
    b = draw(plants.building())
    p = draw(plants.primary(b, models=plants.sp_models()))
    c = {"b": b, "p": p, "ts": draw(st.sampled_from([1, 1, 1, 5, 7, 10, 10, 15, 25, 60])), "start": draw(st.integers(0, 364)),
         "n": draw(st.integers(200, 1440))}
    if rtp:
        p["slope"] = 1.7
        c["rtp"] = {"gpm": b["daily"] * draw(num(0.0003, 0.004)), "ret": p["supply"] - draw(st.one_of(num(2, 20), num(2, 20), num(0, 40)))}
    return c


def run(c, system, model, extra=None):
    bld = plants.mk_building(c["b"])
    cold = bld.get_design_inlet_water_temp_f()
    system.storage_tank.initialize(c["p"]["storage"], cold, c["p"]["start"])
    model.init(c["p"]["storage"], cold, c["p"]["start"])
    first = c["start"] * 1440 // c["ts"]
    for k in range(c["n"]):
        i = first + k
        if "zone" in c["b"] and i * c["ts"] >= 525600:
            break
        rec = system.simulate_step(bld, i, c["ts"])
        if extra:
            extra(i, rec)
        else:
            model.step(i, c["ts"], rec, [h.is_active() for h in system.water_heaters])


def mk(c):
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
    p = c["p"]
    hs = plants.mk_heaters(p, plants.Env(c["b"]).design_inlet())
    tank = StratifiedTank(p["vol"], p["slope"])
    if "rtp" in c:
        return SinglePassRTPSystem(hs, tank, p["supply"], p["storage"], c["rtp"]["ret"], c["rtp"]["gpm"])
    return DHWSystem(hs, tank, p["supply"], p["storage"])


def check(c):
    p = c["p"]
    env = plants.Env(c["b"])
    s = mk(c)
    m = plants.RefPrimary(p, env, c.get("rtp"))
    try:
        run(c, s, m)
    except plants.refmap.Near:
        raise Skip
    lab = ["outage"] if m.outage else []
    if plants.use_avg(p):
        lab.append("ls")
    if any("model" in h for h in p["heaters"]):
        lab.append("model")
    return m.flips >= 2, tuple(lab)


SUBS = [
    Sub("primary", case(False), check, quick=640, thorough=8000, shards=8),
    Sub("sprtp", case(True), check, quick=480, thorough=6000, shards=8),
]
