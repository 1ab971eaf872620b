"""Any of the six simulated systems, as generated plain data (kind + case) and as real objects."""
from hypothesis import strategies as st

from checks import c22, c23, c24
from harness import plants
from harness.gen import num


@st.composite
def instant_case(draw):
    b = draw(plants.building())
    supply = draw(num(80, 140))
    return {"b": b, "p": {"supply": supply, "storage": supply + draw(num(0, 40))}, "defrost": draw(st.one_of(st.just(1.0), num(0.5, 1))),
            "ts": draw(st.sampled_from([1, 5, 7, 10, 25, 30, 45, 60, 90])), "start": draw(st.integers(0, 364)), "n": draw(st.integers(10, 400))}


def instant_mk(c):
    from ecoengine.objects.dhwsystems.InstantWHSystem import InstantWHSystem
    return InstantWHSystem(c["p"]["supply"], c["p"]["storage"], c["defrost"])


KINDS = {"primary": (c23.case(False), c23.mk), "sprtp": (c23.case(True), c23.mk), "parallel": (c22.par_case(), c22.par_mk),
         "swing": (c22.swing_case(), c22.swing_mk), "mprtp": (c24.case(), c24.mk), "instant": (instant_case(), instant_mk)}


@st.composite
def any_case(draw, kinds=tuple(KINDS)):
    k = draw(st.sampled_from(list(kinds)))
    return {"kind": k, "c": draw(KINDS[k][0])}


def mk(x):
    """(system, building)"""
    return KINDS[x["kind"]][1](x["c"]), plants.mk_building(x["c"]["b"])


def start_state(s, bld, x):
    """The documented starting state of a simulation: storage charged down to the normal aquastat, TM tank at its off
    temperature, every heater off."""
    cold = bld.get_design_inlet_water_temp_f()
    c = x["c"]
    if x["kind"] != "instant":
        n = c["p"]["heaters"][0]["cmap"]["normal"]
        s.storage_tank.initialize(c["p"]["storage"], cold, max(0.0, min(1.0, 1.0 - n["on_f"])))
    if x["kind"] == "parallel":
        s.tm_storage_tank.initialize(c["tm"]["off"], cold, 1.0)
    if x["kind"] == "swing":
        s.tm_storage_tank.initialize(c["p"]["supply"] + 8.0, cold, 1.0)


def dirty(s, bld, n, first=0):
    """leave a used plant behind: run it for a while from some state"""
    cold = bld.get_design_inlet_water_temp_f()
    if s.storage_tank is not None:
        s.storage_tank.initialize(s.storage_temp_f, cold, 0.3)
    if getattr(s, "tm_storage_tank", None) is not None:
        s.tm_storage_tank.initialize(s.supply_temp_f - 3.0, cold, 1.0)
    for i in range(first, first + n):
        s.simulate_step(bld, i, 1)
