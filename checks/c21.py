"""C21: heaters obey their aquastats and the load-shift schedule (model-based control histories)."""
from hypothesis import strategies as st

from harness.core import Sub, expect_raises, require, require_close
from harness.gen import mk_cmap, num

PROPERTY = "C21"
RULE = ("Cases: control sets for normal / load-up / shed hours, a 24 h schedule over them and a history of hours with arbitrary tank profiles "
        "(a stub tank that answers any profile, or a real stratified / mixed tank driven by heat and draws), with external turn on/off. Oracle: "
        "hysteresis automaton. Non-trivial: the heater changed state at least twice.")


class StubTank:
    """Linear-by-parts profile given by 11 temperatures at fractions 0, .1, ... 1."""

    def __init__(self):
        self.p = [0.0] * 11
        self.total_volume_gal = 100.0

    def get_temperature_at_fraction(self, f):
        x = min(max(f, 0.0), 1.0) * 10
        i = min(9, int(x))
        return self.p[i] + (x - i) * (self.p[i + 1] - self.p[i])


def _ctrl():
    return st.fixed_dictionaries({"on_f": num(0, 1), "on_t": num(90, 140), "off_f": num(0, 1), "off_t": num(90, 160),
                                  "out_t": num(100, 180)})


@st.composite
def case(draw):
    keys = draw(st.sampled_from([["normal"], ["normal", "shed"], ["normal", "loadUp", "shed"], ["normal", "loadUp"]]))
    cmap = {k: draw(_ctrl()) for k in keys}
    sched = draw(st.one_of(st.lists(st.sampled_from(keys), min_size=24, max_size=24), st.just(["normal"] * 24)))
    lim = sorted({v for c in cmap.values() for v in (c["on_t"], c["off_t"])})
    t = st.one_of(num(60, 170), st.sampled_from(lim))
    prof = st.one_of(st.lists(t, min_size=11, max_size=11).map(sorted), t.map(lambda x: [x] * 11),
                     st.lists(num(60, 170), min_size=11, max_size=11))
    step = st.tuples(st.sampled_from(["step"] * 6 + ["on", "off"]), st.integers(0, 23), prof)
    return {"cmap": cmap, "sched": sched, "cap": draw(num(1, 500)), "steps": [list(s) for s in draw(st.lists(step, min_size=4, max_size=40))]}


def check(c):
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    cm = mk_cmap(c["cmap"])
    h = WaterHeater.from_nominal_capacity(c["cap"], list(c["sched"]), cm)
    require(h.is_load_shifting() == ("shed" in cm or "loadUp" in cm), "is_load_shifting of %s", sorted(cm))
    tank = StubTank()
    on = False
    flips = 0
    for i, (kind, hour, prof) in enumerate(c["steps"]):
        k = c["cmap"][c["sched"][hour]]
        tank.p = list(prof)
        require(h.get_controls_for_hour(hour) is cm[c["sched"][hour]], "controls of hour %d (%s)", hour, c["sched"][hour])
        require_close(h.get_outlet_temp_f(hour), k["out_t"], f"outlet set point of hour {hour}", 1e-12, 0)
        t_on, t_off = tank.get_temperature_at_fraction(k["on_f"]), tank.get_temperature_at_fraction(k["off_f"])
        ct = cm[c["sched"][hour]]
        require(ct.should_turn_on(tank) == (t_on < k["on_t"]), "should_turn_on at %s with trigger %s", t_on, k["on_t"])
        require(ct.should_turn_off(tank) == (t_off >= k["off_t"]), "should_turn_off at %s with trigger %s", t_off, k["off_t"])
        was = on
        if kind == "on":
            h.turn_on()
            on = True
        elif kind == "off":
            h.turn_off()
            on = False
        else:
            h.update_state(tank, hour)
            on = (not t_off >= k["off_t"]) if on else t_on < k["on_t"]
            flips += on != was
        require(h.is_active() == on, "step %d (%s, hour %d, %s): running = %s, sensors %s/%s, triggers %s/%s, was %s", i, kind, hour,
                c["sched"][hour], h.is_active(), t_on, t_off, k["on_t"], k["off_t"], was)
        require_close(h.get_output_kbtuh(50.0, 140.0), c["cap"] if on else 0.0, f"output at step {i}", 1e-12, 0)
    return flips >= 2, ("ls",) if len(cm) > 1 else ()


@st.composite
def real_case(draw):
    c = draw(case())
    c["kind"] = draw(st.sampled_from(["strat", "mixed"]))
    c["vol"] = draw(num(20, 400))
    c["steps"] = [[draw(num(0, c["vol"] * 0.4)), draw(st.integers(0, 23))] for _ in range(draw(st.integers(5, 40)))]
    return c


def check_real(c):
    """Two heaters with the same controls on one real tank; each follows the tank it is shown, independently of the other."""
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    cm = mk_cmap(c["cmap"])
    tank = StratifiedTank(c["vol"]) if c["kind"] == "strat" else MixedStorageTank(c["vol"])
    tank.initialize(170.0, 50.0, 0.7)
    hs = [WaterHeater.from_nominal_capacity(c["cap"], list(c["sched"]), cm) for _ in range(2)]
    hs[1].turn_on()
    st_ = [False, True]
    flips = 0
    for i, (gal, hour) in enumerate(c["steps"]):
        k = c["cmap"][c["sched"][hour]]
        a, b = tank.get_temperature_at_fraction(k["on_f"]), tank.get_temperature_at_fraction(k["off_f"])
        for j, h in enumerate(hs):
            h.update_state(tank, hour)
            new = (b < k["off_t"]) if st_[j] else (a < k["on_t"])
            flips += new != st_[j]
            st_[j] = new
            require(h.is_active() == new, "heater %d at step %d: running = %s with sensors %s/%s", j, i, h.is_active(), a, b)
        require(tank.get_temperature_at_fraction(k["on_f"]) == a, "deciding changed the tank")
        tank.heat(sum(h.get_output_kbtuh(50.0, 170.0) for h in hs), 10, 170.0)
        tank.draw(gal, 50.0, 120.0, 170.0)
    return flips >= 2


def check_missing(c):
    """A heater without controls for the hour refuses to decide."""
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    cm = mk_cmap({"normal": c["cmap"]["normal"]})
    tank = StubTank()
    for sched, m in ((None, cm), (["normal"] * 24, None), (["shed"] * 24, cm)):
        h = WaterHeater.from_nominal_capacity(c["cap"], sched, m)
        require(h.get_controls_for_hour(3) is None, "controls invented")
        expect_raises(lambda: h.update_state(tank, 3), (ValueError,), "update without controls")
        expect_raises(lambda: h.get_outlet_temp_f(3), (ValueError,), "outlet set point without controls")
        require(not h.is_active(), "running without controls")
        require(h.is_load_shifting() is False, "load shifting with %s", m)
    h = WaterHeater(None, ["normal"] * 24, cm)
    h.turn_on()
    require(h.get_capacity_kbtuh(40.0, 140.0) is None and h.get_power_in_kw(40.0, 140.0) is None, "capacity without performance data")
    require(h.get_output_kbtuh(40.0, 140.0) == 0.0, "heat without performance data")
    return True


SUBS = [
    Sub("automaton", case(), check, quick=4000, thorough=40000, shards=8),
    Sub("real-tank", real_case(), check_real, quick=1600, thorough=15000, shards=8),
    Sub("missing", case(), check_missing, quick=40, thorough=200),
]
