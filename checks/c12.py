"""C12: the stratified tank moves and conserves heat and volume (model-based histories)."""
from hypothesis import strategies as st

from harness import ref
from harness.core import Sub, require, require_close
from harness.gen import num

PROPERTY = "C12"
RULE = ("Cases: a tank (volume, slope, start) and a history of up to 40 operations (heat, draw at supply temperature, physical "
        "draw, recirculation, re-initialise) with arbitrary magnitudes, seasonal inlet changes and changing outlet set points. "
        "Oracle: independent linear-thermocline model after every operation, profile invariants, and exact energy balance "
        "where the thermocline lies inside the tank.  Non-trivial: at least 3 operations moved the profile and the "
        "thermocline was inside the tank at some point.")
FR = [0.0, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95, 1.0]


@st.composite
def history(draw):
    vol = draw(st.one_of(num(20, 3000), num(20, 3000), num(0.5, 20), num(3000, 60000)))
    supply = draw(st.one_of(num(105, 130), num(90, 150)))
    hot = supply + draw(st.one_of(num(2, 45), num(0.1, 70)))
    cold = draw(num(35, 80))
    c = {"vol": vol, "slope": draw(st.one_of(st.sampled_from([2.8, 1.7, 0.8]), num(0.3, 8))), "supply": supply,
         "hot": hot, "cold": cold, "useable": draw(st.one_of(num(0, 1), st.sampled_from([0.0, 0.5, 1.0]))), "ops": []}
    temp_cold = st.one_of(st.just(cold), st.just(cold), num(35, 80))
    temp_hot = st.one_of(st.just(hot), st.just(hot), num(supply + 1, supply + 50))
    small, big = num(0, vol * 0.05), num(0, vol * 1.5)
    gal = st.one_of(small, small, big, st.just(0.0))
    kb = st.one_of(num(0, vol * 0.6), num(0, vol * 10), st.just(0.0), num(-5, 0))
    op = st.one_of(
        st.tuples(st.just("heat"), kb, st.sampled_from([1, 1, 10, 60, 0.5]), temp_hot),
        st.tuples(st.just("draw"), gal, temp_cold, st.one_of(st.just(supply), num(100, 130)), temp_hot),
        st.tuples(st.just("phys"), gal, temp_cold, st.one_of(st.none(), st.just(supply))),
        st.tuples(st.just("recirc"), num(0, vol * 0.05), num(70, 128), st.sampled_from([1, 10]), st.one_of(st.none(), st.just(supply))),
        st.tuples(st.just("init"), temp_hot, temp_cold, num(0, 1)),
    )
    ops = draw(st.one_of(st.lists(op, min_size=1, max_size=40), st.lists(op, min_size=10, max_size=40)))
    c["ops"] = [list(o) for o in ops if o[0] != "init" or o is ops[-1] or len(ops) > 6]
    return c


def profile_energy(tank, t_ref, n=400):
    """midpoint integral of the public temperature profile, BTU"""
    return sum(tank.get_temperature_at_fraction((i + 0.5) / n) - t_ref for i in range(n)) / n * tank.total_volume_gal * ref.RHO_CP


def check_history(c):
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    t = StratifiedTank(total_volume_gal=c["vol"], strat_slope=c["slope"])
    m = ref.RefStratified(c["vol"], c["slope"])
    t.initialize(c["hot"], c["cold"], c["useable"])
    m.init(c["hot"], c["cold"], c["useable"])
    moved, inside, err = 0, False, 1e-7
    per_gal = c["slope"] * 100 / c["vol"]

    def compare(what):
        prev = -1e9
        for f in FR:
            x = t.get_temperature_at_fraction(f)
            require_close(x, m.temp(f), f"temperature at {f} after {what}", 1e-8, err)
            require(x >= prev - 1e-9, f"colder above than below at {f} after {what}")
            require(m.cold - 1e-9 <= x <= m.hot + 1e-9 or m.hot < m.cold, f"temperature {x} outside [{m.cold}, {m.hot}] after {what}")
            prev = x
        for s in (c["supply"], c["supply"] - 7.3, c["hot"]):
            u = t.get_usable_volume_supplyT_gal(s)
            require_close(u, m.usable(s), f"volume above {s} F after {what}", 1e-7, err / per_gal + 1e-7 * c["vol"])
            require(-1e-9 <= u <= c["vol"] * (1 + 1e-12), f"usable volume {u} outside the tank after {what}")
        for g in (0.0, 0.03 * c["vol"], 0.4 * c["vol"], c["vol"], 1.3 * c["vol"]):
            require_close(t.get_average_draw_temp_f(g), m.mean_top(g), f"mean temperature of the top {g} gal after {what}", 1e-7, err * 2)

    for on, sto in ((0.15, c["hot"]), (0.5, c["supply"] + 0.5), (0.3, c["supply"]), (0.3, c["supply"] - 3.0), (1.0, c["hot"])):
        require_close(t.get_stratification_factor(on, c["supply"], sto), max(0.0, sto - c["supply"]) / c["slope"] * (1.0 - on),
                      f"stratification factor with the aquastat at {on} and {sto} F storage", 1e-9, 1e-9)
    compare("initialize")
    for i, o in enumerate(c["ops"]):
        what = f"op {i} {o}"
        b0 = m.b
        if o[0] == "heat":
            bot, top = m.temp(0.0), m.temp(1.0)
            full = profile_energy(t, 0.0) if c["vol"] > 1 and o[3] == m.hot else None
            t.heat(o[1], o[2], o[3])
            m.heat(o[1], o[2], o[3])
            if full is not None and o[1] > 0 and bot == m.cold and m.temp(0.0) == m.cold and top == m.hot:
                got = profile_energy(t, 0.0) - full
                want = o[1] * 1000 * o[2] / 60
                # midpoint rule error of a clipped ramp is far below 0.3 F of one cell
                tol = 2 * (c["slope"] * 100 / 400) * c["vol"] * ref.RHO_CP / 400 + 1e-6 * want
                require(abs(got - want) <= tol, f"heating by {want} BTU changed the stored heat by {got}")
        elif o[0] == "draw":
            t.draw(o[1], o[2], o[3], o[4])
            m.draw(o[1], o[2], o[3], o[4])
            err += 4e-6 * per_gal
        elif o[0] == "phys":
            if o[3] is None:
                t.draw_physical_gal(o[1], o[2])
            else:
                t.draw_physical_gal(o[1], o[2], o[3])
            m.draw_physical(o[1], o[2], o[3])
        elif o[0] == "recirc":
            if o[4] is None:
                t.add_recirc_return(o[1], o[2], o[3])
            else:
                t.add_recirc_return(o[1], o[2], o[3], supply_temp_f=o[4])
            m.recirc(o[1], o[2], o[3], o[4] if o[4] is not None else m.hot)
        else:
            t.initialize(o[1], o[2], o[3])
            m.init(o[1], o[2], o[3])
        moved += m.b != b0
        err = min(0.05, err + 1e-9 * abs(m.b))
        inside = inside or (m.cold < m.temp(0.5) < m.hot)
        compare(what)
    return moved >= 3 and inside


@st.composite
def draw_case(draw):
    supply = draw(num(105, 130))
    return {"vol": draw(num(20, 2000)), "slope": draw(num(0.5, 6)), "supply": supply, "hot": supply + draw(num(5, 45)),
            "cold": draw(num(35, 75)), "useable": draw(num(0.6, 0.95)), "charge": draw(num(0, 0.3)), "take": draw(num(0.05, 0.9)),
            "n": draw(st.integers(1, 40))}


def check_delivery(c):
    """Drawing takes exactly the heat the building receives: energy removed from the profile equals the draw's heat,
    in one draw or many small ones, as long as usable water is left."""
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank

    def tank():
        t = StratifiedTank(c["vol"], c["slope"])
        t.initialize(c["hot"], c["cold"], c["useable"])
        t.heat(c["charge"] * c["vol"] * ref.RHO_CP * (c["hot"] - c["cold"]) / 1000, 60, c["hot"])
        return t
    t = tank()
    usable = t.get_usable_volume_supplyT_gal(c["supply"])
    g = usable * c["take"] * 0.8
    if g < 0.02 * c["vol"]:
        return False
    bottom_cold = t.get_temperature_at_fraction(0.0) <= c["cold"]
    e0 = profile_energy(t, c["cold"], 2000)
    for _ in range(c["n"]):
        t.draw(g / c["n"], c["cold"], c["supply"], c["hot"])
    e1 = profile_energy(t, c["cold"], 2000)
    want = g * ref.RHO_CP * (c["supply"] - c["cold"])
    if t.get_usable_volume_supplyT_gal(c["supply"]) > 0.001 * c["vol"] and bottom_cold:
        cell = c["vol"] / 2000 * ref.RHO_CP * c["slope"] * 0.05
        require(abs((e0 - e1) - want) <= 2e-3 * want + 4 * cell, f"a draw of {want:.1f} BTU took {e0 - e1:.1f} BTU from the tank")
        return True
    return False


SUBS = [
    Sub("histories", history(), check_history, quick=4000, thorough=40000, shards=8),
    Sub("delivery", draw_case(), check_delivery, quick=800, thorough=6000),
]
