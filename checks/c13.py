"""C13: the mixed tank conserves energy (model-based histories)."""
from hypothesis import strategies as st

from harness import ref
from harness.core import Sub, require, require_close
from harness.gen import num

PROPERTY = "C13"
RULE = ("Cases: a tank and a history of up to 40 operations (initialise, draw at supply temperature, physical draw, inflow of primary "
        "water, loop return, fixed loss, heating) with arbitrary magnitudes, including zero, whole-tank and overflowing ones. Oracle: heat "
        "balance kept in BTU per operation. Non-trivial: at least 3 operations changed the temperature.")


@st.composite
def history(draw):
    vol = draw(st.one_of(num(20, 1500), num(20, 1500), num(1, 20), num(1500, 30000)))
    supply = draw(num(105, 130))
    cold = draw(num(35, 75))
    gal = st.one_of(num(0, vol * 0.1), num(0, vol * 1.5), st.just(0.0), st.just(vol), num(-3, 0))
    mins = st.sampled_from([1, 1, 10, 0.5, 60])
    op = st.one_of(
        st.tuples(st.just("draw"), gal, num(35, 75), st.one_of(st.just(supply), num(100, 140)), num(120, 180)),
        st.tuples(st.just("phys"), gal, num(35, 130)),
        st.tuples(st.just("mix"), gal, num(35, 190)),
        st.tuples(st.just("recirc"), num(0, vol * 0.05), num(60, 160), mins),
        st.tuples(st.just("loss"), st.one_of(num(0, vol * 0.3), num(-4, 0)), mins),
        st.tuples(st.just("heat"), st.one_of(num(0, vol), num(-4, 0)), mins, num(120, 180)),
        st.tuples(st.just("init"), num(100, 180), num(35, 75), num(0, 1)),
    )
    return {"vol": vol, "t0": draw(num(60, 180)), "cold": cold, "supply": supply,
            "ops": [list(o) for o in draw(st.one_of(st.lists(op, min_size=1, max_size=40), st.lists(op, min_size=10, max_size=40)))]}


def check(c):
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    t = MixedStorageTank(c["vol"])
    V = c["vol"]
    m = ref.RefMixed(V, c["t0"])
    t.initialize(c["t0"], c["cold"], 0.5)
    moved = 0
    for i, o in enumerate([None] + c["ops"]):
        before = m.t
        if o is None:
            pass
        elif o[0] == "draw":
            t.draw(*o[1:])
            _, gal, cold, supply, _ = o
            if gal > 0 and m.t > cold:
                want = gal * (supply - cold)             # heat leaving with the water, F*gal
                m.t = cold if want >= V * (m.t - cold) else m.t - want / V
        elif o[0] == "phys":
            t.draw_physical_gal(o[1], o[2])
            m.replace(o[1], o[2])
        elif o[0] == "mix":
            t.mix_primary_inflow(o[1], o[2])
            m.replace(o[1], o[2])
        elif o[0] == "recirc":
            t.add_recirc_return(o[1], o[2], o[3])
            m.t -= o[1] * o[3] * (m.t - o[2]) / V
        elif o[0] == "loss":
            t.apply_fixed_heat_loss_kbtuh(o[1], o[2])
            if o[1] > 0:
                m.add_kbtu(-o[1] * o[2] / 60)
        elif o[0] == "heat":
            t.heat(o[1], o[2], o[3])
            if o[1] > 0:
                m.add_kbtu(o[1] * o[2] / 60)
        else:
            t.initialize(o[1], o[2], o[3])
            m.t = o[1]
        if abs(m.t) > 1e6:      # repeated over-circulation diverges numerically; not physical
            return False
        moved += m.t != before
        what = f"after op {i} {o}"
        T = t.get_temperature_at_fraction(0.5)
        require_close(T, m.t, f"temperature {what}", 1e-8, 1e-6)
        for f in (0.0, 0.3, 1.0):
            require(t.get_temperature_at_fraction(f) == T, f"temperature differs by height {what}")
        for g in (0.0, 1.0, V, 2 * V):
            require_close(t.get_average_draw_temp_f(g), T, f"draw temperature {what}", 1e-12, 1e-12)
        for s in (c["supply"], T - 1e-6, T + 1e-6, T):
            u = t.get_usable_volume_supplyT_gal(s)
            require(u == (V if T >= s else 0.0), f"usable volume {u} at {T} F for supply {s} F {what}")
    return moved >= 3


SUBS = [Sub("histories", history(), check, quick=2500, thorough=100000, shards=8)]
