"""C16: performance maps return the rated data and interpolate between."""
from hypothesis import strategies as st

from harness import refmap
from harness.core import Skip, Sub, expect_raises, require, require_close
from harness.gen import num
from harness.ref import KBTUH_PER_KW as K

PROPERTY = "C16"
RULE = ("Cases: every catalogue model with conditions drawn inside its rated region (convex combinations of rated points and the points "
        "themselves), beyond each edge, with and without inlet, unit counts 1-12, with and without a nominal capacity; synthetic "
        "HPWHsim maps. Oracle: the raw data files with the documented fallbacks re-stated independently. Non-trivial: inside or "
        "snapped region (classes counted).")


@st.composite
def condition(draw):
    model = draw(st.sampled_from(refmap.models()))
    c = {"model": model, "units": draw(st.integers(1, 12)), "nominal": draw(st.one_of(st.none(), num(5, 900))),
         "design": draw(num(35, 75)), "oat": draw(num(-25, 125)), "outlet": draw(num(105, 180)),
         "inlet": draw(st.one_of(st.none(), num(35, 80), num(35, 165)))}
    if draw(st.integers(0, 2)):
        e = refmap.registry()[model]
        if "pkl_prefix" in e:
            pts = refmap.raw(e["pkl_prefix"])[0].points
            idx = [draw(st.integers(0, len(pts) - 1)) for _ in range(draw(st.integers(1, 4)))]
            w = [draw(st.integers(1, 10)) for _ in idx]
            p = sum(a * pts[i] for a, i in zip(w, idx)) / sum(w)
            hx = e.get("hx_increase", 0.0) if e.get("secondary_heat_exchanger") else 0.0
            c["inlet"] = float(p[0]) - hx
            c["oat"] = float(p[-1])
            if len(p) == 3:
                c["outlet"] = float(p[1]) - hx
        else:
            pm = e["perfmap"]
            c["oat"] = draw(st.one_of(st.sampled_from([x["T_F"] for x in pm]), num(pm[0]["T_F"], pm[-1]["T_F"])))
            c["inlet"] = draw(num(35, 140))
    return c


def check_model(c):
    from ecoengine.objects.components.heating.PerformanceMap import PerformanceMap
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    m = PerformanceMap.from_model_name(c["model"], num_units=c["units"], design_inlet_temp_f=c["design"],
                                       nominal_capacity_kbtuh=c["nominal"])
    r = refmap.RefMap(c["model"], c["units"], c["design"], c["nominal"])
    try:
        cap, kw, lab = r.query(c["oat"], c["outlet"], c["inlet"])
    except refmap.Near:
        raise Skip
    args = (c["oat"], c["outlet"]) if c["inlet"] is None else (c["oat"], c["outlet"], c["inlet"])
    got_c, got_p = m.get_capacity_kbtuh(*args), m.get_power_in_kw(*args)
    require_close(got_c, cap, f"capacity of {c['model']} ({lab})", 1e-7, 1e-7)
    require_close(got_p, kw, f"input power of {c['model']} ({lab})", 1e-7, 1e-7)
    cop = m.get_cop(*args)
    if got_p > 0:
        require_close(cop, got_c / K / got_p, "COP", 1e-9, 1e-12)
    else:
        require(cop is None, "COP without input power")
    require(m.is_within_operating_bounds(c["oat"]) == (c["oat"] >= r.oat_min), "operating bounds at %s F", c["oat"])
    h = WaterHeater.from_model_name(c["model"], None, None, num_units=c["units"], design_inlet_temp_f=c["design"],
                                    nominal_capacity_kbtuh=c["nominal"])
    require(h.get_output_kbtuh(*args) == 0.0, "a heater that is off delivers output")
    h.turn_on()
    require_close(h.get_output_kbtuh(*args), cap, "output of a running heater", 1e-7, 1e-7)
    require_close(h.get_capacity_kbtuh(*args), cap, "heater capacity", 1e-7, 1e-7)
    require_close(h.get_power_in_kw(*args), kw, "heater input power", 1e-7, 1e-7)
    return True, (lab,)


def all_models():
    return [{"model": m} for m in refmap.models()]


def check_rated(c):
    """At every rated point the map returns the stored value; unknown names are rejected."""
    from ecoengine.objects.components.heating.PerformanceMap import PerformanceMap
    e = refmap.registry()[c["model"]]
    m = PerformanceMap.from_model_name(c["model"])
    expect_raises(lambda: PerformanceMap.from_model_name(c["model"] + "x"), (ValueError,), "unknown model")
    expect_raises(lambda: m.get_capacity_kbtuh(None, 140.0, 60.0), (ValueError,), "missing outdoor temperature")
    n = 0
    if "pkl_prefix" in e:
        cap, pwr, b = refmap.raw(e["pkl_prefix"])
        hx = e.get("hx_increase", 0.0) if e.get("secondary_heat_exchanger") else 0.0
        seen = {}
        for p, v, w in zip(cap.points, cap.values, pwr.values):
            seen.setdefault(tuple(p), set()).add((float(v[0]), float(w[0])))
        for p, vs in seen.items():
            if len(vs) > 1 or p[-1] >= b[0][-1] or p[0] > b[2][1]:
                continue
            v, w = next(iter(vs))
            out = p[1] if len(p) == 3 else 150.0
            args = (float(p[-1]), float(out) - hx, float(p[0]) - hx)
            gc, gp = m.get_capacity_kbtuh(*args), m.get_power_in_kw(*args)
            require_close(gc, v * K, f"rated capacity at {args}", 1e-6, 1e-6)
            require_close(gp, w, f"rated power at {args}", 1e-6, 1e-6)
            n += 1
    else:
        for row in e["perfmap"]:
            for inlet in (45.0, 60.0, 100.0, 130.0):
                kw = refmap.quad(row["inputPower_coeffs"], inlet) / 1000
                require_close(m.get_power_in_kw(row["T_F"], 140.0, inlet), kw, f"rated power at {row['T_F']}", 1e-7, 1e-9)
                require_close(m.get_capacity_kbtuh(row["T_F"], 140.0, inlet), refmap.quad(row["COP_coeffs"], inlet) * kw * K,
                              f"rated capacity at {row['T_F']}", 1e-7, 1e-9)
                n += 1
    return n > 0


@st.composite
def synthetic(draw):
    n = draw(st.sampled_from([1, 1, 2, 3, 5]))
    mp = draw(st.booleans())
    k = 3 if n > 1 else (6 if mp else 11)
    ts = sorted(draw(st.lists(st.integers(-10, 110), min_size=n, max_size=n, unique=True)))
    co = st.lists(num(-2, 2), min_size=k, max_size=k)
    return {"pm": [{"T_F": t, "COP_coeffs": draw(co), "inputPower_coeffs": draw(co)} for t in ts], "mp": mp,
            "units": draw(st.integers(1, 9)), "nominal": draw(st.one_of(st.none(), num(5, 500))), "design": draw(num(35, 75)),
            "oat": draw(st.one_of(num(-30, 120), st.sampled_from([float(t) for t in ts]))), "outlet": draw(num(105, 180)),
            "inlet": draw(st.one_of(st.none(), num(35, 150)))}


def check_synth(c):
    from ecoengine.objects.components.heating.PerformanceMap import HPWHsimPerformanceMap
    m = HPWHsimPerformanceMap("X_MP" if c["mp"] else "X_SP", c["pm"], c["units"], c["mp"], c["nominal"], c["design"])
    inlet = c["design"] if c["inlet"] is None else c["inlet"]
    out, inp, lab = refmap.hpwhsim(c["pm"], c["oat"], c["outlet"], inlet, c["design"],
                                   None if c["nominal"] is None else c["nominal"] / c["units"], c["mp"])
    require_close(m.get_capacity_kbtuh(c["oat"], c["outlet"], c["inlet"]), out * c["units"], f"capacity ({lab})", 1e-7, 1e-6)
    require_close(m.get_power_in_kw(c["oat"], c["outlet"], c["inlet"]), inp / K * c["units"], f"input power ({lab})", 1e-7, 1e-6)
    cop, p = m.get_cop(c["oat"], c["outlet"], c["inlet"]), m.get_power_in_kw(c["oat"], c["outlet"], c["inlet"])
    if p > 0:
        require_close(cop, out * c["units"] / K / p, f"COP ({lab})", 1e-6, 1e-6)
    else:
        require(cop is None, f"COP {cop} with an input power of {p} kW")
    return True, (lab,)


@st.composite
def nominal(draw):
    return {"cap": draw(num(0, 3000)), "oat": draw(st.one_of(st.none(), num(-20, 120))), "out": draw(num(100, 180)),
            "inlet": draw(st.one_of(st.none(), num(35, 140)))}


def check_nominal(c):
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    h = WaterHeater.from_nominal_capacity(c["cap"], None, None)
    require(not h.is_active(), "a new heater is running")
    for _ in range(2):
        require(h.get_output_kbtuh(c["oat"], c["out"], c["inlet"]) == 0.0, "output while off")
        require_close(h.get_capacity_kbtuh(c["oat"], c["out"], c["inlet"]), c["cap"], "fixed capacity", 1e-12, 0)
        h.turn_on()
        require_close(h.get_output_kbtuh(c["oat"], c["out"], c["inlet"]), c["cap"], "fixed output", 1e-12, 0)
        require(h.get_power_in_kw(c["oat"], c["out"], c["inlet"]) is None, "power of a heater without power data")
        require(h.performance_map.get_cop(c["oat"], c["out"], c["inlet"]) is None, "COP of a heater without power data")
        h.turn_off()
    return c["cap"] > 0


SUBS = [
    Sub("rated", None, check_rated, exhaustive=all_models, shards=8),
    Sub("conditions", condition(), check_model, quick=6000, thorough=60000, shards=8),
    Sub("synthetic", synthetic(), check_synth, quick=800, thorough=8000),
    Sub("nominal", nominal(), check_nominal, quick=100, thorough=1000),
]
