"""C19: results do not depend on earlier runs, and inputs stay untouched."""
import contextlib
import copy
import io

from hypothesis import strategies as st

from checks import c17, c25
from harness import design
from harness.core import Skip, Sub, Violation, require

PROPERTY = "C19"
RULE = ("Cases: a sized system of any kind and a history of 3-7 user calls on it and its building (size again, curves, plots, simulations, stray "
        "steps, rejected calls, sizing another system on the same building), or an engine and a history of its calls. Oracle: the same call on freshly built objects; building, controls, "
        "schedule and plant before = after; nothing on the console. Non-trivial: at least one call was made after a simulation or curve.")


@st.composite
def case(draw):
    d = draw(design.design())
    o = design.ops_for(d)
    ops = [list(x) for x in draw(st.lists(st.sampled_from(o), min_size=3, max_size=7))]
    return {"d": d, "ops": ops}


@st.composite
def flat_case(draw):
    """level demand: curves stop at their first points, plants may need no storage at all"""
    d = draw(design.design(kinds=("primary", "parallel", "swing", "sprtp")))
    d["b"]["peak"] = draw(st.one_of(st.just([1 / 24] * 24), load_near_flat()))
    o = design.ops_for(d, sims=False)
    ops = [list(x) for x in draw(st.lists(st.sampled_from(o + [("curve", 1.0), ("curve", 4.0), ("plot",)]), min_size=2, max_size=5))]
    return {"d": d, "ops": ops, "empty": True}


@st.composite
def load_near_flat(draw):
    w = [100 + draw(st.integers(0, 3)) for _ in range(24)]
    return [x / sum(w) for x in w]


def check(c):
    d = c["d"]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        b, a, s = design.make(d, empty=c.get("empty", False))
        fresh = {}
        b0, a0 = design.bld_state(b), a.state()
        p0 = design.plant(d, s)
        for i, op in enumerate(c["ops"]):
            key = tuple(op)
            got = design.call(op, d, s, b, a)
            if key not in fresh:
                fb, fa, fs = design.make(d, empty=c.get("empty", False))
                fresh[key] = design.call(op, d, fs, fb, fa)
            if got != fresh[key]:
                raise Violation(f"call {i} {op} after {c['ops'][:i]} gives {str(got)[:300]}, on fresh objects {str(fresh[key])[:300]}")
            if got[0] == "accepted":
                raise Violation(f"call {i} {op} was accepted")
            require(design.bld_state(b) == b0, f"call {i} {op} changed the building")
            require(a.state() == a0, f"call {i} {op} changed the schedule or controls passed in")
            p = design.plant(d, s)
            require(p == p0, f"call {i} {op} changed the plant: {p0} -> {p}")
    require(out.getvalue() == "", f"printed {out.getvalue()[:200]!r}")
    first = [i for i, o in enumerate(c["ops"]) if o[0] in ("sim", "curve", "lscurve", "plot", "steps")]
    return bool(first) and first[0] < len(c["ops"]) - 1, (d["kind"],) + (("ls",) if design.is_ls(d) else ())


# --------------------------------------------------------------------------------- the engine
ENGINE_OPS = ("results", "sim", "curve", "points", "plot", "gallons", "rebuild", "another")


@st.composite
def engine_case(draw):
    c = draw(c25.case())
    c["kw"] = {k: v for k, v in c["kw"].items() if k != "hpwh_model"} if draw(st.booleans()) and "heating_capacity_kbtuh" in c["kw"] else c["kw"]
    return {"c": c, "ops": draw(st.lists(st.sampled_from(ENGINE_OPS), min_size=3, max_size=7))}


def engine_call(op, e, given):
    from ecoengine import EcosizerEngine
    try:
        if op == "results":
            return e.get_sizing_results()
        if op == "sim":
            r = e.simulate_3day()
            return design.run_result(r), e.get_simulation_summary(r)
        if op == "curve":
            return design.fig_result(e.plot_sizing_curve())
        if op == "points":
            return e.plot_sizing_curve(return_with_x_y_points=True)[1:]
        if op == "plot":
            return design.fig_result(e.plot_simulation())
        if op == "gallons":
            return e.get_hw_magnitude()
        if op == "rebuild":
            e.build()
        if op == "another":                       # a second engine from the very same argument objects
            EcosizerEngine(**given)
        return None
    except (ValueError, RuntimeError, ZeroDivisionError, KeyError, TypeError, IndexError) as x:
        return type(x).__name__, str(x)


def engine_check(c):
    from ecoengine import EcosizerEngine
    x = c["c"]

    def fresh():
        given = copy.deepcopy(x["kw"])
        if "tariff" in x:
            given["utility_cost_tracker"] = c17.build(x["tariff"])
        return EcosizerEngine(**given), given

    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try:
            e, given = fresh()
        except (ValueError, RuntimeError, ZeroDivisionError):
            raise Skip
        want = {}
        first = e.get_sizing_results()
        for i, op in enumerate(c["ops"]):
            got = engine_call(op, e, given)
            if op not in want:
                want[op] = engine_call(op, *fresh())
            require(str(got) == str(want[op]), "call %d %s after %s gives %s, on a fresh engine %s", i, op, c["ops"][:i], str(got)[:250], str(want[op])[:250])
            now = {k: v for k, v in given.items() if k != "utility_cost_tracker"}
            require(now == x["kw"], "call %d %s changed the engine's arguments", i, op)
            require(e.get_sizing_results() == first, "call %d %s changed the sizing results to %s", i, op, e.get_sizing_results())
    require(out.getvalue() == "", f"printed {out.getvalue()[:200]!r}")
    seen = [i for i, o in enumerate(c["ops"]) if o in ("sim", "curve", "points", "plot")]
    return bool(seen) and seen[0] < len(c["ops"]) - 1, (x["kind"],) + (("ls",) if "load_shift_schedule" in x["kw"] else ())


SUBS = [Sub("engine", engine_case(), engine_check, quick=96, thorough=2000, shards=8),
        Sub("history", case(), check, quick=96, thorough=2500, shards=8),
        Sub("level_demand", flat_case(), check, quick=80, thorough=1500, shards=8)]
