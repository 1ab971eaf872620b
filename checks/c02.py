"""C02: building from type: daily use and blended shapes."""
import json
import math
import os

import numpy as np
from hypothesis import strategies as st

import harness
from harness.core import Sub, require, require_close, require_seq_close, VERIF
from harness.gen import load_shape, num, BUILDING_TYPES

PROPERTY = "C02"
RULE = ("Cases: 1..5 uses of random named types or custom (None) uses with random magnitudes, custom shapes per use "
        "or defaults, multi_family gpdpp / standard_gpd / bedroom mixes.  Oracle: published gallons-per-unit table, "
        "independent 98th percentile, volume-weighted blend.  Non-trivial: daily use > 0 and (several uses, or a "
        "custom shape, or a standard).")

GPD = {'mens_dorm': 23.6, 'womens_dorm': 19.6, 'motel': 21.4, 'nursing_home': 23.4, 'office_building': 2.1,
       'food_service_a': 11.032, 'food_service_b': 6.44, 'apartment': 54.6, 'elementary_school': 1.34,
       'junior_high': 3.75, 'senior_high': 3.26}
STD = {'ashLow': 20, 'ashMed': 49, 'ecoMark': 25}

with open(os.path.join(VERIF, "refdata", "load_shapes.json")) as _f:
    SHAPES = json.load(_f)
_CA = None


def ca_table():
    global _CA
    if _CA is None:
        with open(os.path.join(harness.SRC, "ecoengine/data/load_shapes/multi_family.json")) as f:
            _CA = json.load(f)["ca_gpdpp"]
    return _CA


def p98(values):
    v = sorted(values)
    r = 0.98 * (len(v) - 1)
    i = int(math.floor(r))
    return v[i] + (r - i) * (v[min(i + 1, len(v) - 1)] - v[i])


# gallons per hour: any total, also a small one or one close to (but not) 1
unnormal = st.one_of(num(2, 900), num(1.002, 1.2), num(0.8, 0.998), num(0.01, 0.8))


@st.composite
def use(draw):
    t = draw(st.sampled_from(BUILDING_TYPES + [None, None, "multi_family", "multi_family"]))
    u = {"type": t, "mag": draw(st.one_of(st.integers(1, 2000), num(0.5, 2000)))}
    if t is None:
        u["peak"] = draw(load_shape())
        if draw(st.booleans()):                      # unnormalised: gallons per hour
            k = draw(unnormal)
            u["peak"] = [x * k for x in u["peak"]]
            if draw(st.booleans()):
                u["mag"] = None
        u["avg"] = draw(st.one_of(st.none(), load_shape()))
        if u["avg"] is not None and draw(st.booleans()):
            k = draw(unnormal)
            u["avg"] = [x * k for x in u["avg"]]
    else:
        u["peak"] = draw(st.one_of(st.none(), load_shape()))
        u["avg"] = draw(st.one_of(st.none(), load_shape()))
    u["box"] = draw(st.sampled_from(["list", "list", "array", "tuple"]))
    return u


mf = st.fixed_dictionaries({
    "gpdpp": num(5, 60),
    "std": st.sampled_from([None, None, "ashLow", "ashMed", "ecoMark", "ca"]),
    "n_br": st.lists(st.integers(0, 40), min_size=6, max_size=6).filter(lambda v: sum(v) > 0),
})


def _norm(v):
    s = math.fsum(v)
    return [x / s for x in v]


def ref_use(u, m):
    t = u["type"]
    if t is None:
        daily = math.fsum(u["peak"]) if u["mag"] is None else u["mag"]
        peak = _norm(u["peak"])
        return [(daily, peak, _norm(u["avg"]) if u["avg"] is not None else peak)]
    if t == "multi_family":
        if m["std"] is None:
            g = [m["gpdpp"]]
        elif m["std"] == "ca":
            tab = ca_table()
            tot = [sum(m["n_br"][b] * tab[f"{b}br"][d] for b in range(6)) for d in range(365)]
            x = p98(tot) / sum(m["n_br"])
            g = sorted({round(x + e, 1) for e in (-1e-9, 0, 1e-9)})
        else:
            g = [STD[m["std"]]]
        dailies = [k * u["mag"] for k in g]
    else:
        dailies = [GPD[t] * u["mag"]]
    peak = u["peak"] if u["peak"] is not None else SHAPES[t]["Stream"]
    avg = u["avg"] if u["avg"] is not None else SHAPES[t]["Stream_Avg"]
    return [(d, peak, avg) for d in dailies]


def compare(b, uses, m):
    alts = [ref_use(u, m) for u in uses]
    # only multi_family 'ca' can have two admissible roundings
    pick = [a[0] for a in alts]
    want = math.fsum(p[0] for p in pick)
    for i, a in enumerate(alts):
        for opt in a[1:]:
            w2 = want - pick[i][0] + opt[0]
            if abs(w2 - b.daily_dhw_use_supplyT_gal) < abs(want - b.daily_dhw_use_supplyT_gal):
                want, pick[i] = w2, opt
    require_close(b.daily_dhw_use_supplyT_gal, want, "daily use", 1e-9, 1e-9)
    peak = [math.fsum(p[0] * p[1][h] for p in pick) / want for h in range(24)]
    avg = [math.fsum(p[0] * p[2][h] for p in pick) / want for h in range(24)]
    require_seq_close(b.peak_load_shape, peak, "peak shape", 1e-8, 1e-9)
    require_seq_close(b.avg_load_shape, avg, "avg shape", 1e-8, 1e-9)


single = st.fixed_dictionaries({"u": use(), "m": mf, "listed": st.booleans()})
@st.composite
def repeated(draw):
    """a longer list of plain uses in which the same type comes back"""
    few = draw(st.lists(st.sampled_from(BUILDING_TYPES), min_size=1, max_size=3))
    return [{"type": draw(st.sampled_from(few)), "mag": draw(st.one_of(st.integers(1, 2000), num(0.5, 2000))),
             "peak": None, "avg": None, "box": "list"} for _ in range(draw(st.integers(2, 8)))]


multi = st.fixed_dictionaries({"uses": st.one_of(st.lists(use(), min_size=2, max_size=5), repeated()), "m": mf,
                               "perm": st.integers(0, 119)})


def build(types, mags, m, peak, avg):
    from ecoengine.objects.building.Building import Building
    return Building.from_building_type(types, mags, None, gpdpp=m["gpdpp"], standard_gpd=m["std"],
                                       n_br=list(m["n_br"]), custom_peak_load_shape=peak,
                                       custom_avg_load_shape=avg)


def _cp(u, k):
    """a fresh copy of the use's shape, as a list, tuple or array"""
    return None if u[k] is None else {"list": list, "tuple": tuple, "array": np.array}[u["box"]](u[k])


def check_single(case):
    u, m = case["u"], case["m"]
    t, mag = u["type"], u["mag"]
    if case["listed"]:
        t, mag = [t], [mag]
    b = build(t, mag, m, _cp(u, "peak"), _cp(u, "avg"))
    compare(b, [u], m)
    require(b.building_type == (u["type"] or "custom"), "building type label %r", b.building_type)
    require(not b.is_annual_load_shape(), "24 h building reported annual")
    return (u["peak"] is not None or m["std"] is not None or u["type"] != "multi_family",
            [str(u["type"]), f"std={m['std']}" if u["type"] == "multi_family" else "-"])


def _multi(uses, m):
    any_p = any(u["peak"] is not None for u in uses)
    any_a = any(u["avg"] is not None for u in uses)
    return build([u["type"] for u in uses], [u["mag"] for u in uses], m,
                 [_cp(u, "peak") for u in uses] if any_p else None,
                 [_cp(u, "avg") for u in uses] if any_a else None)


def check_multi(case):
    uses, m = case["uses"], case["m"]
    b = _multi(uses, m)
    compare(b, uses, m)
    require(b.building_type == "multi_use", "multi-use label %r", b.building_type)
    require_close(math.fsum(b.peak_load_shape), 1.0, "blended peak sum", 1e-6)
    require_close(math.fsum(b.avg_load_shape), 1.0, "blended avg sum", 1e-6)
    # every hour's demand is the sum of the uses' own demands
    subs = []
    for u in uses:
        subs.append(build(u["type"], u["mag"], m, _cp(u, "peak"), _cp(u, "avg")))
    for h in range(24):
        for avg in (False, True):
            require_close(b.get_dhw_load_supplyT_gal(h, 60, avg),
                          math.fsum(s.get_dhw_load_supplyT_gal(h, 60, avg) for s in subs),
                          f"hour {h} demand vs sum of uses", 1e-8, 1e-9)
    # order of the uses is irrelevant
    k = case["perm"] % len(uses)
    b2 = _multi(uses[k:] + uses[:k], m)
    require_close(b2.daily_dhw_use_supplyT_gal, b.daily_dhw_use_supplyT_gal, "order dependence", 1e-9)
    require_seq_close(b2.peak_load_shape, b.peak_load_shape, "order dependence (peak)", 1e-8, 1e-10)
    return True, [f"n={len(uses)}", "with-None" if any(u["type"] is None for u in uses) else "named"]


SUBS = [
    Sub("single", single, check_single, quick=5000, thorough=40000),
    Sub("multi_use", multi, check_multi, quick=1600, thorough=25000),
]
