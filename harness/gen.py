"""Shared hypothesis strategies.  Everything generated is plain JSON data."""
from __future__ import annotations

import harness  # noqa: F401
from hypothesis import strategies as st

BUILDING_TYPES = ['multi_family', 'apartment', 'motel', 'office_building', 'mens_dorm',
                  'womens_dorm', 'nursing_home', 'food_service_a', 'food_service_b',
                  'elementary_school', 'junior_high', 'senior_high']


def num(lo, hi, nd=3):
    """Numbers in [lo, hi]: round values as users type them, and arbitrary floats."""
    lo, hi = float(lo), float(hi)
    scale = 10 ** nd
    a, b = -(-lo * scale // 1), hi * scale // 1
    if a > b:
        return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)
    return st.one_of(
        st.integers(int(a), int(b)).map(lambda k: k / scale),
        st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False),
    )


def _normalise(w):
    s = float(sum(w))
    return [x / s for x in w]


def load_shape(min_zero=0):
    """24 non-negative fractions summing to 1: smooth, spiky, sparse, flat."""
    general = st.lists(st.integers(0, 60), min_size=24, max_size=24).filter(lambda w: sum(w) > 0)
    spiky = st.tuples(
        st.lists(st.integers(1, 6), min_size=24, max_size=24),
        st.lists(st.tuples(st.integers(0, 23), st.integers(5, 60)), min_size=1, max_size=4),
    ).map(lambda t: [b + sum(a for h, a in t[1] if h == i) for i, b in enumerate(t[0])])
    sparse = st.lists(st.tuples(st.integers(0, 23), st.integers(1, 20)), min_size=2, max_size=8,
                      ).map(lambda ps: [sum(a for h, a in ps if h == i) for i in range(24)])
    floaty = st.lists(st.floats(0.001, 1.0), min_size=24, max_size=24)
    return st.one_of(spiky, general, sparse, floaty).map(_normalise)


def smooth_shape():
    """Shapes without an extreme hour (max hour <= ~20 %)."""
    return st.lists(st.integers(4, 20), min_size=24, max_size=24).map(_normalise)


def peaky_shape():
    """Realistic days: a low base with a morning and an evening peak (max hour 8..20 %)."""
    return st.tuples(
        st.lists(st.integers(2, 8), min_size=24, max_size=24),
        st.lists(st.tuples(st.integers(0, 23), st.integers(1, 4), st.integers(12, 30)), min_size=1, max_size=3),
    ).map(lambda t: _normalise([b + sum(a for h, n, a in t[1] if (i - h) % 24 < n) for i, b in enumerate(t[0])]))


def temps(min_inlet=35.0, max_inlet=75.0):
    """(inlet, supply, storage) with inlet < supply < storage."""
    return st.tuples(num(min_inlet, max_inlet), num(105, 135), num(3, 45)).map(
        lambda t: {"inlet": t[0], "supply": t[1], "storage": t[1] + t[2]})


@st.composite
def control(draw, supply, storage, on_lo=0.05, on_hi=0.8, off_is_below=True):
    on_f = draw(num(on_lo, on_hi))
    off_f = draw(num(0.0, on_f if off_is_below else 1.0))
    on_t = draw(st.one_of(st.just(supply), num(supply - 8, min(storage, supply + 8))))
    off_t = draw(st.one_of(st.just(storage), num(max(on_t, supply), storage)))
    return {"on_f": on_f, "on_t": on_t, "off_f": off_f, "off_t": off_t, "out_t": storage}


def mk_controls(c):
    from ecoengine.objects.components.heating.Controls import Controls
    return Controls(on_sensor_fract=c["on_f"], on_trigger_t_f=c["on_t"],
                    off_sensor_fract=c["off_f"], off_trigger_t_f=c["off_t"],
                    outlet_temp_f=c["out_t"])


def mk_cmap(cm):
    """the control map, listed in an arbitrary (but reproducible) order: no result may depend on it"""
    order = sorted(cm, key=lambda k: int(round(cm[k]["on_f"] * 1e4)) * 7919 % 13)
    return {k: mk_controls(cm[k]) for k in order}


def mk_building(case, annual=False):
    """case: daily, peak, avg, inlet, oat(optional)"""
    from ecoengine.objects.building.Building import Building
    return Building(climate_zone=None, daily_dhw_use_supplyT_gal=case["daily"],
                    peak_load_shape=list(case["peak"]), avg_load_shape=list(case.get("avg", case["peak"])),
                    design_oat_f=case.get("oat", 50.0), design_inlet_water_temp_f=case["inlet"])
