"""C01: demand series conserves daily use at every interval, offset and wrap."""
import math
from fractions import Fraction

from hypothesis import strategies as st

from harness.core import Sub, require, require_close
from harness.gen import load_shape, num, mk_building

PROPERTY = "C01"
RULE = ("Cases: random daily volume, 24-hour peak and average shapes (spiky, sparse, flat, general), "
        "timestep interval (any 1..180 min), start offset up to several years; annual 8760 h shapes through "
        "multi_family buildings.  Non-trivial: the shape has at least two different hour fractions and the "
        "checked window spans at least one wrap of the profile or >= 2 hours.")

DIVISORS = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60]


def _expected(daily, shape, minute, interval):
    """water used in [minute, minute+interval) at the rate of the hour the step starts in"""
    h = (minute // 60) % len(shape)
    return daily * shape[h] * interval / 60.0


case_daily = st.fixed_dictionaries({
    "daily": num(1, 50000), "peak": load_shape(), "avg": load_shape(), "inlet": st.just(50.0),
    "interval": st.one_of(st.sampled_from(DIVISORS), st.integers(1, 60), st.sampled_from([90, 120, 180])),
    "start": st.one_of(st.integers(0, 3000), st.integers(0, 3_000_000)),
    "use_avg": st.booleans(),
})


def check_steps(case):
    b = mk_building(case)
    shape = case["avg"] if case["use_avg"] else case["peak"]
    iv, s0 = case["interval"], case["start"]
    n = min(4000, max(40, 1440 // iv + 3))
    for k in range(s0, s0 + n, 1 if n < 400 else 7):
        got = b.get_dhw_load_supplyT_gal(k, iv, use_avg=case["use_avg"])
        require_close(got, _expected(case["daily"], shape, k * iv, iv),
                      f"demand at step {k} x {iv} min", 1e-9, 1e-12)
        require(got >= 0, "negative demand")
    return len(set(shape)) > 1, ["avg" if case["use_avg"] else "peak",
                                 "divides60" if 60 % iv == 0 else "odd"]


def check_day_sum(case):
    """For intervals that divide an hour every full day sums to the daily use."""
    b = mk_building(case)
    iv = case["interval"] if 60 % case["interval"] == 0 else DIVISORS[case["interval"] % len(DIVISORS)]
    steps = 1440 // iv
    day = case["start"] % 1500
    tot = math.fsum(b.get_dhw_load_supplyT_gal(k, iv, use_avg=case["use_avg"])
                    for k in range(day * steps, (day + 1) * steps))
    require_close(tot, case["daily"], f"total of day {day} at {iv} min steps", 1e-8, 1e-9)
    # same volume from one-minute and from iv-minute steps, hour by hour
    h = case["start"] % 5000
    fine = math.fsum(b.get_dhw_load_supplyT_gal(m, 1, case["use_avg"]) for m in range(h * 60, h * 60 + 60))
    coarse = math.fsum(b.get_dhw_load_supplyT_gal(k, iv, case["use_avg"])
                       for k in range(h * 60 // iv, (h * 60 + 60) // iv))
    require_close(coarse, fine, f"hour {h}: {iv}-min vs 1-min", 1e-8, 1e-9)
    # defaults: one-minute steps on the design (peak) profile
    m = case["start"] % 9000
    require_close(b.get_dhw_load_supplyT_gal(m), _expected(case["daily"], case["peak"], m, 1),
                  "defaults", 1e-9, 1e-12)
    return len(set(case["peak"])) > 1


case_annual = st.fixed_dictionaries({
    "people": num(1, 3000), "gpdpp": num(5, 60), "interval": st.sampled_from(DIVISORS),
    "hours": st.lists(st.integers(0, 20000), min_size=1, max_size=25), "day": st.integers(0, 800),
    "how": st.sampled_from(["arg", "set"]),
})

_ANNUAL = None


def _annual():
    global _ANNUAL
    if _ANNUAL is None:
        import json, os, harness
        with open(os.path.join(harness.SRC, "ecoengine/data/load_shapes/multi_family.json")) as f:
            _ANNUAL = json.load(f)["loadshapes"]["Annual_Normalized"]
    return _ANNUAL


def check_annual(case):
    from ecoengine.objects.building.Building import Building
    kw = dict(gpdpp=case["gpdpp"])
    if case["how"] == "arg":
        b = Building.from_building_type("multi_family", case["people"], None, annual=True, **kw)
    else:
        b = Building.from_building_type("multi_family", case["people"], None, **kw)
        require(not b.is_annual_load_shape(), "fresh building reports an annual shape")
        b.set_to_annual_load_shape()
    require(b.is_annual_load_shape(), "annual building not reported as annual")
    shape, daily, iv = _annual(), case["people"] * case["gpdpp"], case["interval"]
    for h in case["hours"]:
        for use_avg in (False, True):
            for k in (h * 60 // iv, (h * 60 + 59) // iv):
                require_close(b.get_dhw_load_supplyT_gal(k, iv, use_avg), _expected(daily, shape, k * iv, iv),
                              f"annual demand hour {h}", 1e-9, 1e-12)
    d = case["day"]
    steps = 1440 // iv
    tot = math.fsum(b.get_dhw_load_supplyT_gal(k, iv) for k in range(d * steps, (d + 1) * steps))
    want = daily * math.fsum(shape[(d * 24 + i) % 8760] for i in range(24))
    require_close(tot, want, f"day {d} of the annual profile", 1e-8, 1e-9)
    b.set_to_daily_load_shape()
    tot = math.fsum(b.get_dhw_load_supplyT_gal(k, iv) for k in range(steps))
    require_close(tot, daily, "day total after return to the daily profile", 1e-6)
    return any(h >= 24 for h in case["hours"]), ["wraps" if any(h >= 8760 for h in case["hours"]) else "in-year"]


SUBS = [
    Sub("steps", case_daily, check_steps, quick=3000, thorough=60000),
    Sub("day_sum", case_daily, check_day_sum, quick=2500, thorough=50000),
    Sub("annual", case_annual, check_annual, quick=1000, thorough=15000),
]
