"""C30: catalogue helpers list exactly the matching models and stations."""
import csv
import os
from collections import Counter

import harness
from hypothesis import strategies as st

from checks import c04, c16
from harness import refmap
from harness.core import Skip, Sub, expect_raises, require, require_close
from harness.gen import num

PROPERTY = "C30"
RULE = ("Cases: every combination of the catalogue filters with generated exclusion lists (members, strangers, duplicates, empty, none); generated zone exclusion lists; every place for "
        "the outdoor air buckets; every model with conditions in and around its rated data, unit counts and derates, and invalid arguments. Oracle: the raw catalogue, lookup and "
        "weather files and the independent performance map. Non-trivial: a filter removes something but not everything / output > 0.")
CL = os.path.join(harness.SRC, "ecoengine", "data", "climate_data")


def stations():
    with open(os.path.join(CL, "WeatherStation_ClimateZone_Lookup.csv"), newline="") as f:
        return [(r[0], int(r[1])) for r in list(csv.reader(f))[1:] if len(r) == 2]


@st.composite
def list_case(draw):
    names = sorted(refmap.registry())
    ex = draw(st.one_of(st.none(), st.just([]), st.lists(st.one_of(st.sampled_from(names), st.sampled_from(names), st.just("MODELS_NoSuch_C_SP")), max_size=12),
                        st.lists(st.sampled_from(names), min_size=30, max_size=90)))
    return {"mp": draw(st.booleans()), "res": draw(st.booleans()), "ex": ex, "sgip": draw(st.booleans()),
            "omit": draw(st.lists(st.sampled_from(["mp", "res", "ex", "sgip"]), max_size=4))}


def check_list(c):
    from ecoengine import get_list_of_models
    names = {"mp": "multi_pass", "res": "include_residential", "ex": "exclude_models", "sgip": "sgip_models_only"}
    default = {"mp": False, "res": True, "ex": None, "sgip": True}
    kw = {names[k]: c[k] for k in names if k not in c["omit"]}
    a = {k: default[k] if k in c["omit"] else c[k] for k in names}
    given = list(c["ex"]) if c["ex"] is not None else None
    got = get_list_of_models(**kw)
    require(c["ex"] == given, "the exclusion list was changed")
    want = []
    for code, m in refmap.registry().items():
        parts = code.split("_")
        if (parts[-1] == "MP") == a["mp"] and (a["res"] or parts[-2] == "C") and code not in (a["ex"] or []) and (not a["sgip"] or m.get("SGIP_avail")):
            want.append((code, m["name"]))
    g = Counter(tuple(x) for x in got)
    w = Counter(want)
    require(g == w, f"{kw}: not listed {sorted((w - g).elements())[:4]}, wrongly listed {sorted((g - w).elements())[:4]}")
    again = get_list_of_models(**kw)
    require([list(x) for x in again] == [list(x) for x in got], "a second query differs")
    return 0 < len(want) < len(refmap.registry())


def each_model():
    return [{"m": m} for m in sorted(refmap.registry())]


def check_usable(c):
    """every catalogue entry is listed by exactly one pass filter and can be built"""
    from ecoengine import get_list_of_models
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from harness.gen import mk_cmap
    n = sum(c["m"] in [x[0] for x in get_list_of_models(multi_pass=p, sgip_models_only=False)] for p in (True, False))
    require(n == 1, f"{c['m']} is listed {n} times")
    cm = mk_cmap({"normal": {"on_f": 0.4, "on_t": 120.0, "off_f": 0.2, "off_t": 140.0, "out_t": 140.0}})
    w = WaterHeater.from_model_name(c["m"], ["normal"] * 24, cm)
    q = w.get_capacity_kbtuh(67.0, 135.0, 60.0)
    require(q > 0, f"{c['m']} delivers {q} kBTU/hr at 67 F")
    expect_raises(lambda: get_cap(dict(model=c["m"] + "x", oat_f=60.0, inlet_water_temp_f=55.0, outlet_water_temp_f=140.0)), (ValueError, KeyError), "unknown model")
    return True


def get_cap(kw):
    from ecoengine import get_hpwh_output_capacity
    return get_hpwh_output_capacity(**kw)


@st.composite
def station_case(draw):
    z = sorted({b for _, b in stations()})
    return {"ex": draw(st.one_of(st.none(), st.just([]), st.lists(st.sampled_from(z), max_size=30), st.lists(st.integers(0, 130), max_size=10)))}


def check_stations(c):
    from ecoengine import get_weather_stations
    given = list(c["ex"]) if c["ex"] is not None else None
    got = get_weather_stations() if c["ex"] is None else get_weather_stations(exclude_zones=c["ex"])
    require(c["ex"] == given, "the exclusion list was changed")
    ex = [96] if c["ex"] is None else c["ex"]
    w = Counter(x for x in stations() if x[1] not in ex)
    g = Counter((a, b) for a, b in got)
    require(g == w, f"excluding {ex}: not listed {sorted((w - g).elements())[:4]}, wrongly listed {sorted((g - w).elements())[:4]}")
    return bool(w) and len(got) < len(stations())


def each_station():
    return [{"s": s, "z": z} for s, z in stations()]


def check_station(c):
    """a listed station and its zone are the same place"""
    from ecoengine import get_oat_buckets
    a = get_oat_buckets(weather_station=c["s"])
    b = get_oat_buckets(zone_id=c["z"])
    require(a == b, f"buckets of {c['s']} and of its zone {c['z']} differ")
    require(sum(a.values()) == 365, f"{sum(a.values())} days in the buckets of {c['s']}")
    want = c04._buckets(c04._oat(c["z"]))
    if want is not None:
        require({float(k): v for k, v in a.items()} == want, f"buckets of {c['s']}: {a}, its weather gives {want}")
    return True


@st.composite
def cap_case(draw):
    c = draw(c16.condition())
    if c["inlet"] is None:
        c["inlet"] = draw(num(35, 80))
    c["derate"] = draw(st.one_of(st.none(), st.just(0.0), st.just(1.0), num(0, 1)))
    c["kw"] = draw(st.sampled_from([None, True, False]))
    c["units"] = draw(st.one_of(st.none(), st.integers(1, 20)))
    return c


def check_cap(c):
    try:
        cap, _, lab = refmap.RefMap(c["model"], 1).query(c["oat"], c["outlet"], c["inlet"])
    except refmap.Near:
        raise Skip
    kw = dict(model=c["model"], oat_f=c["oat"], inlet_water_temp_f=c["inlet"], outlet_water_temp_f=c["outlet"])
    if c["units"] is not None:
        kw["num_heaters"] = c["units"]
    if c["derate"] is not None:
        kw["defrost_derate"] = c["derate"]
    if c["kw"] is not None:
        kw["return_as_kw"] = c["kw"]
    want = cap * (c["units"] or 1) * (1.0 - (c["derate"] or 0.0))
    if c["kw"] is not False:
        want /= 3.41214
    require_close(get_cap(kw), want, f"output of {kw} ({lab})", 3e-6, 1e-6)
    return want > 0, [lab]


@st.composite
def bad_case(draw):
    c = draw(cap_case())
    c["bad"] = draw(st.one_of(st.tuples(st.just("defrost_derate"), st.one_of(num(1.001, 5), num(-5, -0.001))),
                              st.tuples(st.just("num_heaters"), st.one_of(st.integers(-5, 0), num(0.1, 3).filter(lambda v: v != int(v)), st.sampled_from(["2", None, 2.0]))),
                              st.tuples(st.just("model"), st.sampled_from(["", "MODELS_NoSuch", "modeLs_sanco2_c_sp"]))).map(list))
    return c


def check_bad(c):
    kw = dict(model=c["model"], oat_f=c["oat"], inlet_water_temp_f=c["inlet"], outlet_water_temp_f=c["outlet"])
    kw[c["bad"][0]] = c["bad"][1]
    expect_raises(lambda: get_cap(kw), (ValueError, KeyError), f"{c['bad'][0]} = {c['bad'][1]!r}")
    return True


def place_cases():
    return [{"args": a} for a in ({}, {"zip_code": "94105", "zone_id": 3}, {"zip_code": "94105", "weather_station": "OAKLAND"}, {"zone_id": 3, "weather_station": "OAKLAND"},
                                  {"zip_code": 94105, "zone_id": 3, "weather_station": "OAKLAND"}, {"zone_id": 0}, {"zone_id": 97}, {"zone_id": -1}, {"weather_station": "ATLANTIS"},
                                  {"zip_code": "00000"}, {"zip_code": "9410"})]


def check_place(c):
    from ecoengine import get_oat_buckets
    expect_raises(lambda: get_oat_buckets(**c["args"]), (ValueError, KeyError), f"buckets of {c['args']}")
    return True


SUBS = [
    Sub("models", list_case(), check_list, quick=400, thorough=6000, shards=2),
    Sub("entries", None, check_usable, exhaustive=each_model, quick=1, shards=4),
    Sub("stations", station_case(), check_stations, quick=200, thorough=2000, shards=2),
    Sub("station_zone", None, check_station, exhaustive=each_station, quick=1, shards=4),
    Sub("output", cap_case(), check_cap, quick=1200, thorough=30000, shards=8),
    Sub("invalid", bad_case(), check_bad, quick=500, thorough=2000, shards=2),
    Sub("places", None, check_place, exhaustive=place_cases, quick=1, shards=1),
]
