"""C04: climate lookups - every zone, every zip, every station, any instant."""
import csv
import math
import os

from hypothesis import strategies as st

import harness
from harness.core import Sub, require, require_close, expect_raises, Violation
from harness.gen import num
from harness.ref import DAYS, MONTH_OF_HOUR

PROPERTY = "C04"
RULE = ("Cases: every zone id (exhaustive, with random instants in and beyond the year), every row of the zip and "
        "station tables, random unknown identifiers, random design-condition zones, random synthetic hourly/monthly "
        "series.  Oracle: an independent column reader of the shipped tables.  Non-trivial: the instant lies beyond "
        "the first hour / the identifier is not the first row.")

_DIR = os.path.join(harness.SRC, "ecoengine/data/climate_data")
_cache = {}


def _cols(name):
    if name not in _cache:
        with open(os.path.join(_DIR, name), encoding="utf-8-sig", newline="") as f:
            lines = f.read().splitlines()
        ids = [int(float(x)) for x in lines[0].split(",")]
        rows = [ln.split(",") for ln in lines[1:] if ln.strip()]
        _cache[name] = {z: [float(r[k]) for r in rows] for k, z in enumerate(ids)}
    return _cache[name]


def _oat(z):
    return _cols("DryBulbTemperatures_ByClimateZone.csv")[z]


def _inlet(z):
    return _cols("InletWaterTemperatures_ByClimateZone.csv")[z]


def _table(name):
    key = "t" + name
    if key not in _cache:
        with open(os.path.join(_DIR, name), encoding="utf-8-sig", newline="") as f:
            rows = list(csv.reader(f))[1:]
        _cache[key] = [(r[0].strip(), int(r[1])) for r in rows if len(r) >= 2 and r[0].strip()]
    return _cache[key]


def _first(tab):
    d = {}
    for k, z in tab:
        d.setdefault(k, z)
    return d


_zones = {}


def _zone(z):
    from ecoengine.objects.building.ClimateZone import ClimateZone
    if z not in _zones:
        _zones[z] = ClimateZone.from_zone_id(z)
    return _zones[z]


def _hour_month(minute):
    h = (minute // 60) % 8760
    return h, MONTH_OF_HOUR[h]


def _check_instants(cz, oat, inlet, instants):
    for k, iv in instants:
        h, m = _hour_month(k * iv)
        require_close(cz.get_oat_f(k, iv), oat[h], f"outdoor air at step {k} x {iv} min", 0, 1e-12)
        require_close(cz.get_inlet_water_temp_f(k, iv), inlet[m], f"inlet water at step {k} x {iv} min", 0, 1e-12)
    k = instants[0][0]
    h, m = _hour_month(k)
    require_close(cz.get_oat_f(k), oat[h], "outdoor air, default 1-minute step", 0, 1e-12)
    require_close(cz.get_inlet_water_temp_f(k), inlet[m], "inlet water, default step", 0, 1e-12)


def _buckets(oat):
    b = {}
    for d in range(365):
        avg = math.fsum(oat[d * 24:(d + 1) * 24]) / 24.0
        lo = math.floor(avg / 5.0) * 5.0
        if min(avg - lo, lo + 5 - avg) < 1e-9:
            return None
        b[lo] = b.get(lo, 0) + 1
    return b


EDGES = []
_d = 0
for _n in DAYS:
    EDGES += [_d * 24, _d * 24 - 1, _d * 24 + 1, _d * 24 + 23, _d * 24 + 24]
    _d += _n


def all_zones():
    out = []
    for z in sorted(_cols("InletWaterTemperatures_ByClimateZone.csv")):
        out.append({"zone": z})
    return out


def check_zone(case):
    """full year of hours at the month edges + a stride over the year, design values, buckets"""
    z = case["zone"]
    from ecoengine.objects.building.ClimateZone import ClimateZone
    cz = ClimateZone.from_zone_id(z)
    oat, inlet = _oat(z), _inlet(z)
    require(len(oat) == 8760 and len(inlet) == 12, "climate table incomplete")
    require(cz.zone_id == z, "zone id not kept")
    ins = [(h * 6 + (h % 6), 10) for h in range(0, 8760, 7)] + [(h * 60 + 59, 1) for h in EDGES if h >= 0]
    _check_instants(cz, oat, inlet, ins)
    require_close(cz.get_design_oat_f(), min(oat), "design outdoor air", 0, 1e-12)
    require_close(cz.get_design_inlet_water_temp_f(), min(inlet), "design inlet water", 0, 1e-12)
    got = cz.get_oat_buckets()
    require(sum(got.values()) == 365, f"buckets hold {sum(got.values())} days")
    want = _buckets(oat)
    if want is not None:
        require({float(k): v for k, v in got.items()} == want, f"buckets {got} != {want}")
    from ecoengine.interfaces.EcosizerEngine import get_oat_buckets
    require(get_oat_buckets(zone_id=z) == got, "get_oat_buckets(zone_id) differs from the zone's buckets")
    return z > 1


def s_inst():
    return st.lists(st.tuples(st.one_of(st.integers(0, 600000), st.integers(0, 5_000_000),
                                        st.sampled_from(EDGES[1:]).map(lambda h: max(0, h) * 60)),
                              st.sampled_from([1, 1, 2, 5, 10, 15, 30, 60, 7, 45])) | s_edge(),
                    min_size=1, max_size=20)


@st.composite
def s_edge(draw):
    """a step of any length that starts, ends or lies just beside the first minute of a month (of any year)"""
    iv = draw(st.sampled_from([1, 5, 7, 10, 45, 60, 90, 120, 180, 240, 420, 720, 1440]))
    minute = draw(st.sampled_from(EDGES[1:])) * 60 + 525600 * draw(st.integers(0, 2))
    return max(0, minute // iv + draw(st.integers(-1, 1))), iv


case_inst = st.fixed_dictionaries({"zone": st.integers(1, 96), "instants": s_inst()})


def check_inst(case):
    z = case["zone"]
    ins = [tuple(x) for x in case["instants"]]
    _check_instants(_zone(z), _oat(z), _inlet(z), ins)
    return any(k * iv >= 60 for k, iv in ins), ["beyond-year" if any(k * iv >= 525600 for k, iv in ins) else "in-year"]


# synthetic zones through the constructor: any hourly and monthly series
case_syn = st.fixed_dictionaries({
    "seed": st.integers(0, 10 ** 6), "amp": num(0, 60), "base": num(-20, 80),
    "inlet": st.lists(num(33, 90), min_size=12, max_size=12), "instants": s_inst()})


def check_syn(case):
    from ecoengine.objects.building.ClimateZone import ClimateZone
    s = case["seed"]
    oat = [case["base"] + case["amp"] * (((h * 7919 + s * 104729) % 1009) / 1009.0) for h in range(8760)]
    cz = ClimateZone(5, list(oat), list(case["inlet"]))
    _check_instants(cz, oat, case["inlet"], [tuple(x) for x in case["instants"]])
    require_close(cz.get_design_oat_f(), min(oat), "design outdoor air", 0, 1e-12)
    require_close(cz.get_design_inlet_water_temp_f(), min(case["inlet"]), "design inlet", 0, 1e-12)
    want = _buckets(oat)
    got = cz.get_oat_buckets()
    require(sum(got.values()) == 365, "buckets do not sum to 365 days")
    if want is not None:
        require({float(k): v for k, v in got.items()} == want, f"buckets {got} != {want}")
    return case["amp"] > 5


def zip_rows():
    tab = _first(_table("ZipCode_ClimateZone_Lookup.csv"))
    items = list(tab.items())
    return [{"rows": items[i:i + 40]} for i in range(0, len(items), 40)]


def check_zip(case):
    """every zip code resolves to its own zone (zone construction stubbed out by a recording subclass)"""
    from ecoengine.objects.building.ClimateZone import ClimateZone

    class Rec(ClimateZone):
        @classmethod
        def from_zone_id(cls, zone_id):
            return cls(zone_id, None, None)

    for k, (z, zone) in enumerate(case["rows"]):
        forms = [z, int(z), f" {z} "] if k % 8 == 0 else [z]
        for form in forms:
            cz = Rec.from_zip_code(form)
            require(cz.zone_id == zone, f"zip {form!r}: zone {cz.zone_id}, table says {zone}")
    z, zone = case["rows"][0]
    real = ClimateZone.from_zip_code(z)
    _check_instants(real, _oat(zone), _inlet(zone), [(0, 1), (300000, 1), (41000, 10)])
    return True


def station_rows():
    items = list(_first(_table("WeatherStation_ClimateZone_Lookup.csv")).items())
    return [{"rows": items[i:i + 8]} for i in range(0, len(items), 8)]


def check_station(case):
    from ecoengine.objects.building.ClimateZone import ClimateZone
    for k, (s, zone) in enumerate(case["rows"]):
        cz = ClimateZone.from_weather_station(s if k else f" {s} ")
        require(cz.zone_id == zone, f"station {s!r}: zone {cz.zone_id}, table says {zone}")
        require_close(cz.get_design_oat_f(), min(_oat(zone)), f"design outdoor air of {s}", 0, 1e-12)
        require_close(cz.get_inlet_water_temp_f(5000 * 60), _inlet(zone)[6], f"July inlet of {s}", 0, 1e-12)
    return True


@st.composite
def near_zip(draw):
    """a listed zip code with a digit too many or too few, or one digit changed"""
    z = draw(st.sampled_from(sorted(_first(_table("ZipCode_ClimateZone_Lookup.csv")))))
    k = draw(st.integers(0, 4))
    d = str(draw(st.integers(0, 9)))
    return draw(st.sampled_from([z[:k] + z[k + 1:], z + d, d + z, z[:k] + d + z[k + 1:], z[:3], z + "-0001", z + ".0", "0" + z, z[:2] + " " + z[2:]]))


case_bad = st.fixed_dictionaries({
    "zip": st.one_of(st.integers(0, 89999).map(str), st.integers(97000, 999999).map(str), near_zip()),
    "station": st.text(st.characters(codec="ascii", categories=("L", "N", "Zs")), max_size=20),
    "zone": st.one_of(st.integers(-50, 0), st.integers(97, 400))})


def check_bad(case):
    from ecoengine.objects.building.ClimateZone import ClimateZone
    from ecoengine.interfaces.EcosizerEngine import get_oat_buckets
    if case["zip"].strip() not in _first(_table("ZipCode_ClimateZone_Lookup.csv")):
        expect_raises(lambda: ClimateZone.from_zip_code(case["zip"]), (ValueError,), f"unknown zip {case['zip']}")
        expect_raises(lambda: get_oat_buckets(zip_code=case["zip"]), (ValueError,), f"buckets, zip {case['zip']}")
    if case["station"].strip() not in _first(_table("WeatherStation_ClimateZone_Lookup.csv")):
        expect_raises(lambda: ClimateZone.from_weather_station(case["station"]), (ValueError,),
                      f"unknown station {case['station']!r}")
    expect_raises(lambda: ClimateZone.from_zone_id(case["zone"]), (ValueError,), f"zone {case['zone']}")
    expect_raises(lambda: get_oat_buckets(), (ValueError,), "no location")
    expect_raises(lambda: get_oat_buckets(zip_code="90001", zone_id=8), (ValueError,), "two locations")
    return True


case_design = st.fixed_dictionaries({"oat": st.one_of(st.just(0.0), num(-30, 100)), "inlet": num(33, 90),
                                     "k": st.integers(0, 2_000_000),
                                     "iv": st.sampled_from([1, 10, 60])})


def check_design(case):
    from ecoengine.objects.building.ClimateZone import ClimateZone
    from ecoengine.objects.building.Building import Building
    cz = ClimateZone.from_design_conditions(case["oat"], case["inlet"])
    b = Building(cz, 100.0, [1 / 24] * 24, [1 / 24] * 24)
    b2 = Building(None, 100.0, [1 / 24] * 24, [1 / 24] * 24, design_oat_f=case["oat"],
                  design_inlet_water_temp_f=case["inlet"])
    for o in (cz, b, b2):
        require(o.get_oat_f(case["k"], case["iv"]) == case["oat"], "constant outdoor air not constant")
        require(o.get_inlet_water_temp_f(case["k"], case["iv"]) == case["inlet"], "constant inlet not constant")
        require(o.get_design_oat_f() == case["oat"] and o.get_design_inlet_water_temp_f() == case["inlet"],
                "design conditions not kept")
    expect_raises(cz.get_oat_buckets, (ValueError,), "buckets of a design-condition zone")
    bb = Building(_zone(case["k"] % 96 + 1), 100.0, [1 / 24] * 24, [1 / 24] * 24)
    z = case["k"] % 96 + 1
    h, m = _hour_month(case["k"] * case["iv"])
    require_close(bb.get_oat_f(case["k"], case["iv"]), _oat(z)[h], "building outdoor air", 0, 1e-12)
    require_close(bb.get_inlet_water_temp_f(case["k"], case["iv"]), _inlet(z)[m], "building inlet", 0, 1e-12)
    require_close(bb.get_design_oat_f(), min(_oat(z)), "building design oat", 0, 1e-12)
    require_close(bb.get_design_inlet_water_temp_f(), min(_inlet(z)), "building design inlet", 0, 1e-12)
    return case["k"] > 0


SUBS = [
    Sub("every_zone", None, check_zone, exhaustive=all_zones, shards=8),
    Sub("instants", case_inst, check_inst, quick=600, thorough=20000, shards=8),
    Sub("synthetic", case_syn, check_syn, quick=150, thorough=3000),
    Sub("every_zip", None, check_zip, exhaustive=zip_rows, shards=8),
    Sub("every_station", None, check_station, exhaustive=station_rows, shards=8),
    Sub("unknown", case_bad, check_bad, quick=600, thorough=2000),
    Sub("design", case_design, check_design, quick=300, thorough=3000),
]
