"""C03: invalid building descriptions are rejected; accepted ones are well-formed."""
import math

from hypothesis import strategies as st

from harness.core import Sub, require, require_close, expect_raises, Skip
from harness.gen import load_shape, num, BUILDING_TYPES

PROPERTY = "C03"
RULE = ("Cases: a valid building description (single or multi-use, named or custom) with exactly one generated defect "
        "(shape of wrong length / negative hour / wrong sum, non-positive or non-numeric magnitude, unknown type or "
        "standard, bad bedroom list, mismatched multi-use lists, annual shape for a non-residential type) must raise "
        "ValueError; the same description without the defect must build a building whose shapes have 24 non-negative "
        "entries summing to 1.  Non-trivial: every case (each carries a defect or is checked for well-formedness).")


def B():
    from ecoengine.objects.building.Building import Building
    return Building


NAMED = [t for t in BUILDING_TYPES]

bad_shape = st.one_of(
    st.tuples(st.just("length"), st.integers(0, 60).filter(lambda n: n != 24), load_shape()),
    st.tuples(st.just("negative"), st.tuples(st.integers(0, 23), num(0.0005, 0.9)), load_shape()),
    st.tuples(st.just("sum"), st.one_of(num(0.05, 0.998), num(1.002, 30)), load_shape()),
)


def make_bad(b):
    kind, p, shape = b
    if kind == "length":
        n = p
        return [1.0 / n] * n if n else []
    if kind == "negative":
        h, a = p
        s = list(shape)
        j = (h + 1) % 24
        s[j] += s[h] + a          # keeps the sum at 1
        s[h] = -a
        return s
    return [x * p for x in shape]


def _wellformed(b, custom_peak=None):
    for nm in ("peak_load_shape", "avg_load_shape"):
        s = list(getattr(b, nm))
        require(len(s) == 24, "%s has %d entries", nm, len(s))
        require(all(x >= 0 and math.isfinite(x) for x in s), "%s has a negative/NaN hour", nm)
        require_close(math.fsum(s), 1.0, f"sum of {nm}", 1.1e-3)
    require(b.daily_dhw_use_supplyT_gal > 0, "daily use %r", b.daily_dhw_use_supplyT_gal)


named_case = st.fixed_dictionaries({
    "t": st.sampled_from(NAMED), "mag": num(1, 900), "bad": bad_shape, "which": st.sampled_from(["peak", "avg", "both"])})


def check_named_shape(case):
    bad = make_bad(case["bad"])
    kw = {}
    if case["which"] in ("peak", "both"):
        kw["custom_peak_load_shape"] = bad
    if case["which"] in ("avg", "both"):
        kw["custom_avg_load_shape"] = list(bad)
    expect_raises(lambda: B().from_building_type(case["t"], case["mag"], None, **kw), (ValueError,),
                  f"{case['t']} with {case['which']} shape {case['bad'][0]}")
    ok = {k: list(case["bad"][2]) for k in kw}
    _wellformed(B().from_building_type(case["t"], case["mag"], None, **ok))
    return True, [case["bad"][0]]


custom_case = st.fixed_dictionaries({
    "mag": st.one_of(st.none(), num(1, 900)), "bad": bad_shape, "scale": st.one_of(st.just(1.0), num(2, 500)),
    "which": st.sampled_from(["peak", "avg"]), "good": load_shape()})


def check_custom_shape(case):
    """Custom-only buildings may give gallons per hour (any positive total)."""
    kind = case["bad"][0]
    good = [x * case["scale"] for x in case["good"]]
    if kind == "sum":       # not a defect here: normalised
        b = B().from_building_type(None, case["mag"], None, custom_peak_load_shape=make_bad(case["bad"]))
        _wellformed(b)
        return True, ["normalised"]
    bad = [x * case["scale"] for x in make_bad(case["bad"])]
    if case["which"] == "peak":
        f = lambda: B().from_building_type(None, case["mag"], None, custom_peak_load_shape=bad)
    else:
        f = lambda: B().from_building_type(None, case["mag"], None, custom_peak_load_shape=good,
                                           custom_avg_load_shape=bad)
    expect_raises(f, (ValueError,), f"custom building, {case['which']} shape {kind}, x{case['scale']}")
    _wellformed(B().from_building_type(None, case["mag"], None, custom_peak_load_shape=good,
                                       custom_avg_load_shape=list(case["good"])))
    return True, [kind + "/" + case["which"]]


bad_mag = st.one_of(st.just(0), num(-500, 0), st.just("ten"), st.just([]), st.just(None))


mag_case = st.fixed_dictionaries({"t": st.sampled_from(NAMED), "mag": bad_mag, "multi": st.booleans(),
                                  "other": st.sampled_from(NAMED)})


def check_mag(case):
    t, m = case["t"], case["mag"]
    if m == []:
        m = {}
    if case["multi"]:
        expect_raises(lambda: B().from_building_type([case["other"], t], [10, m], None), (ValueError,),
                      f"multi-use with magnitude {m!r}")
    else:
        expect_raises(lambda: B().from_building_type(t, m, None), (ValueError,), f"{t} with magnitude {m!r}")
    return True, [type(m).__name__]


custmag_case = st.fixed_dictionaries({"mag": st.one_of(st.just(0), num(-500, -0.001), st.just(0.0)),
                                      "shape": load_shape()})


def check_custom_mag(case):
    expect_raises(lambda: B().from_building_type(None, case["mag"], None, custom_peak_load_shape=list(case["shape"])),
                  (ValueError,), f"custom building with magnitude {case['mag']!r}")
    expect_raises(lambda: B().from_building_type(None, None, None, custom_peak_load_shape=[0.0] * 24),
                  (ValueError,), "custom building with an all-zero profile")
    expect_raises(lambda: B().from_building_type(None, 10.0, None), (ValueError,), "custom building without a profile")
    return True


name_case = st.fixed_dictionaries({
    "t": st.one_of(st.text(st.characters(codec="ascii", categories=("L", "N")), min_size=0, max_size=14),
                   st.sampled_from(["Multi_Family", "multi family", "hotel", "dorm", "school", "multi_use", "custom",
                                    "apartments", "mens-dorm"])),
    "multi": st.booleans(), "mag": st.integers(1, 50), "odd": st.sampled_from([None, None, None, 7, 3.5, {"multi_family": 1}, True])})


def check_name(case):
    t = case["t"]
    if case["odd"] is not None:
        expect_raises(lambda: B().from_building_type(case["odd"], case["mag"], None), (ValueError,), f"building type {case['odd']!r}")
    if t in NAMED:
        raise Skip()
    if case["multi"]:
        f = lambda: B().from_building_type(["apartment", t], [1, case["mag"]], None)
    else:
        f = lambda: B().from_building_type(t, case["mag"], None)
    expect_raises(f, (ValueError,), f"building type {t!r}")
    return True


std_case = st.fixed_dictionaries({
    "kind": st.sampled_from(["std", "n_br_len", "n_br_zero", "n_br_none", "gpdpp"]),
    "std": st.one_of(st.sampled_from(["CA", "ashlow", "ASHMED", "eco", "low", ""]), st.text(max_size=5),
                     st.integers(0, 5)),
    "n": st.integers(0, 12).filter(lambda n: n != 6), "gpdpp": st.sampled_from([None, "25", "abc"]),
    "mag": st.integers(1, 100)})


def check_std(case):
    k = case["kind"]
    kw = {}
    if k == "std":
        if case["std"] in ("ca", "ashLow", "ashMed", "ecoMark"):
            raise Skip()
        kw = {"standard_gpd": case["std"], "n_br": [1] * 6}
    elif k == "n_br_len":
        kw = {"standard_gpd": "ca", "n_br": [2] * case["n"]}
    elif k == "n_br_zero":
        kw = {"standard_gpd": "ca", "n_br": [0] * 6}
    elif k == "n_br_none":
        kw = {"standard_gpd": "ca"}
    else:
        kw = {"gpdpp": case["gpdpp"]}
    expect_raises(lambda: B().from_building_type("multi_family", case["mag"], None, **kw), (ValueError,), f"{k} {kw}")
    return True, [k]


multi_case = st.fixed_dictionaries({
    "types": st.lists(st.sampled_from(NAMED), min_size=2, max_size=4),
    "kind": st.sampled_from(["scalar_mag", "mag_len", "flat_peak", "flat_avg", "peak_len", "avg_len", "bad_sub"]),
    "d": st.sampled_from([-1, 1, 2]), "shape": load_shape(), "bad": bad_shape, "at": st.integers(0, 3)})


def check_multi(case):
    ts, k = case["types"], case["kind"]
    n = len(ts)
    mags = [10.0 + i for i in range(n)]
    kw = {}
    if k == "scalar_mag":
        mags = 10.0
    elif k == "mag_len":
        mags = [10.0] * max(2 if n != 2 else 3, n + case["d"])
        if len(mags) == n:
            raise Skip()
    elif k == "flat_peak":
        kw["custom_peak_load_shape"] = list(case["shape"])
    elif k == "flat_avg":
        kw["custom_avg_load_shape"] = list(case["shape"])
    elif k in ("peak_len", "avg_len"):
        m = max(0, n + case["d"])
        kw["custom_%s_load_shape" % k[:-4]] = [list(case["shape"])] * m
    else:
        shapes = [None] * n
        shapes[case["at"] % n] = make_bad(case["bad"])
        kw["custom_peak_load_shape"] = shapes
    expect_raises(lambda: B().from_building_type(ts, mags, None, **kw), (ValueError,), f"multi-use {k}")
    return True, [k]


annual_case = st.fixed_dictionaries({"t": st.sampled_from([t for t in NAMED if t != "multi_family"]),
                                     "mag": st.integers(1, 100), "how": st.sampled_from(["arg", "set", "daily", "multi"])})


def check_annual(case):
    t, m = case["t"], case["mag"]
    if case["how"] == "arg":
        expect_raises(lambda: B().from_building_type(t, m, None, annual=True), (ValueError,), f"annual {t}")
    elif case["how"] == "multi":
        b = B().from_building_type(["multi_family", t], [m, m], None)
        expect_raises(b.set_to_annual_load_shape, (ValueError,), "annual multi-use")
        _wellformed(b)
    else:
        b = B().from_building_type(t, m, None)
        before = list(b.peak_load_shape)
        f = b.set_to_annual_load_shape if case["how"] == "set" else b.set_to_daily_load_shape
        expect_raises(f, (ValueError,), f"{case['how']} annual/daily switch on {t}")
        require(list(b.peak_load_shape) == before, "a rejected switch changed the profile")
    return True, [case["how"]]


SUBS = [
    Sub("named_shape", named_case, check_named_shape, quick=1500, thorough=20000),
    Sub("custom_shape", custom_case, check_custom_shape, quick=1500, thorough=20000),
    Sub("magnitude", mag_case, check_mag, quick=400, thorough=4000),
    Sub("custom_magnitude", custmag_case, check_custom_mag, quick=300, thorough=3000),
    Sub("names", name_case, check_name, quick=600, thorough=6000),
    Sub("standards", std_case, check_std, quick=600, thorough=6000),
    Sub("multi_use", multi_case, check_multi, quick=800, thorough=8000),
    Sub("annual", annual_case, check_annual, quick=200, thorough=2000),
]
