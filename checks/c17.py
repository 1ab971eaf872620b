"""C17: utility rates apply to the right hour and survive a CSV round trip."""
import csv
import io
import os
import tempfile

from hypothesis import strategies as st

from harness.core import Sub, expect_raises, require, require_close
from harness.gen import num
from harness.ref import MONTH_OF_HOUR

PROPERTY = "C17"
RULE = ("Cases: tariffs as the user gives them (1-5 seasons partitioning the year, scalars or lists, peak windows, optional discount windows "
        "that may wrap midnight, peak overlapping discount), hourly CSV tariffs with arbitrary period labels, rates that vary within a period "
        "and blank cells, and single-fault mutations of both. Oracle: reference tariff evaluated at every hour of the year and at random "
        "steps of 1-180 min timesteps, hour boundaries among them; write/read round trip. Non-trivial: at least two different rates or periods occur.")
money = num(0, 40, 4)
TS = st.one_of(st.sampled_from([1, 2, 5, 6, 10, 15, 20, 30, 60]), st.integers(1, 180))      # minutes per step, divisors of the hour and others


@st.composite
def tariff(draw):
    n = draw(st.integers(1, 5))
    cuts = sorted(draw(st.lists(st.integers(1, 11), min_size=n - 1, max_size=n - 1, unique=True)))
    b = [0] + cuts + [12]
    disc = draw(st.booleans())
    c = {"base": draw(st.one_of(num(0, 300), num(300, 9000), num(-60, 0))), "disc": disc, "seasons": [], "scalar": draw(st.booleans())}
    hour = lambda lo, hi: st.one_of(st.integers(lo, hi), st.integers(lo * 2, hi * 2).map(lambda k: k / 2))  # noqa: E731
    for a, e in zip(b, b[1:]):
        s = draw(hour(0, 23))
        s = min(s, 23)
        t = draw(hour(int(s), 24))
        t = min(24, max(s, t))
        c["seasons"].append({"sm": a, "em": e, "ps": s, "pe": t, "pd": draw(money), "pE": draw(money), "od": draw(money),
                             "oE": draw(money), "ds": draw(st.integers(0, 23)), "de": draw(st.integers(0, 24)),
                             "dd": draw(money), "dE": draw(money)})
    c["steps"] = [[draw(TS), draw(num(0, 0.999999, 6))] for _ in range(8)]
    return c


def build(c, **over):
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    S = c["seasons"]
    col = lambda k: [s[k] for s in S]  # noqa: E731
    kw = dict(monthly_base_charge=c["base"], pk_start_hour=col("ps"), pk_end_hour=col("pe"), pk_demand_charge=col("pd"),
              pk_energy_charge=col("pE"), off_pk_demand_charge=col("od"), off_pk_energy_charge=col("oE"), start_month=col("sm"),
              end_month=col("em"))
    if c["disc"]:
        kw.update(include_discount=True, dscnt_start_hour=col("ds"), dscnt_end_hour=col("de"), discnt_demand_charge=col("dd"),
                  discnt_energy_charge=col("dE"))
        if c["scalar"] and len(S) > 1 and len({(s["ds"], s["de"]) for s in S}) == 1:
            kw["dscnt_start_hour"], kw["dscnt_end_hour"] = S[0]["ds"], S[0]["de"]
    if c["scalar"] and len(S) == 1:
        kw = {k: (v[0] if isinstance(v, list) else v) for k, v in kw.items()}
        if not c["disc"]:
            kw.pop("start_month"), kw.pop("end_month")
    kw.update(over)
    return UtilityCostTracker.from_params(**kw)


def ref_hour(c, h):
    """(kind, energy $/kWh, demand $/kW, month)"""
    m, d = MONTH_OF_HOUR[h], h % 24
    s = next(s for s in c["seasons"] if s["sm"] <= m < s["em"])
    if s["ps"] <= d < s["pe"]:
        return "peak", s["pE"], s["pd"], m
    if c["disc"]:
        inside = (s["ds"] <= d < s["de"]) if s["de"] >= s["ds"] else (d >= s["ds"] or d < s["de"])
        if inside:
            return "disc", s["dE"], s["dd"], m
    return "off", s["oE"], s["od"], m


def at(x, ts):
    """A step of a ts-minute simulation: anywhere in the year, or (when the fraction's last digit is even) the first at or after a full hour."""
    if int(x * 1e6) % 2:
        return int(x * 8760 * 60 / ts)
    i = -(-int(x * 8760) * 60 // ts)
    return i if i * ts < 525600 else int(x * 8760 * 60 / ts)


def same_tariff(u, c, what):
    labels = {}
    for h in range(8760):
        kind, e, d, m = ref_hour(c, h)
        p = u.get_demand_period_at_step(h, 60)
        require_close(u.get_energy_charge_at_step(h, 60), e, f"{what}: energy rate of hour {h}", 1e-12, 1e-12)
        k = labels.setdefault(p, (kind, m))
        require(k == (kind, m), "%s: hours of %s and %s share demand period %s", what, k, (kind, m), p)
        if h % 24 == 0 or k is None:
            pass
    require(len(set(labels.values())) == len(labels), "%s: one month and window split over several periods: %s", what, labels)
    return labels


def check_params(c):
    u = build(c)
    labels = same_tariff(u, c, "tariff")
    for p, (kind, m) in labels.items():
        s = next(s for s in c["seasons"] if s["sm"] <= m < s["em"])
        rate = {"peak": s["pd"], "off": s["od"], "disc": s["dd"]}[kind]
        require_close(u.get_demand_charge_for_period(p, 1.0), rate, f"demand rate of {kind} in month {m}", 1e-12, 1e-12)
        require_close(u.get_demand_charge_for_period(p, 7.5), 7.5 * rate, f"demand charge of {kind} in month {m}", 1e-12, 1e-12)
        require(u.is_peak_map[p] == (kind == "peak"), "peak flag of %s in month %s", kind, m)
        require(u.is_discount_map[p] == (kind == "disc"), "discount flag of %s in month %s", kind, m)
    keys = u.get_all_demand_period_keys()
    require(set(labels) <= set(keys) and len(set(keys)) == len(keys), "period keys %s miss %s", keys, sorted(labels))
    expect_raises(lambda: u.get_demand_charge_for_period(10 ** 6, 1.0), (ValueError,), "undefined demand period")
    require_close(u.get_yearly_base_charge(), 12 * c["base"], "yearly base charge", 1e-12, 1e-12)
    for ts, x in c["steps"]:
        i = at(x, ts)
        h = i * ts // 60
        require_close(u.get_energy_charge_at_step(i, ts), ref_hour(c, h)[1], f"energy rate of step {i} of {ts} min", 1e-12, 1e-12)
        require(u.get_demand_period_at_step(i, ts) == u.get_demand_period_at_step(h, 60), "demand period of step %d of %d min", i, ts)
    return len({ref_hour(c, h)[0] for h in range(24)}) > 1 or len(c["seasons"]) > 1


def check_roundtrip(c):
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    u = build(c)
    d = tempfile.mkdtemp(prefix="c17_")
    path = os.path.join(d, "t.csv")
    try:
        u.to_csv(path)
        v = UtilityCostTracker.from_csv(path)
        with open(path, newline="") as f:
            w = UtilityCostTracker.from_csv(csv_file=f)
        with open(path, newline="") as f:
            rows = list(csv.reader(f))
    finally:
        if os.path.exists(path):
            os.remove(path)
        os.rmdir(d)
    require(len(rows) == 8761, "%d rows written", len(rows))
    names = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
    import datetime
    for k, _ in enumerate(c["steps"]):
        h = int(c["steps"][k][1] * 8760)
        t = datetime.datetime(2023, 1, 1) + datetime.timedelta(hours=h)
        require(rows[h + 1][0] == f"{names[t.month - 1]} {t.day}, {t.hour:02d}:00", "row of hour %d dated %r", h, rows[h + 1][0])
    for x in (v, w):
        labels = same_tariff(x, c, "tariff read back")
        for p, (kind, m) in labels.items():
            require(u.get_demand_charge_for_period(p, 3.0) == x.get_demand_charge_for_period(p, 3.0), "demand rate of period %s read back", p)
        require_close(x.get_yearly_base_charge(), 12 * c["base"], "base charge read back", 1e-12, 1e-12)
        if not c["disc"]:
            require(all(x.is_peak_map[p] == u.is_peak_map[p] for p in labels), "peak flags read back")
    return len({ref_hour(c, h)[1] for h in range(0, 8760)}) > 1


# ------------------------------------------------------------------ hourly CSV tariffs
@st.composite
def hourly(draw):
    labs = draw(st.lists(st.integers(0, 99), min_size=1, max_size=7, unique=True))
    day = [draw(st.sampled_from(labs)) for _ in range(24)]
    other = [draw(st.sampled_from(labs)) for _ in range(24)]
    return {"base": draw(num(-40, 200)), "labs": labs, "day": day, "other": other, "from": draw(st.integers(0, 364)), "to": draw(st.integers(0, 364)),
            "rate": [draw(money) for _ in range(24)], "vary": draw(st.booleans()), "bump": draw(money),
            "special": draw(st.lists(st.tuples(st.integers(0, 8759), money).map(list), max_size=5)),
            "demand": {str(k): draw(money) for k in labs}, "blank": draw(st.booleans()), "perm": draw(st.permutations(range(5))),
            "steps": [[draw(TS), draw(num(0, 0.999999, 6))] for _ in range(6)]}


def hour_rows(c):
    """(period, energy, demand) for every hour"""
    sp = {h: r for h, r in c["special"]}
    out = []
    perrate = {k: c["rate"][i] for i, k in enumerate(c["labs"])}
    for h in range(8760):
        d = h // 24
        p = (c["other"] if c["from"] <= d <= c["to"] else c["day"])[h % 24]
        e = (c["rate"][h % 24] + (c["bump"] if d % 7 == 3 else 0.0)) if c["vary"] else perrate[p]
        out.append((p, sp.get(h, e), c["demand"][str(p)]))
    return out


COLS = ["Date", "Demand Period", "Energy Rate ($/kWh)", "Demand Rate ($/kW)", "Monthly Base Charge"]


def to_text(c, rows, edit=None):
    head = [COLS[i] for i in c["perm"]]
    data, first, seen_d = [], {}, set()
    for h, (p, e, d) in enumerate(rows):
        rec = {"Date": f"h{h}", "Demand Period": p, "Energy Rate ($/kWh)": repr(float(e)), "Demand Rate ($/kW)": repr(float(d)),
               "Monthly Base Charge": repr(float(c["base"])) if h == 0 else ""}
        if c["blank"]:
            if p in first and first[p] == e:
                rec["Energy Rate ($/kWh)"] = ""
            if p in seen_d:
                rec["Demand Rate ($/kW)"] = ""
        first.setdefault(p, e)
        seen_d.add(p)
        data.append([rec[k] for k in head])
    if edit:
        head, data = edit(head, data)
    f = io.StringIO()
    w = csv.writer(f)
    w.writerow(head)
    w.writerows(data)
    return f.getvalue()


def check_hourly(c):
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    rows = hour_rows(c)
    u = UtilityCostTracker.from_csv(csv_file=io.StringIO(to_text(c, rows)))

    def same(x, what):
        for h, (p, e, d) in enumerate(rows):
            require(x.get_demand_period_at_step(h, 60) == p, "%s: period of hour %d", what, h)
            if x.get_energy_charge_at_step(h, 60) != e:
                require_close(x.get_energy_charge_at_step(h, 60), e, f"{what}: energy rate of hour {h}", 1e-12, 1e-12)
        for p, d in {p: d for p, _, d in rows}.items():
            require_close(x.get_demand_charge_for_period(p, 2.0), 2 * d, f"{what}: demand rate of period {p}", 1e-12, 1e-12)
        require(sorted(x.get_all_demand_period_keys()) == sorted({p for p, _, _ in rows}), "%s: period keys", what)
        require_close(x.get_yearly_base_charge(), 12 * c["base"], f"{what}: base charge", 1e-12, 1e-12)
        for ts, y in c["steps"]:
            i = at(y, ts)
            h = i * ts // 60
            require(x.get_demand_period_at_step(i, ts) == rows[h][0], "%s: period of step %d of %d min", what, i, ts)
            require_close(x.get_energy_charge_at_step(i, ts), rows[h][1], f"{what}: rate of step {i} of {ts} min", 1e-12, 1e-12)
    same(u, "csv")
    d = tempfile.mkdtemp(prefix="c17_")
    path = os.path.join(d, "t.csv")
    try:
        u.to_csv(path)
        v = UtilityCostTracker.from_csv(path)
    finally:
        if os.path.exists(path):
            os.remove(path)
        os.rmdir(d)
    same(v, "csv written and read back")
    return len({r[1] for r in rows}) > 1


# ------------------------------------------------------------------ rejection
FIELD = {"ps": "pk_start_hour", "pe": "pk_end_hour", "pd": "pk_demand_charge", "pE": "pk_energy_charge", "od": "off_pk_demand_charge",
         "oE": "off_pk_energy_charge", "sm": "start_month", "em": "end_month"}


@st.composite
def bad_params(draw):
    c = draw(tariff())
    return {"c": c, "i": draw(st.integers(0, len(c["seasons"]) - 1))}


def check_bad_params(x):
    """every kind of fault, planted into one generated tariff"""
    c, i = x["c"], x["i"]
    c["scalar"] = False
    S = c["seasons"]
    n = len(S)
    col = lambda k: [s[k] for s in S]  # noqa: E731

    def mod(k, v, j=i):
        o = col(k)
        o[j] = v
        return {FIELD[k]: o}
    build(c)                                     # the unmutated tariff is accepted
    faults = {
        "base_none": dict(monthly_base_charge=None), "base_str": dict(monthly_base_charge="12"),
        "ps_neg": mod("ps", -1), "ps_big": {**mod("ps", 24), **mod("pe", 24)},
        "pe_before": {**mod("ps", 12), **mod("pe", 11)}, "pe_big": mod("pe", 25),
        "first_month": mod("sm", 1, 0), "empty_season": mod("em", S[i]["sm"]),
        "short_year": mod("em", 11, n - 1), "long_year": mod("em", 13, n - 1),
    }
    for k in FIELD:
        faults[k + "_none"] = mod(k, None)
        faults[k + "_str"] = mod(k, "3")
        faults[k + "_longer"] = {FIELD[k]: col(k) + [col(k)[-1]]}
        if n > 1:
            faults[k + "_shorter"] = {FIELD[k]: col(k)[:-1]}
    if n > 1:
        j = max(1, i)
        faults["gap"] = mod("sm", S[j]["sm"] + 1, j)
        faults["overlap"] = mod("sm", S[j]["sm"] - 1, j)
    for f, over in faults.items():
        expect_raises(lambda: build(c, **over), (ValueError,), f"tariff with fault {f}")
    return True, (f"{n} season(s)",)


BAD_CSV = ["missing_col", "short", "long", "period_text", "energy_text", "demand_text", "base_text", "no_energy"]


@st.composite
def bad_csv(draw):
    return {"c": draw(hourly()), "col": draw(st.integers(1, 4)), "row": draw(st.integers(0, 8759))}


def check_bad_csv(x):
    """every kind of fault, planted into one generated table"""
    for f in BAD_CSV:
        _bad_csv(x, f)
    return True


def _bad_csv(x, f):
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    c = x["c"]
    rows = hour_rows(c)

    def edit(head, data):
        j = {"period_text": 1, "energy_text": 2, "demand_text": 3, "base_text": 4, "no_energy": 2}.get(f)
        if f == "missing_col":
            k = head.index(COLS[x["col"]])
            return head[:k] + head[k + 1:], [r[:k] + r[k + 1:] for r in data]
        if f == "short":
            return head, data[:-1]
        if f == "long":
            return head, data + [data[-1]]
        k = head.index(COLS[j])
        r = 0 if f in ("demand_text", "base_text", "no_energy") else x["row"]
        data[r][k] = "" if f == "no_energy" else "abc"
        return head, data
    expect_raises(lambda: UtilityCostTracker.from_csv(csv_file=io.StringIO(to_text(c, rows, edit))), (ValueError,), f"csv with fault {f}")
    if f == "short":
        expect_raises(lambda: UtilityCostTracker.from_csv(), (ValueError,), "no csv at all")


SUBS = [
    Sub("params", tariff(), check_params, quick=640, thorough=5000, shards=8),
    Sub("roundtrip", tariff(), check_roundtrip, quick=240, thorough=2500, shards=8),
    Sub("hourly", hourly(), check_hourly, quick=240, thorough=2500, shards=8),
    Sub("bad-params", bad_params(), check_bad_params, quick=160, thorough=2000, shards=8),
    Sub("bad-csv", bad_csv(), check_bad_csv, quick=40, thorough=400, shards=8),
]
