"""C18: bills and energy totals account for every kWh once."""
import io

from hypothesis import strategies as st

from checks import c17
from harness.core import Sub, require, require_close, require_seq_close
from harness.gen import num
from harness.ref import MONTH_OF_HOUR

PROPERTY = "C18"
RULE = ("Cases: simulation records (annual at 60, 10 or another step down to odd ones, 3-day at 1 min and other spans, complete or stopped early) with repeating day patterns, seasonal "
        "scaling, spikes at chosen steps, missing (None) powers, with and without temperature-maintenance power, billed with generated seasonal "
        "tariffs (with discounts) and hourly CSV tariffs. Oracle: independent billing of the record. Non-trivial: some energy and a tariff with "
        "at least two rates.")


@st.composite
def record(draw, annual_only=False):
    kind = draw(st.sampled_from(["annual60"] * 4 + ["annual10", "annual", "annual"] + ([] if annual_only else ["3day", "days"])))
    ts, dur = {"annual60": (60, 525600), "annual10": (10, 525600), "3day": (1, 4320), "annual": (0, 525600), "days": (0, 0)}[kind]
    if kind == "annual":                              # any other step, also ones that divide neither the hour nor the day
        ts = draw(st.sampled_from([15, 30, 120, 240, 25, 45, 90, 50, 77, 360, 1440]))
    if kind == "days":
        ts, dur = draw(st.sampled_from([1, 5, 7, 15, 60])), 1440 * draw(st.integers(1, 60))
    n = dur // ts
    kw = st.one_of(num(0, 60), num(0, 60), num(60, 4000), st.none(), st.just(0.0))
    pat = draw(st.lists(kw, min_size=3, max_size=30))
    tm = draw(st.one_of(st.none(), st.lists(kw, min_size=1, max_size=11)))
    if tm is not None and draw(st.integers(0, 4)) == 0:      # a primary plant whose power is never known
        pat = [None] * 3
    return {"kind": kind, "ts": ts, "dur": dur, "n": draw(st.one_of(st.just(n), st.just(n), st.integers(1, n))), "pat": pat, "tm": tm,
            "season": draw(st.lists(num(0.5, 2), min_size=12, max_size=12)),
            "spikes": draw(st.lists(st.tuples(num(0, 0.999999, 6), num(60, 200), st.booleans()).map(list), max_size=6))}


def powers(r):
    """(primary, tm or None) per step"""
    P, T = r["pat"], r["tm"]
    prim, tm = [], ([] if T else None)
    for i in range(r["n"]):
        s = r["season"][MONTH_OF_HOUR[i * r["ts"] // 60]]
        p = P[(i * 7 // 3) % len(P)]
        prim.append(None if p is None else p * s)
        if T:
            t = T[(i // 5) % len(T)]
            tm.append(t)
    for x, v, is_tm in r["spikes"]:
        i = int(x * r["n"])
        if is_tm and tm is not None:
            tm[i] = v
        else:
            prim[i] = v
    return prim, tm


def make(r):
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    run = SimulationRun(r["dur"], r["ts"])
    prim, tm = powers(r)
    for i, p in enumerate(prim):
        kw = {} if tm is None else dict(tm_tank_temp_f=121.0, tm_heater_output_kbtuh=(tm[i] or 0.0) * 3.412142, tm_heater_input_kw=tm[i])
        run.record_timestep(1.0, 50.0, (p or 0.0) * 8.0, p, 50.0, 55.0, [60.0] * 6, **kw)
    tot = [(p or 0.0) + ((tm[i] or 0.0) if tm is not None else 0.0) for i, p in enumerate(prim)]
    return run, tot


@st.composite
def case(draw):
    csv = draw(st.integers(0, 3)) == 0
    return {"rec": draw(record()), "csv": csv, "tariff": draw(c17.hourly()) if csv else draw(c17.tariff())}


def tariff_of(c):
    """(tracker, per-hour (period, energy, is_peak), demand rate by period)"""
    if c["csv"]:
        from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
        rows = c17.hour_rows(c["tariff"])
        u = UtilityCostTracker.from_csv(csv_file=io.StringIO(c17.to_text(c["tariff"], rows)))
        return u, [(p, e, p % 2 == 1) for p, e, _ in rows], {p: d for p, _, d in rows}
    u = c17.build(c["tariff"])
    per, dem = [], {}
    for h in range(8760):
        kind, e, d, m = c17.ref_hour(c["tariff"], h)
        per.append(((m, kind), e, kind == "peak"))
        dem[(m, kind)] = d
    return u, per, dem


def bill(r, tot, per, dem):
    hrs = r["ts"] / 60.0
    e_pk, e_off = [0.0] * 12, [0.0] * 12
    mx = {}
    for i, kw in enumerate(tot):
        h = i * r["ts"] // 60
        m = MONTH_OF_HOUR[h]
        p, e, pk = per[h]
        (e_pk if pk else e_off)[m] += kw * hrs * e
        mx.setdefault(p, {})
        mx[p][m] = max(mx[p].get(m, 0.0), kw)
    return e_pk, e_off, {p: (dem[p] * max(v.values()), [m for m, k in v.items() if k == max(v.values())]) for p, v in mx.items()}


def check(c):
    r = c["rec"]
    run, tot = make(r)
    u, per, dem = tariff_of(c)
    hrs = r["ts"] / 60.0
    kwh = sum(tot) * hrs
    require_close(run.get_total_energy_kwh(), kwh, "total energy", 1e-9, 1e-9)
    require_close(run.get_peak_demand_kw(), max(tot), "peak demand", 1e-12, 1e-12)
    mon = run.get_monthly_energy_kwh()
    want = [0.0] * 12
    if r["dur"] == 525600:
        for i, kw in enumerate(tot):
            want[MONTH_OF_HOUR[i * r["ts"] // 60]] += kw * hrs
    require_seq_close(mon, want, "monthly energy", 1e-9, 1e-9)
    s = run.get_summary()
    require_close(s["total_energy_kwh"], kwh, "summary energy", 1e-9, 1e-9)
    require_close(s["peak_demand_kw"], max(tot), "summary peak demand", 1e-12, 1e-12)

    e_pk, e_off, demand = bill(r, tot, per, dem)
    base = c["tariff"]["base"]
    total = sum(e_pk) + sum(e_off) + sum(d for d, _ in demand.values()) + 12 * base
    require_close(run.get_annual_utility_cost(u), total, "annual cost", 1e-9, 1e-6)
    b = run.get_monthly_cost_breakdown(u)
    d = run.get_monthly_cost_breakdown_detailed(u)
    require_seq_close(b["energy"], [x + y for x, y in zip(e_pk, e_off)], "monthly energy cost", 1e-9, 1e-7)
    require_seq_close(d["energy_peak"], e_pk, "monthly peak energy cost", 1e-9, 1e-7)
    require_seq_close(d["energy_off_peak"], e_off, "monthly off-peak energy cost", 1e-9, 1e-7)
    require(b["base"] == base and d["base"] == base, "base charge in the breakdown")
    dsum = sum(x for x, _ in demand.values())
    require_close(sum(b["demand"]), dsum, "sum of monthly demand charges", 1e-9, 1e-7)
    require_close(sum(d["demand_peak"]) + sum(d["demand_off_peak"]), dsum, "sum of detailed demand charges", 1e-9, 1e-7)
    pk_sum = sum(x for p, (x, _) in demand.items() if (p % 2 == 1 if c["csv"] else p[1] == "peak"))
    require_close(sum(d["demand_peak"]), pk_sum, "peak demand charges", 1e-9, 1e-7)
    if all(len(ms) == 1 or x == 0 for x, ms in demand.values()):       # unambiguous billing month
        per_m = [0.0] * 12
        for x, ms in demand.values():
            per_m[ms[0]] += x
        require_seq_close(b["demand"], per_m, "monthly demand charges", 1e-9, 1e-7)
        require_seq_close([x + y for x, y in zip(d["demand_peak"], d["demand_off_peak"])], per_m, "detailed monthly demand charges", 1e-9, 1e-7)
    return kwh > 0 and len({x[1] for x in per}) > 1, (r["kind"], "csv" if c["csv"] else "seasons", "tm" if r["tm"] else "no-tm")


SUBS = [Sub("billing", case(), check, quick=600, thorough=6000, shards=8)]
