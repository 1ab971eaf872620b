"""C20: a simulation record reports what happened, step by step."""
import csv
import os
import tempfile

from hypothesis import strategies as st

from harness import systems
from harness.core import Sub, Violation, close, require, require_close
from harness.gen import num

PROPERTY = "C20"
RULE = ("simulate: every system kind with generated plants and loads; the plant is first used (arbitrary earlier state), then simulated for 3 days "
        "or a year with the default or given stop limits; a twin is stepped by hand from the stated starting state and the record, its totals, "
        "outage minutes, messages, early stop and CSV export must equal what the steps returned. record: generated records against recomputed "
        "totals. Non-trivial: outages or an early stop occurred (simulate), energy and outages present (record).")
NAMES = {"dhw_demand_supplyT_gal": "demand_supplyT_gal", "usable_volume_supplyT_gal": "usable_volume_supplyT_gal",
         "heater_output_kbtuh": "heater_output_kbtuh", "heater_power_in_kw": "heater_power_in_kw", "oat_f": "oat_f",
         "inlet_water_temp_f": "inlet_water_temp_f"}
COLS = ["timestep", "time_min", "dhw_demand_supplyT_gal", "usable_volume_supplyT_gal", "heater_output_kbtuh", "heater_power_in_kw", "oat_f",
        "inlet_water_temp_f", "tank_temp_0pct", "tank_temp_20pct", "tank_temp_40pct", "tank_temp_60pct", "tank_temp_80pct", "tank_temp_100pct"]


@st.composite
def sim_case(draw, annual=False):
    x = draw(systems.any_case())
    x["annual"] = annual
    x["dirty"] = draw(st.integers(0, 300))
    x["stop"] = draw(st.one_of(st.none(), st.none(), st.fixed_dictionaries({
        "threshold": st.one_of(num(0, 12), num(-15, 1)), "minutes": st.sampled_from([0, 1, 5, 10, 20, 30, 61, 100, 100000])})))
    return x


def message(steps, ts, outage_min, swing):
    bad = [i for i, s in enumerate(steps) if s["usable_volume_supplyT_gal"] <= 0]
    d = [(s["tm_tank_temp_f"] if swing else s["tank_temps_f"][5]) for s in steps]
    mean = sum(d[i] for i in bad) / len(bad)
    return bad[0] * ts // 1440 + 1, mean


def check_totals(run, steps, ts, outage_min, swing, what):
    pw = [(s["heater_power_in_kw"] or 0.0) for s in steps]
    tm = [(s.get("tm_heater_input_kw") or 0.0) for s in steps]
    require_close(run.get_total_energy_kwh(), (sum(pw) + sum(tm)) * ts / 60.0, f"{what}: total energy", 1e-9, 1e-9)
    require_close(run.get_peak_demand_kw(), max([a + b for a, b in zip(pw, tm)] or [0.0]), f"{what}: peak power", 1e-9, 1e-12)
    require(run.outage_minutes == outage_min, f"{what}: {run.outage_minutes} outage minutes recorded, {outage_min} happened")
    require(run.is_successful() == (outage_min == 0), f"{what}: successful = {run.is_successful()} with {outage_min} outage minutes")
    for lim in (0, 1, outage_min - 1, outage_min, outage_min + 1):
        if lim >= 0:
            require(run.is_successful(max_outage_min=lim) == (outage_min <= lim), f"{what}: successful with up to {lim} outage minutes")
    msg = run.get_failure_message()
    if outage_min == 0:
        require("succeed" in msg.lower() or "success" in msg.lower(), f"{what}: message {msg!r} for a run without outage")
    else:
        require("fail" in msg.lower() and f"{outage_min} minutes" in msg, f"{what}: message {msg!r} for {outage_min} outage minutes")
        if any(s["usable_volume_supplyT_gal"] <= 0 for s in steps):
            day, mean = message(steps, ts, outage_min, swing)
            require(f"day {day} " in msg, f"{what}: message {msg!r}, the first outage was on day {day}")
            got = float(msg.split("temperature of ")[1].split("°")[0])
            require(abs(got - mean) <= 0.0501, f"{what}: message {msg!r}, mean delivery temperature in the outage was {mean:.3f}")
        else:
            require(" day " not in msg, f"{what}: message {msg!r} names a day although no step without usable water was recorded")
    s = run.get_summary()
    want = {"successful": outage_min == 0, "total_outage_min": outage_min, "total_energy_kwh": run.get_total_energy_kwh(),
            "peak_demand_kw": run.get_peak_demand_kw(), "num_steps_recorded": len(steps), "stopped_early": run.stopped_early}
    for k, v in want.items():
        require(k in s and (s[k] == v or close(s[k], v, 1e-12, 0)), f"{what}: summary {k} is {s.get(k)!r}, expected {v!r}")


def check_series(run, steps, ts, what):
    n = len(steps)
    for a, k in NAMES.items():
        got = getattr(run, a)
        require(len(got) == n, f"{what}: {len(got)} entries of {a} for {n} steps")
        for i, s in enumerate(steps):
            if not (got[i] == s[k] or close(got[i], s[k], 1e-12, 1e-12)):
                raise Violation(f"{what}: {a}[{i}] = {got[i]!r}, the step gave {s[k]!r}")
    for j in range(6):
        got = run.tank_temps_f[j]
        require(len(got) == n, f"{what}: {len(got)} tank temperatures at node {j} for {n} steps")
        for i, s in enumerate(steps):
            if not close(got[i], s["tank_temps_f"][j], 1e-12, 1e-12):
                raise Violation(f"{what}: tank temperature {j} of step {i} is {got[i]!r}, the step gave {s['tank_temps_f'][j]!r}")
    require(list(run.heater_mode) == [s["mode"] for s in steps], f"{what}: recorded modes")
    for a, k in (("tm_tank_temp_f", "tm_tank_temp_f"), ("tm_heater_output_kbtuh", "tm_heater_output_kbtuh"), ("tm_heater_input_kw", "tm_heater_input_kw")):
        want = [s[k] for s in steps] if any(s.get("tm_tank_temp_f") is not None for s in steps) else []
        got = list(getattr(run, a))
        require(len(got) == len(want) and all(p == q or close(p, q, 1e-12, 1e-12) for p, q in zip(got, want)), f"{what}: recorded {a}")


def check_csv(run, steps, ts, what):
    d = tempfile.mkdtemp(prefix="c20")
    try:
        f = os.path.join(d, "run.csv")
        run.to_csv(f)
        with open(f, newline="") as h:
            rows = list(csv.reader(h))
    finally:
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        os.rmdir(d)
    require(rows[0] == COLS, f"{what}: CSV columns {rows[0]}")
    require(len(rows) == len(steps) + 1, f"{what}: {len(rows) - 1} CSV rows for {len(steps)} steps")
    for i, (r, s) in enumerate(zip(rows[1:], steps)):
        want = [i, i * ts, s["demand_supplyT_gal"], s["usable_volume_supplyT_gal"], s["heater_output_kbtuh"], s["heater_power_in_kw"], s["oat_f"],
                s["inlet_water_temp_f"], *s["tank_temps_f"]]
        for c, g, w in zip(COLS, r, want):
            ok = g == "" if w is None else (g != "" and close(float(g), float(w), 1e-9, 1e-9))
            require(ok, f"{what}: CSV row {i} has {c} = {g!r}, the step gave {w!r}")


def check_sim(x):
    from ecoengine.interfaces.Simulator import simulate, simulate_3day, simulate_annual
    s, bld = systems.mk(x)
    if x["dirty"]:
        systems.dirty(s, bld, x["dirty"])
    kw = {} if x["stop"] is None else {"outlet_deficit_threshold_f": x["stop"]["threshold"], "outlet_deficit_max_min": x["stop"]["minutes"]}
    dur = "annual" if x["annual"] else "3day"
    if x["dirty"] % 2:
        run = simulate(s, bld, duration=dur, **kw)
    else:
        run = (simulate_annual if x["annual"] else simulate_3day)(s, bld, **kw)
    ts, total = (10, 52560) if x["annual"] else (1, 4320)
    require((run.duration_min, run.timestep_min) == ((525600, 10) if x["annual"] else (4320, 1)), f"{dur}: duration and timestep "
            f"{run.duration_min}, {run.timestep_min}")
    twin, bld2 = systems.mk(x)
    systems.start_state(twin, bld2, x)
    thr, mins = (5.0, 10) if x["stop"] is None else (x["stop"]["threshold"], x["stop"]["minutes"])
    steps, outage, low, stopped = [], 0, 0, False
    supply = x["c"]["p"]["supply"]
    for i in range(total):
        r = twin.simulate_step(bld2, i, ts)
        steps.append(r)
        out = x["kind"] != "instant" and r["usable_volume_supplyT_gal"] <= 0
        outage += ts if out else 0
        if i % 60 == 7 or out:
            left = 1.0 if x["kind"] == "instant" else twin.storage_tank.get_usable_volume_supplyT_gal(supply)
            require(bool(twin.check_for_outage(r["demand_supplyT_gal"])) == (left <= 0), f"{x['kind']}: check_for_outage at step {i} with {left} gal "
                    "usable in the storage tank")
        t = r.get("delivery_temp_f", r["tank_temps_f"][5])
        low = low + ts if t < supply - thr else 0
        if low > mins:
            stopped = True
            break
    what = f"{x['kind']} {dur}"
    require(run.stopped_early == stopped, f"{what}: stopped early = {run.stopped_early}, low delivery ended the run: {stopped}")
    require(len(run.dhw_demand_supplyT_gal) == len(steps), f"{what}: {len(run.dhw_demand_supplyT_gal)} steps recorded, expected {len(steps)}")
    check_series(run, steps, ts, what)
    check_totals(run, steps, ts, outage, x["kind"] == "swing", what)
    require(run.supply_temp_f == supply, f"{what}: supply temperature {run.supply_temp_f}")
    require(bool(run.show_tm_panel) == (x["kind"] == "swing"), f"{what}: TM panel shown = {run.show_tm_panel}")
    if x["dirty"] % 5 == 0 and not x["annual"]:
        check_csv(run, steps, ts, what)
    return outage > 0 or stopped, tuple([x["kind"]] + (["stopped early"] if stopped else []) + (["outage"] if outage else []))


# ------------------------------------------------------------------ generated records
@st.composite
def rec_case(draw):
    ts = draw(st.sampled_from([1, 5, 7, 10, 15, 25, 60]))
    tm = draw(st.sampled_from(["no", "no", "swing", "parallel"]))
    opt = st.one_of(num(0, 80), num(0, 80), st.none())
    step = st.fixed_dictionaries({"d": num(0, 50), "u": st.one_of(num(0.001, 500), num(0.001, 500), st.just(0.0), num(-5, 0)), "q": num(0, 400), "p": opt,
                                  "oat": num(-20, 110), "in": num(33, 80), "t": st.lists(num(40, 170), min_size=6, max_size=6),
                                  "mode": st.sampled_from(["normal", "normal", "shed", "loadUp"]), "tt": num(90, 140), "tq": num(0, 90), "tp": opt})
    return {"ts": ts, "tm": tm, "quiet": draw(st.sampled_from([0, 0, 0, 1])) * draw(st.integers(0, 6000)) // ts, "steps": draw(st.one_of(st.lists(step, max_size=6), st.lists(step, min_size=8, max_size=40))),
            "extra": draw(st.sampled_from([0, 0, 0, 7, 90])), "thr": draw(num(0, 10)), "mins": draw(st.integers(0, 60)), "deliv": draw(st.lists(num(100, 130), min_size=8, max_size=40))}


def check_rec(c):
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    ts = c["ts"]
    run = SimulationRun(1440, ts, outlet_deficit_threshold_f=c["thr"], outlet_deficit_max_min=c["mins"])
    run.show_tm_panel = c["tm"] == "swing"
    run.supply_temp_f = 120.0
    steps, outage = [], 0
    good = {"d": 1.5, "u": 90.0, "q": 10.0, "p": 2.0, "oat": 50.0, "in": 55.0, "t": [60.0, 90.0, 110.0, 130.0, 140.0, 150.0], "mode": "normal",
            "tt": 121.0, "tq": 3.0, "tp": 1.0}
    for x in [good] * c["quiet"] + c["steps"]:
        kw = dict(tm_tank_temp_f=x["tt"], tm_heater_output_kbtuh=x["tq"], tm_heater_input_kw=x["tp"]) if c["tm"] != "no" else {}
        run.record_timestep(x["d"], x["u"], x["q"], x["p"], x["oat"], x["in"], list(x["t"]), mode=x["mode"], **kw)
        steps.append({"demand_supplyT_gal": x["d"], "usable_volume_supplyT_gal": x["u"], "heater_output_kbtuh": x["q"], "heater_power_in_kw": x["p"],
                      "oat_f": x["oat"], "inlet_water_temp_f": x["in"], "tank_temps_f": x["t"], "mode": x["mode"], **kw})
        if x["u"] <= 0:
            run.record_outage(ts)
            outage += ts
    if c["extra"]:                                    # outage minutes noted from outside
        run.record_outage(c["extra"])
        outage += c["extra"]
    check_series(run, steps, ts, "record")
    check_totals(run, steps, ts, outage, c["tm"] == "swing", "record")
    check_csv(run, steps, ts, "record")
    # sustained low delivery temperature
    low, fired = 0, False
    for i, t in enumerate(c["deliv"]):
        got = run.check_outlet_deficit(t, 120.0)
        low = low + ts if t < 120.0 - c["thr"] else 0
        require(bool(got) == (low > c["mins"]), f"delivery {t} F as step {i}: stop = {got} after {low} minutes below 120 - {c['thr']} (limit {c['mins']})")
        fired = fired or low > c["mins"]
        require(run.stopped_early == fired, f"stopped_early = {run.stopped_early} after {low} minutes")
    return outage > 0 and any(x["p"] for x in c["steps"])


def bad_duration():
    return [{"d": d} for d in ("3 day", "daily", "", "ANNUAL", None, 3, "3day ", "year")]


def check_bad(c):
    from harness.core import expect_raises
    from ecoengine.interfaces.Simulator import simulate
    x = {"kind": "instant", "c": {"b": {"daily": 100.0, "peak": [1 / 24] * 24, "avg": [1 / 24] * 24, "inlet": 50.0, "oat": 40.0},
                                  "p": {"supply": 120.0, "storage": 150.0}, "defrost": 1.0}}
    s, bld = systems.mk(x)
    expect_raises(lambda: simulate(s, bld, duration=c["d"]), (ValueError,), f"duration {c['d']!r}")
    return True


SUBS = [
    Sub("simulate", sim_case(), check_sim, quick=144, thorough=3000, shards=8),
    Sub("annual", sim_case(True), check_sim, quick=16, thorough=240, shards=4),
    Sub("record", rec_case(), check_rec, quick=600, thorough=15000, shards=4),
    Sub("duration", None, check_bad, exhaustive=bad_duration, quick=1, shards=1),
]
