"""C28: figures show the numbers behind them."""
import base64
import json
import os
import shutil
import struct
import tempfile

from hypothesis import strategies as st

from checks import c18, c20, c26
from harness import design, ref, systems
from harness.core import Skip, Sub, close, expect_raises, require, require_close, require_seq_close
from harness.gen import mk_building, num

PROPERTY = "C28"
RULE = ("Cases: sizing and load-shift curves of every sized system, simulation plots of generated records and of real 3-day simulations of every system, cost comparisons "
        "of generated annual records and tariffs, stand-alone curve plots of generated points, as figures, HTML fragments and files. Oracle: the curve, record or independently "
        "computed bill the figure belongs to. Non-trivial: more than one point / a load-shift or TM record / a bill with energy.")
NODES = ("Tank 0%", "Tank 20%", "Tank 40%", "Tank 60%", "Tank 80%", "Tank 100%")


def vals(v):
    return [None if x is None else x if isinstance(x, str) else float(x) for x in (v if v is not None else [])]


def decode(v):
    if isinstance(v, dict) and "bdata" in v:
        raw = base64.b64decode(v["bdata"])
        code = {"f8": "d", "f4": "f", "i4": "i", "i2": "h", "i1": "b", "u1": "B", "u2": "H", "u4": "I"}[v["dtype"]]
        return list(struct.unpack(f"<{len(raw) // struct.calcsize(code)}{code}", raw))
    return v


def html_traces(h):
    """[(x, y)] of the traces of a plotly HTML fragment or page"""
    require(isinstance(h, str) and "Plotly.newPlot(" in h, "not an HTML plot")
    t = h[h.rindex("Plotly.newPlot("):]
    data, _ = json.JSONDecoder().raw_decode(t[t.index("["):])
    return [(vals(decode(d.get("x"))), vals(decode(d.get("y")))) for d in data]


def same(a, b, what):
    require_seq_close(vals(a), vals(b), what, 1e-9, 1e-9)


def same_fig(h, f, what):
    a = html_traces(h)
    require(len(a) == len(f.data), f"{what}: {len(a)} traces, figure has {len(f.data)}")
    for i, ((x, y), t) in enumerate(zip(a, f.data)):
        require(len(x) == len(t.x) and all(p == q or close(p, q) for p, q in zip(x, vals(t.x))), f"{what}: x of trace {i}")
        require(len(y) == len(t.y) and all(p == q or close(p, q) for p, q in zip(y, vals(t.y))), f"{what}: y of trace {i}")


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c28")
        return os.path.join(self.d, "f.html")

    def __exit__(self, *a):
        shutil.rmtree(self.d)


# ------------------------------------------------------------------------------ curves
def check_curve_fig(f, x, y, rec, what):
    same(f.data[0].x, x, f"{what}: x of the curve")
    same(f.data[0].y, y, f"{what}: y of the curve")
    require(len(f.data) == len(x) + 1, f"{what}: {len(f.data) - 1} markers for {len(x)} points")
    for i, t in enumerate(f.data[1:]):
        same(t.x, [x[i]], f"{what}: marker {i} x")
        same(t.y, [y[i]], f"{what}: marker {i} y")
    shown = [i for i, t in enumerate(f.data[1:]) if t.visible in (None, True)]
    require(shown == [rec], f"{what}: markers {shown} shown, recommended {rec}")
    s = f.layout.sliders[0]
    require(s.active == rec and len(s.steps) == len(x), f"{what}: slider at {s.active} of {len(s.steps)}, recommended {rec} of {len(x)}")
    for i, step in enumerate(s.steps):
        v = [j for j, b in enumerate(step.args[0]["visible"]) if b]
        require(v == [0, i + 1], f"{what}: slider step {i} shows traces {v}")
        require(f"{y[i]:.1f}" in step.label and (f"{x[i]:.1f}" in step.label or f"{x[i]:.0f}" in step.label), f"{what}: slider label {step.label!r} for ({x[i]}, {y[i]})")


def check_curves(d):
    b, a, s = design.make(d["d"])
    d = d["d"]
    c = s.get_sizing_curve(b)
    if not c["heat_hours"]:
        raise Skip
    x, y = c["storage_storageT_gal"][::-1], c["capacity_kbtuh"][::-1]
    rec = len(x) - 1 - c["recommended_index"]
    f = s.plot_sizing_curve(b)
    check_curve_fig(f, x, y, rec, "sizing curve")
    with Scratch() as p:
        g = s.plot_sizing_curve(b, control_schedule=a.sched, control_map={"normal": a.cmap["normal"]}, title="My curve", filepath=p)
        check_curve_fig(g, x, y, rec, "sizing curve with controls")
        require(g.layout.title.text == "My curve", f"title {g.layout.title.text!r}")
        with open(p) as h:
            same_fig(h.read(), g, "written sizing curve")
    # the recommended point is the plant
    if not design.is_ls(d):
        require_close(y[rec], s.get_minimum_capacity_kbtuh(), "capacity at the recommended point", 1e-6)
        require_close(x[rec], s.get_minimum_storage_storageT_gal(), "storage at the recommended point", 1e-6)
    else:
        q = s.get_ls_sizing_curve(b, a.sched, a.cmap, load_shift_percent=d["pct"])
        f = s.plot_sizing_curve(b, control_schedule=a.sched, control_map=a.cmap, load_shift_percent=d["pct"])
        px = [100.0 * v for v in q["load_shift_percent"]]
        check_curve_fig(f, px, q["storage_storageT_gal"], q["recommended_index"], "load-shift curve")
    return len(x) > 1, [d["kind"]] + (["ls"] if design.is_ls(d) else [])


@st.composite
def curve_case(draw):
    return {"d": draw(design.design(kinds=("primary", "parallel", "swing", "sprtp")))}


@st.composite
def points_case(draw):
    n = draw(st.integers(1, 30))
    return {"x": draw(st.lists(num(0, 900), min_size=n, max_size=n)), "y": draw(st.lists(num(0, 900), min_size=n, max_size=n)),
            "i": draw(st.integers(0, n - 1)), "ls": draw(st.booleans()), "er": draw(st.booleans())}


def check_points(c):
    from ecoengine import get_sizing_curve_plot
    f = get_sizing_curve_plot(c["x"], c["y"], c["i"], load_shifting=c["ls"], er_sized=c["er"])
    require(len(f.data) == 2, f"{len(f.data)} traces")
    same(f.data[0].x, c["x"], "x of the curve")
    same(f.data[0].y, c["y"], "y of the curve")
    same(f.data[1].x, [c["x"][c["i"]]], "marker x")
    same(f.data[1].y, [c["y"][c["i"]]], "marker y")
    lx, ly = f.layout.xaxis.title.text, f.layout.yaxis.title.text
    want = ("Coverage", "ER") if c["er"] else ("Covered", "Volume") if c["ls"] else ("Volume", "Capacity")
    require(want[0] in lx and want[1] in ly, f"axes {lx!r}, {ly!r}")
    same_fig(get_sizing_curve_plot(c["x"], c["y"], c["i"], load_shifting=c["ls"], er_sized=c["er"], return_as_div=True), f, "HTML curve")
    return len(c["x"]) > 1


@st.composite
def engine_case(draw):
    supply = draw(num(110, 128))
    kw = dict(building_type="multi_family", magnitude=draw(num(20, 400)), zip_code_or_climate_zone=draw(st.integers(1, 96)), supply_temp_f=supply,
              storage_temp_f=supply + draw(num(10, 40)), schematic=draw(st.sampled_from(["primary_no_recirc", "swing_tank", "parallel_loop", "single_pass_rtp"])),
              gpdpp=draw(num(15, 30)), aquastat_fract=draw(num(0.3, 0.5)), max_daily_run_hr=draw(num(12, 23)))
    if kw["schematic"] != "primary_no_recirc":
        kw.update(return_temp_f=supply - draw(num(4, 10)), return_flow_gpm=kw["magnitude"] * 0.01)
    if draw(st.booleans()):
        s0 = draw(st.integers(6, 18))
        kw.update(load_shift_schedule=[0 if s0 <= h < s0 + 4 else 1 for h in range(24)], load_up_hours=draw(st.integers(0, 3)),
                  shed_aquastat_fract=draw(num(0.6, 0.85)), load_shift_percent=draw(num(0.3, 1.0, 2)))
    return {"kw": kw}


def check_engine(c):
    """the engine returns, next to the figure, the very points and start index the figure shows"""
    from ecoengine import EcosizerEngine
    try:
        e = EcosizerEngine(**c["kw"])
        f, x, y, i = e.plot_sizing_curve(title="E", return_with_x_y_points=True)
    except ValueError:
        raise Skip
    if not len(x):
        raise Skip
    check_curve_fig(f, x, y, i, "engine curve")
    require(f.layout.title.text == "E", f"title {f.layout.title.text!r}")
    with Scratch() as p:
        g = e.plot_sizing_curve(title="E", filepath=p)
        check_curve_fig(g, x, y, i, "engine curve without points")
        with open(p) as h:
            same_fig(h.read(), g, "written engine curve")
    same_fig(e.plot_sizing_curve(title="E", return_as_div=True), f, "engine curve as HTML")
    r = e.get_sizing_results()
    if "load_shift_schedule" not in c["kw"]:
        require_close(y[i], r["min_capacity_kbtuh"], "capacity at the start point", 1e-6)
        require_close(x[i], r["min_storage_storageT_gal"], "storage at the start point", 1e-6)
    return len(x) > 2, [c["kw"]["schematic"]] + (["ls"] if "load_shift_schedule" in c["kw"] else [])


def check_trade_off(c):
    b = mk_building(c)
    try:
        s = c26.comp(c, b)
        kw, cov, ind = s.get_er_sized_points(b, c["add"])
    except (ValueError, RuntimeError):
        raise Skip
    c26.check_figure(s.get_er_sizing_curve(b, c["add"]), kw, cov, ind)
    return len(cov) > 2 and 0 < ind, [f"start {ind}"]


# -------------------------------------------------------------------------- simulation
def by_name(f, start):
    t = [x for x in f.data if (x.name or "").startswith(start)]
    require(len(t) <= 1, f"{len(t)} traces named {start}")
    return t[0] if t else None


def check_run_fig(f, run, temps, what):
    n, ts = len(run.dhw_demand_supplyT_gal), run.timestep_min
    time = [float(i * ts) for i in range(n)]
    want = {"Usable Volume": list(run.usable_volume_supplyT_gal), "DHW Demand": [v * 60.0 / ts for v in run.dhw_demand_supplyT_gal]}
    if run.supply_temp_f is not None:
        want["Heater Generation"] = [q * 1000.0 / (ref.RHO_CP * max(1.0, run.supply_temp_f - t))
                                     for q, t in zip(run.heater_output_kbtuh, run.inlet_water_temp_f)]
    if temps:
        want["OAT"] = list(run.oat_f)
        want["Inlet Water"] = list(run.inlet_water_temp_f)
        for k, v in zip(NODES, run.tank_temps_f):
            if len(v):
                want[k] = list(v)
    if run.show_tm_panel:
        want["TM Heater Output"] = list(run.tm_heater_output_kbtuh)
        want["Swing Tank Temp"] = list(run.tm_tank_temp_f)
    require(len(f.data) == len(want), f"{what}: traces {[t.name for t in f.data]}, expected {list(want)}")
    for k, v in want.items():
        t = by_name(f, k)
        require(t is not None, f"{what}: no trace {k!r} among {[x.name for x in f.data]}")
        same(t.x, time, f"{what}: time of {k}")
        same(t.y, v, f"{what}: {k}")
    # shaded load-shift windows
    runs, i = [], 0
    modes = list(run.heater_mode)
    while i < len(modes):
        j = i
        while j < len(modes) and modes[j] == modes[i]:
            j += 1
        if modes[i] in ("shed", "loadUp"):
            runs.append((float(i * ts), float(j * ts), modes[i]))
        i = j
    got = {(float(s.x0), float(s.x1), s.fillcolor) for s in f.layout.shapes}
    require({g[:2] for g in got} == {r[:2] for r in runs} and len(got) == len(runs), f"{what}: shaded windows {sorted(got)}, load-shift windows {runs}")
    colors = {m: {g[2] for g in got for r in runs if r[:2] == g[:2] and r[2] == m} for m in ("shed", "loadUp")}
    require(all(len(c) <= 1 for c in colors.values()) and not (colors["shed"] & colors["loadUp"]), f"{what}: colours of the windows {colors}")
    # a label says which is which
    names = {"shed": "shed", "loadup": "loadUp"}
    labels = [(names[t], float(n.x)) for n in f.layout.annotations for t in ["".join(x for x in (n.text or "").lower() if x.isalpha())] if t in names]
    for m, x in labels:
        require(any(r[0] - 1e-6 <= x <= r[1] + 1e-6 and r[2] == m for r in runs), f"{what}: label {m!r} at minute {x}, load-shift windows {runs}")
    require({m for m, _ in labels} == {r[2] for r in runs}, f"{what}: labels {labels} for the windows {runs}")


def make_record(c):
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    run = SimulationRun(1440, c["ts"])
    run.show_tm_panel = c["tm"] == "swing"
    run.supply_temp_f = c["supply"]
    for x in c["steps"]:
        kw = dict(tm_tank_temp_f=x["tt"], tm_heater_output_kbtuh=x["tq"], tm_heater_input_kw=x["tp"]) if c["tm"] != "no" else {}
        run.record_timestep(x["d"], x["u"], x["q"], x["p"], x["oat"], x["in"], list(x["t"]), mode=x["mode"], **kw)
    return run


def check_record(c):
    run = make_record(c)
    f = run.to_plotly(include_temperatures=c["temps"], title=c["title"])
    check_run_fig(f, run, c["temps"], "record plot")
    require(f.layout.title.text == c["title"], f"title {f.layout.title.text!r}")
    if c["file"]:
        with Scratch() as p:
            run.to_plotly(include_temperatures=c["temps"], filepath=p)
            with open(p) as h:
                same_fig(h.read(), f, "written record plot")
    return bool(c["steps"]) and (c["tm"] == "swing" or any(x["mode"] != "normal" for x in c["steps"]))


@st.composite
def record_case(draw):
    c = draw(c20.rec_case())
    c.update(supply=draw(st.one_of(st.none(), num(60, 140))), temps=draw(st.booleans()), title=draw(st.sampled_from(["Simulation Results", "A plant"])),
             file=draw(st.integers(0, 9)) == 0)
    return c


def check_sim(c):
    from ecoengine.interfaces.Simulator import simulate_3day
    x = c["x"]
    s, bld = systems.mk(x)
    run = simulate_3day(s, bld)
    check_run_fig(run.to_plotly(include_temperatures=c["temps"]), run, c["temps"], f"{x['kind']} plot")
    return True, [x["kind"]]


sim_case = st.fixed_dictionaries({"x": systems.any_case(), "temps": st.booleans()})


# ------------------------------------------------------------------------- comparison
@st.composite
def cmp_case(draw):
    c = draw(c18.case())
    c["rec"] = draw(c18.record(annual_only=True))
    c["rec2"] = draw(c18.record(annual_only=True))
    for r in (c["rec"], c["rec2"]):
        r["ts"], r["kind"] = 60, "annual60"
        r["n"] = 8760 if r["n"] >= 8760 else r["n"]
    return c


def check_cmp(c):
    from ecoengine import get_annual_utility_comparison_graph as graph
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    u, per, dem = c18.tariff_of(c)
    runs, bills = [], []
    for r in (c["rec"], c["rec2"]):
        run, tot = c18.make(r)
        runs.append(run)
        bills.append(c18.bill(r, tot, per, dem))
    f = graph(runs[0], runs[1], u)
    base = c["tariff"]["base"]
    months = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
    tot = {0: [0.0] * 12, 1: [0.0] * 12}
    for t in f.data:
        slot = 0 if t.name.endswith("for HP") else 1
        require(len(t.y) == 24 and len(t.x) == 24, f"{t.name}: {len(t.y)} bars")
        require([str(v).strip() for v in t.x] == [m for m in months for _ in (0, 1)] and len(set(t.x)) == 24, f"{t.name}: months {list(t.x)}")
        for m in range(12):
            require(t.y[2 * m + 1 - slot] == 0, f"{t.name}: month {m} drawn in the other plant's bar")
            tot[slot][m] += t.y[2 * m + slot]
    names = {t.name for t in f.data}
    require(len(names) == len(f.data) == 10, f"bars {names}")
    for slot, (epk, eoff, demand) in enumerate(bills):
        tag = "HP" if slot == 0 else "UER"

        def row(label):
            t = by_name(f, f"{label} for {tag}")
            require(t is not None, f"no bars {label} for {tag}")
            return [t.y[2 * m + slot] for m in range(12)]
        same(row("Base Charges"), [base] * 12, f"{tag} base charges")
        same(row("Peak Energy Charges"), epk, f"{tag} peak energy")
        same(row("Off-Peak Energy Charges"), eoff, f"{tag} off-peak energy")
        want = sum(epk) + sum(eoff) + 12 * base + sum(d for d, _ in demand.values())
        require_close(sum(tot[slot]), want, f"{tag}: all bars", 1e-9, 1e-6)
        require_close(sum(tot[slot]), runs[slot].get_annual_utility_cost(u), f"{tag}: all bars and the annual cost", 1e-9, 1e-6)
        a = graph(runs[0], runs[1], u, return_as_array=True)[slot]
        for key, label in (("energy_peak", "Peak Energy Charges"), ("energy_off_peak", "Off-Peak Energy Charges"), ("demand_peak", "Peak Demand Charges"),
                           ("demand_off_peak", "Off-Peak Demand Charges")):
            same(a[key], row(label), f"{tag} {key} as array")
        b = runs[slot].get_monthly_cost_breakdown_detailed(u)
        for key in ("demand_peak", "demand_off_peak"):
            same(a[key], b[key], f"{tag} {key}")
    same_fig(graph(runs[0], runs[1], u, return_as_div=True), f, "HTML comparison")
    short = SimulationRun(4320, 1)
    expect_raises(lambda: graph(short, runs[1], u), (ValueError,), "a 3-day run compared")
    expect_raises(lambda: graph(runs[0], short, u), (ValueError,), "a 3-day run compared")
    return sum(bills[0][0]) + sum(bills[0][1]) > 0


SUBS = [
    Sub("curves", curve_case(), check_curves, quick=64, thorough=1200, shards=8),
    Sub("points", points_case(), check_points, quick=100, thorough=1000, shards=2),
    Sub("engine_curves", engine_case(), check_engine, quick=48, thorough=600, shards=8),
    Sub("trade_off", c26.comp_case(), check_trade_off, quick=48, thorough=600, shards=8),
    Sub("records", record_case(), check_record, quick=300, thorough=4000, shards=8),
    Sub("simulations", sim_case, check_sim, quick=48, thorough=600, shards=8),
    Sub("comparison", cmp_case(), check_cmp, quick=48, thorough=600, shards=8),
]
