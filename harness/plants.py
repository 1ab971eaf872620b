"""Generated plants (plain data), real systems built from them, and lockstep reference simulations."""
from __future__ import annotations

from hypothesis import strategies as st

from harness import gen, ref, refmap
from harness.core import Violation, require, require_close
from harness.gen import num
from harness.ref import KBTUH_PER_KW, RHO_CP

NODES = (0.0, 0.2, 0.4, 0.6, 0.8, 1.0)
SP_MODELS = ["MODELS_SANCO2_C_SP", "MODELS_ColmacCxA_15_C_SP", "MODELS_NyleC60A_C_SP", "MODELS_Mitsubishi_QAHV_C_SP"]


def sp_models():
    have = refmap.registry()
    out = [m for m in SP_MODELS if m in have]
    return out or [m for m in sorted(have) if m.endswith("_SP")][:3]


def mp_models():
    return [m for m in sorted(refmap.registry()) if m.endswith("_C_MP")][:6]


# ----------------------------------------------------------------------------- generators
@st.composite
def building(draw, zone=True):
    c = {"daily": draw(st.one_of(num(50, 6000), num(5, 50))), "peak": draw(gen.peaky_shape()), "avg": draw(gen.peaky_shape()),
         "inlet": draw(st.one_of(num(36, 72), num(33, 80))), "oat": draw(st.one_of(num(0, 100), num(-15, 115)))}
    if draw(st.integers(0, 3)) == 0:
        c["peak"] = draw(gen.load_shape())
    if zone and draw(st.integers(0, 3)) == 0:
        c["zone"] = draw(st.integers(1, 96))
    return c


@st.composite
def primary(draw, b, ls=True, models=None, many=True, out_vary=True):
    """heaters + stratified tank for building b"""
    supply = draw(st.one_of(num(110, 130), num(100, 142)))
    storage = supply + draw(st.one_of(num(5, 40), num(2, 55)))
    hours = draw(num(6, 26))
    cap = b["daily"] * RHO_CP * (supply - b["inlet"]) / 1000.0 / hours
    keys = ["normal"]
    sched = ["normal"] * 24
    if ls and draw(st.integers(0, 1)):
        if draw(st.integers(0, 3)):                       # a shed block, anywhere in the day, after its load-up hours
            s0, n, lu = draw(st.integers(0, 23)), draw(st.integers(1, 8)), draw(st.integers(0, 5))
            sched = ["shed" if (h - s0) % 24 < n else "loadUp" if (s0 - 1 - h) % 24 < lu else "normal" for h in range(24)]
        else:                                             # any schedule
            sched = draw(st.lists(st.sampled_from(["normal", "normal", "loadUp", "shed"]), min_size=24, max_size=24))
        keys = ["normal"] + [k for k in ("shed", "loadUp") if k in sched]
    nh = draw(st.integers(1, 3)) if many else 1
    # heaters of one plant may follow different schedules: some may ignore the load shift
    own = [nh > 1 and len(keys) > 1 and draw(st.integers(0, 2)) == 0 for _ in range(nh)]
    heaters = []
    for k in range(nh):
        cm = {}
        for key in keys[:1] if own[k] else keys:
            x = draw(gen.control(supply, storage, 0.1, 0.9, off_is_below=draw(st.integers(0, 4)) > 0))
            if out_vary and key == "loadUp":
                x["out_t"] = storage + draw(num(0, 10))
            cm[key] = x
        h = {"cmap": cm, "sched": ["normal"] * 24 if own[k] else sched, "cap": cap / nh * draw(num(0.5, 1.5))}
        if models and draw(st.integers(0, 2)) == 0:
            h["model"] = draw(st.sampled_from(models))
            h["units"] = draw(st.integers(1, 4))
            h["nominal"] = draw(st.one_of(st.none(), st.just(h["cap"])))
        heaters.append(h)
    return {"supply": supply, "storage": storage, "vol": b["daily"] * draw(num(0.12, 1.0)) + 2.0, "heaters": heaters,
            "slope": draw(st.sampled_from([2.8, 2.8, 1.7])), "start": draw(num(0.1, 1.0))}


# ----------------------------------------------------------------------------- real objects
def mk_building(c):
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.building.ClimateZone import ClimateZone
    if "zone" in c:
        return Building(climate_zone=ClimateZone.from_zone_id(c["zone"]), daily_dhw_use_supplyT_gal=c["daily"],
                        peak_load_shape=list(c["peak"]), avg_load_shape=list(c["avg"]))
    return gen.mk_building(c)


def mk_heaters(p, design_inlet=50.0):
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    out = []
    for h in p["heaters"]:
        cm = gen.mk_cmap(h["cmap"])
        if "model" in h:
            out.append(WaterHeater.from_model_name(h["model"], list(h["sched"]), cm, num_units=h["units"],
                                                   design_inlet_temp_f=design_inlet, nominal_capacity_kbtuh=h["nominal"]))
        else:
            out.append(WaterHeater.from_nominal_capacity(h["cap"], list(h["sched"]), cm))
    return out


# ----------------------------------------------------------------------------- reference parts
class RefHeater:
    def __init__(self, h, design_inlet=50.0):
        self.h = h
        self.on = False
        self.map = refmap.RefMap(h["model"], h["units"], design_inlet, h["nominal"]) if "model" in h else None

    def ctrl(self, hour):
        return self.h["cmap"][self.h["sched"][hour]]

    def out(self, oat, outlet, inlet):
        """(kBTU/hr, kW or None) when running"""
        if self.map is None:
            return self.h["cap"], None
        c, p, _ = self.map.query(oat, outlet, inlet)
        return c, p

    def decide(self, temp_at, hour, actual, band, what):
        """Hysteresis; inside the tie band the recorded decision is adopted."""
        c = self.ctrl(hour)
        if self.on:
            t = temp_at(c["off_f"])
            want, gap = not (t >= c["off_t"]), abs(t - c["off_t"])
        else:
            t = temp_at(c["on_f"])
            want, gap = t < c["on_t"], abs(t - c["on_t"])
        if want != actual and gap > band:
            raise Violation(f"{what}: heater {'runs' if actual else 'is off'} although its sensor reads {t:.4f} F "
                            f"(was {'on' if self.on else 'off'}, controls {c})")
        self.on = actual


class Env:
    """demand and weather of a step from independently built objects"""

    def __init__(self, b):
        self.b = b
        self.bld = mk_building(b)
        self.zone = "zone" in b

    def at(self, i, ts, use_avg):
        hour = i * ts // 60
        shape = self.b["avg"] if use_avg else self.b["peak"]
        d = self.b["daily"] * shape[hour % 24] * ts / 60.0
        if self.zone:
            return d, self.bld.get_oat_f(i, ts), self.bld.get_inlet_water_temp_f(i, ts), hour % 24
        return d, self.b["oat"], self.b["inlet"], hour % 24

    def design_inlet(self):
        return self.bld.get_design_inlet_water_temp_f()


def total(hs, oat, inlet, hour, pass_inlet=True):
    """(sum of outputs, kW or None) of the running heaters"""
    out, kws = 0.0, []
    for h in hs:
        if h.on:
            c, p = h.out(oat, h.ctrl(hour)["out_t"], inlet if pass_inlet else None)
            out += c
            kws.append(p)
    return out, (sum(k or 0.0 for k in kws) if any(k is not None for k in kws) else None), len(kws)


def use_avg(p):
    return any("shed" in h["cmap"] or "loadUp" in h["cmap"] for h in p["heaters"])


def common(step, d, oat, inlet, hour, p, what):
    require_close(step["demand_supplyT_gal"], d, f"{what}: demand", 1e-9, 1e-9)
    require_close(step["oat_f"], oat, f"{what}: outdoor temperature", 1e-9, 1e-9)
    require_close(step["inlet_water_temp_f"], inlet, f"{what}: inlet temperature", 1e-9, 1e-9)
    require(step["mode"] == p["heaters"][0]["sched"][hour], "%s: mode %r in a %r hour", what, step["mode"], p["heaters"][0]["sched"][hour])


def temps_ok(step, temp, tol, what):
    require(len(step["tank_temps_f"]) == 6, "%s: %d tank temperatures", what, len(step["tank_temps_f"]))
    for k, f in enumerate(NODES):
        require_close(step["tank_temps_f"][k], temp(f), f"{what}: tank temperature at {f}", 0, tol)


def spread_draw(t, err, d, cold, supply, hot):
    """Draw on the reference tank; returns how far the profile (F) can be off afterwards when it was off by up to err
    before (a draw that just about empties the tank of heat amplifies differences)."""
    b = t.b
    e = err + 1e-8
    ends = []
    for k in (-e, e):
        t.b = b + k
        t.draw(d, cold, supply, hot)
        ends.append(t.b)
    t.b = b
    t.draw(d, cold, supply, hot)
    new = max(abs(x - t.b) for x in ends)
    if new > 0.5:
        raise refmap.Near("draw at the point of exhaustion")
    return new


class RefPrimary:
    """No-recirc / parallel primary and single-pass RTP."""

    def __init__(self, p, env, rtp=None):
        self.p, self.env, self.rtp = p, env, rtp
        self.tank = ref.RefStratified(p["vol"], p["slope"])
        self.hs = [RefHeater(h, env.design_inlet()) for h in p["heaters"]]
        self.err = 1e-6
        self.per_gal = p["slope"] * 100.0 / p["vol"]
        self.flips = 0
        self.outage = 0

    def init(self, storage, cold, useable):
        self.tank.init(storage, cold, useable)

    def step(self, i, ts, rec, active):
        p, t = self.p, self.tank
        what = f"step {i} ({ts} min)"
        d, oat, inlet, hour = self.env.at(i, ts, use_avg(p))
        common(rec, d, oat, inlet, hour, p, what)
        for h, a in zip(self.hs, active):
            self.flips += a != h.on
            h.decide(t.temp, hour, a, 0.003 + 3 * self.err, what)
        q, kw, _ = total(self.hs, oat, inlet, hour)
        require_close(rec["heater_output_kbtuh"], q, f"{what}: heater output", 1e-7, 1e-7)
        require_close(rec["heater_power_in_kw"], kw, f"{what}: heater power", 1e-7, 1e-7)
        hot = max(h.ctrl(hour)["out_t"] for h in self.hs)
        t.heat(q, ts, hot)
        self.err = spread_draw(t, self.err, d, inlet, p["supply"], hot) + 2e-6 * self.per_gal + 1e-9
        if self.rtp:
            t.recirc(self.rtp["gpm"], self.rtp["ret"], ts, p["supply"])
        temps_ok(rec, t.temp, 2e-4 + 2 * self.err, what)
        u = t.usable(p["supply"])
        self.outage += u <= 0
        require_close(rec["usable_volume_supplyT_gal"], u, f"{what}: usable volume", 1e-6, (2e-4 + 2 * self.err) / self.per_gal)
        return q, kw


class RefParallel(RefPrimary):
    """tm: {vol, gpm, ret, on, off, n, cap | model}"""

    def __init__(self, p, env, tm):
        super().__init__(p, env)
        self.tm = tm
        self.tmt = ref.RefMixed(tm["vol"])
        c = {"on_f": 0.5, "on_t": tm["on"], "off_f": 0.5, "off_t": tm["off"], "out_t": tm["off"]}
        self.tmh = RefHeater({"cmap": {"normal": c}, "sched": ["normal"] * 24, "cap": tm["cap"],
                              **({"model": tm["model"], "units": 1, "nominal": tm["cap"]} if "model" in tm else {})}, tm["ret"])
        self.tmflips = 0

    def tm_step(self, i, ts, rec, tm_active):
        what = f"step {i} ({ts} min) TM"
        tm, t = self.tm, self.tmt
        _, oat, _, hour = self.env.at(i, ts, False)
        t.t -= tm["gpm"] * ts * (t.t - tm["ret"]) / tm["vol"]
        self.tmflips += tm_active != self.tmh.on
        self.tmh.decide(lambda f: t.t, hour, tm_active, 1e-3, what)
        q, kw = (0.0, None)
        if self.tmh.on:
            q, kw = self.tmh.out(oat, t.t, (tm["on"] + tm["off"]) / 2.0)
            q *= tm["n"]
            kw = None if kw is None else kw * tm["n"]
        t.add_kbtu(q * ts / 60.0)
        # snapped map regions jump with the tank temperature; the tank itself follows the recorded heat
        require_close(rec["tm_heater_output_kbtuh"], q, f"{what}: heater output", 1e-6, 1e-6)
        require_close(rec["tm_heater_input_kw"], kw, f"{what}: heater power", 1e-6, 1e-6)
        require_close(rec["tm_tank_temp_f"], t.t, f"{what}: tank temperature", 1e-8, 1e-5)


class RefSwing:
    """tm: {vol, gpm, ret, cap}; element between supply and supply + 8."""

    def __init__(self, p, env, tm):
        self.p, self.env, self.tm = p, env, tm
        self.tank = ref.RefStratified(p["vol"], p["slope"])
        self.hs = [RefHeater(h, env.design_inlet()) for h in p["heaters"]]
        self.sw = ref.RefMixed(tm["vol"])
        s = p["supply"]
        c = {"on_f": 0.5, "on_t": s, "off_f": 0.5, "off_t": s + 8.0, "out_t": s + 8.0}
        self.el = RefHeater({"cmap": {"normal": c}, "sched": ["normal"] * 24, "cap": tm["cap"]})
        self.err = 1e-6
        self.per_gal = p["slope"] * 100.0 / p["vol"]
        self.flips = self.tmflips = 0

    def init(self, storage, cold, useable):
        self.tank.init(storage, cold, useable)

    def step(self, i, ts, rec, active, tm_active):
        p, t, w = self.p, self.tank, self.sw
        what = f"step {i} ({ts} min)"
        d, oat, inlet, hour = self.env.at(i, ts, use_avg(p))
        common(rec, d, oat, inlet, hour, p, what)
        for h, a in zip(self.hs, active):
            self.flips += a != h.on
            h.decide(t.temp, hour, a, 0.003 + 3 * self.err, what)
        q, kw, running = total(self.hs, oat, inlet, hour)
        require_close(rec["heater_output_kbtuh"], q, f"{what}: heater output", 1e-7, 1e-7)
        hot = max(h.ctrl(hour)["out_t"] for h in self.hs)
        t.heat(q, ts, hot)
        before = w.t
        # water drawn through the swing tank so that, tempered with inlet water, the demand is met
        g = d * (p["supply"] - inlet) / (before - inlet) if before > p["supply"] else d
        feed = t.mean_top(g)
        w.replace(g, feed)
        w.add_kbtu(-ref.recirc_loss_kbtuh(self.tm["gpm"], p["supply"], self.tm["ret"]) * ts / 60.0)
        self.tmflips += tm_active != self.el.on
        self.el.decide(lambda f: w.t, hour, tm_active, 1e-3 + 3 * self.err, what + " swing element")
        eq = self.el.h["cap"] if self.el.on else 0.0
        w.add_kbtu(eq * ts / 60.0)
        t.draw_physical(g, inlet, p["supply"])
        self.err += 1e-9
        require_close(rec["tm_heater_output_kbtuh"], eq, f"{what}: element output", 1e-9, 1e-9)
        require_close(rec["tm_heater_input_kw"], eq / KBTUH_PER_KW, f"{what}: element power", 1e-9, 1e-9)
        require_close(rec["tm_tank_temp_f"], w.t, f"{what}: swing tank temperature", 0, 1e-4 + 2 * self.err)
        require_close(rec["delivery_temp_f"], w.t, f"{what}: delivery temperature", 0, 1e-4 + 2 * self.err)
        temps_ok(rec, t.temp, 2e-4 + 2 * self.err, what)
        if abs(before - p["supply"]) > 1e-3:
            u = t.usable(p["supply"]) if before >= p["supply"] else 0.0
            require_close(rec["usable_volume_supplyT_gal"], u, f"{what}: usable volume", 1e-6, (2e-4 + 2 * self.err) / self.per_gal)
        if running:
            require_close(rec["heater_power_in_kw"], kw or 0.0, f"{what}: heater power", 1e-7, 1e-7)
        else:
            require(rec["heater_power_in_kw"] in (None, 0, 0.0), "%s: power %r without a running heater", what, rec["heater_power_in_kw"])
        return d * (p["supply"] - inlet)
