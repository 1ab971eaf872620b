"""C24: multi-pass RTP simulation balances heat every step (lockstep), and the mixing valve closes its balance."""
from hypothesis import strategies as st

from checks.c14 import RTOL, RefSlug, bracket
from checks.c23 import run
from harness import gen, plants, ref
from harness.core import Skip, Sub, Violation, require, require_close
from harness.gen import num

PROPERTY = "C24"
RULE = ("Cases: multi-pass return-to-primary plants (1-2 heaters, fixed capacity or catalogue model, tank from undersized to oversized, usable share "
        "0.8-1), loops, loads, climates, timesteps. Every step of the real system is compared with a reference heat balance that keeps its own state "
        "(re-anchored each step to the observed slug temperature, volume and profile); and the mixing valve's draw and make-up temperature are checked "
        "against mass and heat balance. Non-trivial: heaters switched at least twice (valve: tempering actually happened).")


@st.composite
def case(draw):
    b = draw(plants.building())
    b["daily"] = max(b["daily"], 60.0)
    supply = draw(num(110, 130))
    storage = supply + draw(num(6, 40))
    pu = draw(st.sampled_from([1.0, 1.0, 0.9, 0.8]))
    gpm = b["daily"] * draw(num(0.0002, 0.002))
    dret = draw(num(2, 15))
    need = b["daily"] * ref.RHO_CP * (supply - b["inlet"]) / 1000.0 + ref.recirc_loss_kbtuh(gpm, supply, supply - dret) * 24
    hs = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        on_f = draw(num(0.25, 0.7))
        h = {"cmap": {"normal": {"on_f": on_f, "on_t": supply + draw(st.one_of(st.just(0.0), num(-3, 3))), "off_f": draw(num(0.21, on_f)),
                                 "off_t": draw(num(supply + 3.5, storage)), "out_t": storage}}, "sched": ["normal"] * 24,
             "cap": need / draw(num(5, 30))}
        if draw(st.integers(0, 2)) == 0:
            modes = ["normal"]
            for m in draw(st.sampled_from([("shed",), ("loadUp",), ("loadUp", "shed")])):
                f = draw(num(0.25, 0.9))
                h["cmap"][m] = {"on_f": f, "on_t": supply + draw(num(-8, 8)), "off_f": draw(num(0.21, f)),
                                "off_t": draw(num(supply + 3.5, storage)), "out_t": draw(st.one_of(st.just(storage), num(supply, storage)))}
                modes.append(m)
            h["sched"] = [draw(st.sampled_from(modes)) for _ in range(24)]
        if draw(st.integers(0, 2)) == 0:
            h["model"] = draw(st.sampled_from(plants.mp_models() or plants.sp_models()))
            h["units"] = draw(st.integers(1, 3))
            h["nominal"] = draw(st.one_of(st.none(), st.just(h["cap"])))
        hs.append(h)
    return {"b": b, "p": {"supply": supply, "storage": storage, "vol": b["daily"] * draw(st.one_of(num(0.2, 1.2), num(0.05, 0.3))), "heaters": hs,
                          "slope": draw(st.sampled_from([0.8, 0.8, 1.2])), "start": draw(num(0.2, pu))},
            "pu": pu, "gpm": gpm, "ret": supply - dret, "ts": draw(st.sampled_from([1, 1, 1, 5, 7, 10])), "start": draw(st.integers(0, 364)),
            "n": draw(st.integers(200, 1000))}


class Stop(Exception):
    """the balance is too ill-conditioned to follow from here on"""


class RefMP:
    def __init__(self, c, env, system):
        self.c, self.p, self.env, self.s = c, c["p"], env, system
        self.hs = [plants.RefHeater(h, env.design_inlet()) for h in self.p["heaters"]]
        self.m = RefSlug({"vol": self.p["vol"], "cold": env.design_inlet(), "hot": self.p["storage"], "slope": self.p["slope"], "pu": c["pu"],
                          "supply": self.p["supply"]})
        self.err, self.terr, self.verr = 0.0, 1e-6, 1e-9
        self.flips = self.steps = self.low = self.warm = self.slugdraw = 0

    def init(self, storage, cold, useable):
        self.m.init(useable)
        self.err = RTOL * max(self.m.E, 1.0)

    def pt(self):
        return self.verr / self.m.vol * 100 + 1e-6

    def span(self, f):
        """(low, high) temperature at height f, or None where the profile jumps"""
        m = self.m
        s0, s1 = bracket(m, self.err)
        lo, hi = m.profile(s0, f), m.profile(s1, f)
        if abs(f * 100 - m.cold_pct) < 1e-6:
            return None
        if m.on:
            if abs(f * 100 - m.top()) < 2 * self.pt() and not m.fullslug:
                return None
            if f * 100 > m.top() and abs((f - (m.sv - m.sv0) / m.vol) * 100 - m.cold_pct) < 2 * self.pt():
                return None
            t = self.terr + self.pt() * 2 * m.slope
            lo, hi = lo - t, hi + t
        return min(lo, hi) - 1e-5, max(lo, hi) + 1e-5

    def step(self, i, ts, rec, active):
        p, m, c = self.p, self.m, self.c
        what = f"step {i} ({ts} min)"
        d, oat, inlet, hour = self.env.at(i, ts, False)
        plants.common(rec, d, oat, inlet, hour, p, what)
        m.cold = inlet
        for h, a in zip(self.hs, active):
            k = h.ctrl(hour)
            sp = self.span(k["off_f"] if h.on else k["on_f"])
            self.flips += a != h.on
            if sp is None:
                h.was, h.on = h.on, a
                continue
            h.was = h.on
            mid = (sp[0] + sp[1]) / 2
            h.decide(lambda f: mid, hour, a, (sp[1] - sp[0]) / 2 + 1e-3, what)
        was = any(h.was for h in self.hs)
        now = any(h.on for h in self.hs)
        if now:
            self.activate()
        elif was:
            self.merge()
        q, kw, _ = plants.total(self.hs, oat, inlet, hour, pass_inlet=False)
        require_close(rec["heater_output_kbtuh"], q, f"{what}: heater output", 1e-7, 1e-7)
        require_close(rec["heater_power_in_kw"], kw, f"{what}: heater power", 1e-7, 1e-7)
        sp = self.span(1.0)
        if sp is None:
            raise Stop
        top, dtop = (sp[0] + sp[1]) / 2, (sp[1] - sp[0]) / 2
        if dtop < 5e-5 and abs(top - m.hot) < 5e-5:
            top, dtop = m.hot, 1e-9
        if dtop > 0.02:
            raise Stop
        want = p["supply"] if now else top
        require_close(rec["delivery_temp_f"], want, f"{what}: delivery temperature", 0, 1e-9 if now else dtop + 2e-5)
        self.low += top < p["supply"]
        g, mk = ref.mixing_valve(d, c["gpm"] * ts, inlet, p["supply"], c["ret"], top)
        gs = [ref.mixing_valve(d, c["gpm"] * ts, inlet, p["supply"], c["ret"], t) for t in (top - dtop, top + dtop)]
        dg, dm = max(abs(x[0] - g) for x in gs), max(abs(x[1] - mk) for x in gs)
        if dg > 0.01 * g + 1e-9 or dm > 0.5:
            raise Stop
        if m.on and m.sv > 0 and q > 0:
            r = q * 1000 * ts / 60 / ref.RHO_CP / m.sv
            m.st += r
            self.terr += r * self.verr / m.sv * 2 + 1e-9
            self.warm += 1
        if g > 0:
            self.draw(g, mk, dg, dm)
        self.err = max(self.err, RTOL * max(m.E, 1.0))
        if self.terr > 0.05 or self.verr > 1e-3 * m.vol:
            raise Stop
        self.compare(rec, what)
        self.anchor(rec)
        self.steps += 1

    def activate(self):
        m = self.m
        if m.on:
            return
        s0, s1 = bracket(m, self.err)
        xs = [max(m.cold_pct, min(100.0, (m.supply - m.cold) / m.slope - s)) for s in (s0, m.shift(), s1)]
        m.on, m.fullslug = True, False
        m.sv = m.sv0 = (xs[1] - m.cold_pct) / 100.0 * m.vol
        self.verr = (xs[0] - xs[2]) / 100.0 * m.vol + 1e-9 * m.vol
        if xs[0] > m.cold_pct:
            if m.sv < 100 * self.verr:
                raise Stop
            m.st = m.zone_mean(m.shift(), m.cold_pct, xs[1])
            self.terr = 1e-5 + abs(m.zone_mean(s1, m.cold_pct, xs[0]) - m.zone_mean(s0, m.cold_pct, xs[2])) + m.slope * 100 * self.verr / m.vol
        else:
            m.st, self.terr = m.cold, 1e-6

    def merge(self):
        m = self.m
        if not m.on:
            return
        s0, s1 = bracket(m, self.err)
        a0, a1 = m.above_btu(s0), m.above_btu(s1)
        m.E = m.above_btu(m.shift()) + max(0.0, m.sv * ref.RHO_CP * (m.st - m.cold))
        self.err = abs(a1 - a0) + self.verr * ref.RHO_CP * 2 * (abs(m.st - m.cold) + m.hot - m.cold) + self.terr * m.sv * ref.RHO_CP + RTOL * max(m.E, 1.0)
        m.on, m.sv, m.fullslug = False, 0.0, False

    def draw(self, g, mk, dg, dm):
        m = self.m
        if m.on:
            room = 0.0 if m.fullslug else max(0.0, m.max - m.sv)
            keep = m.sv - max(0.0, g - room)
            if abs(room - g) < 10 * (self.verr + dg) or abs(keep) < 10 * (self.verr + dg):
                raise Stop
            old = m.st
            m.st = mk if keep <= 0 else (keep * m.st + g * mk) / (keep + g)
            tot = g if keep <= 0 else keep + g
            self.terr += (self.verr + dg) / max(tot, 1e-9) * (abs(old - mk) + 1) * 2 + dm * g / max(tot, 1e-9)
            if g > room:
                m.sv, m.fullslug = m.max, True
                self.verr = 1e-9 * m.vol
            else:
                m.sv = keep + g
                self.verr += dg
            self.slugdraw += 1
            return
        lo_pct = max(0.0, 100.0 - min(g, m.vol) / m.vol * 100.0)
        s0, s1 = bracket(m, self.err)
        a = m.zone_mean(m.shift(), lo_pct, 100.0)
        m.E = max(0.0, m.E - g * ref.RHO_CP * max(0.0, a - mk))
        self.err += ref.RHO_CP * (g * (m.zone_mean(s1, lo_pct, 100.0) - m.zone_mean(s0, lo_pct, 100.0)) + dg * abs(a - mk) + g * dm)

    def compare(self, rec, what):
        m = self.m
        require(len(rec["tank_temps_f"]) == 6, f"{what}: {len(rec['tank_temps_f'])} tank temperatures")
        for k, f in enumerate(plants.NODES):
            sp = self.span(f)
            if sp is None:
                continue
            x = rec["tank_temps_f"][k]
            require(sp[0] <= x <= sp[1], f"{what}: tank temperature at {f}: got {x}, expected {sp[0]}..{sp[1]}")
        u = rec["usable_volume_supplyT_gal"]
        s = self.p["supply"]
        if m.on:
            if abs(m.st - s) > 2 * self.terr:
                w = (m.max - m.sv) + (m.sv if m.st >= s else 0.0)
                require_close(u, w, f"{what}: usable volume while heating", 1e-7, 2 * self.verr + 1e-7 * m.vol)
        else:
            s0, s1 = bracket(m, self.err)
            lo, hi = min(m.volume_at(s0, s), m.max), min(m.volume_at(s1, s), m.max)
            tol = 1e-7 * m.vol + 1e-5 / m.slope * m.vol / 100
            require(lo - tol <= u <= hi + tol, f"{what}: usable volume: got {u}, expected {lo}..{hi}")

    def anchor(self, rec):
        """Continue from what was observed, so that rounding does not build up over the history."""
        m, tank = self.m, self.s.storage_tank
        if m.on:
            if abs(tank.slug_temp_f - m.st) > self.terr + 1e-7:
                raise Violation(f"slug temperature {tank.slug_temp_f}, expected {m.st}")
            m.st, self.terr = tank.slug_temp_f, 1e-7
            if m.st < self.p["supply"] - 1e-6 and not m.fullslug:
                v = m.max - rec["usable_volume_supplyT_gal"]
                if abs(v - m.sv) <= 2 * self.verr + 1e-7 * m.vol and v > 0:
                    m.sv0 += v - m.sv if m.sv == m.sv0 else 0.0
                    m.sv = v
        else:
            for f in (0.99, 0.9, 0.75, 0.5, 0.3, 0.22):
                t = tank.get_temperature_at_fraction(f)
                if m.cold + 0.5 < t < m.hot - 0.5 and f * 100 > m.cold_pct:
                    e = m.energy_of_shift((t - m.cold) / m.slope - f * 100)
                    if abs(e - m.E) <= 3 * self.err and m.E <= m.cap():
                        m.E, self.err = e, RTOL * max(e, 1.0)
                    break


def mk(c):
    from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    p = c["p"]
    env = plants.Env(c["b"])
    tank = SlugOverlayTank(p["vol"], env.design_inlet(), p["storage"], p["supply"], c["pu"], p["slope"])
    return MultiPassRTPSystem(plants.mk_heaters(p, env.design_inlet()), tank, p["supply"], p["storage"], c["ret"], c["gpm"])


def check(c):
    env = plants.Env(c["b"])
    s = mk(c)
    m = RefMP(c, env, s)
    lab = []
    try:
        run(c, s, m)
    except plants.refmap.Near:
        raise Skip
    except Stop:
        lab.append("stopped early")
    lab += [k for k, v in (("tank below supply", m.low), ("slug heated", m.warm), ("slug drawn", m.slugdraw), ("all steps", m.steps >= c["n"] - 1)) if v]
    return m.flips >= 2 and m.steps >= 50, tuple(lab)


# ------------------------------------------------------------------ mixing valve
@st.composite
def valve_case(draw):
    supply = draw(num(100, 140))
    return {"load": draw(st.one_of(num(0, 200), st.just(0.0))), "flow": draw(st.one_of(num(0, 300), st.just(0.0))), "cold": draw(num(33, 90)),
            "supply": supply, "ret": supply - draw(st.one_of(num(0, 25), st.just(0.0))),
            "storage": supply + draw(st.one_of(num(-40, 60), num(0.01, 60), st.just(0.0)))}


def valve(c):
    from ecoengine.objects.dhwsystems.utils import mixing_valve_behavior
    r = mixing_valve_behavior(c["load"], c["flow"], c["cold"], c["supply"], c["ret"], c["storage"])
    g, t = r["storage_draw_gal"], r["inlet_temp_f"]
    load, flow = c["load"], c["flow"]
    sc = 1e-7 * (load + flow + 1) * 150
    require(-sc <= g <= load + flow + sc, f"{g} gal drawn for a load of {load} and {flow} gal of return flow")
    lo, hi = min(c["cold"], c["ret"]), max(c["cold"], c["ret"])
    require(lo - 1e-6 <= t <= hi + 1e-6, f"make-up at {t} F from {c['cold']} F water and a {c['ret']} F return")
    if c["storage"] > c["supply"]:
        # whatever leaves the tank minus what comes back in is exactly the load's and the loop's heat
        heat = g * (c["storage"] - t)
        want = load * (c["supply"] - c["cold"]) + flow * (c["supply"] - c["ret"])
        require_close(heat, want, "heat through the valve", 1e-7, sc)
        require(g <= load + flow + sc, "more water than flows through the valve")
    else:
        require_close(g, load + flow, "fully open valve", 1e-9, 1e-9)
        if g > 0:
            require_close(g * t, load * c["cold"] + flow * c["ret"], "make-up of a fully open valve", 1e-9, sc)
    return c["storage"] > c["supply"] and load + flow > 0, ("open",) if c["storage"] <= c["supply"] else ("tempering",)


SUBS = [
    Sub("mprtp", case(), check, quick=720, thorough=10000, shards=8),
    Sub("valve", valve_case(), valve, quick=2000, thorough=60000, shards=2),
]
