"""C14: energy-balance and slug tanks account for slug, stratified part and heat."""
from hypothesis import strategies as st

from harness import ref
from harness.core import Sub, require, require_close
from harness.gen import num

PROPERTY = "C14"
RULE = ("Cases: a tank (volume, slope, usable share, start) and a history of up to 30 operations (heat, add energy, draw at supply "
        "temperature, physical draw, recirculation, activate / heat / grow / deactivate the slug, re-initialise). Oracle: independent "
        "energy-to-profile model (bracketed by the stated bisection tolerance), slug heat balance, volume bounds, and energy before = "
        "energy after merging the slug. Non-trivial: at least 3 operations changed the stored heat with the ramp inside the tank (slug "
        "histories: at least one slug was heated or grown and merged back).")
FR = [0.0, 0.03, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 0.97, 1.0]
RTOL = 3e-6


def base(draw):
    vol = draw(st.one_of(num(30, 2500), num(30, 2500), num(5, 30), num(2500, 40000)))
    supply = draw(num(105, 130))
    return {"vol": vol, "slope": draw(st.one_of(st.sampled_from([0.8, 1.7, 2.8]), num(0.3, 6))), "supply": supply,
            "hot": supply + draw(num(2, 45)), "cold": draw(num(35, 75)), "useable": draw(num(0, 1)), "init": draw(st.integers(0, 3)) > 0}


@st.composite
def energy_history(draw):
    c = base(draw)
    cold = st.one_of(st.just(c["cold"]), st.just(c["cold"]), num(35, 75))
    full = c["vol"] * ref.RHO_CP * (c["hot"] - c["cold"])
    gal = st.one_of(num(0, c["vol"] * 0.1), num(0, c["vol"] * 1.3), st.just(0.0))
    kb = st.one_of(num(0, full / 1000), num(0, full / 20000), st.just(0.0), num(-5, 0))
    mins = st.sampled_from([1, 10, 60, 0.5])
    op = st.one_of(
        st.tuples(st.just("heat"), kb, mins, st.one_of(st.just(c["hot"]), num(30, 170))),
        st.tuples(st.just("add"), st.one_of(num(0, full * 0.4), num(-50, 0))),
        st.tuples(st.just("draw"), gal, cold, st.one_of(st.just(c["supply"]), num(60, 130))),
        st.tuples(st.just("phys"), gal, cold, st.booleans()),
        st.tuples(st.just("recirc"), num(0, c["vol"] * 0.05), num(70, 120), mins, st.booleans()),
        st.tuples(st.just("init"), num(c["supply"] + 1, c["supply"] + 50), cold, num(0, 1)),
    )
    c["ops"] = [list(o) for o in draw(st.one_of(st.lists(op, min_size=1, max_size=30), st.lists(op, min_size=8, max_size=30)))]
    return c


def bracket(m, err):
    E = max(0.0, min(m.E, m.cap()))
    return m.shift(E - err), m.shift(E + err)


def compare(t, m, err, what, supplies, cap_vol=None, draws=()):
    s0, s1 = bracket(m, err)
    prev = -1e9
    for f in FR:
        x = t.get_temperature_at_fraction(f)
        lo, hi = m.temp_at(s0, f), m.temp_at(s1, f)
        require(lo - 1e-5 <= x <= hi + 1e-5, f"temperature at {f} {what}: got {x}, expected {lo}..{hi}")
        require(x >= prev - 1e-9, f"colder above than below at {f} {what}")
        prev = x
    for s in supplies:
        u = t.get_usable_volume_supplyT_gal(s)
        lo, hi = m.volume_at(s0, s), m.volume_at(s1, s)
        if cap_vol is not None:
            lo, hi = min(lo, cap_vol), min(hi, cap_vol)
        tol = 1e-7 * m.vol + 1e-5 / m.slope * m.vol / 100
        require(lo - tol <= u <= hi + tol, f"volume above {s} F {what}: got {u}, expected {lo}..{hi}")
    for g in draws:
        a = t.get_average_draw_temp_f(g)
        if g <= 0:
            require_close(a, m.hot, f"draw temperature of no draw {what}")
            continue
        lo_pct = max(0.0, 100.0 - min(g, m.vol) / m.vol * 100.0)
        lo, hi = m.zone_mean(s0, lo_pct, 100.0), m.zone_mean(s1, lo_pct, 100.0)
        require(lo - 1e-5 <= a <= hi + 1e-5, f"mean temperature of the top {g} gal {what}: got {a}, expected {lo}..{hi}")


def check_energy(c):
    from ecoengine.objects.components.storage.EnergyTank import EnergyTank
    t = EnergyTank(c["vol"], c["cold"], c["hot"], c["slope"])
    m = ref.RefEnergy(c["vol"], c["cold"], c["hot"], c["slope"])
    if c["init"]:
        t.initialize(c["hot"], c["cold"], c["useable"])
        m.E = m.energy_of_shift((c["useable"] - 1) * 100)
    else:                      # a new tank holds no heat
        m.E = 0.0
    err = RTOL * max(m.E, 1.0)
    moved, inside = 0, False
    for i, o in enumerate([None] + c["ops"]):
        e0 = m.E
        if o is None:
            pass
        elif o[0] == "heat":
            t.heat(o[1], o[2], o[3])
            if o[1] > 0 and o[3] > m.cold:
                m.E = min(m.cap(), m.E + o[1] * 1000 * o[2] / 60)
        elif o[0] == "add":
            t.add_energy_btu(o[1])
            if o[1] > 0:
                m.E = min(m.cap(), m.E + o[1])
        elif o[0] == "draw":
            t.draw(o[1], o[2], o[3], m.hot)
            m.cold = o[2]
            if o[1] > 0 and o[3] > o[2]:
                m.E = max(0.0, m.E - o[1] * ref.RHO_CP * (o[3] - o[2]))
        elif o[0] == "phys":
            t.draw_physical_gal(o[1], o[2], c["supply"], update_internal_cold_temp=o[3])
            if o[3]:
                m.cold = o[2]
            if o[1] > 0:
                g = min(o[1], m.vol)
                lo_pct = max(0.0, 100.0 - g / m.vol * 100.0)
                s0, s1 = bracket(m, err)
                a0, a1 = m.zone_mean(s0, lo_pct, 100.0), m.zone_mean(s1, lo_pct, 100.0)
                m.E = max(0.0, m.E - o[1] * ref.RHO_CP * max(0.0, m.zone_mean(m.shift(), lo_pct, 100.0) - o[2]))
                err += o[1] * ref.RHO_CP * (a1 - a0)
        elif o[0] == "recirc":
            if o[4]:
                t.add_recirc_return(o[1], o[2], o[3], c["supply"])
            else:
                t.add_recirc_return(o[1], o[2], o[3])
            m.E = max(0.0, m.E - o[1] * o[3] * ref.RHO_CP * ((c["supply"] if o[4] else m.hot) - o[2]))
        else:
            t.initialize(o[1], o[2], o[3])
            m.hot, m.cold = o[1], o[2]
            m.E = m.energy_of_shift((o[3] - 1) * 100)
            err = 0.0
        if m.E > m.cap() * (1 + 1e-9) and o is not None and o[0] in ("draw", "phys"):
            pass          # warmer inlet shrank the cap: the profile shows a full tank
        err = max(err, RTOL * max(m.E, 1.0)) + 1e-9 * abs(m.E)
        moved += abs(m.E - e0) > 1e-6 * m.cap()
        inside = inside or (m.cold < m.temp_at(m.shift(), 0.6) < m.hot)
        compare(t, m, err, f"after op {i} {o}", (c["supply"], c["supply"] - 9.7, m.hot),
                draws=(0.0, 0.05 * c["vol"], 0.5 * c["vol"], c["vol"], 1.4 * c["vol"]))
    return moved >= 3 and inside


# --------------------------------------------------------------------------- slug overlay
@st.composite
def slug_history(draw):
    c = base(draw)
    c["pu"] = draw(st.one_of(num(0.4, 1.0), st.just(1.0)))
    c["useable"] = draw(num(0, c["pu"]))
    full = c["vol"] * ref.RHO_CP * (c["hot"] - c["cold"])
    gal = st.one_of(num(0, c["vol"] * 0.1), num(0, c["vol"] * 0.1), num(0, c["vol"] * 1.3), st.just(0.0))
    kb = st.one_of(num(0, full / 2000), num(0, full / 20000), num(-5, 0))
    mins = st.sampled_from([1, 10, 60])
    inlet = st.one_of(st.just(c["cold"]), num(35, 120))
    op = st.one_of(
        st.tuples(st.just("heat"), kb, mins),
        st.tuples(st.just("phys"), gal, inlet),
        st.tuples(st.just("phys"), gal, inlet),
        st.tuples(st.just("on")), st.tuples(st.just("on")), st.tuples(st.just("off")), st.tuples(st.just("off")),
        st.tuples(st.just("init"), num(0, 1)),
        st.tuples(st.just("warm"), st.one_of(num(0, 1.05), num(0.85, 1.0))),
        st.tuples(st.just("fill"), num(0.9, 1.1), inlet),
    )
    c["ops"] = [["on"]] + [list(o) for o in draw(st.one_of(st.lists(op, min_size=1, max_size=25), st.lists(op, min_size=8, max_size=25)))] + [["off"]]
    if draw(st.booleans()):
        c["ops"] = c["ops"][1:]
    return c


class RefSlug(ref.RefEnergy):
    def __init__(self, c):
        super().__init__(c["vol"], c["cold"], c["hot"], c["slope"], (1 - c["pu"]) * 100.0)
        self.supply, self.max = c["supply"], c["pu"] * c["vol"]
        self.on = False
        self.sv = self.sv0 = 0.0
        self.st = c["cold"]
        self.fullslug = False

    def init(self, useable):
        self.on, self.sv, self.st, self.fullslug = False, 0.0, self.cold, False
        if useable <= 0:
            self.E = 0.0
        else:
            sh = (self.supply - self.cold) / self.slope - (1 - useable) * 100.0
            self.E = max(0.0, min(self.cap(), self.energy_of_shift(sh)))

    def top(self):
        return 100.0 if self.fullslug else self.cold_pct + self.sv / self.vol * 100.0

    def profile(self, shift, f):
        if not self.on:
            return self.temp_at(shift, f)
        x = f * 100.0
        if x < self.cold_pct:
            return self.cold
        if x <= self.top():
            return max(self.cold, min(self.hot, self.st))
        return self.temp_at(shift, f - (self.sv - self.sv0) / self.vol)

    def above_btu(self, shift):
        """heat in the water above the slug (which slid up by the slug's growth)"""
        if self.top() >= 100.0:
            return 0.0
        g = (self.sv - self.sv0) / self.vol * 100.0
        lo, hi = self.top() - g, 100.0 - g
        return max(0.0, (hi - lo) / 100.0 * self.vol * ref.RHO_CP * self.mean_rise(shift, max(lo, 0.0), hi))


def check_slug(c):
    from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
    t = SlugOverlayTank(c["vol"], c["cold"], c["hot"], c["supply"], c["pu"], c["slope"])
    m = RefSlug(c)
    if c["init"]:
        t.initialize(c["hot"], c["cold"], c["useable"])
        m.init(c["useable"])
    else:
        m.E = 0.0
    err = RTOL * max(m.E, 1.0)
    terr = 1e-6          # slug temperature error
    verr = 1e-9          # slug volume error
    worked = merged = 0
    for i, o in enumerate([None] + c["ops"]):
        what = f"after op {i} {o}"
        if o is not None and o[0] == "warm":          # enough heat to bring the slug (or the tank) to a share of the full rise
            have, room = (m.st - m.cold, m.sv * ref.RHO_CP) if m.on else (m.E, 1.0)
            full = (m.hot - m.cold) if m.on else m.cap()
            o = ["heat", round(max(0.0, o[1] * full - have) * room / 1000, 6), 60]
        elif o is not None and o[0] == "fill":        # one draw of about the usable volume
            o = ["phys", round(o[1] * m.max, 3), o[2]]
        if o is None:
            pass
        elif o[0] == "init":
            t.initialize(c["hot"], c["cold"], o[1])
            m.init(o[1])
            err = RTOL * max(m.E, 1.0)
        elif o[0] == "on":
            t.activate_slug(c["supply"])
            if not m.on:
                s0, s1 = bracket(m, err)
                xs = [max(m.cold_pct, min(100.0, (m.supply - m.cold) / m.slope - s)) for s in (s0, m.shift(), s1)]
                m.on, m.fullslug = True, False
                m.sv = m.sv0 = (xs[1] - m.cold_pct) / 100.0 * m.vol
                verr = (xs[0] - xs[2]) / 100.0 * m.vol + 1e-9 * m.vol
                if xs[0] > m.cold_pct:
                    if m.sv < 100 * verr:
                        return False          # slug lost in rounding: nothing to compare
                    m.st = m.zone_mean(m.shift(), m.cold_pct, xs[1])
                    terr = 1e-5 + abs(m.zone_mean(s1, m.cold_pct, xs[0]) - m.zone_mean(s0, m.cold_pct, xs[2])) + \
                        m.slope * 100 * verr / m.vol
                else:
                    m.st, terr = m.cold, 1e-6
        elif o[0] == "off":
            t.deactivate_slug()
            if m.on:
                s0, s1 = bracket(m, err)
                a0, a1 = m.above_btu(s0), m.above_btu(s1)
                sb = max(0.0, m.sv * ref.RHO_CP * (m.st - m.cold))
                m.E = m.above_btu(m.shift()) + sb
                err = abs(a1 - a0) + verr * ref.RHO_CP * abs(m.st - m.cold) * 2 + terr * m.sv * ref.RHO_CP + \
                    verr * ref.RHO_CP * (m.hot - m.cold) * 2 + RTOL * max(m.E, 1.0)
                m.on, m.sv, m.fullslug = False, 0.0, False
                merged += 1
        elif o[0] == "heat":
            if m.on:
                t.heat_slug(o[1], o[2])
                if m.sv > 0 and o[1] > 0:
                    d = o[1] * 1000 * o[2] / 60 / ref.RHO_CP / m.sv
                    m.st += d
                    terr += d * verr / m.sv * 2
                    worked += 1
            else:
                t.heat(o[1], o[2], c["hot"])
                if o[1] > 0:
                    m.E = min(m.cap(), m.E + o[1] * 1000 * o[2] / 60)
        else:
            _, g, inlet = o
            if m.on:
                t.draw_physical_gal(g, inlet, c["supply"], update_internal_cold_temp=False)
                if g > 0:
                    room = max(0.0, m.max - m.sv)
                    if abs(room - g) < 10 * verr:
                        return False
                    if m.fullslug:
                        room = 0.0
                    keep = m.sv - max(0.0, g - room)
                    if abs(keep) < 10 * verr:
                        return False
                    m.st = inlet if keep <= 0 else (keep * m.st + g * inlet) / (keep + g)
                    terr += verr / max(keep + g, 1e-9) * 200
                    if g > room:
                        m.sv, m.fullslug = m.max, True
                    else:
                        m.sv = keep + g
                    worked += 1
            else:
                t.draw_physical_gal(g, inlet, c["supply"], update_internal_cold_temp=False)
                if g > 0:
                    lo_pct = max(0.0, 100.0 - min(g, m.vol) / m.vol * 100.0)
                    s0, s1 = bracket(m, err)
                    m.E = max(0.0, m.E - g * ref.RHO_CP * max(0.0, m.zone_mean(m.shift(), lo_pct, 100.0) - inlet))
                    err += g * ref.RHO_CP * (m.zone_mean(s1, lo_pct, 100.0) - m.zone_mean(s0, lo_pct, 100.0))
        err = max(err, RTOL * max(m.E, 1.0))
        require(t.is_slug_active() == m.on, f"slug active = {t.is_slug_active()} {what}")
        if terr > 0.05 or verr > 1e-3 * m.vol:
            return False
        u = t.get_usable_volume_supplyT_gal(c["supply"])
        require(-1e-6 * m.vol <= u <= m.max * (1 + 1e-9), f"usable volume {u} outside the usable part {m.max} {what}")
        if not m.on:
            if m.E > m.cap():
                # merged slug hotter than storage: shown as a full tank
                pass
            compare(t, m, err, what, (c["supply"], c["supply"] - 9.7), cap_vol=m.max, draws=(0.05 * c["vol"], 0.5 * c["vol"]))
            continue
        require_close(t.slug_temp_f, m.st, f"slug temperature {what}", 1e-7, terr)
        if abs(m.st - c["supply"]) > terr * 2:
            want = (m.max - m.sv) + (m.sv if m.st >= c["supply"] else 0.0)
            require_close(u, want, f"usable volume with slug {what}", 1e-7, verr * 2 + 1e-7 * m.vol)
        s0, s1 = bracket(m, err)
        pt = verr / m.vol * 100 + 1e-6
        for f in FR:
            if abs(f * 100 - m.top()) < 2 * pt or abs(f * 100 - m.cold_pct) < 1e-6:
                continue
            if f * 100 > m.top() and abs((f - (m.sv - m.sv0) / m.vol) * 100 - m.cold_pct) < 2 * pt:
                continue
            x = t.get_temperature_at_fraction(f)
            lo, hi = m.profile(s0, f), m.profile(s1, f)
            tol = terr + pt * 2 * m.slope + 1e-5
            require(lo - tol <= x <= hi + tol, f"temperature at {f} with slug {what}: got {x}, expected {lo}..{hi}")
        if m.sv == m.sv0 and m.top() < 99.5:
            g = (100 - m.top()) / 100 * m.vol * 0.6
            lo_pct = 100.0 - g / m.vol * 100.0
            a = t.get_average_draw_temp_f(g)
            lo, hi = m.zone_mean(s0, lo_pct, 100.0), m.zone_mean(s1, lo_pct, 100.0)
            require(lo - 1e-4 <= a <= hi + 1e-4, f"mean temperature of the top {g} gal with slug {what}: got {a}, expected {lo}..{hi}")
            # a draw that reaches into the slug
            g = above = (100 - m.top()) / 100 * m.vol
            g += 0.4 * m.sv
            lo, hi = ((above * m.zone_mean(s, m.top(), 100.0) + (g - above) * m.st) / g for s in (s0, s1))
            a = t.get_average_draw_temp_f(g)
            tol = 1e-4 + terr + 2 * verr / max(g, 1e-9) * abs(m.hot - m.cold)
            if m.sv > 100 * verr:
                require(lo - tol <= a <= hi + tol, f"mean temperature of the top {g} gal, slug included, {what}: got {a}, expected {lo}..{hi}")
    return worked > 0 and merged > 0


SUBS = [
    Sub("energy", energy_history(), check_energy, quick=2400, thorough=25000, shards=8),
    Sub("slug", slug_history(), check_slug, quick=4800, thorough=50000, shards=8),
]
