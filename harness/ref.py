"""Independent reference models (oracles).

Nothing here imports the code under test.  Units as in the package: gallons,
degrees F, kBTU/hr, kW.
"""
from __future__ import annotations

import math
from statistics import NormalDist

RHO_CP = 8.353535            # BTU / (gal F)
KBTUH_PER_KW = 3.412142

DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def month_of_day(doy):
    """0-based month of a 0-based day of year."""
    for m, d in enumerate(DAYS):
        if doy < d:
            return m
        doy -= d
    raise ValueError(doy)


MONTH_OF_HOUR = [month_of_day(h // 24) for h in range(8760)]


# ---------------------------------------------------------------------------
# Sizing
# ---------------------------------------------------------------------------

def usable_gal_per_100(on_fract, on_temp, slope, inlet, supply, storage):
    """Supply-temperature gallons a 100 gal tank can deliver from the water above
    the sensor, when the sensor at on_fract reads on_temp: exact integral of the
    piecewise-linear profile, blended down to supply temperature."""
    on = on_fract * 100.0
    x_supply = max(on, on + (supply - on_temp) / slope)
    if x_supply >= 100.0:
        return 0.0
    x_full = on + (storage - on_temp) / slope
    pts = [x_supply]
    if x_supply < x_full < 100.0:
        pts.append(x_full)
    pts.append(100.0)

    def temp(x):
        return min(storage, on_temp + (x - on) * slope)

    tot = 0.0
    for a, b in zip(pts, pts[1:]):
        tot += (b - a) * ((temp(a) + temp(b)) / 2.0 - inlet)
    return tot / (supply - inlet)


def worst_deficit(demand, gen):
    """Largest net volume withdrawn over any contiguous window (<= 24 h) of the
    repeating day."""
    n = len(demand)
    worst = 0.0
    for s in range(n):
        acc = 0.0
        for k in range(n):
            h = (s + k) % n
            acc += demand[h] - gen[h]
            if acc > worst:
                worst = acc
    return worst


def capacity_kbtuh(gph, dT, defrost):
    return gph * RHO_CP * dT / defrost / 1000.0


def size_primary(daily, peak, run_hr, supply, storage, inlet, defrost, slope, normal=None):
    """normal = (on_fract, on_trigger) or None."""
    gph = daily / run_hr
    cap = capacity_kbtuh(gph, supply - inlet, defrost)
    run = worst_deficit([daily * p for p in peak], [gph] * 24)
    on_f, on_t = normal if normal else (0.0, supply)
    sf = usable_gal_per_100(on_f, on_t, slope, inlet, supply, storage) / 100.0
    return cap, run / sf


def first_shed_block(schedule):
    h = 0
    while h < 24 and schedule[h] != "shed":
        h += 1
    if h == 24:
        return None
    e = h
    while e < 24 and schedule[e] == "shed":
        e += 1
    lu = 0
    while h - 1 - lu >= 0 and schedule[h - 1 - lu] == "loadUp":
        lu += 1
    return h, e, lu           # shed hours [h, e), lu load-up hours right before


def _strat_pct(on_fract, on_temp, slope, supply, storage):
    """Useful (above-supply) height-temperature area above the on sensor, as a
    fraction of the whole tank."""
    on = on_fract * 100
    xs = max(on, on + (supply - on_temp) / slope)
    xf = min(100.0, on + (storage - on_temp) / slope)
    dT = storage - supply
    area = (100 - xf) * dT + (xf - xs) * dT / 2
    return area / ((100 - on) * dT) * (1 - on_fract)


def ls_band(cmap, slope, inlet, supply, storage):
    lu = cmap.get("loadUp", cmap["normal"])
    sh = cmap["shed"]
    a = usable_gal_per_100(lu["off_f"], lu["off_t"], slope, inlet, supply, storage)
    b = usable_gal_per_100(sh["on_f"], sh["on_t"], slope, inlet, supply, storage)
    return (a - b) / 100.0


def ls_gen_rate(daily_for_rate, vshift, vlu, lu_hours, run_hr, cmap, slope, supply, storage):
    normal_rate = daily_for_rate / run_hr
    if lu_hours == 0:
        return normal_rate
    p = {}
    for k in ("normal", "loadUp", "shed"):
        c = cmap.get(k, cmap["normal"])
        p[k] = _strat_pct(c["on_f"], c["on_t"], slope, supply, storage)
    band = p["loadUp"] - p["shed"]
    if band <= 0:
        return normal_rate
    vload = vshift * (p["loadUp"] - p["normal"]) / band
    return max(normal_rate, (vload + vlu) / lu_hours)


def deficit_after(demand, gen, start):
    """Worst running deficit of the doubled day beginning at `start`."""
    d2 = list(demand) * 2
    g2 = list(gen) * 2
    acc = 0.0
    worst = 0.0
    for h in range(start, 48):
        acc += g2[h] - d2[h]
        worst = min(worst, acc)
    return -worst


def size_load_shift(daily, peak, avg, run_hr, supply, storage, inlet, defrost, slope,
                    schedule, cmap, fract, recirc_kbtuh=0.0, recirc_in_ls=False):
    """(normal cap, normal vol, ls cap, ls vol, final cap, final vol) for the storage
    systems with a stratified primary.  recirc_kbtuh > 0: return-to-primary."""
    run_hr = min(run_hr, float(sum(1 for s in schedule if s != "shed")))
    n = cmap["normal"]
    cap, vol = size_primary(daily, peak, run_hr, supply, storage, inlet, defrost, slope,
                            (n["on_f"], n["on_t"]))
    rc = recirc_kbtuh * 24.0 / run_hr / defrost
    cap += rc
    blk = first_shed_block(schedule)
    if blk is None:
        return None
    h0, h1, lu = blk
    d_ls = daily
    if recirc_in_ls:   # single-pass RTP: recirculation load is part of the shifted load
        d_ls = daily + recirc_kbtuh * 1000.0 / (RHO_CP * (supply - inlet)) * 24.0
    vshift = sum(avg[h] for h in range(h0, h1)) * d_ls * fract
    vlu = sum(avg[h] for h in range(h0 - lu, h0)) * d_ls
    g = ls_gen_rate(d_ls, vshift, vlu, lu, run_hr, cmap, slope, supply, storage)
    ls_cap = capacity_kbtuh(g, supply - inlet, defrost) + rc
    gen = [0.0 if s == "shed" else g for s in schedule]
    deficit = deficit_after([d_ls * a for a in avg], gen, h1)
    ls_vol = (deficit * fract + vshift) / ls_band(cmap, slope, inlet, supply, storage)
    return cap, vol, ls_cap, ls_vol, max(cap, ls_cap), max(vol, ls_vol)


_LS_DIST = NormalDist(0.7052988591269841, 0.08236427664525116)


def load_shift_fraction(p):
    if p >= 1.0:
        return 1.0
    return min(1.0, _LS_DIST.inv_cdf(p))


# --- temperature maintenance -------------------------------------------------

def recirc_loss_kbtuh(gpm, supply, ret):
    return gpm * 60.0 * RHO_CP * (supply - ret) / 1000.0


SWING_TABLE = [40, 50, 80, 100, 120, 160, 175, 240, 350, 400, 500, 600, 800, 1000, 1250]
SWING_TABLE_CA = [80, 96, 168, 288, 480]


def swing_tm(gpm, supply, ret, sf, daily, peak):
    loss = recirc_loss_kbtuh(gpm, supply, ret)
    need = max(loss * 1000.0 / (100.0 * KBTUH_PER_KW), daily * max(peak) / 60.0)
    if need > SWING_TABLE[-1]:
        raise ValueError("too large")
    vol = next(v for v in SWING_TABLE if v >= need)
    ca = next((v for v in SWING_TABLE_CA if v >= need), 480) if vol < 480 else 480.0
    return vol, ca, sf * loss, need


class SwingModel:
    """Minute model of a swing tank fed with storage-temperature water."""

    def __init__(self, vol, cap_kbtuh, loss_kbtuh, supply, storage, inlet):
        self.vol = vol
        self.supply, self.storage, self.inlet = supply, storage, inlet
        self.loss_dT = loss_kbtuh * 1000 / 60 / (RHO_CP * vol)
        self.el_dT = cap_kbtuh * 1000 / 60 / (RHO_CP * vol)

    def volumes(self, demand_min):
        """Water drawn from the primary, minute by minute."""
        t = self.supply + 0.1
        on = False
        out = [demand_min[0]]
        for d in demand_min[1:]:
            w = d * (self.supply - self.inlet) / (t - self.inlet) if t > self.inlet else d
            out.append(w)
            if w > 0:
                if self.vol - w <= 0:
                    raise ValueError("undersized")
                t = (w * self.storage + t * (self.vol - w)) / self.vol
            t -= self.loss_dT
            if on:
                t += self.el_dT
                if t > self.supply + 8.0:
                    over = min(t - (self.supply + 8.0), self.el_dT)
                    t -= over
                    on = False
            elif t <= self.supply:
                t += min(self.supply - t, self.el_dT)
                on = True
            if t < self.supply - 1e-9:
                raise ValueError("below supply")
        return out


def _minutes(hourly):
    return [v / 60.0 for v in hourly for _ in range(60)]


def swing_primary(daily, peak, run_hr, sm: SwingModel):
    """(running volume at supply T, effective mix fraction)"""
    diff = [1.0 / run_hr - p for p in peak]
    starts = {i for i in range(24) if diff[i - 1] >= 0 and diff[i] < 0}
    margin = min(abs(d) for d in diff)
    starts |= {i + 1 for i in starts if i + 1 < 24}
    best, mix = 0.0, 1.0
    for s in sorted(starts):
        dem = _minutes([daily * peak[(s + k) % 24] for k in range(24)])
        w = sm.volumes(dem)
        m = sum(w) / daily
        g = daily / run_hr / 60.0 * m
        acc = worst = 0.0
        for x in w:
            acc += g - x
            worst = min(worst, acc)
        if -worst > best:
            best, mix = -worst, m
    scale = (sm.storage - sm.inlet) / (sm.supply - sm.inlet)
    return best * scale, mix, margin


def swing_size(daily, peak, avg, run_hr, supply, storage, inlet, defrost, slope, gpm, ret, sf,
               normal=None, schedule=None, cmap=None, fract=1.0):
    vol, ca, tmcap, need = swing_tm(gpm, supply, ret, sf, daily, peak)
    sm = SwingModel(vol, tmcap, recirc_loss_kbtuh(gpm, supply, ret), supply, storage, inlet)
    ls = schedule is not None and cmap is not None and "shed" in cmap
    if ls:
        run_hr = min(run_hr, float(sum(1 for s in schedule if s != "shed")))
    runv, mix, margin = swing_primary(daily, peak, run_hr, sm)
    on_f, on_t = normal if normal else (0.0, supply)
    v = runv / (usable_gal_per_100(on_f, on_t, slope, inlet, supply, storage) / 100.0)
    cap = capacity_kbtuh(daily * mix / run_hr, storage - inlet, defrost)
    out = {"tm_vol": vol, "tm_ca": ca, "tm_cap": tmcap, "need": need, "mix": mix,
           "margin": margin, "cap": cap, "vol": v, "cap_normal": cap, "vol_normal": v}
    if ls:
        h0, h1, lu = first_shed_block(schedule)
        raw = daily * sum(avg[h] for h in range(h0, h1))
        wsh = sm.volumes(_minutes([daily * avg[h] for h in range(h0, h1)]))
        vshift = (sum(wsh) if raw > 0 else 0.0) * fract
        vlu = daily * sum(avg[h] for h in range(h0 - lu, h0))
        if lu > 0 and vlu > 0:
            vlu = sum(sm.volumes(_minutes([daily * avg[h] for h in range(h0 - lu, h0)])))
        g = ls_gen_rate(daily * mix, vshift, vlu, lu, run_hr, cmap, slope, supply, storage)
        lcap = capacity_kbtuh(g, storage - inlet, defrost)
        dem = _minutes([daily * avg[(h1 + k) % 24] for k in range(24)])
        w = sm.volumes(dem)
        gen = _minutes([0.0 if schedule[(h1 + k) % 24] == "shed" else g for k in range(24)])
        acc = worst = 0.0
        for x, gg in zip(w, gen):
            acc += gg - x
            worst = min(worst, acc)
        rv = (-worst + vshift) * (storage - inlet) / (supply - inlet)
        lvol = rv / ls_band(cmap, slope, inlet, supply, storage)
        out.update(cap_ls=lcap, vol_ls=lvol, cap=max(cap, lcap), vol=max(v, lvol))
    return out


# --- multi-pass RTP -----------------------------------------------------------

def mixing_valve(load, flow, cold, supply, ret, storage):
    if storage <= supply:          # fully open
        return load + flow, (load * cold + flow * ret) / (load + flow) if load + flow > 0 else cold
    crit = flow * (supply - ret) / (storage - supply)
    if load > crit:
        return (load * (supply - cold) + flow * (supply - ret)) / (storage - cold), cold
    draw = (load + flow) * (supply - ret) / (storage - ret)
    return draw, (load * cold + (draw - load) * ret) / draw if draw > 0 else cold


def avg_hot_temp(on_fract, on_temp, slope, supply, storage):
    """Mean temperature of the water at or above supply temperature."""
    on = on_fract * 100.0
    xs = on + (supply - on_temp) / slope
    xf = on + (storage - on_temp) / slope
    if xs >= 100.0:
        return supply
    top = storage if xf <= 100.0 else on_temp + (100.0 - on) * slope
    bot = supply if xs >= 0 else on_temp - on * slope
    lo, hi = max(0.0, xs), min(100.0, xf)
    tr = hi - lo
    hot = max(0.0, 100.0 - xf)
    if tr + hot <= 0:
        return supply
    return (tr * (top + bot) / 2.0 + hot * storage) / (tr + hot)


def mprtp_running(daily, peak, cap, cold, supply, ret, gpm, storage, out_t):
    """Largest slug over two design days (each minute draw grows it, heat warms it,
    it is released once at storage temperature)."""
    v, t, biggest = 0.0, cold, 0.0
    near = float("inf")
    heat_f_gal = cap * 1000.0 / 60.0 / RHO_CP
    for m in range(2880):
        d = daily * peak[(m // 60) % 24] / 60.0
        draw, tin = mixing_valve(d, gpm, cold, supply, ret, out_t)
        if draw > 0:
            t = tin if v <= 0 else (v * t + draw * tin) / (v + draw)
            v += draw
        if v > 0:
            t += heat_f_gal / v
            near = min(near, abs(t - storage))
            if t >= storage:
                v, t = 0.0, cold
        biggest = max(biggest, v)
    return biggest, near


# ---------------------------------------------------------------------------
# Tanks
# ---------------------------------------------------------------------------

class RefStratified:
    """Linear thermocline T(x) = slope*x + b clipped to [cold, hot]; moving water by
    g gallons moves the line by slope*100*g/volume."""

    def __init__(self, vol, slope):
        self.vol, self.slope = vol, slope
        self.b = 0.0
        self.cold, self.hot = 50.0, 140.0

    def init(self, hot, cold, useable):
        self.hot, self.cold = hot, cold
        self.b = cold - self.slope * (1.0 - useable) * 100.0

    def temp(self, f):
        return max(self.cold, min(self.hot, self.slope * 100.0 * f + self.b))

    def usable(self, supply):
        x = (supply - self.b) / self.slope
        return (100.0 - max(0.0, min(100.0, x))) / 100.0 * self.vol

    def _move(self, gal):
        self.b += self.slope * 100.0 * gal / self.vol

    def mean_top(self, gal):
        """Mean temperature of the top `gal` gallons: trapezoid over breakpoints."""
        gal = min(gal, self.vol)
        if gal <= 0:
            return self.hot
        lo = 100.0 - 100.0 * gal / self.vol
        if lo >= 100.0:
            return self.hot
        pts = sorted({lo, 100.0,
                      *[min(100.0, max(lo, (T - self.b) / self.slope)) for T in (self.cold, self.hot)]})
        tot = 0.0
        for a, c in zip(pts, pts[1:]):
            tot += (c - a) * (self.temp(a / 100.0) + self.temp(c / 100.0)) / 2.0
        return tot / (100.0 - lo)

    def _floor(self, t):
        self.b = max(self.b, t - self.slope * 100.0)

    def draw(self, gal, cold, supply, hot):
        self.cold, self.hot = cold, hot
        if hot <= cold or gal <= 0:
            return
        phys = gal * (supply - cold) / (hot - cold)
        if self.mean_top(phys) < hot - 1e-6:
            lo, hi = phys, self.vol
            for _ in range(80):
                mid = (lo + hi) / 2
                if mid * max(0.0, self.mean_top(mid) - cold) / (supply - cold) < gal:
                    lo = mid
                else:
                    hi = mid
            phys = min((lo + hi) / 2, self.vol)
        self._move(-phys)
        self._floor(supply)

    def draw_physical(self, gal, cold, supply=None):
        self.cold = cold
        if gal > 0:
            self._move(-gal)
            self._floor(supply if supply is not None else cold)

    def heat(self, kbtuh, minutes, hot):
        self.hot = hot
        if kbtuh <= 0 or hot <= self.cold:
            return
        self._move(kbtuh * 1000.0 * minutes / 60.0 / (RHO_CP * (hot - self.cold)))
        self.b = min(self.b, hot)

    def recirc(self, gpm, ret, minutes, supply):
        if self.hot <= self.cold:
            return
        self._move(-gpm * minutes * (supply - ret) / (self.hot - self.cold))

    def energy_above(self, t_ref):
        """Heat content relative to t_ref, BTU (exact)."""
        pts = sorted({0.0, 100.0, *[min(100.0, max(0.0, (T - self.b) / self.slope))
                                    for T in (self.cold, self.hot)]})
        tot = 0.0
        for a, c in zip(pts, pts[1:]):
            tot += (c - a) / 100.0 * ((self.temp(a / 100) + self.temp(c / 100)) / 2 - t_ref)
        return tot * self.vol * RHO_CP


class RefMixed:
    def __init__(self, vol, t=0.0):
        self.vol, self.t = vol, t

    def replace(self, gal, t_in):
        """Push `gal` at t_in in, the same amount of mixed water out."""
        if gal <= 0:
            return
        f = min(1.0, gal / self.vol)
        self.t = (1 - f) * self.t + f * t_in

    def add_kbtu(self, kbtu):
        self.t += kbtu * 1000.0 / (self.vol * RHO_CP)


class RefEnergy:
    """Energy-balance tank: the stored heat E (BTU above cold, in the part of the tank
    above cold_pct) fixes the position of a ramp clipped to [cold, hot]."""

    def __init__(self, vol, cold, hot, slope, cold_pct=0.0):
        self.vol, self.cold, self.hot, self.slope, self.cold_pct = vol, cold, hot, slope, cold_pct
        self.E = 0.0

    def cap(self):
        return (100.0 - self.cold_pct) / 100.0 * self.vol * RHO_CP * max(0.0, self.hot - self.cold)

    def _F(self, y):
        """integral of clip(slope*u, 0, dT) for u from -infinity to y"""
        if y <= 0:
            return 0.0
        dT = self.hot - self.cold
        r = dT / self.slope
        return self.slope * y * y / 2 if y < r else self.slope * r * r / 2 + dT * (y - r)

    def mean_rise(self, shift, lo, hi):
        """mean of clip(slope*(x+shift), 0, dT) over [lo, hi]"""
        if hi - lo < 1e-9:
            return min(self.hot - self.cold, max(0.0, self.slope * (lo + shift)))
        return (self._F(hi + shift) - self._F(lo + shift)) / (hi - lo)

    def energy_of_shift(self, shift):
        return self.mean_rise(shift, self.cold_pct, 100.0) * (100.0 - self.cold_pct) / 100.0 * self.vol * RHO_CP

    def shift(self, E=None):
        E = self.E if E is None else E
        dT = self.hot - self.cold
        if E <= 0:
            return -100.0
        top = dT / self.slope
        if E >= self.cap():
            return top
        key = (E, self.cold, self.hot)
        memo = self.__dict__.setdefault("_memo", {})
        if key in memo:
            return memo[key]
        lo, hi = -100.0, top
        k = self.vol * RHO_CP / 100.0
        for _ in range(60):
            mid = (lo + hi) / 2
            if (self._F(100.0 + mid) - self._F(self.cold_pct + mid)) * k < E:
                lo = mid
            else:
                hi = mid
        if len(memo) > 20:
            memo.clear()
        memo[key] = (lo + hi) / 2
        return memo[key]

    def temp_at(self, shift, f):
        x = f * 100.0
        if x < self.cold_pct:
            return self.cold
        return max(self.cold, min(self.hot, self.cold + self.slope * (x + shift)))

    def volume_at(self, shift, supply):
        x = (supply - self.cold) / self.slope - shift
        return (100.0 - max(0.0, min(100.0, x))) / 100.0 * self.vol

    def zone_mean(self, shift, lo, hi):
        """profile of the clipped ramp (without the dead bottom zone)"""
        return self.cold + self.mean_rise(shift, max(lo, 0.0), hi)


# --- swing ER trade-off ---------------------------------------------------------
def er_shortfall(daily, peak, run_hr, supply, storage, inlet, gpm, ret, cap, vol, tm_vol, tm_cap):
    """(largest one-minute temperature shortfall of the swing tank over two peak days, knife-edge margin)"""
    diff = [1.0 / run_hr - p for p in peak]
    starts = [i for i in range(24) if diff[i - 1] >= 0 and diff[i] < 0]
    margin = min(abs(d) for d in diff)
    s0 = starts[0] if starts else 0
    g = cap * 1000.0 / (RHO_CP * (storage - inlet)) / 60.0
    loss = recirc_loss_kbtuh(gpm, supply, ret) * 1000.0 / 60.0 / (RHO_CP * tm_vol)
    el = tm_cap * 1000.0 / 60.0 / (RHO_CP * tm_vol)
    worst = 0.0
    for level in (0.0, vol):
        t, on = supply, False
        for m in range(48 * 60):
            d = daily * peak[(s0 + m // 60) % 24] / 60.0
            w = d * (supply - inlet) / (t - inlet) if t > inlet else d
            hot = level + g
            if w > 0:
                if w >= tm_vol:
                    raise ValueError("undersized")
                x = min(w, hot)                       # hot water of the primary, the rest comes in cold
                t += (x * storage + (w - x) * inlet - w * t) / tm_vol
            level = min(max(hot - w, 0.0), vol)
            t -= loss
            if on:
                t += el
                if t > supply + 8.0:
                    t -= min(t - supply - 8.0, el)
                    on = False
            elif t <= supply:
                t += min(supply - t, el)
                on = True
            if t < supply:
                worst = max(worst, supply - t)
                t = supply
    return worst, margin


def er_kbtuh(shortfall, tm_vol, safety):
    return tm_vol * RHO_CP * 60.0 * shortfall / 1000.0 * safety
