"""Reference performance maps: raw data files read directly, documented fallbacks re-stated."""
from __future__ import annotations

import functools
import json
import math
import os
import pickle
import warnings

import harness
from harness.ref import KBTUH_PER_KW as K

DIR = os.path.join(harness.SRC, "ecoengine", "data", "preformanceMaps")


@functools.lru_cache(None)
def registry():
    with open(os.path.join(DIR, "maps.json")) as f:
        return json.load(f)


def models():
    return sorted(registry())


@functools.lru_cache(None)
def raw(prefix):
    out = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for part in ("capacity_interpolator", "power_in_interpolator", "bounds"):
            with open(os.path.join(DIR, "pkls", f"{prefix}_{part}.pkl"), "rb") as f:
                out.append(pickle.load(f))
    return out


def quad(c, x):
    return sum(k * x ** i for i, k in enumerate(c[:3]))


class Near(Exception):
    """The case sits on a tie the data does not decide."""


class RefMap:
    def __init__(self, model, units=1, design_inlet=50.0, nominal=None):
        self.e = registry()[model]
        self.model, self.n, self.design_inlet, self.nominal = model, units, design_inlet, nominal

    @property
    def oat_min(self):
        if "pkl_prefix" not in self.e:
            return self.e["perfmap"][0]["T_F"]
        return raw(self.e["pkl_prefix"])[2][0][0]

    def query(self, oat, outlet, inlet=None):
        """(kBTU/hr output, kW input) of all units; also a label of the region."""
        inlet = self.design_inlet if inlet is None else inlet
        if "pkl_prefix" not in self.e:
            out, inp, lab = hpwhsim(self.e["perfmap"], oat, outlet, inlet, self.design_inlet,
                                    None if self.nominal is None else self.nominal / self.n, self.model.endswith("MP"))
            return out * self.n, inp / K * self.n, lab
        cap, pwr, b = raw(self.e["pkl_prefix"])
        if self.e.get("secondary_heat_exchanger"):
            inlet += self.e["hx_increase"]
            outlet += self.e["hx_increase"]
        inlet = min(inlet, b[2][1])
        oats = b[0]
        if oat >= oats[-1]:
            return b[3][0] * self.n * K, b[3][1] * self.n, "hot"

        def at(i, o, t):
            p = [i, t] if cap.points.shape[1] == 2 else [i, o, t]
            x, y = float(cap([p])[0][0]), float(pwr([p])[0][0])
            return None if math.isnan(x) or math.isnan(y) else (x, y)
        r, lab = at(inlet, outlet, oat), "inside"
        if r is None and oat < oats[0]:
            er = self.nominal / self.n / K if self.nominal is not None else b[4][0]
            r, lab = (er, er), "cold"
        if r is None:
            ds = sorted(abs(o - oat) for o in oats)
            if len(ds) > 1 and ds[1] - ds[0] < 1e-9:
                raise Near
            k = min(range(len(oats)), key=lambda j: abs(oats[j] - oat))
            rows = b[1][k]
            ins = [x[0] for x in rows]
            j = min((j for j in range(len(ins)) if ins[j] >= inlet), key=lambda j: ins[j], default=len(ins) - 1)
            r, lab = at(ins[j], outlet, oats[k]), "snap"
            if r is None:
                outs = rows[j][1]
                d = [abs(x - outlet) for x in outs]
                if len(set(d)) < len(d) or min(d) >= abs(oats[0] - outlet) - 1e-9:
                    raise Near
                so = outs[d.index(min(d))]
                r, lab = at(ins[j], so, oats[k]), "snap-outlet"
                if r is not None and so < outlet and outlet > ins[j]:
                    adj = r[0] * (outlet - so) / (outlet - ins[j])     # resistance make-up
                    r = (r[0] + adj, r[1] + adj)
        if r is None:
            er = self.nominal / self.n / K if self.nominal is not None else b[4][0]
            r, lab = (er, er / 1.5), "none"
        return r[0] * self.n * K, r[1] * self.n, lab


def hpwhsim(pm, oat, outlet, inlet, design_inlet, er_unit, multipass):
    """(kBTU/hr out, kBTU/hr in, label) per unit"""
    if len(pm) > 1:
        if oat < pm[0]["T_F"]:
            er = er_unit
            if er is None:
                er = max(0.0, max(0.0, quad(pm[0]["COP_coeffs"], design_inlet)) * quad(pm[0]["inputPower_coeffs"], design_inlet) / 1000 * K)
            return er, er, "cold"
        i = max(1, min(len(pm) - 1, next((j for j in range(len(pm)) if oat < pm[j]["T_F"]), len(pm) - 1)))
        a, b = pm[i - 1], pm[i]
        w = (oat - a["T_F"]) / (b["T_F"] - a["T_F"])
        f = lambda key: (1 - w) * quad(a[key], inlet) + w * quad(b[key], inlet)  # noqa: E731
        kw = f("inputPower_coeffs") / 1000
        return f("COP_coeffs") * kw * K, kw * K, "beyond" if oat > pm[-1]["T_F"] else "between"
    if multipass:
        x, y = oat, inlet
        terms = [1, x, y, x * x, y * y, x * y]
    else:
        x, o, y = oat, outlet, inlet
        terms = [1, x, o, y, x * x, o * o, y * y, x * o, x * y, o * y, x * o * y]
    g = lambda key: sum(k * t for k, t in zip(pm[0][key], terms))  # noqa: E731
    kw = g("inputPower_coeffs")
    return g("COP_coeffs") * kw * K, kw * K, "poly"
