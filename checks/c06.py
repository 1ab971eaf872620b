"""C06: sizing responds the right way when the problem changes (metamorphic)."""
from hypothesis import strategies as st

from checks.c05 import sizing_case, strat_factor
from harness import ref
from harness.core import Skip, Sub, require, require_close
from harness.gen import mk_building, mk_cmap, num, load_shape

PROPERTY = "C06"
RULE = ("Cases: pairs of sizing problems related by one change (scaled use, rotated day, fewer run hours, colder "
        "inlet, hotter storage, higher aquastat, defrost, split building, extra recirculation) for the no-recirc, "
        "parallel-loop and single-pass RTP plants.  Oracle: the exact relation between the two answers.  Non-trivial: "
        "storage > 0.5 % of daily use and the change is larger than 1 %.")

SYSTEMS = ["primary", "parallel", "sprtp"]


def size(c, kind):
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
    from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
    cmap = mk_cmap(c["cmap"]) if c["cmap"] else None
    kw = dict(max_daily_run_hr=c["run"], defrost_factor=c["defrost"], strat_slope=c["slope"],
              control_schedule=["normal"] * 24 if cmap else None, control_map=cmap)
    b = c.get("building") or mk_building(c)
    if kind == "primary":
        s = DHWSystem.from_size(b, c["supply"], c["storage"], **kw)
    elif kind == "parallel":
        s = ParallelLoopSystem.from_size(b, c["supply"], c["storage"], c["supply"] - 5.0, c["gpm"],
                                         c["supply"], c["supply"] + 8.0, **kw)
    else:
        s = SinglePassRTPSystem.from_size(b, c["supply"], c["storage"], c["supply"] - 5.0, c["gpm"], **kw)
    return s.get_minimum_capacity_kbtuh(), s.get_minimum_storage_storageT_gal()


@st.composite
def pair_case(draw):
    c = draw(sizing_case())
    c["gpm"] = draw(num(0.5, 20))
    c["sys"] = draw(st.sampled_from(SYSTEMS))
    c["change"] = draw(st.sampled_from(["scale", "rotate", "run", "inlet", "storage", "aquastat", "defrost",
                                        "split", "flow", "concentrate"]))
    c["k"] = draw(num(0.05, 0.95))
    c["r"] = draw(st.integers(1, 23))
    if strat_factor(c) < 0.05:
        c["cmap"] = None
    return c


def check_pair(c):
    sf = strat_factor(c)
    if sf < 0.02:
        raise Skip()
    sysk, ch, k = c["sys"], c["change"], c["k"]
    cap, vol = size(c, sysk)
    recirc = ref.recirc_loss_kbtuh(c["gpm"], c["supply"], c["supply"] - 5.0) * 24.0 / c["run"] / c["defrost"] \
        if sysk == "sprtp" else 0.0
    d = dict(c)
    tolv = 1e-6 * c["daily"] / sf
    rel = 1e-7

    def up(new, old, what, tol):
        require(new >= old - tol - rel * abs(old), f"{what} fell from {old} to {new}")

    if ch == "scale":
        d["daily"] = c["daily"] * (1 + 9 * k)
        cap2, vol2 = size(d, sysk)
        require_close(cap2 - recirc, (cap - recirc) * (1 + 9 * k), "capacity of a scaled load", rel, 1e-9)
        require_close(vol2, vol * (1 + 9 * k), "storage of a scaled load", rel, 10 * tolv)
    elif ch == "rotate":
        r = c["r"]
        d["peak"] = c["peak"][r:] + c["peak"][:r]
        cap2, vol2 = size(d, sysk)
        require_close(cap2, cap, "capacity of a rotated day", rel, 1e-9)
        require_close(vol2, vol, f"storage of a day rotated by {r} h", rel, tolv)
    elif ch == "run":
        d["run"] = c["run"] * (0.4 + 0.6 * k)
        cap2, vol2 = size(d, sysk)
        require_close(cap2, cap * c["run"] / d["run"], "capacity with fewer run hours", rel, 1e-9)
        up(vol, vol2, "storage with more run hours", tolv)
    elif ch == "inlet":
        d["inlet"] = c["inlet"] - 20 * k
        cap2, vol2 = size(d, sysk)
        up(cap2, cap, "capacity with colder inlet", 1e-9)
        require_close(cap2 - recirc, (cap - recirc) * (c["supply"] - d["inlet"]) / (c["supply"] - c["inlet"]),
                      "capacity with colder inlet", rel, 1e-9)
    elif ch == "storage":
        d["storage"] = c["storage"] + 20 * k
        cap2, vol2 = size(d, sysk)
        require_close(cap2, cap, "capacity with hotter storage", rel, 1e-9)
        up(vol, vol2, "storage with cooler setpoint", tolv)
    elif ch == "aquastat":
        if not c["cmap"] or "normal" not in c["cmap"]:
            raise Skip()
        n = dict(c["cmap"]["normal"])
        n["on_f"] = n["on_f"] * k
        d["cmap"] = dict(c["cmap"], normal=n)
        cap2, vol2 = size(d, sysk)
        require_close(cap2, cap, "capacity with a lower aquastat", rel, 1e-9)
        up(vol, vol2, "storage with a higher aquastat", tolv)
    elif ch == "defrost":
        d["defrost"] = c["defrost"] * (0.5 + 0.5 * k)
        cap2, vol2 = size(d, sysk)
        require_close(cap2, cap * c["defrost"] / d["defrost"], "capacity with more defrost", rel, 1e-9)
        require_close(vol2, vol, "storage with more defrost", rel, tolv)
    elif ch == "split":
        from ecoengine.objects.building.Building import Building
        from ecoengine.objects.building.ClimateZone import ClimateZone
        d["building"] = Building.from_building_type(
            [None, None], [c["daily"] * k, c["daily"] * (1 - k)],
            ClimateZone.from_design_conditions(50.0, c["inlet"]),
            custom_peak_load_shape=[c["peak"], c["peak"]])
        cap2, vol2 = size(d, sysk)
        require_close(cap2, cap, "capacity of a building split in two uses", 1e-6, 1e-9)
        require_close(vol2, vol, "storage of a building split in two uses", 1e-6, 10 * tolv)
    elif ch == "flow":
        d["gpm"] = c["gpm"] * (1 + k)
        cap2, vol2 = size(d, sysk)
        require_close(vol2, vol, "primary storage with more recirculation", rel, tolv)
        require_close(cap2 - cap, recirc * k, "added primary capacity for recirculation", 1e-6, 1e-6 * cap)
    elif ch == "concentrate":
        # moving use into the busiest hour never reduces the storage need of a steady plant
        h = max(range(24), key=lambda i: c["peak"][i])
        d["peak"] = [(1 - k) * p + (k if i == h else 0.0) for i, p in enumerate(c["peak"])]
        cap2, vol2 = size(d, sysk)
        require_close(cap2, cap, "capacity with the same daily use", rel, 1e-9)
        require(vol2 >= -1e-9, "negative storage")
        if vol <= tolv:                       # nothing needed before: need is the one-hour excess
            pass
        up(vol2, (d["peak"][h] - 1.0 / c["run"]) * c["daily"] / sf, "storage covers the busiest hour", tolv)
    return vol > 0.005 * c["daily"] and 0.01 < k, [f"{sysk}:{ch}"]


SUBS = [Sub("relations", pair_case(), check_pair, quick=4000, thorough=80000)]
