"""Mutation survey (development tool, not a check).

    python3 tools/mutate.py gen N SEED          sample N small source changes, keep those the repository's tests do not notice
    python3 tools/mutate.py run [FILE-SUBSTR]   run the checks of the changed file against every kept change

State lives in /tmp/mut (survivors.json, results.json); all work happens in scratch copies, /repo is never touched.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import ROOT, scratch, sh, tests_pass   # noqa: E402

SRC = "src/ecoengine/"
ST = "/tmp/mut"
CHECKS = {
    "building/Building.py": ["C01", "C02", "C03", "C27"], "building/ClimateZone.py": ["C04", "C30"],
    "building/UtilityCostTracker.py": ["C17", "C18"],
    "dhwsystems/DHWSystem.py": ["C05", "C08", "C07", "C06", "C11", "C23", "C29", "C28", "C27", "C25", "C19"],
    "dhwsystems/InstantWHSystem.py": ["C31", "C27"], "dhwsystems/utils.py": ["C24"],
    "recirc_systems/RecircSystem.py": ["C09", "C22", "C29"], "recirc_systems/ParallelLoopSystem.py": ["C09", "C22", "C29", "C27", "C25"],
    "recirc_systems/SwingSystem.py": ["C10", "C22", "C08", "C07", "C29", "C27", "C25"],
    "recirc_systems/SwingERTrdOffSystem.py": ["C29", "C26", "C27"],
    "rtp_systems/RTPSystem.py": ["C11", "C23"], "rtp_systems/SinglePassRTPSystem.py": ["C11", "C23", "C08", "C29", "C27", "C25"],
    "rtp_systems/MultiPassRTPSystem.py": ["C11", "C24", "C07", "C29", "C27", "C25"],
    "storage/StratifiedTank.py": ["C12", "C23"], "storage/MixedStorageTank.py": ["C13", "C22"],
    "storage/EnergyTank.py": ["C14", "C24"], "storage/SlugOverlayTank.py": ["C14", "C24"], "storage/StorageTank.py": ["C12", "C13"],
    "heating/WaterHeater.py": ["C21", "C16", "C23", "C25"], "heating/Controls.py": ["C21"], "heating/PerformanceMap.py": ["C16", "C30"],
    "simulation/SimulationRun.py": ["C20", "C18", "C28"], "interfaces/Simulator.py": ["C20", "C19"],
    "interfaces/EcosizerEngine.py": ["C30", "C28", "C25"],
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//"}


def sites(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))
    raw = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def add(n, new, kind):
        a, b = span(n)
        out.append((a, b, new, kind, n.lineno))

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef,)):
            fn = n.name
            for d in n.args.defaults:
                visit(d, fn)
            body = n.body[1:] if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str) else n.body
            for s in body:
                visit(s, fn)
            return
        for c in ast.iter_child_nodes(n):
            visit(c, fn)

    def visit(n, fn):
        if isinstance(n, (ast.Raise, ast.JoinedStr, ast.Import, ast.ImportFrom)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            return
        if isinstance(n, ast.AnnAssign) and n.value is None:
            return
        if fn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                o = n.ops[0]
                add(n, f"({text(n.left)} {CMP[type(o)]} {text(n.comparators[0])})", "cmp")
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                add(n, f"(({text(n.left)}) {BIN[type(n.op)]} ({text(n.right)}))", "bin")
                if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                    add(n, f"({text(n.left)})", "drop")
            elif isinstance(n, ast.BoolOp):
                w = " or " if isinstance(n.op, ast.And) else " and "
                add(n, "(" + w.join(f"({text(v)})" for v in n.values) + ")", "bool")
                add(n, f"({text(n.values[0])})", "bool1")
                add(n, f"({text(n.values[-1])})", "bool2")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(n, f"({text(n.operand)})", "not")
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                v = n.value
                add(n, repr(v + 1) if isinstance(v, int) else repr(v * 1.1 if v else 0.1), "const")
                if isinstance(v, int) and v:
                    add(n, repr(v - 1), "const")
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                add(n, repr(not n.value), "bool")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("max", "min") and len(n.args) == 2:
                add(n, f"({text(n.args[0])})", "minmax")
                add(n, f"({text(n.args[1])})", "minmax")
            elif isinstance(n, ast.Call) and n.keywords and len(n.keywords) > 1:
                for k in n.keywords:
                    if k.arg and not isinstance(k.value, ast.Constant):
                        pass
            elif isinstance(n, (ast.Assign, ast.AugAssign)) and not isinstance(getattr(n, "target", None), ast.Name):
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    add(n, "pass", "del")
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                add(n, "pass", "del")
            elif isinstance(n, ast.If):
                add(n.test, "False", "if")
            elif isinstance(n, ast.IfExp):
                add(n, f"({text(n.body)})", "ifexp")
                add(n, f"({text(n.orelse)})", "ifexp")
            elif isinstance(n, (ast.Continue, ast.Break)):
                add(n, "pass", "flow")
        walk(n, fn)
    visit(tree, None)
    return raw, out


def skip(path, raw, s):
    line = raw.decode().splitlines()[s[4] - 1]
    return any(w in line for w in ("fig.", "go.", "dict(", "color", "hover", "font", "print(", "__all__"))


def gen(n, seed):
    os.makedirs(ST, exist_ok=True)
    rnd = random.Random(seed)
    pool = []
    for rel in CHECKS:
        d = "interfaces/" if rel.startswith("interfaces") else "objects/simulation/" if "simulation" in rel else "objects/building/" if "building/" in rel else None
        p = SRC + (rel if rel.startswith("interfaces") else "objects/" + rel if rel.split("/")[0] in ("building", "dhwsystems", "simulation")
                   else "objects/dhwsystems/" + rel if rel.split("/")[0].endswith("_systems") else "objects/components/" + rel)
        raw, out = sites(os.path.join("/repo", p))
        pool += [(rel, p, s) for s in out if not skip(p, raw, s)]
    print(len(pool), "sites")
    f = os.path.join(ST, "survivors.json")
    have = json.load(open(f)) if os.path.exists(f) else []
    seen = {(h["path"], h["a"], h["b"], h["new"]) for h in have}
    tried = set(map(tuple, json.load(open(ST + "/tried.json")))) if os.path.exists(ST + "/tried.json") else set()
    pool = [x for x in pool if (x[1], x[2][0], x[2][1], x[2][2]) not in seen | tried]
    pick = rnd.sample(pool, min(n, len(pool)))
    dirs = [scratch() for _ in range(8)]

    def one(i):
        d, out = dirs[i], []
        for rel, p, (a, b, new, kind, ln) in pick[i::8]:
            raw = open(os.path.join("/repo", p), "rb").read()
            mut = raw[:a] + new.encode() + raw[b:]
            tried.add((p, a, b, new))
            try:
                compile(mut, p, "exec")
            except SyntaxError:
                continue
            fp = os.path.join(d, p)
            open(fp, "wb").write(mut)
            try:
                ok, _ = tests_pass(d)
            except subprocess.TimeoutExpired:
                ok = False
            open(fp, "wb").write(raw)
            if ok:
                out.append(dict(rel=rel, path=p, a=a, b=b, new=new, kind=kind, line=ln, old=raw[a:b].decode(), src=raw.decode().splitlines()[ln - 1].strip()))
        return out
    with ThreadPoolExecutor(8) as ex:
        for o in ex.map(one, range(8)):
            have += o
    for d in dirs:
        shutil.rmtree(d)
    json.dump(have, open(f, "w"), indent=1)
    json.dump([list(t) for t in tried], open(ST + "/tried.json", "w"))
    print(len(have), "survivors")


def run(filt):
    have = json.load(open(os.path.join(ST, "survivors.json")))
    rf = os.path.join(ST, "results.json")
    res = json.load(open(rf)) if os.path.exists(rf) else {}

    def one(m):
        key = f"{m['path']}:{m['a']}:{m['b']}:{m['new']}"
        if key in res:
            return
        d = scratch()
        wd = tempfile.mkdtemp(prefix="mutv-", dir="/tmp")
        try:
            raw = open(os.path.join("/repo", m["path"]), "rb").read()
            if raw[m["a"]:m["b"]].decode() != m["old"]:
                return
            open(os.path.join(d, m["path"]), "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
            subprocess.check_call(f"cp -a {ROOT}/run.sh {ROOT}/harness {ROOT}/checks {ROOT}/refdata {ROOT}/KNOWN_FINDINGS.txt {wd}/", shell=True)
            out = "MISSED"
            for c in CHECKS[m["rel"]]:
                try:
                    r = sh(f"bash run.sh {c} quick", wd, {"VERIF_REPO": d, "VERIF_SEED": "1", "VERIF_PROCS": "3"}, 900)
                except subprocess.TimeoutExpired:
                    out = f"TIMEOUT {c}"
                    break
                if r.returncode == 1:
                    out = f"caught {c}"
                    break
                if r.returncode != 0:
                    out = f"rc={r.returncode} {c}"
                    break
            res[key] = out
            json.dump(res, open(rf, "w"))
            print(out, m["rel"], m["line"], m["kind"], "|", m["src"][:110], "|", m["old"][:50].replace("\n", " "), "->", m["new"][:60].replace("\n", " "), flush=True)
        finally:
            shutil.rmtree(d)
            shutil.rmtree(wd)
    with ThreadPoolExecutor(2) as ex:
        random.Random(7).shuffle(have)
        list(ex.map(one, [m for m in have if filt in m["path"]]))


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(int(sys.argv[2]), int(sys.argv[3]))
    else:
        run(sys.argv[2] if len(sys.argv) > 2 else "")
