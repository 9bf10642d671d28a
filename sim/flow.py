"""
Model of the external programs of mlmc.tool.flow_mc: the mesh generator (gmsh) and the flow solver (flow123d), and the
oracles about samples calculated with them. The real FlowSim, GmshIO and correlated fields run.

The domain is a unit square of 1/h x 1/h squares divided into triangles; with half the step every triangle is divided into
four, the middle one has the barycenter of the parent, so the fields of two levels meet in the coarse barycenters.
"""
import os
import re
import time

import numpy as np

from . import core, seams, testsim

GMSH, SOLVER = "/opt/sim/gmsh", "/opt/sim/flow123d"
KINDS = ["f_exit", "f_kill", "f_late", "f_noout", "f_noregion", "f_inflow", "f_missing", "f_empty"]
MODELS = ["gauss", "exp", "fourier", "svd"]
YAML = """flow123d_version: 2.0.0
problem: !Coupling_Sequential
  description: Steady flow
  mesh:
    mesh_file: <mesh_file>
  flow_equation: !Flow_Darcy_MH
    input_fields:
      - region: plane
        conductivity: <conductivity>
      - region: .bc_outflow
        bc_type: dirichlet
    time:
      max_dt: <timestep_h1>
      min_dt: <timestep_h2>
      unused: <not_a_parameter>
    balance: {}
"""
TEMPLATE = "!FieldElementwise {mesh_data_file: \"$INPUT_DIR$/%s\", field_name: %s}"


def config(w):
    """Files given by the user, configuration of FlowSim"""
    d = os.path.join(w.sim.root, "common")
    files = {"flow.yaml": YAML, "square.geo": "// unit square\n"}
    for n, text in files.items():
        p = os.path.join(d, n)
        with open(p, "w") as f:
            f.write(text)
        w.sentinels[p] = text
    fl = w.sc["flow"]
    params = dict(model=fl["model"], corr_length=fl["corr"], sigma=fl["sigma"], log=fl["log"])
    if fl["model"] in ("gauss", "exp"):
        params["mode_no"] = 20
    return dict(env=dict(gmsh=GMSH, flow123d=SOLVER, gmsh_version=fl["gmsh_version"]), fields_params=params, work_dir=w.work_dir,
                yaml_file=os.path.join(d, "flow.yaml"), geo_file=os.path.join(d, "square.geo"), field_template=TEMPLATE,
                time_factor=fl["time_factor"])


# ---------------------------------------------------------------- mesh
def mesh_text(step):
    n = max(1, int(round(1 / step)))
    nodes, elements = {}, {}
    num = {}
    for i in range(n + 1):
        for j in range(n + 1):
            num[i, j] = len(num) + 5
            nodes[num[i, j]] = (i / n, j / n, 0.0)
    k = 3
    for i in range(n):
        elements[k] = (1, 102, [num[0, i], num[0, i + 1]])
        elements[k + 1] = (1, 101, [num[n, i], num[n, i + 1]])
        k += 2
    for i in range(n):
        for j in range(n):
            elements[k] = (2, 100, [num[i, j], num[i + 1, j], num[i, j + 1]])
            elements[k + 3] = (2, 100, [num[i + 1, j + 1], num[i + 1, j], num[i, j + 1]])
            k += 7
    text = "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$PhysicalNames\n3\n2 100 \"plane\"\n1 101 \".bc_inflow\"\n1 102 \".bc_outflow\"\n" \
           "$EndPhysicalNames\n$Nodes\n%d\n" % len(nodes)
    text += "".join("%d %r %r %r\n" % ((i,) + x) for i, x in nodes.items())
    text += "$EndNodes\n$Elements\n%d\n" % len(elements)
    text += "".join("%d %d 2 %d 1 %s\n" % (i, e[0], e[1], " ".join(map(str, e[2]))) for i, e in elements.items())
    return text + "$EndElements\n"


def read_mesh(path):
    """{element id: barycenter} of the elements of the plane; None if the file is not complete"""
    with seams.REAL.open(path) as f:
        text = f.read()
    if not text.endswith("$EndElements\n"):
        return None
    part = re.search(r"\$Nodes\n\d+\n(.*?)\$EndNodes", text, re.S).group(1)
    nodes = {int(l.split()[0]): [float(x) for x in l.split()[1:]] for l in part.splitlines()}
    part = re.search(r"\$Elements\n\d+\n(.*?)\$EndElements", text, re.S).group(1)
    out = {}
    for l in part.splitlines():
        c = [int(x) for x in l.split()]
        if c[1] == 2:
            out[c[0]] = tuple(round(sum(nodes[i][d] for i in c[5:]) / 3, 9) for d in range(2))
    return out


def read_fields(path, ids):
    """Value of the field for each of the elements; None if the input is not right"""
    try:
        with seams.REAL.open(path) as f:
            text = f.read()
        m = re.search(r'\$ElementData\n1\n"conductivity"\n1\n[^\n]*\n3\n\d+\n1\n(\d+)\n(.*?)\$EndElementData\n', text, re.S)
        rows = [l.split() for l in m.group(2).splitlines()]
        val = {int(r[0]): float(r[1]) for r in rows}
    except (OSError, AttributeError, ValueError, IndexError):
        return None
    if len(rows) != int(m.group(1)) or set(val) != set(ids) or len(rows) != len(ids):
        return None
    return val


def solve(field, mesh):
    """Something that depends on every value and its place"""
    return sum(v * (0.3 + x + 0.5 * y * y) for v, (x, y) in ((field[i], mesh[i]) for i in sorted(mesh))) / len(mesh)


# ---------------------------------------------------------------- commands
class Commands:
    def __init__(self, w, other):
        self.w = w
        self.other = other
        self.n_gmsh = 0
        self.gmsh_failed = False

    def __call__(self, proc, args):
        if args[0] == GMSH:
            return self.gmsh(args)
        if args[0] == SOLVER:
            return self.solver(proc, args)
        if self.other is None:
            raise core.HarnessError("unknown command %r" % (args,))
        return self.other(proc, args)

    def gmsh(self, args):
        w = self.w
        what = (w.sc["flow"].get("gmsh") or {}).get(str(self.n_gmsh), "ok")
        self.n_gmsh += 1
        if what != "ok":
            self.gmsh_failed = True
            w.sim.fire("gmsh_" + what)
        if what == "missing":
            raise FileNotFoundError(2, "No such file or directory", GMSH)
        out = args[args.index("-o") + 1]
        text = mesh_text(float(args[args.index("-clscale") + 1]))
        if what == "torn":
            text = text[:int(len(text) * 0.6)]
            text = text[:text.rindex("\n") + 1]
        if what != "fail":
            with seams.REAL.open(out, "w") as f:
                f.write(text)
        return (0, "", "") if what == "ok" else (1, "", "Error")

    def solver(self, proc, args):
        w = self.w
        rec = proc.data.get("flow_rec")
        if rec is None:
            raise core.HarnessError("the solver was run outside of a sample")
        calls = rec.setdefault("calls", [])
        kind = rec["kind"] if rec["kind"] in KINDS else "ok"
        if kind != "ok":
            u = testsim.h01(w.cfg["salt"], rec["seed"], rec["attempt"], "phase")
            if len(calls) != (1 if u < 0.5 and rec["coarse"] else 0):
                kind = "ok"
        call = dict(kind=kind, n=len(calls))
        calls.append(call)
        if kind != "ok":
            w.sim.fire("solver_" + kind[2:])
        if kind == "f_missing":
            raise FileNotFoundError(2, "No such file or directory", SOLVER)
        if rec.get("dur"):
            time.sleep(rec["dur"] / 2)
        inp = args[args.index("-i") + 1]
        out = os.path.join(args[args.index("-o") + 1], "water_balance.yaml")
        with seams.REAL.open(args[args.index("-s") + 1]) as f:
            text = f.read()
        mesh_file = re.search(r"mesh_file: (.*)", text).group(1).strip()
        fields = re.search(r'conductivity: !FieldElementwise \{mesh_data_file: "\$INPUT_DIR\$/([^"]*)", field_name: conductivity\}', text)
        mesh = read_mesh(mesh_file)
        field = read_fields(os.path.join(inp, fields.group(1)), mesh) if mesh and fields else None
        if field is None:
            call["refused"] = True
            return 1, "", "wrong input"
        call["mesh"], call["field"] = mesh, field
        call["dt"] = [float(x) for x in re.findall(r"m.._dt: (\S+)", text)]
        flux = solve(field, mesh)
        call["flux"] = flux
        if kind in ("f_exit",):
            return 1, "", "solver diverged"
        if kind == "f_noout":
            return 0, "", ""
        items = []
        for t in (0.0, 1.0):
            for reg, v in (("ALL", (7.5, 0.0)), ("plane", (0.0, 0.0)), (".bc_inflow", (flux * 0.9, flux * 0.9)),
                           (".bc_outflow", (-flux - 100 * t, 1.0 if kind == "f_inflow" else 0.0))):
                if kind == "f_noregion" and reg == ".bc_outflow":
                    continue
                items.append("  - time: %r\n    region: %s\n    quantity: water_volume\n    data:\n      - %r\n      - %r\n      - 0.0\n" %
                             (t, reg, v[0], v[1]))
        text = "column_names: [flux, flux_in, flux_out]\ndata:\n" + "".join(items)
        if kind == "f_kill":
            # died while it was writing
            a = text.index(".bc_outflow") + 40
            text = text[:a + int((len(text) - a) * testsim.h01(w.cfg["salt"], rec["seed"], "torn"))] \
                if testsim.h01(w.cfg["salt"], rec["seed"], "torn2") < 0.5 else \
                text[:int(len(text) * testsim.h01(w.cfg["salt"], rec["seed"], "torn"))]
        if kind == "f_empty":
            text = ""
        with seams.REAL.open(out, "w") as f:
            f.write(text)
        with seams.REAL.open(os.path.join(os.path.dirname(out), "flow123d.0.log"), "w") as f:
            f.write("log\n")
        if kind in ("f_kill", "f_late"):
            return (-9 if kind == "f_kill" else 1), "", "killed"
        return 0, "", ""


# ---------------------------------------------------------------- oracles
def expected(e):
    """Rows of a successful attempt: (fine, coarse), None if its solver runs were not complete"""
    calls = e.get("calls") or []
    if len(calls) != (2 if e["coarse"] else 1) or any("flux" not in c or c["kind"] != "ok" for c in calls):
        return None
    f = np.array([float(e["seed"]), e["fine"], calls[0]["flux"]])
    c = np.array([float(e["seed"]), e["coarse"], calls[1]["flux"]]) if e["coarse"] else np.zeros(3)
    return f, c


def close(a, b):
    return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))


def judge(j):
    """Oracles over all solver runs (final)"""
    w = j.w
    steps = [p[0] for p in w.sc["params"]]
    done = [e for e in w.execs if e["t1"] is not None and expected(e) is not None]
    for e in w.execs:
        for c in e.get("calls") or []:
            if c.get("refused"):
                j.bad("flow_input", "sample %s: the input of the %s solver run does not match its mesh" % (w.seed_id[e["seed"]][1], c["n"]))
    seen = {}
    for e in done:
        for c, step in zip(e["calls"], (e["fine"], e["coarse"])):
            n = 2 * max(1, int(round(1 / step))) ** 2
            if len(c["mesh"]) != n:
                j.bad("flow_input", "sample %s: solver run on a mesh of %d elements, the level has %d" % (w.seed_id[e["seed"]][1], len(c["mesh"]), n))
            tf = w.sc["flow"]["time_factor"]
            if len(c["dt"]) != 2 or not close(c["dt"][0], tf * step) or not close(c["dt"][1], tf * step * step):
                j.bad("flow_input", "sample %s: solver run with time steps %s on the level with step %s" % (w.seed_id[e["seed"]][1], c["dt"], step))
        fine, coarse = e["calls"][0], e["calls"][-1]
        at = {x: fine["field"][i] for i, x in fine["mesh"].items()}
        if e["coarse"]:
            for i, x in coarse["mesh"].items():
                if x in at and not close(at[x], coarse["field"][i]):
                    j.bad("flow_coupling", "sample %s: fields of the fine and the coarse part differ at %s: %r and %r" %
                          (w.seed_id[e["seed"]][1], x, at[x], coarse["field"][i]))
        key = tuple(fine["field"][i] for i in sorted(fine["field"]))
        if seen.setdefault((e["fine"], key), e["seed"]) != e["seed"]:
            j.bad("flow_fields", "samples %s and %s have the same field" % (w.seed_id[e["seed"]][1], w.seed_id[seen[e["fine"], key]][1]))
    # calculated once more on its own
    first = {}
    for e in done:
        first.setdefault(e["seed"], e)
    pick = list(first.values())
    pick = pick[:2] + pick[2:][-2:]
    for e in pick:
        ref = reference(j, e, steps)
        for other in done:
            if other["seed"] == e["seed"]:
                for a, b in zip(ref, expected(other)):
                    if not close(a[2], b[2]):
                        j.bad("flow_fields", "sample %s: calculated with another field than the same sample on its own (results %r and %r)" %
                              (w.seed_id[e["seed"]][1], b[2], a[2]))


def reference(j, e, steps):
    from mlmc.tool.flow_mc import FlowSim
    w = j.w
    sim = w.sim
    cfg = w.flow_levels.get(e["fine"])
    w.n_ref = getattr(w, "n_ref", 0) + 1
    d = os.path.join(sim.root, "ref_%d" % w.n_ref)
    os.makedirs(d)
    rec = dict(seed=e["seed"], fine=e["fine"], coarse=e["coarse"], attempt=0, kind="ok")
    proc = sim.cur.proc
    old, cwd, state = proc.data.get("flow_rec"), os.getcwd(), np.random.get_state()
    proc.data["flow_rec"] = rec
    np.random.seed(e["n"] + 17)
    try:
        os.chdir(d)
        FlowSim.calculate(cfg, e["seed"])
    finally:
        os.chdir(cwd)
        np.random.set_state(state)
        proc.data["flow_rec"] = old
    return expected(rec)
