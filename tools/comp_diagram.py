"""C31: the flow-diagram generator on generated programs, and the committed diagrams against the running machines."""
import json
import os
import re
import subprocess
import comp_local
import comp_slp
import vp

T = ["NEXT1", "NEXT2", "NEXT3", "NEXT4", "ERROR"]
COMMITTED = [("avoidance/test/test_usm.cpp", 0), ("local_planner/src/nodes/waypoint_generator.cpp", 1), ("safe_landing_planner/src/nodes/waypoint_generator.cpp", 2)]


def parse(text):
    """edges of a dot file, and whether it is one"""
    lines = text.strip().split("\n")
    ok = len(lines) >= 2 and lines[0].strip() == "digraph {" and lines[-1].strip() == "}"
    edges = []
    for ln in lines[1:-1]:
        if not ln.strip():
            continue
        m = re.match(r'^\s*"?(\w+)"?\s*->\s*"?(\w+)"?\s*\[(.*)\]\s*;?\s*$', ln)
        if not m:
            ok = False
            continue
        at = dict(re.findall(r'(\w+)\s*=\s*"?([^",]*)"?', m.group(3)))
        ok = ok and at.get("style") in ("solid", "dotted") and "label" in at
        edges.append({"from": m.group(1), "to": m.group(2), "labels": at.get("label", "").split("\\n"), "dotted": at.get("style") == "dotted"})
    return edges, ok


def generate(ctx, src, mode):
    """run the generator of the repository on a copy of src"""
    tool = os.path.join(vp.REPO, "tools", "generate_flow_diagram.py")
    before = open(src).read()
    out = src + ".dot" if mode else src + ".out"
    p = subprocess.run(["python3", "-B", tool, src] + ([] if mode else [out]), capture_output=True, text=True, timeout=60)
    if p.returncode or not os.path.exists(out):
        raise vp.Violation("the generator did not survive this program: exit %s\n%s" % (p.returncode, p.stderr[-600:]), {"program.cpp": before})
    e, ok = parse(open(out).read())
    return e, ok, open(src).read() == before


NOISE = ["", "", "// keeps a table (see USM_TABLE below)\n", "/* USM_TABLE(a, b,\n   USM_STATE(t, x, y)) */\n", "static int twice(int x) { return (x + x) * (1); }\n", "// :)\n"]
TAIL = ["", "", "static int after(int x, int y) { return twice2(x) + y; }\n", "// USM_STATE(t, X, USM_MAP(NEXT1, Y))\n"]


def program(r, k, tb, names):
    """the same table in many ways of writing it"""
    style = r.choice(["plain", "class", "deep"])
    S = {"plain": "", "class": "State::", "deep": "deep::inner::State::"}[style]
    Tr = r.choice(["usm::Transition::", "Transition::"])
    sp = lambda: r.choice(["", " ", " ", "  ", "\n      "])
    var = r.choice([("currentState", "transition"), ("c", "t"), ("s_", "tr")])
    note = lambda: r.choice(["", "", "", " // next (", " /* no: USM_MAP(%sNEXT4, %s%s); */ " % (Tr, S, names[0])])
    nl = lambda c: c + "\n" if "//" in c else c
    rows = []
    for st in tb["states"]:
        ms = []
        for t, to in st["maps"]:
            ms.append("USM_MAP" + r.choice(["", "", " "]) + "(" + sp() + Tr + t + sp() + "," + sp() + S + to + sp() + ")")
        body = (";" + r.choice(["", " ", "\n         "])).join(ms) + (r.choice(["", ";"]) if ms else "")
        rows.append("USM_STATE" + r.choice(["", "", " "]) + "(" + sp() + var[1] + "," + sp() + S + st["name"] + r.choice(["", "", " "]) + "," + nl(note()) + sp() + body + nl(note()) + ")")
    sep = lambda: ";" + nl(note()) + r.choice(["\n      ", " ", ""])
    text = "".join(row + (sep() if i + 1 < len(rows) else r.choice(["", ";", "\n    "])) for i, row in enumerate(rows))
    decl = {"plain": "enum State { %s };\n", "class": "enum class State { %s };\n", "deep": "namespace deep { namespace inner { enum class State { %s }; } }\n"}[style] % ", ".join(names)
    ty = "deep::inner::State" if style == "deep" else "State"
    pre, post = r.choice(NOISE), r.choice(TAIL)
    if "twice2" in post:
        pre += "static int twice2(int x) { return 2 * x; }\n"
    return (decl + pre + "%s chooseNextState(%s %s, Transition %s) {\n  // clang-format off\n  USM_TABLE(%s,%s%s%s,%s\n      %s);\n}\n%s"
            % (ty, ty, var[0], var[1], var[0], sp(), S, tb["err"], nl(note()), text, post)), S, ty


def check(ctx):
    r = ctx.rng
    ctx.model_check("DiagramMC", "DiagramMCdeep.cfg" if ctx.thorough else "DiagramMC.cfg")
    tables = [(b[0], ["A", "B"]) for b in ctx.behaviours("DiagramMC", "DiagramGen.cfg")]
    r.shuffle(tables)
    tables = tables[:ctx.n(260, 2500)]
    words = ["START", "END", "USM", "STATE_1", "LAND", "GOTO_LAND", "NEXT1", "ERROR_STATE", "x", "TRY_PATH", "ALTITUDE_CHANGE", "DIRECT"]
    for _ in range(ctx.n(140, 1500)):
        names = r.sample(words, r.randrange(1, 7))
        st = []
        for n in r.sample(names, r.randrange(1, len(names) + 1)):
            ts = r.sample(T, r.choice([0, 1, 1, 2, 2, 3, 5]))
            st.append({"name": n, "maps": [[t, r.choice(names)] for t in ts]})
        tables.append(({"err": r.choice(names), "states": st}, names))
    d = os.path.dirname(ctx.path("programs", "x"))
    pairs = {}
    HEAD = ('#include "drv.h"\n#include <avoidance/usm.h>\nusing namespace drv;\n'
            'static const std::map<std::string, usm::Transition> T = {%s};\n'
            'template <class S, class F> void all(const std::map<std::string, S>& ST, F next) {\n'
            '  for (auto& s : ST) for (auto& t : T) { auto n = next(s.second, t.second); std::string to = "?"; for (auto& x : ST) if (x.second == n) to = x.first;'
            ' out()(J("step").s("s", s.first).s("t", t.first).s("to", to)); }\n}\n') % ", ".join('{"%s", usm::Transition::%s}' % (t, t) for t in T)
    SHARDS = 8
    body, calls = [[HEAD] for _ in range(SHARDS)], []
    traces = []
    for k, (tb, names) in enumerate(tables):
        src, S, ty = program(r, k, tb, names)
        f = os.path.join(d, "p%d.cpp" % k)
        open(f, "w").write(src)
        e, ok, kept = generate(ctx, f, k % 2)
        traces.append((["table %d" % k, src], [json.dumps({"op": "table", "table": tb}), json.dumps({"op": "dot", "edges": e, "wellformed": ok, "kept": kept})]))
        # one driver of all programs: what the compiler makes of them
        body[k % SHARDS].append("namespace P%d {\nusing usm::Transition;\n#include \"%s\"\nvoid run() { std::map<std::string, %s> ST; %s; all(ST, chooseNextState); }\n}\n"
                                % (k, f, ty, "; ".join('ST["%s"] = %s%s' % (n, S, n) for n in names)))
        calls.append(k)
    files = []
    for i, b in enumerate(body):
        files.append(ctx.path("programs%d.cpp" % i))
        open(files[-1], "w").write("\n".join(b))
    f = ctx.path("programs.cpp")
    open(f, "w").write('#include "drv.h"\nusing namespace drv;\n' + "".join("namespace P%d { void run(); }\n" % k for k in calls)
                       + "static void (*calls[])() = {%s};\nint main(int argc, char** argv) { return run(argc, argv, [] {}, [](const std::string& op, Args& a) { calls[a.i()](); }); }\n" % ", ".join("P%d::run" % k for k in calls))
    exe = ctx.build("programs", f, ["avoidance"], sources=files, flags=["-O0"])
    ran = ctx.drive(exe, [["all %d" % k] for k in range(len(tables))])
    pairs = [(s, tr + steps) for (s, tr), (_, steps) in zip(traces, ran)]
    # the committed diagrams
    for path, m in COMMITTED:
        src = os.path.join(vp.REPO, path)
        if m == 0:
            exe = ctx.build("machine0", "diagram_real.cpp", ["avoidance"], sources=[], libs=["-lgtest", "-lpthread"], flags=["-fno-access-control"], defines=["MACHINE=0", 'TEST_USM="%s"' % src])
        elif m == 1:
            exe = ctx.build("machine1", "diagram_real.cpp", ["local_planner"], sources=comp_local.SRC, flags=["-fno-access-control"], defines=["MACHINE=1"])
        else:
            exe = ctx.build("machine2", "diagram_real.cpp", ["safe_landing_planner", "avoidance"], exclude=comp_slp.SLPW_EXCL, flags=["-fno-access-control"], defines=["MACHINE=2"])
        copy = os.path.join(d, "committed%d.cpp" % m)
        open(copy, "w").write(open(src).read())
        fresh, _, _ = generate(ctx, copy, 0)
        e, ok = parse(open(src + ".dot").read())
        (s, steps), = ctx.drive(exe, [["all"]], name="machine%d_run" % m)
        pairs.append(([path], [json.dumps({"op": "committed", "file": path, "edges": e, "wellformed": ok, "fresh": fresh})] + steps))
    ctx.validate("DiagramTrace", pairs)

