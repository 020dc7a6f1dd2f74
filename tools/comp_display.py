"""What is drawn: local planner (C32), landing planner (C33) and world (C34) displays."""
NAN, INF = 2000000001, 2000000002
SRC = ["local_planner/src/nodes/local_planner.cpp", "local_planner/src/nodes/star_planner.cpp", "local_planner/src/nodes/planner_functions.cpp",
       "local_planner/src/nodes/tree_node.cpp", "local_planner/src/nodes/local_planner_visualization.cpp",
       "avoidance/src/common.cpp", "avoidance/src/histogram.cpp", "avoidance/src/rviz_world_loader.cpp",
       "safe_landing_planner/src/nodes/safe_landing_planner.cpp", "safe_landing_planner/src/nodes/safe_landing_planner_visualization.cpp"]


def build(ctx):
    return ctx.build("display", "display.cpp", ["local_planner", "safe_landing_planner"], sources=SRC)


def line(op, *a):
    o = [op]
    for x in a:
        o += [str(y if isinstance(y, str) else int(y)) for y in (x if isinstance(x, (list, tuple)) else [x])]
    return " ".join(o)


def somewhere(r, far=20000):
    return [r.choice([0, 500, -500, r.randrange(-far, far)]) for _ in range(3)]


def camera(r):
    return [r.randrange(-18000, 18001, 50), r.randrange(-4500, 4501, 50), 2 * r.randrange(100, 8900), 2 * r.randrange(50, 3000)]


def ranges(r, mx):
    return [r.choice([NAN, mx + 10, mx + r.randrange(500, 9000), mx, INF, 200, r.randrange(100, mx), r.randrange(100, mx)]) for _ in range(r.choice([60, 60, 1, 7, 0]))]


def tree(r):
    n = r.choice([1, 2, 6, 14])
    closed = r.sample(range(n), r.randrange(0, n + 1))
    t = [n]
    for k in range(n):
        t += somewhere(r) + [r.randrange(0, max(1, k))]
    path = r.choice([0, 1, 2, 3, 6])
    return t + [len(closed)] + closed + [path] + [x for _ in range(path) for x in somewhere(r)]


def one(r):
    op = r.choice(["paths", "paths", "wps", "arrow", "off", "goal", "fov", "scan", "tree", "images", "show"])
    pos = somewhere(r)
    near = lambda: r.choice([pos, somewhere(r), [pos[k] + r.choice([0, 1000, -1000, r.randrange(-3000, 3000)]) for k in range(3)]])
    if op == "paths":
        return line(op, [x for _ in range(6) for x in somewhere(r)])
    if op == "wps":
        return line(op, near(), near(), near())
    if op == "arrow":
        return line(op, somewhere(r, 4000), pos, r.choice(["loiter", "path", "direct", "altitude"]))
    if op == "off":
        return line(op, [NAN] * 3 if r.random() < 0.2 else near(), [NAN] * 3 if r.random() < 0.2 else near())
    if op == "goal":
        return line(op, pos)
    if op == "fov":
        n = r.choice([0, 1, 2, 3, 5])
        return line(op, r.randrange(500, 20000), n, [x for _ in range(n) for x in camera(r)])
    if op == "scan":
        mx = r.choice([5000, 12000, 15000])
        rs = ranges(r, mx)
        return line(op, pos, mx, r.choice([600, 600, 200, 1000]), len(rs), rs)
    if op == "tree":
        return line(op, tree(r))
    yaw = r.choice([0, 9000, -9000, 17950, r.randrange(-18000, 18000)])
    if op == "images":
        return line(op, r.randrange(1, 1 << 30), r.random() < 0.9, near(), near(), pos, yaw)
    n, k = r.choice([0, 1, 2]), r.choice([0, 1, 8])
    pts = [x for _ in range(k) for x in [pos[0] + r.randrange(-6000, 6000), pos[1] + r.randrange(-6000, 6000), pos[2] + r.randrange(-1500, 1500)]]
    return line("show", somewhere(r), pos, somewhere(r, 2000), yaw, r.choice([5000, 12000, 15000]), r.random() < 0.9, n, [x for _ in range(n) for x in camera(r)],
                k, pts, near(), near())


def local(ctx):
    ctx.model_check("DisplayMC")
    exe = build(ctx)
    S = [[one(ctx.rng) for _ in range(25)] for _ in range(ctx.n(60, 800))]
    S.append([line("paths", [x for _ in range(6) for x in somewhere(ctx.rng)]) for _ in range(ctx.n(700, 3000))])     # a long flight
    ctx.validate("DisplayTrace", ctx.drive(exe, S))
    running(ctx)


def cells(r, small=False):
    cell = r.choice([100, 200, 250, 500, 1000])
    n = 2 if small else r.choice([2, 3, 4, 5, 8, 10, 12, 13])
    pos = somewhere(r)
    return line("cells", n * cell, cell, r.choice([pos, somewhere(r)]), pos, somewhere(r), r.choice([0, 1, 1, 2, 3, 5, 6, 7, 20, -1]),
                r.choice([0, 2, 50, 100, 200, 400, 1000]), r.choice([0, 1, 50, 100, 100, 200, 399, 400, 401, 1000]), r.randrange(1, 1 << 30))


def landing(ctx):
    ctx.model_check("LandingDisplayMC")
    exe = build(ctx)
    S = [[cells(ctx.rng) for _ in range(6)] for _ in range(ctx.n(40, 500))]
    S.append([cells(ctx.rng, True) for _ in range(ctx.n(700, 3000))])      # a long flight
    ctx.validate("LandingDisplayTrace", ctx.drive(exe, S))
    import comp_slpnode
    exe = comp_slpnode.build(ctx)
    S = []
    for _ in range(ctx.n(100, 1500)):
        s = comp_slpnode.rand(ctx.rng)
        S.append(s[:1] + ["watch"] + s[1:])
    ctx.validate("LandingDisplayTrace", ctx.drive(exe, S, name="node"))
    import comp_slp
    exe = comp_slp.build_waypoint(ctx)
    S = [["watch"] + comp_slp.WpRandom(ctx.rng, ctx.rng.choice(["fsm", "sites", "msgs"])).script() for _ in range(ctx.n(60, 1000))]
    T = ctx.drive(exe, S, name="area")
    ctx.validate("LandingAreaTrace", T)
    ctx.validate("SlpWaypointTrace", T)


DRONE = "/matrice_100/meshes/Matrice_100.dae"
MODELS = ["/house/mesh.dae", "/tree.dae", "/deep/in/side/x.stl"]


def thing(r):
    t = r.choice(["mesh", "mesh", "cube", "sphere", "cylinder"] * 4 + ["torus"])
    mesh = r.choice(["model:/" + r.choice(MODELS)] * 3 + ["file:///x/y.dae", "package://p/m.dae", "-"])
    return [t, r.choice(["local_origin", "map"]), mesh if t == "mesh" or r.random() < 0.3 else "-"] + somewhere(r) + \
        [r.randrange(-1000, 1001) for _ in range(4)] + [r.randrange(1, 9000) for _ in range(3)]


def text(r):
    n = r.choice([0, 1, 2, 3, 5])
    return [r.choice(["none"] * 8 + ["nofile", "scalar", "syntax", "missing", "word"]), n] + [x for _ in range(n) for x in thing(r)]


def tour(r):
    """a search path, models here and there, a world, and looks at it while things change"""
    home = r.choice(["-", "me", "me", "me"])
    paths = r.sample(["a", "b", "c/d"], r.randrange(0, 4))
    places = paths + (["me/.gazebo/models"] if home != "-" else []) + (["e"] if r.random() < 0.3 else [])
    n = -1 if not paths else len(paths)
    s = [line("where", home, n, paths)]
    put = lambda m: line("model", r.choice(places), m, r.random() < 0.85)
    seen, o = set(), []
    for m in MODELS + [DRONE]:
        for _ in range(r.choice([0, 1, 1, 2, 2])):
            if places:
                o.append(put(m))
    s += [x for x in o if not (x.split()[1:3] == [] or tuple(x.split()[1:3]) in seen or seen.add(tuple(x.split()[1:3])))]
    first = text(r)
    if r.random() < 0.1:
        first[0] = "unset"
    s.append(line("world", first))
    for _ in range(r.randrange(2, 8)):
        k = r.random()
        if k < 0.4:
            s.append("tick")
        elif k < 0.65:
            s.append(line("pose", somewhere(r), [r.randrange(-10000, 10001) for _ in range(4)]))
        elif k < 0.85:
            s.append(line("change", text(r)))
            s.append("tick")
        elif places:
            x = put(r.choice(MODELS + [DRONE]))
            if tuple(x.split()[1:3]) not in seen:
                seen.add(tuple(x.split()[1:3]))
                s.append(x)
    return s


def world(ctx):
    ctx.model_check("WorldMC")
    exe = build(ctx)
    S = [tour(ctx.rng) + tour(ctx.rng) for _ in range(ctx.n(150, 2000))]
    ctx.validate("WorldTrace", ctx.drive(exe, S))


def running(ctx):
    """the displays of the nodelet while it runs"""
    import comp_local_node
    exe = comp_local_node.build(ctx)
    watch = lambda s: s[:1] + ["watch"] + s[1:]
    S = [watch(comp_local_node.flight(ctx.rng)) for _ in range(ctx.n(150, 2500))] + [watch(comp_local_node.rand(ctx.rng)) for _ in range(ctx.n(150, 2500))]
    ctx.validate("LocalShowTrace", ctx.drive(exe, S, name="node"))
