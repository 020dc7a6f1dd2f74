"""Global planner library: cells and edges (C25), paths (C26), simplification (C27), freshness (C30)."""
from comp_planner import line
SRC = ["global_planner/src/library/%s.cpp" % x for x in ("cell", "node", "global_planner")]
KINDS = ["Node", "NodeWithoutSmooth", "SpeedNode"]


def build(ctx):
    return ctx.build("gp", "global_planner.cpp", ["global_planner"], sources=SRC)


def cells(ctx):
    r = ctx.rng
    ctx.model_check("CellsMC", "CellsMC.cfg")
    exe = build(ctx)
    S = []
    small = [(x, y, z) for x in range(-2, 3) for y in range(-2, 3) for z in range(-2, 3)]
    for s in (1, 2, 4):
        # every position of two cells per axis, on and off the borders
        t = ["scale %d" % s]
        for k in range(-5 * 4 * s, 5 * 4 * s + 1):
            t.append(line("pos", [k if i == k % 3 else r.randrange(-160, 160) for i in range(3)]))
        S.append(t)
        for a in ((0, 0, 0), (-1, 2, 3)):
            for lo in range(0, 125, 25):
                S.append(["scale %d" % s] + [line("pair", a, [a[i] + d[i] for i in range(3)]) for d in small[lo:lo + 25]])
        S.append(["scale %d" % s] + [line("nb", [r.randrange(-9, 10) for _ in range(3)], k) for k in (0, 1, 2, 3, 4)])
    turn = [(x, y, z) for x in (-1, 0, 1) for y in (-1, 0, 1) for z in (-1, 0, 1)]
    for kind in KINDS:
        for d in turn:      # every pair of unit edges
            t = []
            for e in turn:
                c = [r.randrange(-5, 6) for _ in range(3)]
                o = r.choice([c, [c[i] + d[i] for i in range(3)], [0, 0, 0]])
                t.append(line("node", kind, c, [c[i] - d[i] for i in range(3)], o, [o[i] - e[i] for i in range(3)]))
            S.append(t)
    for _ in range(ctx.n(60, 1500)):
        s = r.choice([1, 2, 4])
        t = ["scale %d" % s, line("par", 10, 1, 2000, 200, 500, 100, 50, 50, 10, 500, r.choice([5000, 5000, 1500, 1000, 3000, 0, 2500, 500]), "Node", 103, 200, 2000, 1, 1, 500, 1, 1)]
        c3 = lambda m: [r.randrange(-m, m + 1) for _ in range(3)]
        for _ in range(12):
            x = r.random()
            a = c3(r.choice([3, 20, 400]))
            if x < 0.2:
                t.append(line("pos", c3(r.choice([30, 3000]))))
            elif x < 0.4:
                t.append(line("pair", a, c3(4) if r.random() < 0.5 else [a[i] + d for i, d in enumerate(c3(3))]))
            elif x < 0.5:
                t.append(line("nb", a, r.randrange(0, 5)))
            elif x < 0.65:
                m = 8 * s // 2
                rad = r.choice([500, 1000, 2000, 3000, 5000, 700, 250 * r.randrange(1, 40)])
                t.append(line("region", a, rad, [a[i] + d for i, d in enumerate(c3(3))], [a[i] * 4 * s + r.randrange(-6 * s, 8 * s) for i in range(3)]))
            else:
                d, e = c3(r.choice([1, 2, 4])), c3(r.choice([1, 4]))
                b = r.choice([a, [a[i] + d[i] for i in range(3)], c3(3)])
                t.append(line("node", r.choice(KINDS), a, [a[i] - d[i] for i in range(3)], b, r.choice([[b[i] - e[i] for i in range(3)], [b[i] - d[i] for i in range(3)]])))
        S.append(t)
    r.shuffle(S)
    ctx.validate("GlobalPlannerTrace", ctx.drive(exe, S))


def par(r, s=2, **k):
    o = dict(alt=r.choice([4, 5, 6, 10]), minalt=1, mr=r.choice([2000, 2000, 2003, 517, 1201]), sm=r.choice([0, 0, 200, 100]), rf=r.choice([500, 500, 0, 120, 1000]),
             flow=r.choice([100, 100, 0, 50]), pen=r.choice([50, 50, 0, 100, 7]), up=r.choice([50, 30, 10, 0]), down=r.choice([10, 0, 25]), rr=r.choice([500, 500, 500, 1200]), sr=r.choice([5000, 5000, 1500, 2500]),
             kind=r.choice(KINDS), omin=r.choice([103, 100, 110]), omax=r.choice([200, 200, 100, 150, 500]), iters=r.choice([2000, 3000, 2000, 20, 200]),
             free=r.choice([1, 1, 1, 0]), yaw=r.choice([1, 1, 0]), st=r.choice([0, 500, 500, 1000]), riskh=r.choice([0, 1]), speedh=r.choice([0, 1]))
    o.update(k)
    return line("par", *[o[x] for x in ("alt", "minalt", "mr", "sm", "rf", "flow", "pen", "up", "down", "rr", "sr", "kind", "omin", "omax", "iters", "free", "yaw", "st", "riskh", "speedh")])


def room(r, nx, ny, nz, rh=2, s=2, thick=1, wall=5, holes=0.0, inside=0.15, ceiling=True):
    """voxels of a walled room of nx x ny x nz cells (cells 0.. , z from 1)"""
    f = lambda n: (n * s) // rh            # voxels per side
    k = max(1, s // rh)
    out = {}
    for x in range(-thick, nx + thick):
        for y in range(-thick, ny + thick):
            for z in range(0, nz + 2):
                edge = x < 0 or y < 0 or x >= nx or y >= ny or (ceiling and z > nz)
                kind = (0 if r.random() < holes else wall) if edge else r.choices([1, 5, 4, 2, 3, 0], [10, inside * 10, inside * 4, 1, .5, 2])[0]
                if s < rh:
                    if x % 2 == 0 and y % 2 == 0 and z % 2 == 0 and kind:
                        out[(x // 2, y // 2, z // 2)] = kind
                    continue
                for i in range(k):
                    for j in range(k):
                        for l in range(k):
                            if kind and not (k > 1 and r.random() < 0.2):
                                out[(x * k + i, y * k + j, z * k + l)] = kind
    return out


def mapline(v, rh=2):
    return line("map", rh, len(v), [c for p, k in sorted(v.items()) for c in (*p, k)])


def world(r, t, flow, s=2):
    """a random room; returns its size"""
    nx, ny, nz = r.choice([(3, 3, 3), (5, 3, 3), (4, 4, 3), (6, 3, 2), (5, 5, 3)])
    if flow:
        nx, ny = nx + 1, ny + 1
    v = room(r, nx, ny, nz, 2, s, wall=r.choice([5, 5, 5, 4]), holes=r.choice([0, 0, 0, 0.04]), inside=r.choice([0, 0.1, 0.3] if not flow else [0, 0.02, 0.06]), ceiling=r.random() < 0.7)
    t.append(mapline(v))
    return nx, ny, nz


def box(n, m=3):
    return [-m, -m, 0, n[0] + m, n[1] + m, n[2] + 4]


def walk(r, n, start, kind="any", up=True):
    p = [tuple(start)]
    steps = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (1, 1, 0), (-1, 1, 0), (1, -1, 0), (-1, -1, 0), (0, 0, 1), (0, 0, -1)]
    d = r.choice(steps)
    while len(p) < n:
        if r.random() < 0.4:
            d = r.choice(steps)
        q = tuple(p[-1][i] + d[i] for i in range(3))
        if not 1 <= q[2] <= 6:
            d = r.choice(steps)
            continue
        if q in p and r.random() < 0.9:
            d = r.choice(steps)
            if r.random() < 0.9:
                continue
        p.append(q)
    return p


def paths(ctx):
    r = ctx.rng
    for cfg in ["SearchMC.cfg", "SearchMChigh.cfg"] + (["SearchMCwide.cfg"] if ctx.thorough else []):
        ctx.model_check("SearchMC", cfg)
    exe = build(ctx)
    S = []
    for _ in range(ctx.n(140, 2500)):
        s = r.choice([2, 2, 2, 4, 1])
        flow = r.choice([0, 0, 50, 100])
        t = ["scale %d" % s]
        kind = r.choice(KINDS)
        alt = r.choice([4, 5, 6]) * (s / 2 if s > 2 else 1)
        best = r.random() < 0.5
        P = dict(alt=alt, flow=flow, kind=kind)
        if best:
            P.update(sm=0, riskh=0, speedh=0)
        t.append(par(r, s, **P))
        n = world(r, t, flow, s)
        cell = lambda: [r.randrange(0, n[0]), r.randrange(0, n[1]), r.randrange(1, n[2] + 1)]
        inner = lambda: [r.randrange(1, n[0] - 1), r.randrange(1, n[1] - 1), r.randrange(1, n[2] + 1)] if flow else cell()
        for _ in range(r.choice([1, 2])):
            g, c = inner(), inner()
            t.append(line("goal", g, r.choice([1000, 1000, 1000 * s // 2, 3000, 5000]), 0))
            d = r.choice([[0, 0, 0], [1, 0, 0], [0, -1, 0], [1, 1, 0], [0, 0, 1], [2, 1, 0]])
            x = r.random()
            if x < 0.6:
                t.append(line("search", r.choice(KINDS[:2]) if best else r.choice(KINDS), c, [c[i] - d[i] for i in range(3)], 100 if best else r.choice([100, 103, 200, 500]), r.choice([2000, 2000, 2000, 5, 40]), box(n)))
            else:
                v = [8 * r.randrange(-1, 2) for _ in range(3)] if r.random() < 0.5 else [0, 0, 0]
                t.append(line("vel", v))
                t.append(line("pose", [4 * s * c[i] + r.randrange(1, 4 * s) for i in range(3)]))
                t.append(line("plan", box(n)))
        for _ in range(6):
            c = cell()
            d, e = [r.randrange(-1, 2) for _ in range(3)], [r.randrange(-1, 2) for _ in range(3)]
            if r.random() < 0.3:
                d, e = [r.randrange(-2, 3) for _ in range(3)], [r.randrange(-3, 4) for _ in range(3)]
            if r.random() < 0.3:
                t.append(line("vel", [r.choice([0, 4, 8, 9, 20]), 0, r.choice([0, -8])]))
                t.append(line("pose", [4 * s * c[i] + r.randrange(-8 * s, 8 * s) for i in range(3)]))
            t.append(line("edge", r.choice(KINDS), c, [c[i] - d[i] for i in range(3)], [c[i] + e[i] for i in range(3)]))
        t.append(line("info", *(lambda w: [len(w), [x for p in w for x in p]])(walk(r, r.randrange(0, 7) or 1, cell()))))
        S.append(t)
    for _ in range(ctx.n(30, 400)):       # cheapest paths across the altitudes, where staying high, low or off the obstacles pays
        s = 2
        alt = r.choice([5, 6])
        t = ["scale %d" % s, par(r, s, alt=alt, mr=r.choice([2000, 5000]), flow=0, sm=0, riskh=0, speedh=0, up=r.choice([50, 30, 10]), down=r.choice([10, 0, 25, 50]), pen=r.choice([100, 50]), rf=r.choice([1000, 500, 3000]), iters=3000)]
        n = r.choice([(5, 2, 3), (4, 3, 3), (6, 2, 4)])
        v = room(r, *n, 2, s, inside=r.choice([0, 0.1]), ceiling=True)
        for c in v:
            if v[c] == 1 and r.random() < 0.3 and c[0] in range(n[0]) and c[1] in range(n[1]) and c[2] in range(1, n[2] + 1):
                v[c] = r.choice([2, 2, 3])
        t.append(mapline(v))
        for _ in range(3):
            a, b = [0, r.randrange(n[1]), 1], [n[0] - 1, r.randrange(n[1]), n[2]]
            if r.random() < 0.6:
                a, b = b, a
            if r.random() < 0.3:
                a[2] = b[2]
            t += [line("goal", b, 1000, 0), line("search", r.choice(KINDS[:2]), a, a, 100, 3000, box(n))]
        S.append(t)
    ctx.validate("GlobalPlannerTrace", ctx.drive(exe, S), chunk=8)


def simplify(ctx):
    r = ctx.rng
    for cfg in ["SimplifyMCtall.cfg", "SimplifyMCturn.cfg"] + (["SimplifyMC.cfg", "SimplifyMCdeep.cfg"] if ctx.thorough else []):
        ctx.model_check("SimplifyMC", cfg)
    exe = build(ctx)
    S = []
    for _ in range(ctx.n(250, 5000)):
        s = r.choice([2, 2, 2, 4, 1])
        t = ["scale %d" % s]
        flow = r.choice([0, 0, 0, 100])
        t.append(par(r, s, alt=9, flow=flow, mr=2000, rr=500))
        n = world(r, t, flow, s)
        for _ in range(5):
            if r.random() < 0.2:
                t.append(line("vel", [r.choice([0, 4, 8, 9, 20]), 0, 0]))
                t.append(line("pose", [r.randrange(0, 40) for _ in range(3)]))
            w = walk(r, r.choice([1, 2, 3, 4, 5, 6, 6, 7, 7]), [r.randrange(0, n[0]), r.randrange(0, n[1]), r.randrange(1, n[2] + 1)])
            if r.random() < 0.1:
                w.insert(r.randrange(len(w)), w[r.randrange(len(w))])
                w = w[:7]
            if any(max(abs(a[i] - b[i]) for i in range(3)) > 4 for a in w for b in w):
                continue
            t.append(line("simplify", r.choice([1010, 1010, 1000, 1200, 2000, 0, 900]), r.choice([0, 1, 1, 2, 3, 100]), r.random() < 0.7, len(w), [x for p in w for x in p]))
            if r.random() < 0.5:
                w = walk(r, r.randrange(0, 9) or 1, [r.randrange(-9, 9), r.randrange(-9, 9), 3])
                t.append(line("smooth", len(w), [x for p in w for x in p]))
        S.append(t)
    ctx.validate("GlobalPlannerTrace", ctx.drive(exe, S), chunk=20)


def fresh(ctx):
    """C30: interleavings of maps, obstacle points, parameters, goals and queries"""
    r = ctx.rng
    ctx.model_check("RiskCacheMC", "RiskCacheMC.cfg")
    exe = build(ctx)
    S = []
    for _ in range(ctx.n(150, 3000)):
        s = r.choice([2, 2, 4, 1])
        flow = r.choice([0, 50, 100, 100])
        P = dict(alt=r.choice([4, 6, 20]), flow=flow, iters=300)
        t = ["scale %d" % s, par(r, s, **P)]
        rh = r.choice([2, 2, 1])
        C = [[r.randrange(-2, 3), r.randrange(-2, 3), r.choice([1, 2, 3, 4, 9, 10, 14, 0, -1])] for _ in range(4)]
        dirty = False
        if r.random() < 0.3:
            t.append(line("risk", C[0]))
        for _ in range(r.randrange(6, 16)):
            x = r.random()
            if x < 0.3 or dirty:
                v = {}
                for c in C:
                    for _ in range(r.choice([1, 3, 8])):
                        q = tuple((s * (2 * (c[i] + r.randrange(-2, 3)) + 1)) // (2 * rh) + r.choice([0, 0, 1, -1]) for i in range(3))
                        v[q] = r.choice([1, 2, 3, 4, 5])
                t.append(mapline(v, rh))
                dirty = False
            elif x < 0.38:
                t.append(line("occ", r.choice(C)))
                dirty = True
            elif x < 0.45:
                t.append(par(r, s, **P))
            elif x < 0.5:
                t.append("alien")
            elif x < 0.6:
                t.append(line("goal", r.choice(C), 1000, r.random() < 0.5))
            elif x < 0.7:
                c = r.choice(C)
                t.append(line("edge", r.choice(KINDS), c, [c[0] - 1, c[1], c[2]], [c[0] + r.choice([0, 1]), c[1] + 1, c[2]]))
            elif x < 0.78:
                t.append(line("info", *(lambda w: [len(w), [z for p in w for z in p]])(walk(r, 3, [C[0][0], C[0][1], 2]))))
            else:
                t.append(line("risk", r.choice(C)))
        if not dirty:
            t += [line("risk", c) for c in C]
        S.append(t)
    ctx.validate("GlobalPlannerTrace", ctx.drive(exe, S), chunk=20)
    import comp_global_node
    comp_global_node.run(ctx, "fresh", ctx.n(40, 800))
