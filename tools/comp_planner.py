"""Local planner: obstacle memory (C12), histogram and distance message (C13), search tree (C14), costs (C15)."""
import math
NAN, INF = 2000000001, 2000000002
SRC = ["local_planner/src/nodes/local_planner.cpp", "local_planner/src/nodes/star_planner.cpp", "local_planner/src/nodes/planner_functions.cpp",
       "local_planner/src/nodes/tree_node.cpp", "avoidance/src/common.cpp", "avoidance/src/histogram.cpp"]


def build(ctx):
    return ctx.build("planner", "planner.cpp", ["local_planner"], sources=SRC)


def line(op, *a):
    o = [op]
    for x in a:
        o += [str(int(y)) if not isinstance(y, str) else y for y in (x if isinstance(x, (list, tuple)) else [x])]
    return " ".join(o)


def wrap(a):
    return (a + 180.0) % 360.0 - 180.0


def off_edges(p, poses, lo, hi):
    """p (mm) is clear of every range, cell and field-of-view boundary at every pose [(pos, yaw, pitch, cams)]"""
    for pos, yaw, pitch, cams in poses:
        d = [p[k] - pos[k] for k in range(3)]
        r = math.sqrt(sum(x * x for x in d))
        if min(abs(r - lo), abs(r - hi)) < 3 or r < 30:
            return False
        if r > hi + 3:
            continue
        h = math.hypot(d[0], d[1])
        if h < 100:
            return False
        el = math.degrees(math.atan2(d[2], h))
        az = math.degrees(math.atan2(d[0], d[1]))
        if min(el % 2, 2 - el % 2) < 0.05:
            return False
        if min(az % 2, 2 - az % 2) < 0.05:
            return False
        be, bz = -el - pitch / 100.0, math.degrees(math.atan2(d[1], d[0])) - yaw / 100.0
        be = wrap(be)
        if abs(abs(be) - 90) < 0.06:
            return False
        if abs(be) > 90:
            be = math.copysign(180, be) - be
            bz += 180
        for y, q, hf, vf in cams:
            if abs(abs(wrap(bz - y / 100.0)) - hf / 200.0) < 0.06 or abs(abs(be - q / 100.0) - vf / 200.0) < 0.06:
                return False
            if hf == 36000 and abs(abs(wrap(bz - y / 100.0)) - 180) < 0.06:
                return False
    return True


class MapScenario:
    """Random flights with random clouds; the poses are chosen first so that no point comes to lie on a boundary."""

    def __init__(self, r, what):
        self.r, self.what, self.s = r, what, []
        self.lo, self.hi = r.choice([(200, 12000), (200, 12000), (500, 6000), (0, 15000), (1000, 8000), (200, 3000)])
        self.age = r.choice([3, 10, 20, 1, 0]) * 1000 + 5
        self.count = r.choice([1, 1, 2, 3, 5])
        ncam = r.choice([1, 1, 2, 3])
        self.ncam = ncam
        base = r.randrange(-180, 180) * 100
        self.cams = []
        for k in range(ncam):
            y = (base * (k == 0 and r.random() < 0.3) + k * r.choice([6000, 9000, 12000, 18000]) + 18000) % 36000 - 18000
            self.cams.append([y, r.choice([0, 0, 1000, -2000]), r.choice([5900, 9000, 12000, 2000, 18000, 36000]), r.choice([4600, 6000, 18000, 9000])])
        n = r.randrange(2, 8)
        pos = [r.randrange(-20000, 20000), r.randrange(-20000, 20000), r.randrange(0, 9000)]
        yaw, pitch = r.randrange(-180, 180) * 100, 0
        self.poses = []
        for _ in range(n):
            self.poses.append((list(pos), (yaw + 18000) % 36000 - 18000, pitch, [list(c) for c in self.cams]))
            if r.random() < 0.7:
                pos = [x + r.choice([0, 0, 1, -1]) * r.randrange(0, 1500) for x in pos]
            if r.random() < 0.6:
                yaw += r.choice([10, 30, 60, 90, 180, -45, -90]) * 100 + r.choice([0, 37])
            if r.random() < 0.4:
                pitch = r.choice([0, 1000, -1500, 2500, 8000, -8000, 300])
        self.seen = []

    def point(self, k, near=None):
        """a lattice point usable from pose k on"""
        r = self.r
        pos = self.poses[k][0]
        for _ in range(60):
            if near is not None:
                d = [near[i] + r.randrange(-12, 13) for i in range(3)]
            else:
                m = r.random()
                dist = r.uniform(self.lo * 0.5, min(self.hi * 1.1, self.hi + 800)) if m < 0.3 else r.uniform(max(self.lo, 100), min(self.hi, 7000))
                el = math.radians(r.choice([r.uniform(-88, 88), r.uniform(-15, 15), r.uniform(-15, 15)]))
                az = math.radians(r.uniform(-180, 180))
                if r.random() < 0.1:        # the seam at local south
                    az = math.radians(r.choice([-179, 179]) + r.uniform(-0.9, 0.9))
                d = [round(dist * math.cos(el) * math.sin(az)), round(dist * math.cos(el) * math.cos(az)), round(dist * math.sin(el))]
            p = [pos[i] + d[i] for i in range(3)]
            if off_edges(p, self.poses[k:], self.lo, self.hi):
                return p, d
        return None, None

    def run(self):
        r = self.r
        self.s.append(line("ranges", self.lo, self.hi, self.age, self.count))
        self.s.append(line("tree", 1, 1, 1000, 1000))
        self.s.append("apply")
        for k, c in enumerate(self.cams):
            self.s.append(line("fov", k, *c))
        cp = r.choice([4000, 4000, 0, -1000, 500, NAN])
        self.s.append(line("px4", cp, 3000, 5000, 20000, NAN))
        for k, (pos, yaw, pitch, _) in enumerate(self.poses):
            if r.random() < 0.15:
                cp = r.choice([4000, 0, NAN, -1000])
                self.s.append(line("px4", cp, 3000, 5000, 20000, NAN))
            g = [x + r.choice([-20000, 20000]) for x in pos]
            self.s.append(line("goal", g, g))
            self.s.append(line("pose", pos, [0, 0, 0], yaw, pitch))
            for c in range(self.ncam):
                if r.random() < 0.15 and k:
                    continue                 # this camera delivered nothing new: its cloud is used again
                pts = []
                for _ in range(r.choice([0, 1, 4, 10, 25])):
                    p, d = None, None
                    if self.seen and r.random() < 0.3:           # again where something was seen before
                        q = r.choice(self.seen)
                        d = [q[i] - pos[i] for i in range(3)]
                        p, d = self.point(k, d)
                    if p is None:
                        p, d = self.point(k)
                    if p is None:
                        continue
                    self.seen.append(p)
                    pts.append(p)
                    for _ in range(r.choice([0, self.count - 2, self.count - 1, self.count - 1, self.count, 2 * self.count])):
                        q, _d = self.point(k, d)
                        if q:
                            pts.append(q)
                for _ in range(r.choice([0, 0, 1, 3])):
                    q = [r.choice([NAN, 100, 4000, INF, -INF]) for _ in range(3)]
                    if any(x in (NAN, INF, -INF) for x in q):
                        pts.append(q)
                r.shuffle(pts)
                self.s.append(line("cloud", c, len(pts), *pts))
            self.s.append(line("run", r.choice([100, 100, 330, 1000, 2500, 6000]), self.what))
        return self.s


def memory_behaviours(ctx):
    beh = ctx.behaviours("MemoryMC", "MemoryGen.cfg", workers=8)
    ctx.rng.shuffle(beh)
    scripts = []
    for b in beh[:ctx.n(800, 6000)]:
        s = ["ranges 200 12000 3505 2", "tree 1 1 1000 1000", "apply", "px4 0 3000 5000 20000 %d" % NAN, "fov 0 0 0 19600 18000"]
        at = lambda d, k: [round(3000 * math.sin(math.radians(72 * d + 13.1))), round(3000 * math.cos(math.radians(72 * d + 13.1))), 160 + 7 * k]
        for n, u in enumerate(b):
            # histogram azimuth a corresponds to heading 90 - a
            yaw = (9000 - (7200 * u["y"] + 1310) + 18000) % 36000 - 18000
            s.append(line("pose", [0, 0, 0], [0, 0, 0], yaw, 0))
            pts = []
            for d in u["dense"]:
                pts += [at(d, n), at(d, n + 1)]
            for d in u["sparse"]:
                pts += [at(d, n)]
            s.append(line("cloud", 0, len(pts), *pts))
            s.append(line("run", 1000 * u["dt"], 1))
        scripts.append(s)
    return scripts


def memory(ctx):
    ctx.model_check("MemoryMC", "MemoryMC.cfg" if ctx.thorough else "MemoryMCquick.cfg")
    exe = build(ctx)
    scripts = memory_behaviours(ctx) + [MapScenario(ctx.rng, 1).run() for _ in range(ctx.n(250, 3000))]
    ctx.validate("MemoryTrace", ctx.drive(exe, scripts))


def obstacle_map(ctx):
    ctx.model_check("ObstacleMapMC", "ObstacleMapMC.cfg")
    exe = build(ctx)
    ctx.validate("MemoryTrace", ctx.drive(exe, [MapScenario(ctx.rng, 2).run() for _ in range(ctx.n(200, 2500))]), cfg="MapTrace.cfg")


# ---------------------------------------------------------------------------------------------- costs (C15)
def direction(frm, to):
    d = [to[k] - frm[k] for k in range(3)]
    return math.degrees(math.atan2(d[2], math.hypot(d[0], d[1]))), math.degrees(math.atan2(d[0], d[1])), math.sqrt(sum(x * x for x in d)), math.hypot(d[0], d[1])


def clear(frm, to, res=6, least=500, margin=0.08):
    """the direction is well defined and not on the boundary of a bin"""
    e, z, r, h = direction(frm, to)
    return h >= 300 and r >= least and margin < e % res < res - margin and margin < z % res < res - margin


def costs(r):
    return line("costs", r.choice([300, 300, 50, 2000, 0, 137]), r.choice([2500, 2500, 300, 0, 3000]), r.choice([600000, 600000, 150, 0, 100000]),
                r.choice([8500, 8500, 5000, 0, 1500, 30000]), r.choice([40000, 30000, 0, 6000, 90000, 35000]))


def somewhere(r, pos, lo=600, hi=40000, flat=False, res=6):
    while True:
        d, el, az = r.uniform(lo, hi), math.radians(r.uniform(-8, 8) if flat else r.uniform(-75, 75)), math.radians(r.uniform(-180, 180))
        g = [pos[0] + round(d * math.cos(el) * math.sin(az)), pos[1] + round(d * math.cos(el) * math.cos(az)), pos[2] + round(d * math.sin(el))]
        if clear(pos, g, res):
            return g


def velocity(r):
    v = r.choice([0, 500, 1000, 3000, 3000, 8000])
    return [r.randrange(-v, v + 1), r.randrange(-v, v + 1), r.randrange(-v // 3, v // 3 + 1)]


def bins(r, n):
    """obstacles: clusters, single bins, rows across the seam and at the poles"""
    h = {}
    for _ in range(n):
        e, z, d = r.choice([r.randrange(30), r.randrange(10, 20), r.choice([0, 1, 28, 29])]), r.choice([r.randrange(60), r.choice([0, 1, 58, 59])]), r.randrange(100, 14000)
        a, b = r.choice([0, 0, 1, 2]), r.choice([0, 0, 2, 5])
        for i in range(-a, a + 1):
            for j in range(-b, b + 1):
                if 0 <= e + i < 30:
                    h[(e + i, (z + j) % 60)] = d + r.randrange(0, 300)
    return [[e, z, d] for (e, z), d in sorted(h.items())]


def steering(ctx):
    r = ctx.rng
    ctx.model_check("CostsMC", "CostsMC.cfg")
    exe = build(ctx)
    S = []
    goals = [somewhere(r, [0, 0, 0]) for _ in range(4)]
    for par in range(ctx.n(40, 300)):
        s = [costs(r)]
        for _ in range(60):
            pos = [r.randrange(-20000, 20000) for _ in range(3)]
            g = somewhere(r, pos, 600, r.choice([2000, 5200, 40000]))
            ln = g if r.random() < 0.4 else somewhere(r, pos)
            s.append(line("cost", 600 * r.randrange(30) - 8700 if r.random() < 0.8 else r.randrange(-9000, 9001), 600 * r.randrange(60) - 17700 if r.random() < 0.8 else r.randrange(-18000, 18001),
                          r.choice([0, 0, 1, 200, 1000, r.randrange(0, 15000), r.randrange(0, 40000)]), g, pos, velocity(r), ln, r.randrange(2)))
        S.append(s)
    for _ in range(ctx.n(40, 500)):
        s = []
        for _ in range(2):
            s += [line("ranges", r.choice([200, 1000, 0]), r.choice([12000, 6000, 15000]), 10000, 1), costs(r)]
            pos = [r.randrange(-20000, 20000) for _ in range(3)]
            g = somewhere(r, pos, 1500, r.choice([5200, 40000]), flat=r.random() < 0.6)
            ln = g if r.random() < 0.4 else somewhere(r, pos)
            h = bins(r, r.choice([0, 1, 2, 6]))
            if r.random() < 0.6:         # one obstacle at the border of the goal direction's neighbourhood
                e, z, _d, _h = direction(pos, g)
                ei, zi = int((e + 90) // 6), int((z + 180) // 6)
                h = [x for x in h if r.random() < 0.2] + [[min(29, max(0, ei + r.choice([-3, -2, 0, 2, 3]))), (zi + r.choice([-6, -5, 0, 5, 6])) % 60, r.choice([100, 500, 4000, 7000, 13000])]]
                h = [list(x) for x in {(a[0], a[1]): a for a in h}.values()]
            s.append(line("matrix", g, pos, velocity(r), ln, len(h), *h))
        S.append(s)
    for _ in range(ctx.n(60, 600)):
        R, C = r.choice([(6, 12), (4, 8), (10, 20), (30, 60)] if r.random() < 0.2 else [(6, 12), (4, 8)])
        rad = r.choice([x for x in (0, 1, 2, 3, 5) if x <= R and x <= C])
        m = [r.choice([0, 0, 0, 100, 5000, r.randrange(10000)]) for _ in range(R * C)]
        S.append([line(r.choice(["smooth", "pad"]), rad, R, C, *m)])
    for _ in range(ctx.n(40, 300)):
        S.append([line("best", r.choice([1, 2, 5, 8, 30, 100]), r.choice([3, 100, 100000, 16000000]), r.randrange(1, 1 << 30))])
    for _ in range(ctx.n(30, 200)):
        s = []
        for _ in range(12):
            s += [line("ranges", 200, r.choice([12000, 15000, 3000, 500, 40000, 0]), 10000, 1), "apply",
                  line("px4", 4000, r.choice([3000, 5000, 12000, 20000, 500]), r.choice([5000, 3000, 10000, 1000, 200]), r.choice([20000, 8000, 2000, 500]), r.choice([NAN, NAN, 1000, 4000, 15000])), "cruise"]
        S.append(s)
    for _ in range(ctx.n(24, 300)):      # through the planner: which point it is pulled to
        lo, hi = 200, r.choice([12000, 15000])
        cruise = r.choice([1000, 3000, 3000])
        s = [line("ranges", lo, hi, 0, 1), costs(r), line("tree", 1, 1, 1000, 1000), line("px4", 4000, cruise, 5000, 20000, NAN)]
        while True:
            pos = [r.randrange(-20000, 20000) for _ in range(2)] + [r.randrange(500, 6000)]
            goal = somewhere(r, pos, 3000, 30000, flat=r.random() < 0.5)
            prev = list(goal) if r.random() < 0.2 else somewhere(r, pos, 3000, 30000, flat=True)
            ux, uy = goal[0] - prev[0], goal[1] - prev[1]
            n = math.hypot(ux, uy)
            if n == 0:
                break
            if n < 1000:
                continue
            t = (ux * (pos[0] - prev[0]) + uy * (pos[1] - prev[1])) / n
            c = [prev[0] + ux * t / n, prev[1] + uy * t / n, goal[2]]
            off = math.hypot(pos[0] - c[0], pos[1] - c[1])
            if abs(off - cruise) > 40 and off > 400:
                break
        s.append(line("goal", goal, prev))
        s.append("apply")
        s.append(line("pose", pos, velocity(r), 0, 0))
        pts = []
        for _ in range(r.choice([0, 3, 12])):
            p = somewhere(r, pos, 700, 9000, flat=r.random() < 0.5, res=2)
            if clear(pos, p, 2):
                pts.append(p)
        s += [line("cloud", 0, len(pts), *pts), line("run", 100, 8)]
        if r.random() < 0.3:         # everything ages out
            s += ["cloud 0 0", "run 30000 8"]
        S.append(s)
    r.shuffle(S)
    ctx.validate("CostsTrace", ctx.drive(exe, S))


# ---------------------------------------------------------------------------------------------- search tree (C14)
def tree(ctx):
    r = ctx.rng
    ctx.model_check("StarTreeMC", "StarTreeMCdeep.cfg" if ctx.thorough else "StarTreeMC.cfg")
    exe = build(ctx)
    S = []
    for k in range(ctx.n(150, 1500)):
        s = [line("ranges", 200, r.choice([12000, 15000, 5000, 3000, 1500]), 10000, 1),
             costs(r) if r.random() < 0.4 else line("costs", r.choice([300, 0]), r.choice([2500, 300]), r.choice([600000, 60000, 0]), 8500, 40000),
             line("tree", r.choice([8, 8, 4, 2, 1, 0, 16, 40]), r.choice([0, 1, 2, 4, 8] if k % 12 else [40]), r.choice([2000, 2000, 1000, 500, 300, 150, 5000]), r.choice([35000, 10000, 0, 1000]))]
        pos = [r.randrange(-20000, 20000) for _ in range(2)] + [r.randrange(500, 6000)]
        goal = somewhere(r, pos, r.choice([600, 3000]), 30000, flat=True)
        if r.random() < 0.15:        # the goal lies between two nodes: the branches lead back and end
            step = r.choice([1000, 2000])
            goal = somewhere(r, pos, step // 2 - 100, step // 2 + 300, flat=True)
            s[1:3] = [line("costs", 300, 2500, 0, 8500, 0), line("tree", r.choice([1, 1, 2]), r.choice([2, 4, 8]), step, r.choice([35000, 0]))]
        node = r.random() < 0.4
        ln = goal if r.random() < 0.5 else somewhere(r, pos, 3000, 30000, flat=True)
        s += [line("px4", 4000, 3000, 5000, 20000, NAN), line("goal", goal, goal), "apply"]
        for m in range(r.choice([1, 1, 3]) if node else 1):
            if m:
                pos = [x + r.randrange(-700, 700) for x in pos]
            s.append(line("pose", pos, velocity(r), 0, 0))
            pts = []
            n = r.choice([0, 3, 20, 60, 200]) if not node else r.choice([0, 0, 2, 6, 20, 60])
            if r.random() < 0.5 and n:               # a wall across the way to the goal
                _e, z, d, _h = direction(pos, goal)
                d = min(d, r.uniform(1500, 6000))
                ux, uy = math.sin(math.radians(z)), math.cos(math.radians(z))
                for i in range(n):
                    w, h = r.uniform(-3500, 3500), r.uniform(-1500, 2500)
                    pts.append([pos[0] + round(ux * d - uy * w), pos[1] + round(uy * d + ux * w), pos[2] + round(h)])
            else:
                pts = [somewhere(r, pos, 400, 9000, flat=r.random() < 0.5, res=2) for _ in range(n)]
            if node:
                s += [line("cloud", 0, len(pts), *pts), line("run", r.choice([100, 1000, 12000]), 4 + 16)]
            else:
                s.append(line("search", ln, len(pts), *pts))
        S.append(s)
    r.shuffle(S)
    ctx.validate("StarTreeTrace", ctx.drive(exe, S))
