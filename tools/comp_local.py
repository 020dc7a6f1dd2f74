"""Local planner waypoint generator: modes (C09), setpoint limits (C10), path following (C11)."""
import math
NAN = 2000000001
SRC = ["local_planner/src/nodes/waypoint_generator.cpp", "local_planner/src/nodes/planner_functions.cpp", "local_planner/src/nodes/tree_node.cpp",
       "avoidance/src/common.cpp", "avoidance/src/histogram.cpp"]
NAVS = ["mission", "auto_takeoff", "auto_land", "auto_rtl", "auto_rtgs", "offboard", "auto_loiter", "none"]


def build(ctx):
    return ctx.build("local_waypoint", "local_waypoint.cpp", ["local_planner"], sources=SRC)


def polyline(r, n, start, seg=(300, 3000)):
    """n points from the far end to start"""
    pts = [list(start)]
    d = [r.uniform(-1, 1) for _ in range(3)]
    for _ in range(n - 1):
        d = [x + r.uniform(-0.8, 0.8) for x in d]
        m = math.sqrt(sum(x * x for x in d)) or 1
        k = r.randrange(*seg)
        pts.append([pts[-1][a] + int(k * d[a] / m) + (1 if a == 0 else 0) for a in range(3)])
    return pts[::-1]


def line(op, *a):
    o = [op]
    for x in a:
        o += [str(int(y)) if not isinstance(y, str) else y for y in (x if isinstance(x, (list, tuple)) else [x])]
    return " ".join(o)


class WgRandom:
    def __init__(self, r, focus):
        self.r, self.focus, self.s = r, focus, []

    def smooth(self):
        r = self.r
        self.sxy, self.sz = r.choice([(1000, 300), (1000, 300), (400, 300), (100, 100), (0, 0), (225, 0), (0, 300), (25, 400), (50, 50)])
        self.s.append("smooth %d %d" % (self.sxy, self.sz))

    def info(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 3, 4, 5, 6, 7])
        cruise = r.choice([NAN, 1000, 3000, 500, 2500, 8000, 0]) if r.random() < 0.4 else r.choice([1000, 3000])
        age = r.choice([0, 50, 200, 700, 1500, 4000])
        if r.random() < 0.85:
            pts, rel = polyline(r, n, [r.randrange(-200, 200) for _ in range(3)]), 1
        else:
            pts, rel = polyline(r, n, [r.randrange(-9000, 9000) for _ in range(3)]), 0
        self.s.append(line("info", cruise, age, rel, n, *pts[:n]))

    def fovs(self):
        r = self.r
        k = r.choice([1, 1, 2, 3])
        base = r.randrange(-18000, 18000)
        for i in range(k):
            h = r.choice([5900, 9000, 12000, 2000, 18000, 36000])
            y = base + (0 if i == 0 else r.choice([6000, 9000, 12000, -9000, 3000, 18000])) * (1 if i < 2 else 2)
            self.s.append("fov %d %d %d %d %d" % (i + 1, (y + 18000) % 36000 - 18000, r.choice([0, 0, 1000]), h, r.choice([4600, 6000])))
        self.fbase = base

    def goal(self, near=False):
        r = self.r
        if near and self.pos:
            return [self.pos[a] + r.randrange(-900, 900) for a in range(3)]
        return [r.randrange(-15000, 15000), r.randrange(-15000, 15000), r.choice([0, 1000, 3000, 4000, 5000, r.randrange(-3000, 12000)])]

    def script(self, n=None):
        r = self.r
        s = self.s
        self.pos = [r.randrange(-8000, 8000), r.randrange(-8000, 8000), r.choice([0, 0, 2000, 4000, 4000])]
        if r.random() < 0.9:
            self.fovs()
        if r.random() < 0.7:
            self.smooth()
        else:
            self.sxy, self.sz = 1000, 300
        if r.random() < 0.85:
            self.info()
        goal = self.goal()
        nav = r.choice(NAVS)
        land = take = 0
        loiter, air = r.random() < 0.2, r.random() < 0.85
        yaw = r.randrange(-18000, 18000)
        pitch = 0
        vel = [0, 0, 0]
        calm = r.random() < 0.5           # long stretches without disturbance
        q = 0.25 if calm else 1
        jump = True
        fixdt = r.choice([None, 50, 100, 20, 33])
        hold = None
        for c in range(n or r.choice([8, 20, 40])):
            if r.random() < 0.10 * q:
                nav = r.choice(NAVS)
            if r.random() < 0.05 * q:
                land = r.random() < 0.5
            if r.random() < 0.05 * q:
                take = r.random() < 0.5
            if r.random() < (0.10 * q if not loiter else 0.3):
                loiter = not loiter
            if r.random() < (0.03 * q if air else 0.4):
                air = not air
            if r.random() < 0.10 * q:
                goal = self.goal(r.random() < 0.4)
            if r.random() < 0.15:
                self.info()
            if r.random() < 0.02 * q:
                self.smooth()
            if r.random() < 0.03 * q:
                self.fovs()
            if r.random() < 0.3:
                vel = [r.choice([0, 100, 300, 400, 500, 501, -2000, 1500, -300]) for _ in range(3)]
            if r.random() < 0.5:
                x = r.random()
                if x < 0.4:
                    yaw = int(round(math.degrees(math.atan2(goal[1] - self.pos[1], goal[0] - self.pos[0])) * 100)) + r.randrange(-6000, 6000) - getattr(self, "fbase", 0)
                    yaw = (yaw + 18000) % 36000 - 18000
                elif x < 0.8:
                    yaw = r.randrange(-18000, 18000)
                pitch = r.choice([0, 0, 500, -1500, 3000, -3000])
            dmax = min(1500.0 / (2 * math.sqrt(max(self.sxy, self.sz, 1) / 100.0)), 800)
            dt = fixdt if fixdt and r.random() < 0.9 and fixdt <= dmax else r.choice([0, 1, 10, 20, 50, 100, 150, int(dmax), r.randrange(0, int(dmax))])
            dt = min(dt, int(dmax))
            rel = 0 if jump or c == 0 else r.random() < 0.9
            jump = False
            if rel:
                off = [r.choice([0, 0, 1, -1, 20, -30, 100, -200, 400]) for _ in range(3)] if r.random() < 0.8 else [0, 0, 0]
                if hold is not None and r.random() < 0.5:
                    rel, off = 0, hold
            else:
                if c and r.random() < 0.5:
                    # place the vehicle relative to the goal: threshold distances and heights
                    k = r.choice([0, 50, 99, 101, 300, 700, 990, 1010, 1500, 3000])
                    a = r.uniform(0, 2 * math.pi)
                    z = r.choice([0, 0, 0, -799, -801, -500, 10, 900, -3000])
                    off = [goal[0] + int(k * math.cos(a)), goal[1] + int(k * math.sin(a)), goal[2] + z]
                elif c:
                    off = [r.randrange(-12000, 12000), r.randrange(-12000, 12000), r.choice([0, 2000, goal[2], goal[2] - 1, goal[2] + 1, goal[2] - 2000])]
                else:
                    off = self.pos
                self.pos = off
            hold = off if not rel and r.random() < 0.6 else None
            des = [r.choice([NAN, 0, 500, -700]) for _ in range(3)]
            s.append(line("cyc", dt, int(rel), off, yaw, pitch, goal, vel, loiter, air, nav, land, take, des))
        return s


def behaviour_script(beh, r):
    """A history of the specification in the situation the specification assumes: goal 6 m ahead at 4 m height."""
    s = ["smooth %d %d" % r.choice([(1000, 300), (0, 0), (200, 200)]), "fov 1 0 0 6000 4600"]
    fresh = None
    for x in beh:
        if x["fresh"]:
            s.append(line("info", 1000, 0, 0, 2, [3000, 0, 4000], [0, 0, 4000]))
        elif fresh is not False:
            s.append(line("info", 1000, 5000, 0, *r.choice([(0,), (3, [3000, 0, 4000], [1000, 0, 4000], [0, 0, 4000])])))
        fresh = x["fresh"]
        s.append(line("cyc", 100, 0, [0, 0, x["h"]], 0, 0, [6000, 0, 4000], [600, 0, 0] if x["moving"] else [0, 0, 0], x["loiter"], x["air"],
                      x["nav"], x["item"] == "land", x["item"] == "takeoff", [0, 0, 500]))
    return s


def _waypoints(ctx, cfg, focus, nbeh):
    r = ctx.rng
    exe = build(ctx)
    scripts = []
    ctx.model_check("LocalWaypointMC" if focus == "mode" else "LocalWaypointLoop")
    if nbeh:
        beh = ctx.behaviours("LocalWaypointMC", "LocalWaypointGen.cfg", workers=8)
        r.shuffle(beh)
        scripts = [behaviour_script(b, r) for b in beh[:nbeh]]
    scripts += [WgRandom(r, focus).script() for _ in range(ctx.n(700, 9000))]
    ctx.validate("LocalWaypointTrace", ctx.drive(exe, scripts), cfg=cfg, chunk=ctx.n(None, 300))


def modes(ctx):
    """C09"""
    _waypoints(ctx, "LocalWaypointMode.cfg", "mode", ctx.n(4000, 20000))


def limits(ctx):
    """C10"""
    _waypoints(ctx, "LocalWaypointLimits.cfg", "limits", ctx.n(500, 4000))


def paths(ctx):
    """C11"""
    r = ctx.rng
    exe = build(ctx)
    ctx.model_check("PathFollowMC")
    beh = [b[0] for b in ctx.behaviours("PathFollowMC", "PathFollowGen.cfg", workers=8)]
    r.shuffle(beh)
    s = [line("path", b["vel"], b["age"], len(b["p"]), *b["p"]) for b in beh[:ctx.n(4000, 20000)]]
    for _ in range(ctx.n(4000, 40000)):
        n = r.choice([0, 1, 2, 3, 3, 4, 5, 6, 7])
        pts = polyline(r, n, [r.randrange(-9000, 9000) for _ in range(3)], r.choice([(300, 3000), (1000, 1001), (50, 6000)]))[:n]
        vel = r.choice([NAN, 0, 100, 1000, 1000, 3000, 2500, 7000])
        age = r.choice([0, 1, r.randrange(0, 1000), r.randrange(0, 6000), r.randrange(0, 10000)])
        if n >= 3 and vel and vel != NAN and r.random() < 0.3:          # just before or after a node or the end
            d = sum(math.dist(pts[k], pts[k + 1]) for k in range(n - 2) if k >= r.choice([0, 0, n - 4, n - 3]))
            age = min(max(0, int(d / vel * 1000) + r.choice([-3, 3, -20, 20])), 60000)
        s.append(line("path", vel, age, n, *pts))
    ctx.validate("PathFollowTrace", ctx.drive(exe, [s[k:k + 200] for k in range(0, len(s), 200)]))
