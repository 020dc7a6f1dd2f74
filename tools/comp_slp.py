"""Landing planner: grid bookkeeping (C19), cell statistics and landability (C20)."""


def grid(ctx):
    r = ctx.rng
    exe = ctx.build("grid", "grid.cpp", [], sources=[])
    ctx.model_check("GridMC")
    beh = ctx.behaviours("GridMC", "GridGen.cfg")
    r.shuffle(beh)
    scripts = []
    for b in beh[:ctx.n(2500, 20000)]:
        s = ["make 1 2000 1000", "make 2 2000 1000"]
        for o in b:
            s.append(" ".join(str(o[k]) for k in ("op", "k", "size", "cell", "x", "y", "v", "w") if k in o))
        scripts.append(s + ["dump 1", "dump 2"])
    for _ in range(ctx.n(300, 3000)):
        sz = [r.choice([(2000, 1000), (4000, 500), (10000, 1000), (5000, 2000), (3000, 3000), (2500, 750), (1000, 250)]) for _ in range(2)]
        s = ["make 1 %d %d" % sz[0], "make 2 %d %d" % sz[1]]
        mixes = 0
        for _ in range(r.choice([10, 40, 80])):
            k = r.choice([1, 2])
            n = -(-sz[k - 1][0] // sz[k - 1][1])
            c = "%d %d" % (r.randrange(n), r.randrange(n))
            x = r.random()
            if x < 0.2:
                s.append("mean %d %s %d" % (k, c, 1024 * r.randrange(-9, 10)))
            elif x < 0.4:
                s.append("var %d %s %d" % (k, c, 1024 * r.randrange(0, 10)))
            elif x < 0.5:
                s.append("cnt %d %s %d" % (k, c, r.randrange(0, 300)))
            elif x < 0.65:
                s.append("inc %d %s" % (k, c))
            elif x < 0.72:
                s.append("land %d %s %d" % (k, c, r.randrange(2)))
            elif x < 0.78:
                s.append("limits %d %d %d" % (k, r.randrange(-30000, 30000), r.randrange(-30000, 30000)))
            elif x < 0.82 and sz[0] == sz[1] and mixes < 4:
                s.append("combine %d %d" % (k, r.randrange(5)))
                mixes += 1
            elif x < 0.85:
                if r.random() < 0.5:
                    sz[k - 1] = sz[2 - k]
                else:
                    sz[k - 1] = r.choice([(2000, 1000), (10000, 2500), (6000, 1500)])
                s.append("resize %d %d %d" % ((k,) + sz[k - 1]))
            elif x < 0.87:
                s.append("reset %d" % k)
            else:
                s.append("dump %d" % k)
        scripts.append(s + ["dump 1", "dump 2"])
    ctx.validate("GridTrace", ctx.drive(exe, scripts))


def _cfg(**k):
    d = dict(npts=1, std=100, smooth=1, mdiff=300, maxdiff=2, minland=9, size=10000, cell=1000, alpha=80)
    d.update(k)
    return "cfg " + " ".join(str(d[x]) for x in ("npts", "std", "smooth", "mdiff", "maxdiff", "minland", "size", "cell", "alpha"))


def landing_script(beh):
    s = []
    for o in beh:
        if o["op"] == "cfg":
            s.append(_cfg(**o["c"]))
        elif o["op"] == "pose":
            s.append("pose %d %d 3000" % tuple(o["p"]))
        elif o["op"] == "run":
            s.append("run " + " ".join("%d %d %d %d" % (p[0], p[1], p[2], 1 if p[3] else 0) for p in o["cloud"]))
        else:
            q = o["r"]
            n = -(-q["size"] // q["cell"])
            s.append("raw %d %d %d " % (q["size"], q["cell"], n) +
                     " ".join("%d %d %d" % t for t in zip(q["mean"], q["std"], q["cnt"])))
    return s


def landing(ctx):
    """C20"""
    r = ctx.rng
    exe = ctx.build("landing", "landing.cpp", ["safe_landing_planner", "avoidance"],
                    sources=["safe_landing_planner/src/nodes/safe_landing_planner.cpp", "avoidance/src/common.cpp"])
    ctx.model_check("LandingMC")
    beh = ctx.behaviours("LandingMC", "LandingGen.cfg")
    r.shuffle(beh)
    scripts = [landing_script(b) for b in beh[:ctx.n(1200, 10000)]]
    for _ in range(ctx.n(160, 1600)):
        s = []

        def cfg():
            size, cell = r.choice([(10000, 1000), (4000, 500), (5000, 2000), (3000, 1000), (2500, 500), (2000, 250), (6000, 2000)])
            k = dict(npts=r.choice([0, 1, 1, 2, 3]), std=r.choice([0, 50, 100, 200]), smooth=r.choice([-1, 0, 0, 1, 1, 2]),
                     mdiff=r.choice([100, 300, 500]), maxdiff=r.choice([0, 2, 5, 8, 20]), minland=r.choice([0, 1, 3, 5, 8, 12]),
                     size=size, cell=cell, alpha=r.choice([0, 20, 50, 90, 100]))
            s.append(_cfg(**k))
            return k
        k = cfg()
        pos = (0, 0)
        for _ in range(r.choice([2, 4, 8])):
            x = r.random()
            if x < 0.12:
                k = cfg()
            elif x < 0.17:      # same values again: nothing may change
                s.append(_cfg(**k))
            if r.random() < 0.4:
                pos = (125 * r.randrange(-80, 80), 125 * r.randrange(-80, 80))
                s.append("pose %d %d %d" % (pos + (r.randrange(0, 9000),)))
            size, cell = k["size"], k["cell"]
            n = -(-size // cell)
            if r.random() < 0.1:
                dims = r.choice([(size, cell), (size, cell), (4000, 1000), (3000, 1500)])
                m = -(-dims[0] // dims[1])
                s.append("raw %d %d %d " % (dims + (m,)) + " ".join(
                    "%d %d %d" % (r.choice([0, 100, 150, 900]) * 1000, r.choice([0, 20, 80, 120, 300]), r.randrange(0, 4)) for _ in range(m * m)))
                continue
            pts = []
            h = {}
            base = r.choice([-1000, 0, 200])
            for _ in range(r.choice([0, 5, 40, min(3 * n * n, 150)])):
                u = r.random()
                if u < 0.8:
                    x, y = (2 * (pos[a] - size // 2) + 2 * 125 * r.randrange(-1, size // 125 + 2) for a in (0, 1))
                elif u < 0.9:   # just inside the upper border of one or both axes
                    x, y = (2 * pos[a] + size - 1 if r.random() < 0.6 else 2 * pos[a] + 2 * 125 * r.randrange(-(size // 250), size // 250 + 1) for a in (0, 1))
                else:
                    x, y = (2 * pos[a] + 2 * 125 * r.randrange(-200, 200) for a in (0, 1))
                key = (x // (2 * cell), y // (2 * cell))
                z = h.setdefault(key, base + r.choice([0, 0, 30, 200, 600]))
                z += r.choice([0, 0, 10, -20, 60, 150, -300])
                pts.append("%d %d %d %d" % (x, y, z, r.choice([0] * 12 + [1, 2, 3])))
            s.append("run " + " ".join(pts))
        scripts.append(s)
    ctx.validate("LandingTrace", ctx.drive(exe, scripts), chunk=ctx.n(None, 400))


# ---------------------------------------------------------------- landing waypoint generator (C21, C22, C23, C08)
NAN = 2000000001
SITE = "".join("1" if 2 <= r <= 4 and 3 <= c <= 5 else "0" for r in range(7) for c in range(7))


def wp_script(beh):
    s = ["cfg 1 50 400000 8000 500 2000", "pose 0 0 8000 %d 0" % 2865, "traj 1000 0 5000 500 0 0 1 1000 0 5000 100 200 1 16 21"]
    for h in beh:
        m = h["m"]
        if m["op"] == "pose":
            s.append("pose %d %d %d 2865 0" % tuple(m["p"]))
        elif m["op"] == "traj":
            s.append("traj %d %d %d %d %d %d 1 %d %d %d 100 200 1 99 %d" % (*m["p1"], *m["v1"], *m["p2"], m["cmd"]))
        elif m["op"] == "mode":
            s.append("mode %s %d" % (m["mode"], m["armed"]))
        elif m["op"] == "relaunch":
            s += ["mode POSCTL 1", "mode AUTO.LAND 1"]
        s.append("grid %d 7000 1000 7 %s 0" % (h["seq"], ["0", "1", SITE][h["land"]]))
        s.append("tick")
    return s


class WpRandom:
    """Random histories of the landing waypoint node; the vehicle mostly cooperates so that every phase is reached."""

    def __init__(self, r, focus):
        self.r, self.focus = r, focus
        self.seq = r.randrange(0, 1000)

    def cfg(self):
        r = self.r
        self.slc = r.choice([0, 1, 1, 1, 2, 3])
        self.lh = 125 * r.randrange(16, 80)
        self.vre = r.choice([250, 500, 1000])
        self.s.append("cfg %d %d %d %d %d %d" % (self.slc, r.choice([0, 20, 50, 90]), r.choice([51003, 400003, 400003, 700007, 950003]),
                                                 self.lh, self.vre, r.choice([1000, 2000, 3500])))

    def dims(self):
        r = self.r
        if self.slc > 4:
            self.n, self.cell = 40, 250
            return
        while True:
            self.n, self.cell = r.choice([(7, 1000), (8, 500), (9, 1000), (10, 250), (5, 2000), (13, 500), (6, 1000), (4, 1000), (11, 125)])
            if self.n // 2 - self.slc >= 0 and self.n // 2 + self.slc < self.n:
                return

    def land(self):
        r, n = self.r, self.n
        x = r.random()
        if x < 0.25:
            return "1"
        if x < 0.4:
            return "0"
        if x < 0.8:      # one landable rectangle somewhere
            k = 2 * self.slc + 1
            h, w = k + r.randrange(0, 3), k + r.randrange(0, 3)
            a, b = r.randrange(0, max(1, n - h + 1)), r.randrange(0, max(1, n - w + 1))
            holes = {(r.randrange(n), r.randrange(n)) for _ in range(r.choice([0, 0, 0, 1, 2]))}
            return "".join("1" if a <= i < a + h and b <= j < b + w and (i, j) not in holes else "0" for i in range(n) for j in range(n))
        p = r.choice([0.5, 0.9, 0.97])
        return "".join("1" if r.random() < p else "0" for _ in range(n * n))

    def mean(self):
        r, n = self.r, self.n
        self.ground = 125 * r.randrange(-16, 17)
        if r.random() < 0.4:
            return [self.ground] * (n * n)
        return [self.ground + 125 * r.choice([0, 0, 0, 1, 2, -4, 8, -8, 3]) for _ in range(n * n)]

    def traj(self, cmd=None):
        r = self.r
        x, y, z = (r.randrange(-20000, 20000) for _ in range(3))
        q = (x, y, z) if r.random() < 0.7 else tuple(r.randrange(-20000, 20000) for _ in range(3))
        if r.random() < 0.1 and hasattr(self, "lastq"):
            q = tuple(v + r.choice([0, 2, 4]) for v in self.lastq)
        elif r.random() < 0.1 and hasattr(self, "lastq"):
            q = (self.lastq[0], self.lastq[1], self.lastq[2] + r.choice([20, -500]))
        elif r.random() < 0.03:
            q = (NAN, q[1], q[2])
        p = [x, y, z]
        if r.random() < 0.05:
            p[r.randrange(3)] = NAN
        v = [r.choice([NAN, 0, 1000, -300]) for _ in range(3)]
        ok1, ok2 = r.random() < 0.9, r.random() < 0.9
        if ok2 and q[0] != NAN:
            self.lastq = q
        cmd = cmd if cmd is not None else r.choice([21, 21, 16, 22])
        self.s.append("traj %d %d %d %d %d %d %d %d %d %d %s %s %d %d %d" %
                      (*p, *v, ok1, *q, r.choice([NAN, 1000, -2500]), r.choice([NAN, 100, 0]), ok2, r.choice([21, 16, 0]), cmd))

    def batch(self, near, height_ok):
        r = self.r
        x = r.random()
        dz = self.lh + r.choice([0, 0, 125, -125]) if height_ok else 125 * r.randrange(8, 120)
        z = self.ground + r.choice([1, 1, 1, -1]) * dz
        d = (0, 0) if near < 0.6 else r.choice([(300, -200), (-440, 0), (0, 520), (600, 0), (1200, -1000), (0, 1900), (2100, 0), (-1500, 1500)]) if near < 0.9 \
            else (r.randrange(-30000, 30000), r.randrange(-30000, 30000))
        if x < 0.8:
            self.s.append("near %d %d %d %d %d" % (d[0], d[1], z, r.randrange(-17900, 17900), r.choice([0, 0, 1500, -3000])))

    def script(self):
        r = self.r
        self.s = []
        self.slc = 6
        big = r.random() < 0.03
        if big:
            self.n, self.cell, self.lh, self.vre = 40, 250, 8000, 500
        else:
            self.cfg()
            self.dims()
        self.ground = 0
        me = self.mean()
        la = self.land()
        if r.random() < 0.9:
            self.s.append("pose %d %d %d 0 0" % (r.randrange(-9000, 9000), r.randrange(-9000, 9000), 5000))
        if r.random() < 0.5:
            self.s.append("mode %s 1" % r.choice(["AUTO.MISSION", "AUTO.LAND"]))
        self.traj(21)
        coop = r.random() < 0.7
        inc = r.choice([1, 3, 7, 7, 11])
        disturb = {"fsm": 0.06, "sites": 0.02, "msgs": 0.25}[self.focus]
        steps = {1: 60, 3: 40, 7: 45, 11: 45}[inc] if not big else 12
        for _ in range(steps):
            if r.random() < 0.15:
                self.s.append("batch")
            for _ in range(2 if r.random() < 0.1 else 1):
                if r.random() < disturb:
                    x = r.random()
                    if x < 0.35:
                        self.s.append("mode %s %d" % (r.choice(["AUTO.MISSION", "AUTO.LAND", "POSCTL", "AUTO.LOITER", "OFFBOARD", "AUTO.RTL"]), r.random() < 0.8))
                    elif x < 0.45:
                        self.s += ["mode POSCTL 1", "mode AUTO.LAND 1"]
                    elif x < 0.75:
                        self.traj()
                    elif x < 0.85 and not big:
                        self.cfg()
                        if not (self.n // 2 - self.slc >= 0 and self.n // 2 + self.slc < self.n):
                            self.dims()
                            me, la = self.mean(), self.land()
                    elif not big:
                        self.dims()
                        me, la = self.mean(), self.land()
            if r.random() < 0.12:
                la = self.land()
            if r.random() < 0.05:
                me = self.mean()
            self.batch(r.random() * (0.65 if coop else 1), coop or r.random() < 0.5)
            self.seq += inc if r.random() < 0.95 else r.choice([0, 1, 20, 21, 30])
            g = "grid %d %d %d %d %s %s" % (self.seq, self.n * self.cell, self.cell, self.n, la,
                                            " ".join(map(str, me)) if len(set(me)) > 1 else me[0])
            self.s.append(g)
            if self.focus == "msgs" and r.random() < 0.1:   # further messages of the same batch after the grid
                self.s.append("mode %s 1" % r.choice(["AUTO.LAND", "POSCTL"]))
            self.s.append("tick")
        return self.s


def wp_persistent(r):
    """Nothing landable for a long time: more than one full round of exploration, cancelled and started again."""
    slc = r.choice([1, 1, 2])
    n, cell = r.choice([(7, 1000), (5, 500), (9, 250)])
    s = ["cfg %d 50 400003 8000 500 %d" % (slc, r.choice([1000, 2000, 3500])), "pose %d %d 8000 0 0" % (r.randrange(-5000, 5000), r.randrange(-5000, 5000)),
         "traj 1000 2000 5000 %d 0 0 1 1000 2000 5000 100 200 1 0 21" % NAN]
    seq = 0
    rounds = r.choice([9, 10, 17])
    cancel_at = 6 * rounds + r.randrange(0, 6)
    for k in range(cancel_at + 6 * r.choice([3, 9, 10])):
        if k == cancel_at:
            s += [["mode POSCTL 1", "mode AUTO.LAND 1"], ["traj 1000 -4000 5000 0 0 0 1 1000 -4000 5000 100 200 1 0 16"], ["mode AUTO.LAND 0"]][r.randrange(3)]
        if k == cancel_at + 1:
            s += ["mode AUTO.LAND 1", "traj -3000 2000 5000 0 0 0 1 -3000 2000 5000 100 200 1 0 21"]
        s.append("near %d %d 8000 %d 0" % (r.choice([0, 0, 300, -450, 600]) if k % 2 else 0, 0, r.randrange(-17900, 17900)))
        seq += 22
        s += ["grid %d %d %d %d 0 0" % (seq, n * cell, cell, n), "tick"]
    return s


SLPW_EXCL = ("safe_landing_planner_node.cpp", "safe_landing_planner_visualization.cpp", "safe_landing_planner.cpp")


def build_waypoint(ctx):
    return ctx.build("slp_waypoint", "slp_waypoint.cpp", ["safe_landing_planner", "avoidance"], exclude=SLPW_EXCL)


def _waypoints(ctx, focus, nbeh, nrand):
    r = ctx.rng
    exe = build_waypoint(ctx)
    scripts = []
    if nbeh:
        ctx.model_check("SlpWaypointMC")
        ctx.model_check("SlpWaypointMC", "SlpWaypointGood.cfg")
        beh = ctx.behaviours("SlpWaypointMC", "SlpWaypointGenDeep.cfg" if ctx.thorough else "SlpWaypointGen.cfg", workers=8)
        r.shuffle(beh)
        scripts = [wp_script(b) for b in beh[:nbeh]]
    scripts += [WpRandom(r, focus).script() for _ in range(nrand)]
    scripts += [wp_persistent(r) for _ in range(ctx.n(12, 100))]
    ctx.validate("SlpWaypointTrace", ctx.drive(exe, scripts), chunk=ctx.n(None, 300))
    return exe


def fsm(ctx):
    """C21"""
    _waypoints(ctx, "fsm", ctx.n(1500, 12000), ctx.n(120, 1500))


def sites(ctx):
    """C22"""
    _waypoints(ctx, "sites", ctx.n(500, 4000), ctx.n(250, 3000))


def wpnode(ctx):
    """C23"""
    _waypoints(ctx, "msgs", ctx.n(500, 4000), ctx.n(250, 3000))
