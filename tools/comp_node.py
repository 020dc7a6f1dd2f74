"""Companion supervisor: health reporting (C02), parameters and mission speed (C03)."""
F = ["MPC_ACC_DOWN_MAX", "MPC_ACC_HOR", "MPC_ACC_UP_MAX", "MPC_JERK_MIN", "MPC_JERK_MAX", "MPC_LAND_SPEED",
     "MPC_TKO_SPEED", "MPC_XY_CRUISE", "MPC_Z_VEL_MAX_DN", "MPC_Z_VEL_MAX_UP", "CP_DIST", "NAV_ACC_RAD",
     "MPC_YAWRAUTO_MAX"]
NAN, INF, FAIL, DOWN = 2000000001, 2000000002, 2000000003, 2000000004
DURS = [-1, 0, 1, 250, 499, 500, 501, 502, 1000, 4999, 5000, 5001, 5500, 9999, 10000, 10001, 14999, 15000, 15001, 15002,
        19999, 20000, 20001, 60000, 86400000]


def line(o):
    if o["op"] == "failsafe":
        return "failsafe %d %d %d" % (o["cloud"], o["start"], o["hover"])
    if o["op"] == "setstatus":
        return "setstatus %d" % o["s"]
    if o["op"] == "hb":
        return "hb"
    if o["op"] == "param":
        return "param %s %d %d" % (o["id"], o["real"], o["int"])
    if o["op"] == "mission":
        return mission([(i["current"], i["command"], i["type"], i["speed"]) for i in o["items"]])
    raise KeyError(o["op"])


def mission(items):
    return "mission %d " % len(items) + " ".join("%d %d %d %d" % i for i in items)


def rand_failsafe(r):
    d = lambda: r.choice(DURS) if r.random() < 0.8 else r.randrange(0, 20000)
    return "failsafe %d %d %d" % (d(), d(), r.random() < 0.4)


def rand_param(r):
    ids = F + ["MPC_AUTO_MODE", "UNRELATED", "MPC_XY_CRUIS", "MPC_XY_CRUISE2", "mpc_xy_cruise"]
    v = r.choice([0, 100, 2500, 12000, -1000, NAN, INF, r.randrange(-50000, 50000)])
    return "param %s %d %d" % (r.choice(ids), v, r.randrange(-3, 9))


def rand_poll(r):
    mode = r.random()
    out = []
    hole = r.randrange(len(F)) if mode < 0.6 else -1
    for k in range(len(F)):
        v = r.choice([500, 1000, 3300, r.randrange(1, 30000)])
        if mode >= 0.85 and r.random() < 0.5:
            v = r.choice([FAIL, DOWN, NAN, INF])
        if k == hole:
            v = r.choice([NAN, INF, -INF, FAIL])
        out.append(v)
    return "poll " + " ".join(map(str, out))


def rand_mission(r):
    n = r.randrange(0, 9)
    cur = r.randrange(-1, n) if n else -1
    its = []
    for k in range(n):
        its.append((int(k == cur or r.random() < 0.05), r.choice([178, 178, 16, 22, 21, 177, 179]), r.choice([0, 1, 1, 1, 2, 3]),
                    r.choice([0, -1000, 1, 1000, 3000, 12500, r.randrange(1, 20000)])))
    return mission(its)


def _run(ctx, which):
    exe = ctx.build("node", "avoidance_node.cpp", ["avoidance"])
    ctx.model_check("AvoidanceNodeMC")
    beh = ctx.behaviours("AvoidanceNodeMC", "AvoidanceNodeGen.cfg")
    keep = {"failsafe": ("failsafe", "setstatus", "hb"), "params": ("param", "mission", "hb")}[which]
    beh = [[line(o) for o in b] for b in beh if b[-1]["op"] in keep]
    ctx.rng.shuffle(beh)
    beh = beh[:ctx.n(1500, 6000)]
    # several behaviours per supervisor instance keep the number of polling threads small: each behaviour starts
    # from a known status
    scripts = [[x for b in beh[k:k + 12] for x in (["hb"] + b)] for k in range(0, len(beh), 12)]
    r = ctx.rng
    for _ in range(ctx.n(60, 600)):
        s = []
        for _ in range(r.randrange(20, 60)):
            if which == "failsafe":
                s.append(r.choice([rand_failsafe, rand_failsafe, rand_failsafe, lambda r: "hb", lambda r: "setstatus %d" % r.randrange(9)])(r))
                s.append("hb")
            else:
                s.append(r.choice([rand_param, rand_poll, rand_mission, lambda r: "hb"])(r))
        scripts.append(s)
    if which == "failsafe":      # exhaustive boundary grid
        grid = ["failsafe %d %d %d" % (c, s, h) for c in DURS for s in DURS for h in (0, 1)]
        for st in (1, 3, 4, 5, 8):
            g = []
            for x in grid:
                g += ["setstatus %d" % st, x, "hb"]
            scripts.append(g)
    pairs = ctx.drive(exe, scripts)
    ctx.validate("AvoidanceNodeTrace", pairs)
    ctx.assumptions += ["ROS transport is replaced by stand-ins; timers fire when the driver fires them"]


def failsafe(ctx):
    _run(ctx, "failsafe")


def params(ctx):
    _run(ctx, "params")
