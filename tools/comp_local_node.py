"""C16, C17: the local planner nodelet under a deterministic scheduler."""
NAN = 2000000001
WRAP = ["_ZN9avoidance12LocalPlanner8setStateERKN5Eigen6MatrixIfLi3ELi1ELi0ELi3ELi1EEES5_RKNS1_10QuaternionIfLi0EEE",
        "_ZN9avoidance12LocalPlanner7setGoalERKN5Eigen6MatrixIfLi3ELi1ELi0ELi3ELi1EEE",
        "_ZN9avoidance12LocalPlanner15setPreviousGoalERKN5Eigen6MatrixIfLi3ELi1ELi0ELi3ELi1EEE",
        "_ZN9avoidance12LocalPlanner6setFOVEiRKNS_3FOVE", "_ZN9avoidance17WaypointGenerator6setFOVEiRKNS_3FOVE",
        "_ZN9avoidance12LocalPlanner10runPlannerEv", "_ZN9avoidance17WaypointGenerator14setPlannerInfoERKNS_15avoidanceOutputE",
        "_ZN9avoidance17WaypointGenerator11updateStateERKN5Eigen6MatrixIfLi3ELi1ELi0ELi3ELi1EEERKNS1_10QuaternionIfLi0EEES5_S5_S5_bbRKNS_15NavigationStateEbbS5_",
        "_ZN9avoidance17WaypointGenerator12getWaypointsEv",
        "_ZN9avoidance9tf_buffer15TransformBuffer15insertTransformERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES9_N2tf16StampedTransformE"]


def build(ctx):
    return ctx.build("lpn", "local_node.cpp", ["avoidance", "local_planner"], libs=["-ldl"] + ["-Wl,--wrap=" + w for w in WRAP])


def view(r):
    """opening of a camera; (0, n): a cloud of n invalid points"""
    return (0, r.choice([0, 1, 3])) if r.random() < 0.1 else (r.choice([20, 60, 60, 60, 90, 120]), r.choice([20, 30, 30, 60, 90]))


def message(r, v3, n3):
    y = r.randrange(12)
    part = lambda: " ".join(x if r.random() < 0.6 else str(NAN) for x in v3().split())
    if y == 0:
        return "vel " + v3()
    if y in (1, 2):
        return "state %s %d" % (r.choice(["AUTO.MISSION", "AUTO.TAKEOFF", "AUTO.LAND", "AUTO.RTL", "AUTO.RTGS", "AUTO.LOITER", "OFFBOARD", "OFFBOARD", "MANUAL", "POSCTL"]), r.random() < 0.5)
    if y == 3:
        return "click " + v3()
    if y == 4:
        return "marker %d %s" % (r.choice([0, 1, 2]), v3())
    if y in (5, 6, 7):
        return "fcu %d %d %s %s %d %s %d" % (r.random() < 0.75, r.random() < 0.75, r.choice([v3, v3, part])(), r.choice([v3(), n3]),
                                             r.choice([16, 21, 22, 65535, 0, 2]), r.choice([v3(), v3(), n3]), r.choice([16, 16, 21, 65535, 65534]))
    if y == 8:
        return "param %s %d" % (r.choice(["CP_DIST", "MPC_XY_CRUISE"]), r.choice([-1000, 0, 4000, 2000, NAN]))
    if y == 9:
        return "mission %d" % r.choice([-1000, 0, 1000, 2500, 8000])
    return r.choice(["beat", "reconf %d %d" % (r.choice([3500, 8000]), r.choice([15000, 1000])), "adv 501"])


def flight(r):
    """undisturbed cycles, one after the other, with any messages in between"""
    n = r.choice([1, 1, 2, 3])
    v3 = lambda: "%d %d %d" % tuple(r.choice([0, 1000, -4000, 250, 20000, 7777]) for _ in range(3))
    n3 = "%d %d %d" % (NAN, NAN, NAN)
    s = ["create %d %d %s 15000" % (n, r.random() < 0.5, v3())]
    ids, st = 0, 0
    for _ in range(r.choice([3, 6, 12])):
        st += r.choice([1, 100, 300, 400])
        for k in r.sample(range(n), n):
            ids += 1
            s += ["tf %d %d" % (k, st), "cloud %d %d %d %d %d" % ((k, ids, st) + view(r))]
        s += [message(r, v3, n3) for _ in range(r.choice([0, 1, 2, 4]))]
        s += ["spin", "s 20", "settle"]
        s += [message(r, v3, n3) for _ in range(r.choice([0, 0, 1, 2]))]
        s += ["tick", "pose %s %d" % (v3(), 100 * r.randrange(-180, 180)), "settle", "adv %d" % r.choice([1, 50, 100, 300])]
    return s


def rand(r, cams=False):
    """a random schedule; cams: concentrate on the camera pipeline"""
    n = r.choice([1, 2, 2, 3]) if cams else r.choice([0, 1, 1, 2])
    v3 = lambda: "%d %d %d" % tuple(r.choice([0, 1000, -4000, 250, 20000, 7777]) for _ in range(3))
    n3 = "%d %d %d" % (NAN, NAN, NAN)
    s = ["create %d %d %s %d" % (n, r.random() < 0.5, v3(), r.choice([15000, 15000, 1000, 300]))]
    ids, last, late, now = 0, [0] * 3, [], 0
    p2 = v3()

    def tfs():
        for q in late:
            s.append("tf %d %d" % q)
        late.clear()
    for _ in range(r.choice([20, 50, 90])):
        x = r.random()
        if x < (0.3 if cams else 0.14) and n and ids < 90:
            k = r.randrange(n)
            ids += 1
            st = last[k] + r.choice([1, 33, 100, 299, 300, 301, 400] if r.random() < 0.95 else [6000])
            last[k] = st
            t = st + r.choice([0, 0, 1, 50])
            q = r.random()
            if q < 0.5:
                tfs()
                if q < 0.2:
                    s.append("tf %d %d" % (k, max(0, st - r.choice([0, 1, 50]))))
                    s.append("w %d" % r.choice([1, 3, 6]))
                s.append("tf %d %d" % (k, t))
            else:
                late.append((k, t))
            s.append("cloud %d %d %d %d %d" % ((k, ids, st) + view(r)))
        elif x < 0.34:
            tfs()
        elif x < 0.40:
            s.append("tick")
        elif x < 0.46:
            s.append("pose %s %d" % (v3(), 100 * r.randrange(-180, 180)))
        elif x < 0.62:
            s.append("m %d" % r.choice([1, 1, 2, 3, 5, 9, 20]))
        elif x < 0.70:
            s.append("spin")
            s.append("s %d" % r.choice([1, 1, 2, 3, 9]))
        elif x < 0.74:
            s.append("s %d" % r.choice([1, 1, 2, 3, 9]))
        elif x < 0.84:
            s.append("w %d" % r.choice([1, 1, 1, 2, 3, 6]))
        elif x < 0.90:
            s.append("t %d %d" % (r.randrange(6), r.choice([1, 1, 2, 4, 8])))
        elif x < 0.93:
            s.append("adv %d" % r.choice([1, 50, 100, 299, 301, 499, 500, 501, 1001, 4000, 5001, 15001]))
        elif x < 0.95:
            s.append("settle")
        elif cams:
            s.append(r.choice(["beat", "settle", "param CP_DIST %d" % r.choice([-1000, 0, 4000, NAN]), "vel " + v3()]))
        else:
            for _ in range(r.choice([1, 2, 4])):
                y = r.randrange(10)
                if y == 0:
                    s.append("vel " + v3())
                elif y == 1:
                    s.append("state %s %d" % (r.choice(["AUTO.MISSION", "AUTO.TAKEOFF", "AUTO.LAND", "AUTO.RTL", "AUTO.RTGS", "AUTO.LOITER", "OFFBOARD",
                                                        "MANUAL", "POSCTL", "AUTO.PRECLAND", "offboard", "-", "AUTO"]), r.random() < 0.7))
                elif y == 2:
                    s.append("click " + v3())
                elif y == 3:
                    s.append("marker %d %s" % (r.choice([0, 1, 1, 2]), v3()))
                elif y in (4, 5, 6):
                    if r.random() < 0.6:
                        p2 = r.choice([v3(), v3(), v3(), n3])
                    s.append("fcu %d %d %s %s %d %s %d" % (r.random() < 0.75, r.random() < 0.75, n3 if r.random() < 0.1 else v3(), r.choice([v3(), n3]),
                                                         r.choice([16, 21, 22, 65535, 0, 2]), p2, r.choice([16, 16, 21, 65535, 65534])))
                elif y == 7:
                    s.append("param %s %d" % (r.choice(["CP_DIST", "MPC_XY_CRUISE"]), r.choice([-1000, 0, 4000, 2000, NAN])))
                elif y == 8:
                    s.append("mission %d" % r.choice([-1000, 0, 1000, 2500, 8000]))
                else:
                    s.append(r.choice(["beat", "beat", "reconf %d %d" % (r.choice([3500, 3500, 8000]), r.choice([15000, 1000]))]))
    s.append("settle")
    tfs()
    return s + ["settle", "tick", "settle", "pose 0 0 1000 0", "settle", "beat"]


def end(r, s):
    """destroy the node somewhere in a schedule"""
    k = r.randrange(1, len(s) + 1)
    s = s[:k] + ["destroy"]
    for _ in range(r.choice([0, 3, 10, 30])):
        s.append(r.choice(["d 1", "d 1", "d 3", "d 8", "m 1", "m 3", "w 1", "w 3", "t %d 1" % r.randrange(6), "t %d 4" % r.randrange(6)]))
    return s + ["settle"]


def schedules(ctx):
    """interleavings of deliveries and threads from the specification"""
    r = ctx.rng
    beh = ctx.behaviours("LocalNodeMC", "LocalNodeGen.cfg", workers=8, heap="8g")
    r.shuffle(beh)
    res = []
    for b in beh[:ctx.n(700, 8000)]:
        s = ["create 2 0 1000 2000 3000 15000"]
        dup = r.choice([1, 2, 2, 3, 4])
        for o in b:
            if o["op"] == "tf":
                s += ["tf %d %d" % (o["k"] - 1, o["s"]), "t 4 8"]
            elif o["op"] == "cloud":
                s += ["cloud %d %d %d 60 30" % (o["k"] - 1, o["id"], o["s"]), "spin", "s %d" % r.choice([6, 20])]
            else:
                s.append("t %d %d" % (o["k"] - 1, dup))
        s.append("settle")
        if r.random() < 0.5:
            s += ["tf 0 800", "tf 1 800", "settle", "tick", "m 9", "pose 0 0 1000 0", "settle"]
        res.append(s)
    return res


def run(ctx, exe, scripts):
    for k in range(0, len(scripts), 1000):
        ctx.validate("LocalNodeTrace", ctx.drive(exe, scripts[k:k + 1000], name="run%d" % k))
    ctx.assumptions.append("threads of the node interleave at mutex acquisitions and releases, condition waits, sleeps, message deliveries and between the planner's inputs")


def commands(ctx):
    exe = build(ctx)
    r = ctx.rng
    scripts = [rand(r) for _ in range(ctx.n(1500, 12000))]
    scripts += [flight(r) for _ in range(ctx.n(300, 3000))]
    scripts += [end(r, rand(r)) for _ in range(ctx.n(300, 3000))]
    run(ctx, exe, scripts)


def cameras(ctx):
    exe = build(ctx)
    ctx.model_check("LocalNodeMC")
    r = ctx.rng
    scripts = schedules(ctx)
    scripts += [rand(r, True) for _ in range(ctx.n(1200, 10000))]
    scripts += [end(r, rand(r, True)) for _ in range(ctx.n(200, 2000))]
    run(ctx, exe, scripts)
