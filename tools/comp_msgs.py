"""Messages for the flight controller (C08): shared helper of the planners and the landing node's own."""
import comp_common, comp_slp

NAN = 2000000001


def trajectories(ctx):
    r = ctx.rng
    common = comp_common.build(ctx)
    node = ctx.build("slp_waypoint", "slp_waypoint.cpp", ["safe_landing_planner", "avoidance"], exclude=comp_slp.SLPW_EXCL)
    ctx.model_check("MessagesMC")
    beh = [b[0] for b in ctx.behaviours("MessagesMC", "MessagesGen.cfg")]
    j = lambda v: " ".join(map(str, v))
    pk = lambda: r.choice([NAN, 0]) if r.random() < 0.2 else r.randrange(-100000, 100000)
    s = ["traj %s %s %d %d" % (j(b["pos"]), j(b["vel"]), r.randrange(-3141, 3142), r.randrange(-3000, 3000)) for b in beh]
    s += ["traj %s %d %d" % (j(pk() for _ in range(6)), r.randrange(-3141, 3142), r.randrange(-3000, 3000)) for _ in range(ctx.n(400, 4000))]
    for _ in range(ctx.n(200, 2000)):
        s.append("bezier %s %d" % (j(x for _ in range(5) for x in (r.randrange(-50000, 50000), r.randrange(-50000, 50000), r.randrange(-20000, 20000),
                                                                   r.randrange(-3000, 3000))), r.randrange(0, 20000)))
    ctx.validate("CommonTrace", ctx.drive(common, comp_common.chunks(s), name="common"))
    scripts = []
    for b in beh:
        scripts.append(["cfg 1 50 400003 8000 500 2000", "pose 0 0 8000 100 0", "mode AUTO.MISSION 1",
                        "traj %s %s 1 0 9000 0 %d %d %d 16 16" % (j(b["pos"]), j(b["vel"]), r.choice([NAN, 500, -2900]), r.choice([NAN, 70, 0]), 1),
                        "grid 3 5000 1000 5 1 0", "tick"])
    scripts += [comp_slp.WpRandom(r, "msgs").script() for _ in range(ctx.n(80, 800))]
    ctx.validate("SlpWaypointTrace", ctx.drive(node, scripts, name="node"))
