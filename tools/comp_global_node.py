"""The global planner node: goals (C28), setpoints (C29); maps and parameters (part of C30)."""
from comp_planner import line
from comp_global import KINDS, room, mapline


def build(ctx):
    return ctx.build("gpn", "global_node.cpp", ["avoidance", "global_planner"], libs=["-ldl"], flags=["-fno-access-control"], defines=["DISABLE_SIMULATION"])


def conf(r, **k):
    o = dict(s=2, alt=r.choice([10, 8, 12]), minalt=r.choice([1, 2]), mr=r.choice([2000, 2000, 2003, 517]), sm=r.choice([0, 200, 100]), rf=r.choice([500, 500, 120, 1000]), flow=r.choice([0, 0, 0, 100]),
             pen=r.choice([50, 50, 0, 100]), up=r.choice([50, 30]), down=r.choice([10, 25]), sr=r.choice([5000, 5000, 2500]), kind=r.choice(KINDS), omin=r.choice([103, 100, 110]),
             omax=r.choice([200, 200, 150, 500]), iters=r.choice([2000, 200, 60, 30]), free=r.choice([1, 1, 0]), yaw=r.choice([1, 0]), st=r.choice([0, 0, 500, 1000]), riskh=r.choice([0, 1]),
             speedh=r.choice([0, 1]), speedup=r.choice([0, 1, 1]), thr=r.choice([500, 500, 50, 300, 1000, 0]), dspeed=r.choice([1000, 500, 2000, 333]), mspeed=r.choice([3000, 2000, 10000, 4567]),
             calt=r.choice([28, 20, 35]), crad=r.choice([1000, 1000, 2000, 3500]), rounds=r.choice([0, 1, 2, 5]), margin=r.choice([1010, 1010, 990, 1200, 2000]))
    o.update(k)
    return o


ORDER = ("s", "alt", "minalt", "mr", "sm", "rf", "flow", "pen", "up", "down", "sr", "kind", "omin", "omax", "iters", "free", "yaw", "st", "riskh", "speedh", "speedup", "thr", "dspeed", "mspeed", "calt", "crad", "rounds", "margin")


def cline(o):
    return line("conf", *[o[x] for x in ORDER])


def field(r, s):
    """a corridor with a few obstacles; the rest of the world is unknown"""
    L = r.choice([6, 16, 16])
    v = {}
    for x in range(-2, L + 2):
        for y in range(-2, 3):
            for z in range(0, 7):
                if r.random() < 0.25:
                    v[(x, y, z)] = 1
                elif r.random() < 0.02:
                    v[(x, y, z)] = r.choice([5, 4, 3, 2])
    if r.random() < 0.3:
        wall = r.randrange(2, L)
        for y in range(-4, 5):
            for z in range(0, 13):
                v[(wall, y, z)] = 5
    return L, v


def history(r, n, focus):
    s = r.choice([2, 2, 2, 1, 4]) if focus != "goals" else r.choice([2, 2, 2, 2, 1, 4])
    t = [line("create", *(r.choice([[4, 4, 28], [4, 4, 28], [20, -4, 20]])), r.choice([500, 500, 1200]))]
    o = conf(r, s=2)
    if r.random() < 0.9:
        if r.random() < 0.5:
            o["s"] = s
        t.append(cline(o))
    else:
        o = dict(conf(r), s=2, dspeed=1000, mspeed=3000, calt=28)
    L, v = field(r, o["s"])
    pos = [r.randrange(0, 16), r.randrange(-8, 9), r.randrange(12, 40)]
    cells = lambda k=1: [r.randrange(-1, L + 1), r.randrange(-2, 3), r.randrange(2, 6)]
    u = lambda c: [4 * o["s"] * c[i] + r.randrange(0, 4 * o["s"]) for i in range(3)]
    mapped = False
    target = None
    for _ in range(n):
        x = r.random()
        if not mapped and r.random() < 0.6:
            t += [line("adv", r.choice([200, 250, 100])), mapline(v, 2)]
            mapped = True
            continue
        if x < 0.10:
            t.append(line("adv", r.choice([50, 100, 100, 150, 199, 200, 1000, 600, 5000, 15001])))
        elif x < 0.16:
            if r.random() < 0.3:
                L2, v = field(r, o["s"])
            t.append(line("adv", r.choice([50, 100, 199, 200, 201, 250])))
            t.append(mapline(v, r.choice([2, 2, 2, 1])))
        elif x < 0.19:
            t.append(line("vel", [r.choice([0, 0, 4, -8, 8, 12]) for _ in range(2)], r.choice([0, 0, 8, -8])))
        elif x < 0.20:
            t.append(line("point", u(cells())))
        elif x < 0.23 and focus != "setpoints":
            t.append(line("queue", cells(), r.choice([1000, 2000, 500]), r.random() < 0.2))
        elif x < 0.29:
            target = cells()
            t.append(line("click", u(target)))
        elif x < 0.36:
            c = cells() if r.random() < 0.7 or not target else target
            p = u(c)
            t.append(line("fcu", r.random() < 0.7, r.random() < 0.8, p, u(cells())[:2]))
            if r.random() < 0.4:      # again, within the same cell, or at another height
                t.append(line("fcu", 1, 1, [p[0], p[1], p[2] + r.choice([0, 0, 32])], [0, 0]))
        elif x < 0.39:
            old = o["s"]
            o = conf(r, s=(r.choice([1, 2, 4]) if r.random() < 0.3 else o["s"]), flow=o["flow"])
            t.append(cline(o))
        elif x < 0.42 and focus == "fresh":
            t.append(line("tf", [r.choice([0, 8, -4]) for _ in range(3)]))
        elif x < 0.46 and focus == "fresh":
            k = r.randrange(0, 4)
            t += [line("cloud", k, [c for _ in range(k) for c in u(cells())]), line("adv", 200), mapline(v, 2)]
            mapped = True
        elif x < 0.50 or (focus == "fresh" and x < 0.7):
            t.append(line("risk", cells()))
        elif x < 0.66:
            t += [line("plan")] * r.choice([1, 1, 2, 3])
        elif x < (0.9 if focus == "setpoints" else 0.75):
            t += [line("cmd"), "status"] if r.random() < 0.2 else [line("cmd")]
        else:
            t.append(line("plan") if r.random() < 0.1 else line("cmd"))
            for _ in range(r.choice([1, 3, 6])):
                # the vehicle flies (roughly) on, or is somewhere else
                if r.random() < 0.15:
                    pos = u(cells())
                elif target and r.random() < 0.7:
                    g = [4 * o["s"] * target[i] + 2 * o["s"] for i in range(2)] + [o.get("calt", 28)]
                    pos = [p + max(-8, min(8, gg - p)) + r.choice([0, 0, 1, -1]) for p, gg in zip(pos, g)]
                else:
                    pos = [p + r.choice([0, 3, -3, 8]) for p in pos]
                pos[2] = max(pos[2], 10)
                t.append(line("pose", pos, r.randrange(-3141, 3142)))
                if focus == "setpoints":
                    t.append("cmd")
    return t


def follow(r, o, n):
    """the vehicle follows its own setpoints: the driver has no feedback, so a straight flight along the corridor"""
    t = [line("create", 4, 4, 28, 500), cline(o), line("adv", 200), mapline({(0, 0, 6): 1}, 2)]
    s = o["s"]
    goal = [r.randrange(6, 15), r.randrange(-2, 3), 3]
    y = r.randrange(-4, 4)
    pos = [4, y, 28]
    t += [line("pose", pos, 0), line("click", [4 * s * c + 1 for c in goal])]
    for k in range(n):
        t.append("plan")
        for _ in range(r.choice([2, 5])):
            t.append("cmd")
            g = [4 * s * c + 2 * s for c in goal]
            pos = [p + max(-6, min(6, gg - p)) for p, gg in zip(pos, g)]
            t.append(line("pose", pos, r.randrange(-3141, 3142)))
        t.append(line("adv", 1000))
        if r.random() < 0.3:
            t.append(mapline({(r.randrange(2, 14), r.randrange(-2, 3), r.randrange(2, 5)): 5 for _ in range(r.randrange(0, 12))} or {(0, 0, 6): 1}, 2))
    return t


def tour(r):
    """several goals handed over in advance, each of them reached, nearly reached or out of reach"""
    s = r.choice([2, 2, 2, 1, 4])
    o = conf(r, s=s, flow=0, iters=r.choice([30, 60, 200]), omin=r.choice([103, 104, 105, 106, 100]))
    L, v = field(r, s)
    t = [line("create", *r.choice([[4, 4, 28], [20, -4, 20]]), r.choice([500, 1200])), cline(o), line("adv", 200), mapline(v, 2)]
    cell = lambda: [r.randrange(-1, L + 1), r.randrange(-2, 3), r.randrange(2, 6)]
    t.append(line("pose", [r.randrange(0, 16), r.randrange(-4, 5), r.randrange(16, 34)], 0))
    for _ in range(r.choice([2, 4, 7])):
        for _ in range(r.choice([0, 1, 2, 3])):
            t.append(line("queue", cell(), r.choice([1000, 2000, 500]), r.random() < 0.1))
        x = r.random()
        if x < 0.65:
            t.append(line("reach", [r.choice([0, 0, 0, 1, -1]) for _ in range(3)], r.randrange(-3141, 3142)))
        elif x < 0.75:
            t.append(line("reach", [r.choice([0, 3, 4, 5, 8, -8]) for _ in range(3)], 0))
        elif x < 0.85:
            t.append(line("pose", [r.randrange(0, 60), r.randrange(-8, 9), r.randrange(16, 34)], 0))
        elif x < 0.92:
            t.append(line("click", [4 * s * c + 2 for c in cell()]))
        t += ["plan"] * r.choice([1, 1, 2])
        if r.random() < 0.5:
            t.append("cmd")
    return t


def run(ctx, focus, n, m=0):
    r = ctx.rng
    exe = build(ctx)
    S = [history(r, r.choice([12, 25, 40]), focus) for _ in range(n)]
    S += [follow(r, conf(r, flow=0, iters=r.choice([30, 60, 2000])), r.choice([6, 12])) for _ in range(m)]
    S += [tour(r) for _ in range(m)] if focus == "goals" else []
    r.shuffle(S)
    ctx.validate("GlobalNodeTrace", ctx.drive(exe, S), chunk=6)


def goals(ctx):
    for cfg in ["GlobalNodeMC.cfg"] + (["GlobalNodeMCdeep.cfg"] if ctx.thorough else []):
        ctx.model_check("GlobalNodeMC", cfg)
    run(ctx, "goals", ctx.n(60, 1200), ctx.n(30, 500))


def setpoints(ctx):
    ctx.model_check("GlobalNodeMC", "GlobalNodeMC.cfg")
    run(ctx, "setpoints", ctx.n(60, 1200), ctx.n(20, 400))
