"""C24: the landing planner node under a deterministic scheduler."""


def rand(r):
    raw = r.random() < 0.15
    tc, tt = r.choice([(500, 15000), (500, 15000), (200, 1000), (0, 300)])
    s = ["create %d %d %d %d %d" % (raw, tc, tt, r.choice([0, 50, 90]), r.choice([1, 5, 12]))]
    now, cid, last = 0, 0, 0
    late = []                      # stamps whose transform is still on its way
    for _ in range(r.choice([15, 40, 80])):
        x = r.random()
        if x < 0.16:
            s.append("tick")
        elif x < 0.30 and cid < 20:
            cid += 1
            if raw:
                s.append("raw %d" % cid)
            else:
                st = last + r.choice([1, 1, 2, 33])
                last = st
                ns = r.choice([0, 0, 0, 0, 1, 500, 999])
                t = (st, r.choice([0, ns, 0, 400]))
                if r.random() < 0.5:
                    for q in late:
                        s.append("tf %d %d" % q)
                    late = []
                    s.append("tf %d %d" % t)
                else:
                    late.append(t)
                s.append("cloud %d %d %d" % (cid, st, ns))
        elif x < 0.36:
            for q in late:
                s.append("tf %d %d" % q)
            late = []
        elif x < 0.41:
            s.append("pose %d %d" % (r.choice([-1, 0, 1]), r.choice([-1, 0, 1])))
        elif x < 0.63:
            s.append("m %d" % r.choice([1, 1, 2, 3, 5, 9]))
        elif x < 0.85:
            s.append("w %d" % r.choice([1, 1, 1, 2, 3, 6]))
        elif x < 0.93:
            s.append("adv %d" % r.choice([1, 50, 100, 199, 200, 201, 301, 499, 500, 501, 1001, 15001]))
        else:
            s.append("settle")
    return s + ["settle"] + ["tf %d %d" % q for q in late] + ["settle"]


def build(ctx):
    return ctx.build("slpn", "slp_node.cpp", ["avoidance", "safe_landing_planner"], libs=["-ldl"])


def node(ctx):
    r = ctx.rng
    exe = build(ctx)
    ctx.model_check("SlpNodeMC")
    beh = ctx.behaviours("SlpNodeMC", "SlpNodeGen.cfg", workers=8)
    r.shuffle(beh)
    scripts = []
    for b in beh[:ctx.n(700, 6000)]:
        s = ["create 0 500 15000 50 5"]
        dup = r.choice([1, 1, 2, 3])
        for o in b:
            if o["op"] == "tf":
                s.append("tf %d 0" % o["s"])
            elif o["op"] == "cloud":
                s += ["cloud %d %d 0" % (o["id"], o["s"]), "m %d" % dup]
            elif o["op"] == "tick":
                s.append("tick")
            else:
                s.append("%s %d" % (o["op"], dup))
        scripts.append(s + ["settle", "tf 10 0", "settle"] if not any(x.startswith("tf") for x in s) else s + ["settle"])
    for _ in range(ctx.n(500, 5000)):
        scripts.append(rand(r))
    for k in range(0, len(scripts), 1000):
        ctx.validate("SlpNodeTrace", ctx.drive(exe, scripts[k:k + 1000], name="run%d" % k))
    ctx.assumptions.append("threads of the node interleave at mutex acquisitions, condition waits, sleeps and message delivery; message callbacks run in the planner's own timer thread")
