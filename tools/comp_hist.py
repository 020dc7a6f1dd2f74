"""C05: histogram."""


def check(ctx):
    r = ctx.rng
    exe = ctx.build("hist", "histogram.cpp", [], sources=["avoidance/src/histogram.cpp"])
    ctx.model_check("HistogramMC")
    beh = ctx.behaviours("HistogramMC", "HistogramGen.cfg")
    r.shuffle(beh)
    scripts = []
    for b in beh[:ctx.n(1500, 20000)]:
        s = []
        for o in b:
            s.append({"create": "create %d" % o.get("res", 0), "set": "set %d %d %d" % (o.get("e", 0), o.get("z", 0), o.get("v", 0))}.get(o["op"], o["op"]))
        scripts.append(s + ["dump", "get -1 -1", "get 0 -1", "get 0 60", "get 30 1", "get -1 0", "get 1 59"])
    for _ in range(ctx.n(150, 1500)):
        res = r.choice([6, 6, 12, 12, 3, 10, 15, 30])
        s = ["create %d" % res]
        for _ in range(r.choice([5, 30, 80])):
            x = r.random()
            ne, nz = 180 // res, 360 // res
            if x < 0.45:
                for _ in range(r.choice([1, 1, 8])):
                    s.append("set %d %d %d" % (r.choice([0, ne - 1, r.randrange(ne)]), r.choice([0, nz - 1, r.randrange(nz)]),
                                               r.choice([0, 64, 64 * r.randrange(1, 300), 64 * r.randrange(1, 300)])))
            elif x < 0.7:
                s.append("get %d %d" % (r.randrange(-2 * ne, 3 * ne), r.randrange(-2 * nz, 3 * nz)))
            elif x < 0.8:
                s.append("down")
                if res == 6:
                    res = 12
                s.append("dump")
            elif x < 0.9:
                s.append("up")
                if res == 12:
                    res = 6
                s.append("dump")
            elif x < 0.92:
                s.append("zero")
            else:
                s.append("dump")
        scripts.append(s + ["dump"])
    for res in (6, 12):                # every single cell, down/up, and the isEmpty scan
        for k in range(0, ctx.n(40, 400)):
            e, z = r.randrange(180 // res), r.randrange(360 // res)
            scripts.append(["create %d" % res, "set %d %d 6400" % (e, z), "dump", "down", "dump", "up", "dump", "down", "dump",
                            "set 0 0 128", "dump", "zero", "dump"])
    ctx.validate("HistogramTrace", ctx.drive(exe, scripts))
