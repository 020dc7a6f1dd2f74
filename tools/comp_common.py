"""Shared helpers: directions/bins/frames (C06), fields of view (C07), messages (C08)."""
NAN, INF = 2000000001, 2000000002
RES = [1, 3, 6, 10, 12, 15, 30]


def build(ctx):
    return ctx.build("common", "common.cpp", [], sources=["avoidance/src/common.cpp", "avoidance/src/histogram.cpp"])


def chunks(lines, n=200):
    return [lines[i:i + n] for i in range(0, len(lines), n)]


def directions(ctx):
    r = ctx.rng
    exe = build(ctx)
    ctx.model_check("CommonMC", "CommonMCdirs.cfg")
    s = []
    for res in (6, 12) + ((1, 3, 10, 15, 30) if ctx.thorough else (30,)):      # every bin
        for e in range(180 // res):
            for z in range(360 // res):
                s.append("ofbin %d %d %d %d" % (e, z, res, 1000 + z))
                if res % 2 == 0:
                    s.append("tobin %d %d %d" % (100 * (e * res + res // 2) - 9000, 100 * (z * res + res // 2) - 18000, res))
    lat = [-54000, -36000, -27025, -27000, -26975, -18025, -18000, -17975, -9025, -9000, -8975, -600, -300, -25, 0, 25, 300, 600, 8975, 9000,
           9025, 17975, 18000, 18025, 26975, 27000, 27025, 36000, 54000, 72000]
    for e in lat:
        for z in lat:
            s.append("wrappolar %d %d" % (e, z))
            s.append("tobin %d %d %d" % (e, z, r.choice([6, 6, 12, 30, 1, 3])))
            s.append("angdiff %d %d" % (e, z))
            if abs(e) <= 18000 and abs(z) <= 18000:
                s.append("idxdiff %d %d" % (e, z))
                s.append("hist2cart %d %d %d 0 0 0" % (e, z, 10000))
                s.append("fcu2cart %d %d %d 0 0 0" % (e, z, 10000))
    for a in lat:
        s.append("wrap180 %d" % a)
    ang = lambda m=54000: r.choice([x for x in lat if abs(x) <= m]) if r.random() < 0.2 else 25 * r.randrange(-m // 25, m // 25 + 1)
    pos = lambda m=40000: [0 if r.random() < 0.1 else r.randrange(-m, m + 1) for _ in range(3)]
    j = lambda v: " ".join(map(str, v))
    for x in (-1, 0, 1):                       # seams and poles, around different origins
        for y in (-1, 0, 1):
            for z in (-1, 0, 1):
                for o in ([0, 0, 0], [1000, -2000, 500], [-100000, 100000, 50000]):
                    for k in (1000, 7000):
                        c = [o[0] + k * x, o[1] + k * y, o[2] + k * z]
                        s += ["%s %s %s" % (op, j(c), j(o)) for op in ("cart2hist", "cart2hist3", "cart2fcu", "cart2fcup")]
                        s.append("nextyaw %s %s" % (j(o), j(c)))
    for _ in range(ctx.n(1500, 20000)):
        s.append("hist2cart %d %d %d %s" % (ang(), ang(), r.randrange(0, 60000), j(pos())))
        s.append("fcu2cart %d %d %d %s" % (ang(), ang(), r.randrange(0, 60000), j(pos())))
        s.append("%s %s %s" % (r.choice(["cart2hist", "cart2hist3", "cart2fcu", "cart2fcup"]), j(pos()), j(pos())))
        s.append("cart2fcu %s %s" % (j(pos()), j(pos())))
        s.append("tobin %d %d %d" % (ang(), ang(), r.choice(RES)))
        s.append("wrappolar %d %d" % (ang(), ang()))
        s.append("wrap180 %d" % ang(200000))
        s.append("wrappi %d" % r.randrange(-900000, 900001))
        s.append("angdiff %d %d" % (ang(), ang()))
        s.append("idxdiff %d %d" % (ang(18000), ang(18000)))
        a = pos()
        s.append("nextyaw %s %s" % (j(a), j(pos())))
        s.append("angvel %d %d" % (r.randrange(-200000, 200001), r.randrange(-31415, 31416)))
        s.append("quat %d %d %d" % (ang(17900), r.choice([0, 8950, -8950, ang(8900)]), ang(17900)))
        s.append("pose %s %d" % (j(pos()), ang(18000)))
        s.append("frames %s %d" % (j(pos()), ang()))
        s.append("orient %d %d %d" % (ang(), ang(), ang()))
        s.append("dist2d %d %d %d %d" % (ang(9000), ang(18000), ang(9000), ang(18000)))
        n = r.randrange(0, 8)
        pts = []
        for _ in range(n):
            p = [r.randrange(-9, 10) * 1000 for _ in range(3)]
            if r.random() < 0.3:
                p[r.randrange(3)] = r.choice([NAN, INF, -INF])
            pts += p
        s.append("maxima %d %s" % (n, j(pts)))
    r.shuffle(s)
    ctx.validate("CommonTrace", ctx.drive(exe, chunks(s)))


def fov(ctx):
    r = ctx.rng
    exe = build(ctx)
    ctx.model_check("CommonMC", "CommonMCfov.cfg")
    s = []

    def cam(wide=False):
        return [100 * r.choice([0, 0, 45, 90, -90, 150, 180, -180, -135, 175, r.randrange(-180, 181)]), 100 * r.choice([0, 0, 12, -20, 45]),
                100 * r.choice([20, 60, 90, 120, 180, 300, 360] if wide else [20, 60, 90, 120]), 100 * r.choice([46, 30, 90, 10])]

    def cams(n):
        cs = [cam(n < 3 and r.random() < 0.2) for _ in range(n)]
        if n >= 2 and r.random() < 0.6:          # adjacent, just apart or overlapping cameras
            gap = r.choice([-600, -100, 0, 25, 100, 275, 300, 325, 600, 2000])
            y = cs[0][0] + (cs[0][2] + cs[1][2]) // 2 + gap
            cs[1][0] = (y + 18000) % 36000 - 18000
        return cs
    j = lambda v: " ".join(map(str, v))
    enc = lambda cs: "%d %s" % (len(cs), " ".join(j(c) for c in cs))
    full = [[0, 0, 6000, 4600]], [[18000, 0, 6000, 4600]], [[-18000, 0, 6000, 4600]], [[17000, 500, 9000, 3000]]
    for cs in full:
        for z in range(-18000, 18001, 500):
            for e in (-5000, -2300, 0, 2300, 2325):
                s.append("fov %s %d %d" % (enc(cs), e, z))
    for _ in range(ctx.n(12000, 120000)):
        cs = cams(r.choice([0, 1, 1, 2, 2, 3]))
        z = 25 * r.randrange(-720, 720)
        e = 25 * r.randrange(-360, 361)
        if cs and r.random() < 0.6:
            c = r.choice(cs)
            z = c[0] + r.choice([-1, 1]) * (c[2] // 2 + r.choice([0, 0, 25, -25, 300, 325, 275])) if r.random() < 0.7 else c[0] + r.choice([0, 25, -25, 25 * r.randrange(-100, 101)])
            z = (z + 18000) % 36000 - 18000
            e = c[1] + r.choice([-1, 1]) * (c[3] // 2 + r.choice([0, 25, -25])) if r.random() < 0.5 else c[1]
        s.append("fov %s %d %d" % (enc(cs), e, z))
    for _ in range(ctx.n(6000, 60000)):
        cs = cams(r.choice([1, 1, 2, 3]))
        pos = [r.randrange(-90000, 90001) for _ in range(2)] + [r.randrange(-3000, 40000)]
        s.append("column %s %d %d %s" % (enc(cs), r.randrange(60), 100 * r.randrange(-180, 181) + r.choice([0, 50]), j(pos)))
    for k in range(ctx.n(4000, 30000)):
        c = cam()
        n = r.choice([0, 1, 2, 3, 6, 6])
        centre, width = 100 * r.choice([r.randrange(-180, 180), r.randrange(160, 200), r.randrange(160, 200)]), 100 * r.randrange(1, 89)
        d = []
        for _ in range(n):
            z = centre + r.randrange(-width, width + 1)
            d += [r.randrange(-5000, 5001), (z + 18000) % 36000 - 18000, r.choice([1000, 4000, 12000])]
        f = [c[0], c[1], r.choice([0, 1000, c[2]]), r.choice([0, 1000, c[3]])]
        s.append("grow 1 %s %d %s" % (j(f), n, j(d)))
    r.shuffle(s)
    ctx.validate("CommonTrace", ctx.drive(exe, chunks(s)))
