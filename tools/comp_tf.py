"""C04: transform buffer."""


def check(ctx):
    r = ctx.rng
    exe = ctx.build("tb", "transform_buffer.cpp", [], sources=["avoidance/src/transform_buffer.cpp"])
    ctx.model_check("TransformBufferMC")
    beh = ctx.behaviours("TransformBufferMC", "TransformBufferGen.cfg")
    r.shuffle(beh)
    scripts = []
    for b in beh[:ctx.n(4000, 40000)]:
        unit = r.choice([1, 10, 250, 400, 1000])
        s = ["create %d" % (3 * unit)]
        for o in b:
            if o["op"] == "insert":
                s.append("insert %d %d %d %d %d %d" % (o["pair"], o["t"] * unit, 7 * o["t"], 100 - o["t"], 3, 700 * o["t"] % 36000 - 18000))
            else:
                s.append("get %d %d" % (o["pair"], o["t"] * unit))
        scripts.append(s)
    for _ in range(ctx.n(120, 1500)):
        size = r.choice([100, 250, 1000, 5000, 10000])
        s, now = ["create %d" % size], 0
        step = r.choice([1, 7, 50, 400])
        np = r.choice([1, 2, 6])
        last = {}
        for _ in range(r.choice([10, 60, 150])):
            p = r.randrange(np)
            if r.random() < 0.55:
                now += r.choice([0, 1, step, step, 2 * step, r.randrange(0, 4 * size) if r.random() < 0.1 else step])
                now = min(now, 900000)
                t = now if r.random() < 0.8 else max(0, now - r.choice([0, 1, step, size]))
                gap = max(1, t - last.get(p, t))
                rng_ = min(30000, 1900000000 // gap // 2)
                xyz = [r.randrange(-rng_, rng_ + 1) for _ in range(3)]
                # |rotation difference| * gap must stay in 32 bits
                g = r.randrange(-25, 26) * 700 if gap < 100000 else 700 * r.randrange(-1, 2)
                s.append("insert %d %d %d %d %d %d" % (p, t, xyz[0], xyz[1], xyz[2], g))
                last[p] = max(last.get(p, 0), t)
            else:
                base = last.get(p, now)
                t = base - r.choice([0, 0, 1, size, size - 1, size + 1, r.randrange(0, size + 50), r.randrange(0, 3 * step + 1), -1, -step])
                s.append("get %d %d" % (p, t))
        scripts.append(s)
    ctx.validate("TransformBufferTrace", ctx.drive(exe, scripts))
    ctx.assumptions.append("rotations of one frame pair share an axis, so spherical interpolation is linear in the angle")
