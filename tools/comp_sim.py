"""Trajectory simulator (C18)."""
import math
from comp_planner import line
SRC = ["local_planner/src/utils/trajectory_simulator.cpp"]


def top(acc, jerk):
    return min(20000 * math.sqrt(jerk / 1e4), acc)


def trajectories(ctx):
    r = ctx.rng
    ctx.model_check("TrajectorySimMC", "TrajectorySimMC.cfg")
    exe = ctx.build("trajectory", "trajectory.cpp", ["local_planner"], sources=SRC)
    S = []

    def sim(up, down, xy, acc, jerk, step, dur, d, p, v, a):
        if math.sqrt(sum(x * x for x in a)) > top(acc, jerk):
            return []                   # the start state must be within the limits
        return [line("sim", up, down, xy, acc, jerk, step, dur, d, p, v, a)]
    # the lattice of the model
    lat = []
    for acc in (20000, 50000):
        for jerk in (10000, 80000):
            for step in (100000, 500000):
                for v in ([0, 0, 0], [4, 0, 0], [-3, 3, 1]):
                    for a in ([0, 0, 0], [0, 1, 0], [-1, 0, 1]):
                        for d in [(x, y, z) for x in (-1, 0, 1) for y in (0, 1) for z in (-1, 0, 1)]:
                            lat.append((30000, -10000, 50000, acc, jerk, step, 12 * step, [10000 * x for x in d], [0, 0, 0], [10000 * x for x in v], [10000 * x for x in a]))
    r.shuffle(lat)
    for k in range(0, len(lat), 8):
        S.append([x for q in lat[k:k + 8] for x in sim(*q)])
    for _ in range(ctx.n(250, 4000)):
        s = []
        for _ in range(4):
            step = r.choice([100000, 50000, 20000, 250000, 1000000])
            n = r.choice([0, 1, 5, 20, 40])
            dur = n * step - (r.randrange(3, step - 3) if n and r.random() < 0.4 else 0)
            acc, jerk = r.choice([5000, 10000, 30000, 50000, 100000]), r.choice([5000, 10000, 40000, 200000, 80000])
            u = lambda m: [r.randrange(-m, m + 1) for _ in range(3)]
            t = int(top(acc, jerk))
            a = r.choice([[0, 0, 0], u(t // 2), [t if k == r.randrange(3) else 0 for k in range(3)]])
            d = r.choice([u(300000), u(10000), [0, 0, r.choice([-1, 1]) * 50000], [r.choice([-1, 1]) * 30000, 0, 0], [r.randrange(-40000, 40000), r.randrange(-40000, 40000), 0]])
            if max(map(abs, d)) < 3000:
                d = [0, 0, 0]            # no direction at all: brake
            s += sim(r.choice([30000, 10000, 5000]), r.choice([-10000, -30000, -7000]), r.choice([50000, 10000, 120000, 30000]), acc, jerk, step, dur,
                     d, u(200000), r.choice([[0, 0, 0], u(20000), u(60000)]), a)
        S.append(s)
    r.shuffle(S)
    ctx.validate("TrajectorySimTrace", ctx.drive(exe, S))
