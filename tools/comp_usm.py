"""C01: generated programs (transition tables) on the real engine."""
T = ["REPEAT", "NEXT1", "NEXT2", "NEXT3", "NEXT4", "ERROR"]


def program(k, n, table, err, start):
    sts = "".join("      USM_STATE(t, S::s%d, %s);\n" % (s, "".join("USM_MAP(usm::Transition::%s, S::s%d); " % (t, d)
                  for (s2, t, d) in table if s2 == s)) for s in sorted({x[0] for x in table}) )
    return """
struct M%d : Base, usm::StateMachine<M%d_S> {
  using S = M%d_S;
  M%d() : usm::StateMachine<S>(S::s%d) { runs.assign(%d, 0); }
  int n() override { return %d; }
  int st() override { return (int)getState(); }
  void iter(usm::Transition t) override { want = t; iterateOnce(); }
  usm::Transition runCurrentState() override final { runs[(int)getState()]++; return want; }
  S chooseNextState(S c, usm::Transition t) override final {
    chosen++;
    USM_TABLE(c, S::s%d,
%s    );
  }
};
""" % (k, k, k, k, start, n, n, err, sts)


def check(ctx):
    r = ctx.rng
    ctx.model_check("UsmMC")
    progs = []
    for k in range(ctx.n(60, 200)):
        n = r.randrange(1, 7)
        dens = r.choice([0.1, 0.3, 0.5, 0.9, 1.0])
        table = [(s, t, r.randrange(n)) for s in range(n) for t in T[1:] if r.random() < dens]
        if not table:
            table = [(0, "NEXT1", n - 1)]
        progs.append((n, table, r.randrange(n), r.randrange(n)))
    src = ['#include "drv.h"\n#include <memory>\n#include <avoidance/usm.h>\nusing namespace drv;\n'
           'struct Base { std::vector<long> runs; long chosen = 0; usm::Transition want = usm::Transition::REPEAT;'
           ' virtual int n() = 0; virtual int st() = 0; virtual void iter(usm::Transition) = 0; virtual ~Base() {} };\n']
    mk = []
    for k, (n, table, err, start) in enumerate(progs):
        src.append("enum class M%d_S { %s };" % (k, ", ".join("s%d" % i for i in range(n))))
        src.append(program(k, n, table, err, start))
        js = "[" + ",".join('[%d,\\"%s\\",%d]' % x for x in table) + "]"
        mk.append('if (k == %d) { m.reset(new M%d()); out()(J("make").raw("table", "%s").i("err", %d).i("start", %d)'
                  '.i("n", %d).i("state", m->st())); }' % (k, k, js, err, start, n))
    src.append("""
int main(int argc, char** argv) {
  static std::unique_ptr<Base> m;
  std::map<std::string, usm::Transition> T = {%s};
  return run(argc, argv, [] { m.reset(); }, [&](const std::string& op, Args& a) {
    if (op == "make") { int k = a.i(); %s }
    else if (op == "iter") {
      std::string t = a.s();
      m->iter(T.at(t));
      out()(J("iter").s("t", t).i("state", m->st()).arr("runs", m->runs).i("chosen", m->chosen));
    }
  });
}
""" % (", ".join('{"%s", usm::Transition::%s}' % (t, t) for t in T), "\n".join(mk)))
    d = ctx.path("usm_driver.cpp")
    open(d, "w").write("\n".join(src))
    exe = ctx.build("usm", d, [], sources=[])
    scripts = []
    for k, (n, table, err, start) in enumerate(progs):
        for _ in range(ctx.n(3, 10)):
            # bias towards mapped transitions, but follow every kind
            s, cur = ["make %d" % k], start
            for _ in range(r.choice([5, 30, 120])):
                t = r.choice(T)
                if r.random() < 0.5:
                    opts = [x[1] for x in table if x[0] == cur]
                    t = r.choice(opts) if opts else t
                s.append("iter " + t)
                if t != "REPEAT":
                    cur = {(a, b): c for a, b, c in table}.get((cur, t), err)
            scripts.append(s)
        # every pair, reached along a shortest path
        tb = {(a, b): c for a, b, c in table}
        paths, todo = {start: []}, [start]
        while todo:
            u = todo.pop(0)
            for t in T[1:]:
                v = tb.get((u, t), err)
                if v not in paths:
                    paths[v] = paths[u] + [t]
                    todo.append(v)
        for u in paths:
            for t in T:
                scripts.append(["make %d" % k] + ["iter " + x for x in paths[u]] + ["iter REPEAT", "iter " + t, "iter REPEAT"])
    ctx.validate("UsmTrace", ctx.drive(exe, scripts))
