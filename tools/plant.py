"""Development aid: turn a description of a planted bug into /verif/seeded/<id>/ after trying it in a scratch copy.
usage: plant.py FILE.json ...   FILE: {"id","property","needs","what_it_breaks","edits":[[file,old,new]..],
  "demo": C++ source, "packages":[..] or "sources":[..]}   or "demo_sh": a whole demo script"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = r'''#!/bin/bash
# Run in the repository's root: compiles the real sources with ROS stand-ins and exercises the property.
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
W="$(mktemp -d /tmp/demo.XXXXXX)" || exit 2
trap 'rm -rf "$W"' EXIT
tar xzf "$D/stubs.tgz" -C "$W" && python3 "$W/stubs/gen_repo.py" "$R" "$W/gen" >/dev/null || exit 2
SRC="@SRC@"
INC="-I$W/stubs/include -I$W/gen -I$W -isystem /usr/include/eigen3"
for p in avoidance local_planner safe_landing_planner global_planner; do INC="$INC -I$R/$p/include -I$R/$p/src -I$R/$p/src/nodes"; done
export W INC R
one() { g++ -std=c++14 -O1 -w -DBOOST_BIND_GLOBAL_PLACEHOLDERS $2 $INC -c "$1" -o "$W/$(echo "$1" | tr / _).o"; }
export -f one
(for s in $SRC; do echo "$R/$s -Dmain=other_main"; done; echo "$D/demo.cpp ") | xargs -P 8 -L 1 bash -c 'one "$0" "$1"' || exit 2
g++ "$W"/*.o -o "$W/demo" -lboost_system -lboost_filesystem -lyaml-cpp -lpthread -ldl || exit 2
cd "$W" && timeout 120 "$W/demo"
'''


def sources(repo, d):
    if "sources" in d:
        return d["sources"]
    out = []
    for p in d["packages"]:
        for root, _, fs in os.walk(os.path.join(repo, p, "src")):
            for f in sorted(fs):
                if f.endswith(".cpp") and not f.endswith("_main.cpp") and f not in ("mock_data_node.cpp",) + tuple(d.get("exclude", ())):
                    out.append(os.path.relpath(os.path.join(root, f), repo))
    return out


def plant(d):
    o = os.path.join(V, "seeded", d["id"])
    if os.path.isdir(o):
        shutil.rmtree(o)
    os.makedirs(o)
    w = tempfile.mkdtemp(prefix="plant_")
    try:
        r = os.path.join(w, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        sh = d.get("demo_sh") or SH.replace("@SRC@", " ".join(sources("/repo", d)))
        open(os.path.join(o, "demo.sh"), "w").write(sh)
        os.chmod(os.path.join(o, "demo.sh"), 0o755)
        if "demo" in d:
            open(os.path.join(o, "demo.cpp"), "w").write(d["demo"])
            subprocess.run(["tar", "czf", os.path.join(o, "stubs.tgz"), "--exclude=__pycache__", "--sort=name", "--mtime=2020-01-01", "-C", V, "stubs", "-C", os.path.join(V, "drivers"), "lockstep.h"], check=True)
        for f, t in d.get("files", {}).items():
            open(os.path.join(o, f), "w").write(t)
        json.dump({k: d[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(o, "meta.json"), "w"), indent=1)
        a = subprocess.run(["bash", os.path.join(o, "demo.sh")], cwd=r, capture_output=True, text=True)
        for f, old, new in d["edits"]:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(d["id"], "PATTERN", t.count(old), old[:80])
                return
            open(p, "w").write(t.replace(old, new))
        open(os.path.join(o, "patch.diff"), "w").write(subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout)
        b = subprocess.run(["bash", os.path.join(o, "demo.sh")], cwd=r, capture_output=True, text=True)
        print(d["id"], "clean", a.returncode, "patched", b.returncode, "" if a.returncode == 0 and b.returncode else "<<<<< BAD")
        if a.returncode or b.returncode in (0, 2):
            print((a.stdout + a.stderr)[-700:], (b.stdout + b.stderr)[-700:])
        elif b.stdout + b.stderr:
            print("   ", (b.stdout + b.stderr).strip()[-200:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    only = [a for a in sys.argv[1:] if not a.endswith(".py")]
    for f in [a for a in sys.argv[1:] if a.endswith(".py")]:
        ns = {}
        exec(open(f).read(), ns)          # a Python file defining BUGS = [...]
        for d in ns["BUGS"]:
            if not only or d["id"] in only:
                plant(d)
