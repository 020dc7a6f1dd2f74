#!/usr/bin/env python3
"""Generates, from the .cfg and .msg files of the tree under test, what catkin would generate:
<ns>/<Name>Config.h for dynamic_reconfigure and the structs of the package's own messages."""
import os, sys, re, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen_msgs
REPO, OUT = sys.argv[1], sys.argv[2]
def run_cfg(path):
    params = []
    res = {}
    class G:
        def add(self, name, typ, level, desc="", default=None, mn=None, mx=None, edit_method=""):
            params.append((name, typ, level, default, mn, mx))
        def const(self, name, typ, val, desc=""): return (name, val)
        def enum(self, l, d=""): return l
        def add_group(self, *a, **k): return self
        def generate(self, pkg, node, name): res["name"] = name; return 0
    mod = types.ModuleType("dynamic_reconfigure.parameter_generator_catkin")
    mod.ParameterGenerator = G
    mod.double_t, mod.int_t, mod.bool_t, mod.str_t = "double", "int", "bool", "str"
    mod.__all__ = ["ParameterGenerator", "double_t", "int_t", "bool_t", "str_t"]
    sys.modules["dynamic_reconfigure"] = types.ModuleType("dynamic_reconfigure")
    sys.modules["dynamic_reconfigure.parameter_generator_catkin"] = mod
    src = open(path).read()
    env = {"__name__": "__main__", "exit": lambda *_: None}
    exec(compile(src, path, "exec"), env)
    return env.get("PACKAGE"), res["name"], params
CT = {"double": "double", "int": "int", "bool": "bool", "str": "std::string"}
def lit(t, v):
    if v is None: v = {"double": 0, "int": 0, "bool": False, "str": ""}[t]
    if t == "str": return '"%s"' % v
    if t == "bool": return "true" if v else "false"
    if t == "int": return str(int(v))
    return repr(float(v))
def main():
    for pkg in ("local_planner", "safe_landing_planner", "global_planner", "avoidance"):
        cdir = os.path.join(REPO, pkg, "cfg")
        for f in sorted(os.listdir(cdir)) if os.path.isdir(cdir) else []:
            if not f.endswith(".cfg"): continue
            ns, name, params = run_cfg(os.path.join(cdir, f))
            # catkin: namespace is the PACKAGE of the .cfg file, include dir is the catkin package
            b = f"#pragma once\n#include <string>\nnamespace {ns} {{\nclass {name}Config {{\n public:\n"
            for (n, t, lv, d, mn, mx) in params: b += f"  {CT[t]} {n} = {lit(t, d)};\n"
            b += f"  static const {name}Config& __getDefault__() {{ static {name}Config c; return c; }}\n"
            b += f"  static const {name}Config& __getMin__() {{ static {name}Config c; static bool i = [] {{\n"
            for (n, t, lv, d, mn, mx) in params:
                if mn is not None: b += f"    c.{n} = {lit(t, mn)};\n"
            b += f"    return true; }}(); (void)i; return c; }}\n"
            b += f"  static const {name}Config& __getMax__() {{ static {name}Config c; static bool i = [] {{\n"
            for (n, t, lv, d, mn, mx) in params:
                if mx is not None: b += f"    c.{n} = {lit(t, mx)};\n"
            b += f"    return true; }}(); (void)i; return c; }}\n}};\n}}\n"
            # 'static' local c used inside a non-capturing lambda is fine (static storage)
            p = os.path.join(OUT, pkg, f"{name}Config.h"); os.makedirs(os.path.dirname(p), exist_ok=True)
            if ns != pkg: pass
            open(p, "w").write(b)
        mdir = os.path.join(REPO, pkg, "msg")
        gen_msgs.OUT = OUT
        for f in sorted(os.listdir(mdir)) if os.path.isdir(mdir) else []:
            if not f.endswith(".msg"): continue
            M = {"float64": "f64", "float32": "f32", "uint8": "u8", "int32": "i32", "int64": "i64", "uint32": "u32", "bool": "bool", "string": "string", "time": "time", "Header": "std_msgs/Header", "uint16": "u16", "int8": "i8"}
            spec = []
            for l in open(os.path.join(mdir, f)):
                l = l.split("#")[0].strip()
                if not l or "=" in l: continue
                t, n = l.split()[:2]
                base = t.split("[")[0]; rest = t[len(base):]
                base = M.get(base, base if "/" in base else f"{pkg}/{base}")
                spec.append(f"{base}{rest} {n}")
            gen_msgs.msg(f"{pkg}/{f[:-4]}", "; ".join(spec))
main()
