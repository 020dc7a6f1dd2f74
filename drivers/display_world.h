// The world loader: world files, model files, search path, its timer and the vehicle's pose.
static void mkdirs(const std::string& p) { for (size_t k = 1; k <= p.size(); k++) if (k == p.size() || p[k] == '/') mkdir(p.substr(0, k).c_str(), 0755); }
static std::string place(const std::string& s) { return scratch + "/" + s; }
static void hideScratch() { for (auto& s : shown) for (size_t at; (at = s.find(scratch)) != std::string::npos;) s.replace(at, scratch.size(), "~"); }
static int worlds = 0;
static void runWorld(const std::string& op, Args& a) {
  if (op == "where") {          // where home n locations: the search path ("-": not set)
    std::string home = a.s();
    int n = a.i();
    std::vector<std::string> l;
    std::string all;
    for (int k = 0; k < n; k++) { l.push_back("\"" + a.s() + "\""); all += (k ? ":" : "") + place(l.back().substr(1, l.back().size() - 2)); }
    if (n < 0) unsetenv("GAZEBO_MODEL_PATH"); else setenv("GAZEBO_MODEL_PATH", all.c_str(), 1);
    if (home == "-") unsetenv("HOME"); else setenv("HOME", place(home).c_str(), 1);
    std::string rm = "/bin/rm -rf " + scratch + "/*";
    if (scratch.compare(0, 15, "/tmp/vp_display") == 0) (void)!system(rm.c_str());
    ev(J(op).s("home", home).raw("paths", jlist(l)));
  } else if (op == "model") {   // location path kind
    std::string l = a.s(), p = a.s();
    bool file = a.i();
    std::string full = place(l + p);
    mkdirs(full.substr(0, full.rfind('/')));
    if (file) std::ofstream(full) << "x"; else mkdir(full.c_str(), 0755);
    ev(J(op).s("at", l).s("path", p).b("file", file));
  } else if (op == "world" || op == "change") {   // flaw n (type frame mesh pos ori scale): a new loader, or another text in its file
    std::string flaw = a.s();
    int n = a.i();
    if (op == "world") worlds++;
    std::string f = place("world" + std::to_string(worlds) + ".yaml");
    std::ostringstream y;
    std::vector<std::string> o;
    auto vals = [&](int k) { std::string s = "["; std::vector<long> v; for (int i = 0; i < k; i++) { v.push_back(a.i()); std::ostringstream d; d << v.back() / 1000.0; s += (i ? ", " : "") + d.str(); } return std::make_pair(s + "]", v); };
    for (int k = 0; k < n; k++) {
      std::string type = a.s(), frame = a.s(), mesh = a.s();
      if (mesh == "-") mesh = "";
      auto p = vals(3), q = vals(4), s = vals(3);
      y << "- type: \"" << type << "\"\n  name: \"object" << k << "\"\n  frame_id: \"" << frame << "\"\n  mesh_resource: \"" << mesh << "\"\n  position: " << p.first << "\n";
      if (!(flaw == "missing" && k == n - 1)) y << "  orientation: " << q.first << "\n";
      y << "  scale: " << (flaw == "word" && k == 0 ? "[big, 1, 1]" : s.first) << "\n";
      for (auto& x : q.second) x *= 10;
      o.push_back(J().s("type", type).s("frame", frame).s("mesh", mesh).s("model", mesh.compare(0, 8, "model://") ? "" : mesh.substr(7)).arr("p", p.second).arr("q", q.second).arr("s", s.second).str());
    }
    if (flaw == "syntax") y << "- type: [cube\n  name: }";
    if (flaw == "scalar") { y.str(""); y << "just some text\n"; }
    std::string rm = "/bin/rm -f " + f;
    if (flaw != "nofile") std::ofstream(f) << y.str(); else if (scratch.compare(0, 15, "/tmp/vp_display") == 0) (void)!system(rm.c_str());
    if (op == "change") { ev(J(op).s("flaw", flaw).raw("objects", jlist(o))); return; }
    ros::NodeHandle nh("~");
    rosstub::reg().params.clear();
    if (flaw != "unset") nh.setParam(worlds % 2 ? "lpn/world_name" : "world_name", f);
    rosstub::reg().subs.clear(); rosstub::reg().timers.clear();
    world.reset(new WorldVisualizer(nh, worlds % 2 ? "lpn" : ""));
    ev(J(op).s("flaw", flaw).raw("objects", jlist(o)));
  } else if (op == "tick") {
    now_ns += 2000000000LL;
    rosstub::setNow(now_ns);
    rosstub::fireByPeriod(2.0);
    hideScratch();
    ev(J(op));
  } else if (op == "pose") {
    Eigen::Vector3f p = vec(a);
    std::vector<long> q;
    for (int k = 0; k < 4; k++) q.push_back(a.i());
    geometry_msgs::PoseStamped m;
    m.header.frame_id = "map";
    m.pose.position = toPoint(p);
    m.pose.orientation.x = q[0] / 1e4; m.pose.orientation.y = q[1] / 1e4; m.pose.orientation.z = q[2] / 1e4; m.pose.orientation.w = q[3] / 1e4;
    rosstub::inject("mavros/local_position/pose", m);
    hideScratch();
    ev(J(op).raw("p", tri(p)).arr("q", q));
  }
}
