// The landing planner's displays: a grid with given contents is drawn.
struct Planner : public SafeLandingPlanner { using SafeLandingPlanner::grid_; using SafeLandingPlanner::smoothing_size_; };
static std::string flat(const std::vector<visualization_msgs::Marker>& v) {
  std::vector<std::string> p, c, s;
  std::vector<long> id;
  bool plain = true;
  for (auto& m : v) {
    p.push_back(tri(m.pose.position)); c.push_back(tri(m.color.r, m.color.g, m.color.b, 100)); s.push_back(tri(m.scale.x, m.scale.y, m.scale.z)); id.push_back(m.id);
    plain = plain && m.type == visualization_msgs::Marker::CUBE && m.action == visualization_msgs::Marker::ADD && m.header.frame_id == "local_origin" && m.color.a > 0 && m.pose.orientation.w == 1;
  }
  return J().arr("id", id).raw("p", jlist(p)).raw("c", jlist(c)).raw("s", jlist(s)).b("plain", plain).str();
}
static void runLanding(const std::string& op, Args& a) {
  if (op != "cells") return;
  // cells: size cell centre(3) pos(3) last(3) smoothing std npts seed n: a pseudo-random grid
  float size = un(a.i()), cell = un(a.i());
  Eigen::Vector3f centre = vec(a), pos = vec(a), last = vec(a);
  long smooth = a.i(), sd = a.i(), np = a.i();
  uint64_t s = a.i();
  auto next = [&](int n) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (long)((s >> 33) % n); };
  static std::unique_ptr<Planner> p;
  p.reset(new Planner());
  p->grid_.resize(size, cell);
  p->grid_.setFilterLimits(centre);
  p->smoothing_size_ = smooth;
  int n = p->grid_.getRowColSize();
  std::vector<long> mean, sigma, cnt, land;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    long m = next(4000) - 2000, q = 2 * next(120) + 1, c = next(3) ? next(450) : next(20), l = next(2);
    p->grid_.setMean(Eigen::Vector2i(i, j), m / 1000.f); p->grid_.setVariance(Eigen::Vector2i(i, j), (q / 1000.f) * (q / 1000.f));
    p->grid_.setCounter(Eigen::Vector2i(i, j), c); p->grid_.land_(i, j) = l;
    mean.push_back(m); sigma.push_back(q); cnt.push_back(c); land.push_back(l);
  }
  std::vector<std::string> pts;
  for (int k = next(4); k > 0; k--) p->visualization_cloud_.push_back(toXYZI(Eigen::Vector3f(next(100) / 10.f, next(100) / 10.f, next(100) / 10.f), next(9)));
  std::string cloud = cloudJ(p->visualization_cloud_);
  safe_landing_planner::SafeLandingPlannerNodeConfig c;
  c.std_dev_threshold = sd / 1000.0; c.n_points_threshold = np;
  std::map<std::string, std::vector<visualization_msgs::Marker>> arrays;
  std::vector<std::string> order;
  rosstub::reg().onPublish = [&](const std::string& t, std::type_index ty, const boost::shared_ptr<const void>& m) {
    if (ty == std::type_index(typeid(visualization_msgs::MarkerArray))) { arrays[t] = static_cast<const visualization_msgs::MarkerArray*>(m.get())->markers; order.push_back(t); }
    else onPublish(t, ty, m);
  };
  geometry_msgs::Point pp = toPoint(pos), ll = toPoint(last);
  sv->visualizeSafeLandingPlanner(*p, pp, ll, c);
  rosstub::reg().onPublish = onPublish;
  ev(J(op).f("cell", cell).i("n", n).raw("min", tri(centre.x() - size / 2, centre.y() - size / 2, 0)).raw("pos", tri(pos)).raw("last", tri(last)).i("smooth", smooth).i("std", sd).i("npts", np)
         .arr("mean", mean).arr("sigma", sigma).arr("cnt", cnt).arr("land", land).raw("cloud", cloud).i("arrays", order.size())
         .raw("grid", flat(arrays["grid"])).raw("dev", flat(arrays["grid_mean_std_dev"])).raw("counter", flat(arrays["grid_counter"])));
}
