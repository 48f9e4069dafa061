// Everything the waypoint API says about one trajectory family.
#include "common.hh"
using namespace bezier_com_traj;

template <class F>
static void guarded(Js& j, const char* name, F f) {
  Js k;
  std::string o;
  try {
    Js t;
    f(t);
    o = t.o;
  } catch (const std::exception& e) {
    j.key(name).obj();
    j.key("throws").boolean(true);
    j.key("what").str(e.what());
    j.eobj();
    return;
  }
  j.key(name).obj();
  j.key("throws").boolean(false);
  j.key("v").raw(o);
  j.eobj();
}
static void emitCo(const coefs_t& c, Js& j) {
  j.obj();
  j.key("a").num(c.first);
  j.key("b").vec(c.second);
  j.eobj();
}
static void emitWp(const waypoint_t& w, Js& j) {
  j.obj();
  j.key("A").mat(w.first);
  j.key("b").vec(w.second);
  j.eobj();
}
template <class V>
static void emitWps(const V& v, Js& j) {
  j.arr();
  for (auto& w : v) emitWp(w, j);
  j.earr();
}

void run_wp(const Scn& s, Js& j) {
  Rng g((uint64_t)s.i("seed", 1));
  std::string mag = s.s("mag", "mid"), tim = s.s("tim", "dy");
  double r = mag == "small" ? 0.01 : mag == "big" ? 20. : 1.;
  ProblemData p;
  int flag = (int)s.i("flag", 27);
  p.constraints_.flag_ = (ConstraintFlag)flag;
  p.c0_ = g.v(r);
  p.c1_ = g.v(r);
  p.dc0_ = g.v(r);
  p.dc1_ = g.v(r);
  p.ddc0_ = g.v(2 * r);
  p.ddc1_ = g.v(2 * r);
  p.j0_ = g.v(4 * r);
  p.j1_ = g.v(4 * r);
  p.l0_ = V3::Zero();
  std::string z = s.s("zero", "none");
  if (z == "c0") p.c0_ = V3::Zero();
  if (z == "c1") p.c1_ = p.dc1_ = p.ddc1_ = V3::Zero();
  if (z == "rest") p.dc0_ = p.dc1_ = p.ddc0_ = p.ddc1_ = p.j0_ = p.j1_ = V3::Zero();
  if (z == "comp") p.c0_(g.n(3)) = 0., p.c1_(g.n(3)) = 0.;
  bool dc1 = s.s("stop", "yes") == "yes";
  bool stops = (flag & END_VEL) && !(flag & END_POS);
  if (stops && dc1) p.dc1_ = V3::Zero();
  double T = tim == "dy" ? std::max(0.125, g.dy(0.2, 4., 3)) : tim == "one" ? 1. : tim == "tiny" ? g.u(0.02, 0.1) : tim == "long" ? g.u(5., 20.) : g.u(0.2, 3.);
  centroidal_dynamics::Equilibrium eq("w", 54., 4);
  ContactData cd;
  cd.contactPhase_ = &eq;
  p.contacts_.push_back(cd);
  j.key("flag").integer(flag);
  j.key("T").num(T);
  emitBc(p, j);
  j.key("g").vec(eq.m_gravity);
  V3 x = g.v(r);
  j.key("x").vec(x);
  bool multi = flag & (TWO_FREE_VAR | THREE_FREE_VAR | FOUR_FREE_VAR | FIVE_FREE_VAR);
  std::vector<V3> pi;
  bool have = true;
  try {
    pi = computeConstantWaypoints(p, T);
  } catch (const std::exception&) {
    have = false;
  }
  guarded(j, "pi", [&](Js& k) { k.pts(computeConstantWaypoints(p, T)); });
  guarded(j, "dim", [&](Js& k) { k.integer(dimVar(p)); });
  guarded(j, "sym", [&](Js& k) { emitWps(computeConstantWaypointsSymbolic(p, T), k); });
  guarded(j, "w", [&](Js& k) { emitWps(computeWwaypoints(p, T), k); });
  guarded(j, "fv", [&](Js& k) { emitCo(computeFinalVelocityPoint(p, T), k); });
  guarded(j, "vel", [&](Js& k) { emitWps(computeVelocityWaypoints(p, T), k); });
  guarded(j, "acc", [&](Js& k) { emitWps(computeAccelerationWaypoints(p, T), k); });
  guarded(j, "jerk", [&](Js& k) { emitWps(computeJerkWaypoints(p, T), k); });
  guarded(j, "velc", [&](Js& k) {
    auto c = computeVelocityCost(p, T);
    k.obj();
    k.key("H").mat(c.first);
    k.key("g").vec(c.second);
    k.eobj();
  });
  guarded(j, "curve", [&](Js& k) {
    if (multi || !have) throw std::runtime_error("no curve");
    bezier_t b = computeBezierCurve<bezier_t, point_t>((ConstraintFlag)flag, T, pi, x);
    k.pts(b.waypoints());
  });
  std::vector<double> us = {0., 1., 0.5, g.u(), g.u()};
  // the same expressions at a list of times (a time just after the end is the end)
  T_time times;
  for (double u : us) times.push_back(std::make_pair(u == 1. ? std::nextafter(T, 2 * T) : u * T, 0));
  std::vector<coefs_t> cs, ddcs;
  std::string csx, ddcsx;
  try {
    cs = computeDiscretizedWaypoints<point_t>(p, T, times);
  } catch (const std::exception& e) {
    csx = e.what();
  }
  try {
    ddcs = computeDiscretizedAccelerationWaypoints<point_t>(p, T, times);
  } catch (const std::exception& e) {
    ddcsx = e.what();
  }
  auto nth = [](const std::vector<coefs_t>& v, const std::string& x, size_t n, size_t i, Js& k) {
    if (v.size() != n) throw std::runtime_error(x);
    emitCo(v[i], k);
  };
  size_t at = 0;
  j.key("at").arr();
  if (have)
    for (double u : us) {
      double t = u * T;
      j.obj();
      j.key("u").num(u);
      j.key("t").num(t);
      // evaluateCurveAtTime takes the normalised time, the derivatives too
      guarded(j, "c", [&](Js& k) { emitCo(evaluateCurveAtTime(p, pi, u), k); });
      guarded(j, "ddc", [&](Js& k) { emitCo(evaluateAccelerationCurveAtTime(p, pi, T, u), k); });
      guarded(j, "cs", [&](Js& k) { nth(cs, csx, us.size(), at, k); });
      guarded(j, "ddcs", [&](Js& k) { nth(ddcs, ddcsx, us.size(), at, k); });
      ++at;
      guarded(j, "wc", [&](Js& k) { emitWp(evaluateCurveWaypointAtTime(p, pi, u), k); });
      guarded(j, "wdc", [&](Js& k) { emitWp(evaluateVelocityCurveWaypointAtTime(p, T, pi, u), k); });
      guarded(j, "wddc", [&](Js& k) { emitWp(evaluateAccelerationCurveWaypointAtTime(p, T, pi, u), k); });
      guarded(j, "wjc", [&](Js& k) { emitWp(evaluateJerkCurveWaypointAtTime(p, T, pi, u), k); });
      j.eobj();
    }
  j.earr();
}

Hot hotWp(const Scn& s) {
  Rng g((uint64_t)s.i("seed", 1));
  auto p = std::make_shared<ProblemData>();
  const int flag = (int)s.i("flag", 27);
  p->constraints_.flag_ = (ConstraintFlag)flag;
  p->c0_ = g.v(1.), p->c1_ = g.v(1.), p->dc0_ = g.v(1.), p->ddc0_ = g.v(1.), p->ddc1_ = g.v(1.), p->j0_ = g.v(1.), p->j1_ = g.v(1.);
  p->dc1_ = (flag & END_VEL) && !(flag & END_POS) ? V3(V3::Zero()) : V3(g.v(1.));
  p->l0_ = V3::Zero();
  auto eq = std::make_shared<centroidal_dynamics::Equilibrium>("w", 54., 4);
  ContactData cd;
  cd.contactPhase_ = eq.get();
  p->contacts_.push_back(cd);
  const double T = g.u(0.3, 3.), u = g.u();
  const bool com = !(flag & (THREE_FREE_VAR | FIVE_FREE_VAR)), jerk = flag & INIT_JERK;
  return [p, eq, T, u, com, jerk]() {
    Hash h;
    auto wps = [&](const auto& v) {
      for (auto& w : v) h.mat(w.first), h.mat(w.second);
    };
    auto pi = computeConstantWaypoints(*p, T);
    for (auto& v : pi) h.mat(v);
    wps(computeConstantWaypointsSymbolic(*p, T));
    if (com) {
      for (auto& w : computeWwaypoints(*p, T)) h.mat(w.first), h.mat(w.second);
      auto c = evaluateCurveAtTime(*p, pi, u), a = evaluateAccelerationCurveAtTime(*p, pi, T, u);
      h.add(c.first), h.mat(c.second), h.add(a.first), h.mat(a.second);
    }
    if (jerk) {
      wps(computeVelocityWaypoints(*p, T));
      wps(computeAccelerationWaypoints(*p, T));
      wps(computeJerkWaypoints(*p, T));
      auto c = computeVelocityCost(*p, T);
      h.mat(c.first), h.mat(c.second);
    }
    VX Ts(3);
    Ts << T, 0.5 * T, 0.25 * T;
    for (auto& t : computeDiscretizedTime(Ts, 0.05 * T)) h.add(t.first), h.add(t.second);
    return h.str();
  };
}
