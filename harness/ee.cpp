// End effector trajectories (three, nine or fifteen free variables).
#include <hpp/bezier-com-traj/solve_end_effector.hh>

#include "common.hh"

// a path given by its control points (normalised time)
struct Path {
  std::vector<V3> p;
  point3_t operator()(double u) const {
    std::vector<V3> q = p;
    for (size_t n = q.size(); n > 1; --n)
      for (size_t i = 0; i + 1 < n; ++i) q[i] = (1 - u) * q[i] + u * q[i + 1];
    return q[0];
  }
};

static std::string dig(const ProblemData& p) {
  std::string o;
  char b[64];
  for (auto* v : {&p.c0_, &p.dc0_, &p.ddc0_, &p.j0_, &p.c1_, &p.dc1_, &p.ddc1_, &p.j1_})
    for (int i = 0; i < 3; ++i) {
      snprintf(b, sizeof b, "%a,", (*v)(i));
      o += b;
    }
  return o;
}

void run_ee(const Scn& s, Js& j) {
  Rng g((uint64_t)s.i("seed", 1));
  ProblemData p;
  int flag = (int)s.i("flag", 255);
  p.constraints_.flag_ = (ConstraintFlag)flag;
  std::string mot = s.s("mot", "step"), wt = s.s("wt", "0"), ori = s.s("ori", "any");
  double r = mot == "wild" ? 3. : mot == "hop" ? 1. : mot == "rest" ? 0. : 0.2;
  p.c0_ = V3(g.u(-1, 1), g.u(-1, 1), g.u(0, 0.3));
  p.c1_ = p.c0_ + V3(g.u(-0.5, 0.5), g.u(-0.3, 0.3), g.u(-0.3, 0.3));
  if (ori == "zero0") p.c1_ -= p.c0_, p.c0_.setZero();
  if (ori == "zero1") p.c0_ -= p.c1_, p.c1_.setZero();
  if (ori == "flat") p.c1_(2) = p.c0_(2);
  p.dc0_ = g.v(r);
  p.dc1_ = g.v(r);
  p.ddc0_ = g.v(2 * r);
  p.ddc1_ = g.v(2 * r);
  p.j0_ = g.v(4 * r);
  p.j1_ = g.v(4 * r);
  p.l0_ = V3::Zero();
  double T = s.s("tim") == "short" ? g.u(0.15, 0.4) : s.s("tim") == "long" ? g.u(2., 6.) : s.s("tim") == "one" ? 1. : g.u(0.4, 2.);
  double w = wt == "0" ? 0. : wt == "1" ? 1. : g.u(0.05, 0.95);
  Path path;
  int deg = 1 + g.n(4);
  for (int k = 0; k <= deg; ++k) path.p.push_back(p.c0_ + (p.c1_ - p.c0_) * (double(k) / deg) + (k && k < deg ? V3(g.v(0.4)) : V3(V3::Zero())));
  if (s.s("path") == "low")  // a path that dives under the ground
    for (int k = 1; k < deg; ++k) path.p[k](2) -= g.u(0.3, 1.);
  j.key("flag").integer(flag);
  j.key("T").num(T);
  j.key("wd").num(w);
  emitBc(p, j);
  j.key("path").arr();
  std::vector<V3> samples;
  for (int i = 0; i < 50; ++i) samples.push_back(path(double(i) / 49.));
  for (auto& v : samples) j.vec(v);
  j.earr();
  // the pieces
  std::vector<point_t> pi = computeConstantWaypoints(p, T);
  j.key("rows").obj();
  {
    auto Ab = computeEndEffectorConstraints(p, T, pi);
    j.key("A").mat(Ab.first);
    j.key("b").vec(Ab.second);
  }
  j.eobj();
  j.key("obj").obj();
  {
    auto Hg = computeEndEffectorCost(p, path, T, w, true, pi);
    j.key("H").mat(Hg.first);
    j.key("g").vec(Hg.second);
  }
  j.eobj();
  j.key("dist").obj();
  {
    auto Hg = computeDistanceCostFunction<Path>(50, p, T, path);
    j.key("H").mat(Hg.first);
    j.key("g").vec(Hg.second);
  }
  j.eobj();
  const int np = 5;
  MX H;
  VX gg;
  j.key("np").integer(np);
  j.key("veld").obj();
  computeVelCostFunctionDiscretized(np, p, T, H, gg);
  j.key("H").mat(H);
  j.key("g").vec(gg);
  j.eobj();
  j.key("accd").obj();
  computeAccelerationCostFunctionDiscretized(np, p, T, H, gg);
  j.key("H").mat(H);
  j.key("g").vec(gg);
  j.eobj();
  j.key("jerkd").obj();
  computeJerkCostFunctionDiscretized(np, p, T, H, gg);
  j.key("H").mat(H);
  j.key("g").vec(gg);
  j.eobj();
  // the curves of lift off and of landing, wholly given by one of the ends
  j.key("away").arr();
  for (auto& v : computeConstantWaypointsInitPredef(p, T)) j.vec(v);
  j.earr();
  j.key("home").arr();
  for (auto& v : computeConstantWaypointsGoalPredef(p, T)) j.vec(v);
  j.earr();
  std::string d0 = dig(p);
  j.key("r").obj();
  try {
    ResultDataCOMTraj r1 = solveEndEffector(p, path, T, w);
    j.key("outcome").str("ok");
    emitResult(r1, j);
    ResultDataCOMTraj r2 = solveEndEffector(p, path, T, w);
    j.key("pure").boolean(d0 == dig(p));
    bool same = r1.success_ == r2.success_ && r1.x.size() == r2.x.size() && r1.x == r2.x &&
                r1.c_of_t_.waypoints().size() == r2.c_of_t_.waypoints().size();
    j.key("repeat").boolean(same);
  } catch (const std::exception& e) {
    j.key("outcome").str("throw");
    j.key("what").str(e.what());
    j.key("pure").boolean(d0 == dig(p));
    j.key("repeat").boolean(true);
  }
  j.eobj();
}

void eeCall(const ProblemData& p, double T) {
  Path path;
  path.p = {p.c0_, p.c1_};
  solveEndEffector(p, path, T, 0.5);
}

Hot hotEe(const Scn& s) {
  Rng g((uint64_t)s.i("seed", 1));
  auto p = std::make_shared<ProblemData>();
  p->constraints_.flag_ = (ConstraintFlag)s.i("flag", 255);
  p->c0_ = g.v(1.);
  p->c1_ = p->c0_ + g.v(0.5);
  p->dc0_ = g.v(0.2), p->dc1_ = g.v(0.2), p->ddc0_ = g.v(0.4), p->ddc1_ = g.v(0.4), p->j0_ = g.v(0.5), p->j1_ = g.v(0.5);
  p->l0_ = V3::Zero();
  const double T = g.u(0.5, 2.), w = g.u(0.1, 0.9);
  Path path;
  path.p = {p->c0_, p->c0_ + g.v(0.5), p->c1_};
  return [p, T, w, path]() {
    ResultDataCOMTraj r = solveEndEffector(*p, path, T, w);
    Hash h;
    h.add(r.success_);
    h.mat(r.x);
    for (auto& v : r.c_of_t_.waypoints()) h.mat(v);
    return h.str();
  };
}
