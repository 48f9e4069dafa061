// Refusals: what the library answers to requests it does not support.
#include <hpp/bezier-com-traj/solver/solver-abstract.hpp>

#include "common.hh"
using namespace bezier_com_traj;

// what happened: "ok", "refused" (a runtime error), "other" (another exception)
template <class F>
static const char* outcome(F f) {
  try {
    f();
    return "ok";
  } catch (const std::runtime_error&) {
    return "refused";
  } catch (...) {
    return "other";
  }
}

static std::string digest(const ResultDataCOMTraj& r) {
  Js j;
  j.obj();
  emitResult(r, j);
  j.eobj();
  return hashOf(j.o);
}
static const char* kSimple = "kind=com nph=1 flag=27 mode=disc dtk=dy kin=none acc=off geom=flat easy=0.1 mot=static";

// every flag of a block with every function that dispatches on flags
void run_errf(const Scn& s, Js& j) {
  Problem P;
  Scn q = words(kSimple, ' ');
  q.kv["seed"] = s.s("seed", "1");
  buildProblem(q, P);
  ProblemData good = P.p;
  std::string before = digest(computeCOMTraj(good, P.Ts, P.dt, solvers::SOLVER_QUADPROG));
  double T = P.Ts.sum();
  Rng g(7);
  std::vector<point_t> pi;
  for (int k = 0; k < 14; ++k) pi.push_back(g.v(1.));
  int block = (int)s.i("block");
  j.key("calls").arr();
  for (int flag = 64 * block; flag < 64 * (block + 1); ++flag)
    for (int still = 0; still < 2; ++still) {
      ProblemData p = good;
      p.constraints_.flag_ = (ConstraintFlag)flag;
      p.dc1_ = still ? V3(0, 0, 0) : V3(0.125, 0, 0);
      j.obj();
      j.key("flag").integer(flag);
      j.key("still").boolean(still);
      j.key("out").obj();
      j.key("dim").str(outcome([&] { dimVar(p); }));
      j.key("pi").str(outcome([&] { computeConstantWaypoints(p, T); }));
      j.key("sym").str(outcome([&] { computeConstantWaypointsSymbolic(p, T); }));
      j.key("w").str(outcome([&] { computeWwaypoints(p, T); }));
      j.key("com").str(outcome([&] { computeCOMTraj(p, P.Ts, P.dt, solvers::SOLVER_QUADPROG); }));
      j.key("cont").str(outcome([&] { computeCOMTraj(p, P.Ts, -1, solvers::SOLVER_QUADPROG); }));
      j.key("fixed").str(outcome([&] { computeCOMTrajFixedSize(p, P.Ts, 3); }));
      j.key("ee").str(outcome([&] { eeCall(p, T); }));
      if (still) {
        j.key("c").str(outcome([&] { evaluateCurveAtTime(p, pi, 0.5); }));
        j.key("ddc").str(outcome([&] { evaluateAccelerationCurveAtTime(p, pi, T, 0.5); }));
        j.key("wc").str(outcome([&] { evaluateCurveWaypointAtTime(p, pi, 0.5); }));
        j.key("wdc").str(outcome([&] { evaluateVelocityCurveWaypointAtTime(p, T, pi, 0.5); }));
        j.key("wddc").str(outcome([&] { evaluateAccelerationCurveWaypointAtTime(p, T, pi, 0.5); }));
        j.key("wjc").str(outcome([&] { evaluateJerkCurveWaypointAtTime(p, T, pi, 0.5); }));
        j.key("fv").str(outcome([&] { computeFinalVelocityPoint(p, T); }));
        j.key("vel").str(outcome([&] { computeVelocityWaypoints(p, T, pi); }));
        j.key("acc").str(outcome([&] { computeAccelerationWaypoints(p, T, pi); }));
        j.key("jerk").str(outcome([&] { computeJerkWaypoints(p, T, pi); }));
        j.key("velc").str(outcome([&] { computeVelocityCost(p, T, pi); }));
        j.key("zero").str(outcome([&] { solve0step(p, {T}, P.dt); }));
      }
      j.eobj();
      j.eobj();
    }
  j.earr();
  j.key("same").boolean(before == digest(computeCOMTraj(good, P.Ts, P.dt, solvers::SOLVER_QUADPROG)));
}

// sums and differences of expressions of all small sizes
void run_erro(const Scn& s, Js& j) {
  int r[2], c[2], v[2];
  waypoint_t w[2];
  for (int k = 0; k < 2; ++k) {
    std::string t = s.s(k ? "b" : "a");  // "rcv"
    r[k] = t[0] - '0';
    c[k] = t[1] - '0';
    v[k] = t[2] - '0';
    w[k].first = MX::Ones(r[k], c[k]);
    w[k].second = VX::Ones(v[k]);
    j.key(k ? "b" : "a").arr();
    j.integer(r[k]).integer(c[k]).integer(v[k]);
    j.earr();
  }
  waypoint_t x;
  j.key("plus").str(outcome([&] { x = w[0] + w[1]; }));
  j.key("minus").str(outcome([&] { x = w[0] - w[1]; }));
}

// wrong arguments of the planners
void run_erra(const Scn& s, Js& j) {
  Problem P;
  Scn q = words(kSimple, ' ');
  q.kv["seed"] = s.s("seed", "1");
  q.kv["nph"] = s.s("nph");
  q.kv["mode"] = s.s("mode");
  buildProblem(q, P);
  ProblemData good = P.p, p = P.p;
  auto call = [&](const ProblemData& pb, const VX& Ts, solvers::SolverType so) {
    return P.mode == "fixed" ? computeCOMTrajFixedSize(pb, Ts, 3)
                             : computeCOMTraj(pb, Ts, P.mode == "disc" ? P.dt : -1., so);
  };
  int flag = (int)s.i("flag"), cost = (int)s.i("cost"), so = (int)s.i("solver"), nts = (int)s.i("nts");
  bool still = s.s("still") == "yes";
  p.constraints_.flag_ = (ConstraintFlag)flag;
  p.costFunction_ = (CostFunction)cost;
  p.dc1_ = still ? V3(0, 0, 0) : V3(0.125, 0, 0.0625);
  VX Ts = VX::Constant(nts, 1.);
  std::string before = digest(call(good, P.Ts, solvers::SOLVER_QUADPROG));
  j.key("mode").str(P.mode);
  j.key("nph").integer((long)p.contacts_.size());
  j.key("nts").integer(nts);
  j.key("flag").integer(flag);
  j.key("cost").integer(cost);
  j.key("solver").integer(so);
  j.key("still").boolean(still);
  j.key("out").str(outcome([&] { call(p, Ts, (solvers::SolverType)so); }));
  // the same request again, then a good one
  j.key("again").str(outcome([&] { call(p, Ts, (solvers::SolverType)so); }));
  j.key("same").boolean(before == digest(call(good, P.Ts, solvers::SOLVER_QUADPROG)));
  // the solver itself
  MX A = MX::Identity(2, 2), H = MX::Identity(2, 2);
  VX b = VX::Ones(2), g = VX::Ones(2), z(0), x0 = VX::Zero(2);
  MX D(0, 2);
  j.key("raw").str(outcome([&] { solvers::solve(A, b, D, z, H, g, x0, z, z, (solvers::SolverType)so); }));
}

