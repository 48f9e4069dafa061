// The active-set solver called directly, and the generic solve entry points.
#include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>

#include "common.hh"
using tsid::solvers::EiquadprogFast;
using tsid::solvers::EiquadprogFast_status;

struct Qp {
  MX H, CE, CI;  // min 1/2 x'Hx + g'x, CE x + ce = 0, CI x + ci >= 0
  VX g, ce, ci;
  VX wit;            // a point meant to be feasible (size 0: none)
  double slack = 0;  // by how much
  std::vector<std::pair<int, double>> far;  // multipliers meant to prove that no point is
};

static double val(Rng& g, bool grid) { return grid ? double(g.n(9) - 4) : g.u(-2., 2.); }

static std::vector<double> csv(const std::string& t) {
  std::vector<double> v;
  for (size_t i = 0; i < t.size();) {
    size_t e = t.find(',', i);
    if (e == std::string::npos) e = t.size();
    if (e > i) v.push_back(std::stod(t.substr(i, e - i)));
    i = e + 1;
  }
  return v;
}

// a problem in two variables whose coefficients are given
static Qp givenQp(const Scn& s) {
  Qp q;
  std::vector<double> h = csv(s.s("hx")), g = csv(s.s("gx")), e = csv(s.s("ex"));
  std::vector<std::vector<double>> rows;
  for (const char* k : {"r1", "r2", "r3"}) {
    std::vector<double> r = csv(s.s(k, ""));
    if (r.size() == 3) rows.push_back(r);
  }
  q.H = MX(2, 2);
  q.H << h[0], h[1], h[2], h[3];
  q.g = VX(2);
  q.g << g[0], g[1];
  int me = e.size() == 3 ? 1 : 0;
  q.CE = MX::Zero(me, 2);
  q.ce = VX::Zero(me);
  if (me) {
    q.CE << e[0], e[1];
    q.ce(0) = e[2];
  }
  q.CI = MX::Zero((int)rows.size(), 2);
  q.ci = VX::Zero((int)rows.size());
  for (int i = 0; i < (int)rows.size(); ++i) {
    q.CI(i, 0) = rows[i][0];
    q.CI(i, 1) = rows[i][1];
    q.ci(i) = rows[i][2];
  }
  return q;
}

static Qp makeQp(const Scn& s, Rng& g) {
  if (!s.s("hx", "").empty()) return givenQp(s);
  Qp q;
  int n = std::max(1, (int)s.i("n", 3)), me = std::min(n - 1, (int)s.i("me", 0)), mi = (int)s.i("mi", 4);
  if (s.s("full") == "yes") me = n;
  bool grid = s.s("num") == "grid";
  std::string hk = s.s("hk", "spd"), kind = s.s("kindc", "feas");
  double sc = hk == "tiny" ? 1e-6 : hk == "large" ? 1e5 : hk == "mini" ? 1e-10 : hk == "huge" ? 1e9 : 1.;
  if (hk == "eye")
    q.H = MX::Identity(n, n);
  else if (hk == "diag" || hk == "ill") {
    q.H = MX::Zero(n, n);
    for (int i = 0; i < n; ++i) q.H(i, i) = hk == "ill" ? std::pow(10., g.u(-3., 3.)) : g.dy(0.25, 8., 2);
  } else if (hk == "mixed") {  // a few variables that matter, and a regularisation on the others
    q.H = MX::Zero(n, n);
    const double big = std::pow(10., g.u(2., 6.)), small = std::pow(10., g.u(-6., -3.));
    for (int i = 0; i < n; ++i) q.H(i, i) = i == 0 || g.b(0.3) ? big : small;
  } else {
    MX B(n, n);
    for (int i = 0; i < n * n; ++i) B.data()[i] = val(g, grid);
    q.H = B * B.transpose() + MX::Identity(n, n) * (grid ? 1. : 0.3);
  }
  q.H *= sc;
  q.g = VX(n);
  for (int i = 0; i < n; ++i) q.g(i) = val(g, grid) * 3 * (hk == "mixed" ? q.H(i, i) : sc);
  VX x0(n);
  for (int i = 0; i < n; ++i) x0(i) = grid ? double(g.n(5) - 2) : g.u(-1.5, 1.5);
  q.CE = MX::Zero(me, n);
  q.ce = VX::Zero(me);
  for (int r = 0; r < me; ++r) {
    for (int c = 0; c < n; ++c) q.CE(r, c) = grid ? double(g.n(5) - 2) : g.u(-1., 1.);
    // independent rows: diagonally dominant on the left
    q.CE(r, r) += (q.CE(r, r) >= 0 ? 1. : -1.) * (2. * n + 1.);
    q.ce(r) = -q.CE.row(r).dot(x0);
  }
  q.CI = MX::Zero(mi, n);
  q.ci = VX::Zero(mi);
  double smin = 1e9;
  for (int r = 0; r < mi; ++r) {
    int how = g.n(10);
    if (kind == "dup" && r > 0 && how < 5) {  // a copy of another row, possibly scaled
      int o = g.n(r);
      double k = grid ? double(1 + g.n(3)) : g.u(0.2, 4.);
      q.CI.row(r) = k * q.CI.row(o);
      q.ci(r) = k * q.ci(o);
      continue;
    }
    if (kind == "box" && r < 2 * n) {
      q.CI(r, r / 2) = r % 2 ? 1. : -1.;
    } else if (kind == "sparse") {
      for (int k = 0; k < 2; ++k) q.CI(r, g.n(n)) = val(g, grid);
    } else
      for (int c = 0; c < n; ++c) q.CI(r, c) = val(g, grid);
    double nr = q.CI.row(r).norm();
    if (!(nr > 0.)) q.CI(r, g.n(n)) = 1., nr = 1.;
    if (kind == "scaled") {
      double k = std::pow(10., g.u(-1.5, 1.5));
      q.CI.row(r) *= k;
      nr *= k;
    }
    if (kind == "near") {
      // barely violated, by different amounts, by the best point without inequalities
      q.ci(r) = 0.;
      continue;
    }
    double sl;
    if (kind == "degen")
      sl = how < 7 ? 0. : g.u(0., 1.);  // many rows through x0
    else
      sl = how < 3 ? g.u(0.001, 0.05) : how < 8 ? g.u(0.05, 1.) : g.u(1., 5.);
    if (grid && kind != "degen") sl = double(1 + g.n(3));
    sl *= nr;
    if (kind == "wild") {  // nothing is known about feasibility
      q.ci(r) = val(g, grid) * 2.;
    } else {
      q.ci(r) = -q.CI.row(r).dot(x0) + sl;
      smin = std::min(smin, sl / nr);
    }
  }
  if (kind == "near" && mi) {
    // every row is pushed along v, tangent to the equalities
    MX K(n + me, n + me);
    K << q.H, q.CE.transpose(), q.CE, MX::Zero(me, me);
    VX rhs(n + me);
    rhs << -q.g, -q.ce;
    Eigen::FullPivLU<MX> lu(K);
    VX best = VX(lu.solve(rhs)).head(n);
    VX v = x0 - best;
    for (int r = 0; r < mi; ++r) {
      double d = q.CI.row(r).dot(v);
      if (d < 0) q.CI.row(r) *= -1., d = -d;
      double viol = std::pow(10., g.u(-7., -2.));
      q.ci(r) = -q.CI.row(r).dot(best) - std::min(viol, 0.5 * d);
      smin = std::min(smin, (q.CI.row(r).dot(x0) + q.ci(r)) / q.CI.row(r).norm());
    }
  }
  if (kind != "wild") {
    q.wit = x0;
    q.slack = mi ? smin : 1.;
  }
  if (kind == "infeas" && mi >= 2) {
    // a'x >= c and a'x <= c - gap
    int r = g.n(mi), o = (r + 1 + g.n(mi - 1)) % mi;
    double k = grid ? 1. : g.u(0.5, 2.), gap = grid ? 1. : g.u(0.01, 1.);
    q.CI.row(o) = -k * q.CI.row(r);
    q.ci(o) = -k * (q.ci(r) + gap);
    q.far = {{o, 1.}, {r, k}};
    q.wit = VX();
  } else if (kind == "infsum" && mi >= 3) {
    // the sum of two rows contradicts a third
    int r = 0, t = 1, o = 2;
    q.CI.row(o) = -q.CI.row(r) - q.CI.row(t);
    q.ci(o) = -q.ci(r) - q.ci(t) - (grid ? 1. : g.u(0.01, 0.5));
    if (q.CI.row(o).norm() > 0) {
      q.far = {{r, 1.}, {t, 1.}, {o, 1.}};
      q.wit = VX();
    }
  } else if (kind == "infeas" || kind == "infsum") {
  }
  return q;
}

static void emitQp(const Qp& q, Js& j) {
  j.key("H").mat(q.H).key("g").vec(q.g).key("CE").mat(q.CE).key("ce").vec(q.ce).key("CI").mat(q.CI).key("ci").vec(q.ci);
  j.key("wit").vec(q.wit).key("slack").num(q.slack);
  j.key("far").arr();
  for (auto& f : q.far) j.arr().integer(f.first + 1).num(f.second).earr();
  j.earr();
}

static void emitAns(EiquadprogFast& S, EiquadprogFast_status st, const VX& x, Js& j) {
  j.obj();
  j.key("status").integer(st);
  j.key("x").vec(x);
  j.key("f").num(S.getObjValue());
  int q = S.getActiveSetSize();
  j.key("A").arr();
  if (st == tsid::solvers::EIQUADPROG_FAST_OPTIMAL)
    for (int k = 0; k < q; ++k) j.integer(S.getActiveSet()(k));
  j.earr();
  j.key("u").arr();
  if (st == tsid::solvers::EIQUADPROG_FAST_OPTIMAL)
    for (int k = 0; k < q; ++k) j.num(S.getLagrangeMultipliers()(k));
  j.earr();
  j.key("iter").integer(S.getIteratios());
  j.eobj();
}

static EiquadprogFast_status go(EiquadprogFast& S, const Qp& q, VX& x) {
  return S.solve_quadprog(q.H, q.g, q.CE, q.ce, q.CI, q.ci, x);
}

void run_qp(const Scn& s, Js& j) {
  Rng g((uint64_t)s.i("seed", 1));
  Qp q = makeQp(s, g);
  emitQp(q, j);
  VX x0 = VX::Zero(q.g.size());
  {
    EiquadprogFast S;
    VX x = x0;
    EiquadprogFast_status st = go(S, q, x);
    j.key("r");
    emitAns(S, st, x, j);
  }
  {  // an object that has been used, and a result that starts elsewhere
    EiquadprogFast S;
    Scn o = s;
    if (g.b(0.4)) {
      o.kv["n"] = std::to_string(1 + g.n(6));
      o.kv["mi"] = std::to_string(g.n(10));
    }
    if (g.b(0.3)) o.kv["kindc"] = "infeas";
    o.kv.erase("hx");
    for (int k = 1 + g.n(3); k > 0; --k) {
      Qp b = makeQp(o, g);
      VX x = VX::Zero(b.g.size());
      go(S, b, x);
    }
    VX x = VX::Constant(q.g.size(), 7.5);
    EiquadprogFast_status st = go(S, q, x);
    j.key("again");
    emitAns(S, st, x, j);
  }
  {
    EiquadprogFast S;
    VX x = VX::Constant(q.g.size(), -3.);
    EiquadprogFast::SpMat Hs = q.H.sparseView(0., 0.);
    EiquadprogFast_status st = S.solve_quadprog_sparse(Hs, q.g, q.CE, q.ce, q.CI, q.ci, x);
    j.key("sparse");
    emitAns(S, st, x, j);
    x = x0;
    st = go(S, q, x);  // and the same object goes on with the matrix itself
    j.key("mixed");
    emitAns(S, st, x, j);
    S.setMaxIter(1 + g.n(5));
    st = S.solve_quadprog_sparse(Hs, q.g, q.CE, q.ce, q.CI, q.ci, x);
    j.key("scapped");
    emitAns(S, st, x, j);
  }
  {  // the factor of the inverse of the Hessian given by the caller
    EiquadprogFast S;
    VX x = x0;
    S.reset((int)q.g.size(), (int)q.ce.size(), (int)q.ci.size());
    S.is_inverse_provided_ = true;
    Eigen::LLT<MX> c(q.H);
    S.m_J = c.matrixU().solve(MX::Identity(q.g.size(), q.g.size()));
    EiquadprogFast_status st = go(S, q, x);
    j.key("inv");
    emitAns(S, st, x, j);
    EiquadprogFast P;
    P.reset((int)q.g.size(), (int)q.ce.size(), (int)q.ci.size());
    P.is_inverse_provided_ = true;
    P.m_J = c.matrixU().solve(MX::Identity(q.g.size(), q.g.size()));
    EiquadprogFast::SpMat Hs = q.H.sparseView(0., 0.);
    st = P.solve_quadprog_sparse(Hs, q.g, q.CE, q.ce, q.CI, q.ci, x);
    j.key("sinv");
    emitAns(P, st, x, j);
  }
  {  // few iterations allowed
    EiquadprogFast S;
    VX x = x0;
    S.setMaxIter(1 + g.n(5));
    EiquadprogFast_status st = go(S, q, x);
    j.key("capped");
    emitAns(S, st, x, j);
  }
}

// ---- generic entry points -----------------------------------------------
static void emitRes(const solvers::ResultData& r, const char* name, Js& j) {
  j.key(name).obj();
  j.key("throws").boolean(false);
  j.key("success").boolean(r.success_).key("cost").num(r.cost_).key("x").vec(r.x);
  j.eobj();
}
template <class F>
static void call(const char* name, F f, Js& j) {
  try {
    solvers::ResultData r = f();
    emitRes(r, name, j);
  } catch (const std::runtime_error& e) {
    j.key(name).obj().key("throws").boolean(true).key("what").str(e.what()).eobj();
  }
}

void run_abs(const Scn& s, Js& j) {
  Rng g((uint64_t)s.i("seed", 1));
  Qp q = makeQp(s, g);
  int n = (int)q.g.size();
  std::string bnd = s.s("bnd", "none"), api = s.s("api", "core"), zr = s.s("zrow", "none");
  solvers::SolverType ty = s.s("solver") == "glpk" ? solvers::SOLVER_GLPK : solvers::SOLVER_QUADPROG;
  MX A = -q.CI, D = q.CE;
  VX b = q.ci, d = -q.ce;
  if (zr != "none" && A.rows()) {
    int r = g.n((int)A.rows());
    A.row(r).setZero();
    b(r) = zr == "neg" ? -g.u(0.1, 1.) : zr == "zero" ? 0. : g.u(0.1, 1.);
    if (zr == "neg") q.wit = VX();
    if (zr == "zero") q.slack = 0.;
  }
  VX lo(0), hi(0);
  VX w = q.wit.size() ? q.wit : VX::Zero(n);
  auto mk = [&](bool up) {
    VX v(n);
    for (int i = 0; i < n; ++i) {
      double away = g.b(0.5) ? g.u(0.02, 0.3) : g.u(0.3, 3.);
      v(i) = w(i) + (up ? away : -away);
      if (bnd == "part" && g.b(0.4)) v(i) = up ? solvers::UNBOUNDED_UP : solvers::UNBOUNDED_DOWN;
    }
    return v;
  };
  if (bnd == "lo" || bnd == "both" || bnd == "part" || bnd == "fix" || bnd == "cross") lo = mk(false);
  if (bnd == "hi" || bnd == "both" || bnd == "part" || bnd == "fix" || bnd == "cross") hi = mk(true);
  if (bnd == "fix") {
    int i = g.n(n);
    lo(i) = hi(i) = w(i);
  }
  if (bnd == "cross") {
    int i = g.n(n);
    lo(i) = hi(i) + g.u(0.05, 0.5);
    q.wit = VX();
  }
  if (bnd == "wide") {  // far away, and still bounds
    lo = VX(n), hi = VX(n);
    for (int i = 0; i < n; ++i) lo(i) = -g.u(1e3, 9.9e4), hi(i) = g.u(1e3, 9.9e4);
  }
  if (bnd == "far") {  // far away, some of them absent, and the optimum goes there
    int keep = std::min<int>((int)A.rows(), g.n(3));
    A = MX(A.topRows(keep));
    b = VX(b.head(keep));
    lo = VX(n), hi = VX(n);
    for (int i = 0; i < n; ++i) {
      auto away = [&]() { return g.b(0.5) ? std::pow(10., g.u(1., 4.99)) : g.u(1e4, 9.99e4); };
      lo(i) = -away(), hi(i) = away();
      int k = g.n(4);
      if (k == 1) lo(i) = solvers::UNBOUNDED_DOWN;
      if (k == 2) hi(i) = solvers::UNBOUNDED_UP;
      if (k == 1) q.g(i) = -std::abs(q.g(i));
      if (k == 2) q.g(i) = std::abs(q.g(i));
    }
    if (ty == solvers::SOLVER_QUADPROG) q.g *= std::pow(10., g.n(5));
    if (q.wit.size() && ((q.wit - lo).minCoeff() < 0.01 || (hi - q.wit).minCoeff() < 0.01)) q.wit = VX();
  }
  if (bnd == "pos") {  // as for forces
    lo = VX::Zero(n);
    lo(0) = solvers::UNBOUNDED_DOWN;
    if (q.wit.size()) {
      bool ok = true;
      for (int i = 1; i < n; ++i) ok = ok && q.wit(i) > 0.01;
      if (!ok) q.wit = VX();
    }
  }
  if (bnd == "small") {
    lo = VX(2), hi = VX(2);
    lo << -1., 0.;
    hi << 1., solvers::UNBOUNDED_UP;
  }
  if (s.s("lin") == "zero") q.g.setZero();
  j.key("H").mat(q.H).key("g").vec(q.g).key("A").mat(A).key("b").vec(b).key("D").mat(D).key("d").vec(d);
  j.key("lo").vec(lo).key("hi").vec(hi).key("solver").str(ty == solvers::SOLVER_GLPK ? "glpk" : "qp");
  j.key("wit").vec(q.wit).key("slack").num(q.slack).key("api").str(api);
  VX init(n), init2(n);
  for (int i = 0; i < n; ++i) init(i) = g.u(-5, 5), init2(i) = g.u(-5, 5);
  j.key("init").vec(init);
  auto run = [&](const VX& x0) -> solvers::ResultData {
    using namespace bezier_com_traj;
    if (api == "pair")
      return bezier_com_traj::solve(std::make_pair(A, b), std::make_pair(D, d), std::make_pair(q.H, q.g), lo, hi, x0, ty);
    if (api == "ineqpair") return bezier_com_traj::solve(std::make_pair(A, b), std::make_pair(q.H, q.g), x0, ty);
    return solvers::solve(A, b, D, d, q.H, q.g, x0, lo, hi, ty);
  };
  call("r", [&]() { return run(init); }, j);
  call("again", [&]() { return run(init2); }, j);
  call("bad", [&]() { return solvers::solve(A, b, D, d, q.H, q.g, init, lo, hi, (solvers::SolverType)s.i("badty", 4)); }, j);
}

Hot hotQp(const Scn& s) {
  Rng g((uint64_t)s.i("seed", 1));
  auto q = std::make_shared<Qp>(makeQp(s, g));
  const std::string api = s.s("api", "core");
  const solvers::SolverType ty = s.s("solver") == "glpk" ? solvers::SOLVER_GLPK : solvers::SOLVER_QUADPROG;
  const MX A = -q->CI, D = q->CE;
  const VX b = q->ci, d = -q->ce, none(0), x0 = VX::Zero(q->g.size());
  return [=]() {
    Hash h;
    if (api == "own") {
      EiquadprogFast S;
      VX x = x0;
      h.add(go(S, *q, x));
      h.mat(x);
    } else {
      solvers::ResultData r = api == "pair" ? bezier_com_traj::solve(std::make_pair(A, b), std::make_pair(q->H, q->g), x0, ty)
                                            : solvers::solve(A, b, D, d, q->H, q->g, x0, none, none, ty);
      h.add(r.success_);
      h.mat(r.x);
    }
    return h.str();
  };
}
