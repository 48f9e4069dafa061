// Time discretisation; preprocessing of constraints and algebra of expressions.
#include "common.hh"
using namespace bezier_com_traj;

static void emitTimes(const T_time& t, Js& j) {
  j.arr();
  for (auto& p : t) j.arr().num(p.first).integer(p.second + 1).earr();
  j.earr();
}

void run_time(const Scn& s, Js& j) {
  Rng g((uint64_t)s.i("seed", 1));
  int n = std::max(1, (int)s.i("nph", 2));
  std::string du = s.s("durs", "any"), st = s.s("step", "any");
  VX Ts(n);
  double base = g.u(0.2, 2.);
  for (int i = 0; i < n; ++i)
    Ts(i) = du == "dy" ? std::max(0.125, g.dy(0.125, 2., 3)) : du == "same" ? base : du == "dec" ? std::max(1, (int)g.u(1., 20.)) / 10. : du == "mixed" ? (g.b() ? g.u(0.05, 0.1) : g.u(1., 4.)) : g.u(0.1, 2.);
  double mn = Ts.minCoeff(), dt;
  if (st == "half")
    dt = mn / 2.;
  else if (st == "div")
    dt = mn / (2 + g.n(9));
  else if (st == "dec") {
    dt = 0.05;
    while (dt * 2 > mn) dt /= 2;
  } else if (st == "fine")
    dt = mn / g.u(20., 60.);
  else
    dt = mn / g.u(2., 12.);
  int ppp = std::max(1, (int)s.i("ppp", 3));
  j.key("Ts").vec(Ts).key("dt").num(dt).key("ppp").integer(ppp);
  j.key("stepped");
  emitTimes(computeDiscretizedTime(Ts, dt), j);
  j.key("fixed");
  emitTimes(computeDiscretizedTimeFixed(Ts, (unsigned)ppp), j);
}

template <class W>
static void emitW(const W& w, Js& j) {
  j.obj();
  j.key("A").mat(w.first).key("b").vec(w.second);
  j.eobj();
}
static waypoint_t rw(Rng& g, int r, int c, bool grid) {
  waypoint_t w = initwp((size_t)r, (size_t)c);
  for (int k = 0; k < r * c; ++k) w.first.data()[k] = grid ? double(g.n(5) - 2) : g.u(-3, 3);
  for (int k = 0; k < r; ++k) w.second(k) = grid ? double(g.n(5) - 2) : g.u(-3, 3);
  return w;
}

void run_pre(const Scn& s, Js& j) {
  Rng g((uint64_t)s.i("seed", 1));
  int m = (int)s.i("rows", 4), n = std::max(1, (int)s.i("cols", 3));
  double pz = s.s("zeros") == "none" ? 0. : s.s("zeros") == "some" ? 0.3 : s.s("zeros") == "most" ? 0.8 : 1.;
  std::string rhs = s.s("rhs", "pos");
  MX A(m, n);
  VX b(m);
  for (int r = 0; r < m; ++r) {
    bool z = g.b(pz);
    double k = s.s("mag") == "wide" ? std::pow(10., g.u(-6., 6.)) : 1.;
    for (int c = 0; c < n; ++c) A(r, c) = z ? 0. : k * g.u(-1., 1.);
    if (s.s("zeros") == "some" && !z && g.b(0.3)) A(r, g.n(n)) = 0.;
    b(r) = rhs == "pos" ? k * g.u(0., 2.) : rhs == "zero" ? 0. : k * g.u(-0.4, 2.);
    if (rhs == "badend" && r == m - 1) A.row(r).setZero(), b(r) = -0.5;
    if (rhs == "badfirst" && r == 0) A.row(r).setZero(), b(r) = -1e-9;
  }
  j.key("A").mat(A).key("b").vec(b);
  MX A2 = A;
  VX b2 = b;
  int k = Normalize(A2, b2);
  j.key("k").integer(k).key("A2").mat(A2).key("b2").vec(b2);
  // the algebra of affine expressions
  bool grid = g.b(0.3);
  int r = (int)s.i("wr", 3), c = (int)s.i("wc", 3);
  waypoint_t u = rw(g, r, c, grid), v = rw(g, r, c, grid);
  double f = grid ? double(g.n(5) - 2) : g.u(-3, 3);
  j.key("u");
  emitW(u, j);
  j.key("v");
  emitW(v, j);
  j.key("f").num(f);
  j.key("sum");
  emitW(u + v, j);
  j.key("dif");
  emitW(u - v, j);
  j.key("lmul");
  emitW(f * u, j);
  j.key("rmul");
  emitW(u * f, j);
  j.key("eqs").obj();
  waypoint_t u2 = u, u3 = u;
  u3.second(r - 1) += 0.5;
  waypoint_t u4 = u;
  u4.first(0, c - 1) += 0.5;
  j.key("same").boolean(u == u2 && !(u != u2) && u.isApprox(u2));
  j.key("diffb").boolean(u == u3 || !(u != u3));
  j.key("diffA").boolean(u == u4 || !(u != u4));
  j.key("size").integer((long)u.size());
  waypoint_t z = waypoint_t::Zero(4);
  j.key("zero").boolean(z.first.rows() == 4 && z.first.cols() == 4 && z.second.size() == 4 && z.first.isZero(0.) && z.second.isZero(0.) && initwp(2, 5).first.rows() == 2 && initwp(2, 5).first.cols() == 5 && initwp(2, 5).second.size() == 2);
  j.eobj();
  V3 a = g.v(3.), bb = g.v(3.);
  if (grid) a(g.n(3)) = 0.;
  j.key("ska").vec(a).key("skb").vec(bb).key("skab").vec(VX(skew(a) * bb)).key("sk").mat(skew(a));
  // sampling of a wrench curve
  std::vector<waypoint6_t> wps;
  const int nw = g.b(0.4) ? 5 : 1 + g.n(9);  // the zero step capturability has 5
  for (int i = 0; i < nw; ++i) {
    waypoint6_t w = initwp<waypoint6_t>();
    for (int q = 0; q < 18; ++q) w.first.data()[q] = g.u(-2, 2);
    for (int q = 0; q < 6; ++q) w.second(q) = g.u(-2, 2);
    wps.push_back(w);
  }
  int ns = std::max(1, (int)s.i("ns", 3));
  j.key("ns").integer(ns);
  j.key("wps").arr();
  for (auto& w : wps) emitW(w, j);
  j.earr();
  j.key("disc").arr();
  for (auto& w : ComputeDiscretizedWaypoints(wps, ComputeBersteinPolynoms((unsigned)nw - 1), ns)) emitW(w, j);
  j.earr();
  int deg = 1 + g.n(9);
  double uu = g.b(0.3) ? (g.b() ? 0. : 1.) : g.u();
  j.key("deg").integer(deg).key("bu").num(uu);
  j.key("bern").arr();
  for (auto& B : ComputeBersteinPolynoms((unsigned)deg)) j.num(B(uu));
  j.earr();
}
