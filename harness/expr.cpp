// Programs that compute with affine expressions (spec/Expr.tla).
#include "common.hh"
#include <ndcurves/bezier_curve.h>
#include <sstream>
using namespace bezier_com_traj;

static std::vector<std::string> cut(const std::string& s, char d) {
  std::vector<std::string> v;
  std::string w;
  std::istringstream in(s);
  while (std::getline(in, w, d))
    if (!w.empty()) v.push_back(w);
  return v;
}

void run_expr(const Scn& s, Js& j) {
  Rng g((uint64_t)s.i("seed", 1));
  const bool grid = s.i("seed", 1) % 2;
  std::vector<waypoint_t> v(5);
  std::vector<bool> used(5, false);
  j.key("steps").arr();
  for (auto& w : cut(s.s("ops"), ';')) {
    auto t = cut(w, '/');
    std::vector<int> a;
    for (size_t i = 1; i < t.size(); ++i) a.push_back(std::stoi(t[i]));
    const std::string& o = t[0];
    std::string out = "ok";
    try {
      if (o == "new")
        v[a[0]] = initwp((size_t)a[1], (size_t)a[2]);
      else if (o == "zero")
        v[a[0]] = waypoint_t::Zero((size_t)a[1]);
      else if (o == "make") {
        MX A(a[1], a[2]);
        VX b(a[1]);
        for (int k = 0; k < A.size(); ++k) A.data()[k] = grid ? double(g.n(5) - 2) : g.u(-3, 3);
        for (int k = 0; k < b.size(); ++k) b(k) = grid ? double(g.n(5) - 2) : g.u(-3, 3);
        v[a[0]] = waypoint_t(A, b);
      } else if (o == "add")
        v[a[0]] = v[a[1]] + v[a[2]];
      else if (o == "sub")
        v[a[0]] = v[a[1]] - v[a[2]];
      else if (o == "lmul")
        v[a[0]] = (a[1] / 4.) * v[a[2]];
      else if (o == "rmul")
        v[a[0]] = v[a[2]] * (a[1] / 4.);
      else if (o == "copy")
        v[a[0]] = v[a[1]];
      else if (o == "curve2" || o == "curve3") {
        std::vector<waypoint_t> ws;
        for (size_t i = 2; i < a.size(); ++i) ws.push_back(v[a[i]]);
        bezier_wp_t c(ws.begin(), ws.end(), 0., 1.);
        v[a[0]] = c(a[1] / 8.);
      } else if (o == "same") {
        bool e = v[a[0]] == v[a[1]], n = v[a[0]] != v[a[1]];
        out = e == n ? "both" : e ? "yes" : "no";
      }
    } catch (const std::runtime_error&) {
      out = "throw";
    }
    if (out == "ok") used[a[0]] = true;
    j.obj();
    j.key("op").arr();
    j.str(o);
    for (int k : a) j.integer(k);
    j.earr();
    j.key("out").str(out);
    j.key("s").arr();
    for (int k = 1; k < 5; ++k) {
      if (!used[k])
        j.arr().earr();
      else {
        j.obj();
        j.key("n").integer((long)v[k].size());
        j.key("A").mat(v[k].first).key("b").vec(v[k].second);
        j.eobj();
      }
    }
    j.earr();
    j.eobj();
  }
  j.earr();
}
