// Histories of a Python program that uses the bindings: an interpreter inside
// this process performs the operations of the scenario one by one, through the
// Python objects, and records what can be seen of each.
#include <malloc.h>

#include <boost/python.hpp>
#include <eigenpy/eigenpy.hpp>

#include "common.hh"
using namespace bezier_com_traj;
using centroidal_dynamics::Equilibrium;
namespace bp = boost::python;

extern "C" PyObject* PyInit_hpp_bezier_com_traj();

// The geometries of contacts have a Python module of their own
// (hpp_centroidal_dynamics); this class stands in for it.
static bp::object gMod, gNd;
static bool gUp = false;
void warm_py() {
  if (gUp) return;
  gUp = true;
  setenv("PYTHONMALLOC", "malloc", 1);
  setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
  mallopt(M_PERTURB, 0xA5);  // memory that is given back is overwritten
  PyImport_AppendInittab("hpp_bezier_com_traj", &PyInit_hpp_bezier_com_traj);
  Py_InitializeEx(0);
  gNd = bp::import("ndcurves");
  gMod = bp::import("hpp_bezier_com_traj");
  bp::class_<Equilibrium, boost::noncopyable>("Equilibrium", bp::no_init);
}
static bp::object own(Equilibrium* e) {
  return bp::object(bp::handle<>(bp::manage_new_object::apply<Equilibrium*>::type()(e)));
}
static VX vecOf(const bp::object& o) {
  bp::object np = bp::import("numpy"), f = np.attr("array")(o, "float64").attr("flatten")();
  VX v(bp::len(f));
  for (long k = 0; k < v.size(); ++k) v(k) = bp::extract<double>(f.attr("item")(k));
  return v;
}
static MX matOf(const bp::object& o) {
  bp::object np = bp::import("numpy"), a = np.attr("atleast_2d")(o), sh = a.attr("shape");
  const long R = bp::extract<long>(sh[0]), C = bp::extract<long>(sh[1]);
  MX m = MX::Zero(R, C);
  for (long r = 0; r < m.rows(); ++r)
    for (long c = 0; c < m.cols(); ++c) m(r, c) = bp::extract<double>(a.attr("item")(r, c));
  return m;
}
static void emitCurveObj(const bp::object& c, Js& j) {
  j.obj();
  MX w = matOf(c.attr("waypoints")());
  j.key("wps").mat(w.transpose());
  double T = bp::extract<double>(c.attr("max")());
  j.key("tmin").num(bp::extract<double>(c.attr("min")()));
  j.key("tmax").num(T);
  j.key("evals").arr();
  if (w.cols() > 1)
    for (double u : {0., 0.3, 0.71, 1.}) {
      double t = u == 1. ? T : u * T;
      j.obj();
      j.key("t").num(t);
      j.key("c").vec(vecOf(c(t)));
      j.key("dc").vec(vecOf(c.attr("derivate")(t, 1)));
      j.key("ddc").vec(vecOf(c.attr("derivate")(t, 2)));
      j.eobj();
    }
  j.earr();
  j.eobj();
}
static std::string pyError() {
  PyObject *t = 0, *v = 0, *tb = 0;
  PyErr_Fetch(&t, &v, &tb);
  std::string n = t ? ((PyTypeObject*)t)->tp_name : "?";
  if (getenv("PY_SHOW")) {  // for whoever reads the recording
    PyObject* o = PyObject_Str(v);
    n += ": " + std::string(o ? PyUnicode_AsUTF8(o) : "?");
  }
  Py_XDECREF(t);
  Py_XDECREF(v);
  Py_XDECREF(tb);
  return n;
}
static void emitAnswer(const bp::object& r, Js& j) {
  bool ok = bp::extract<bool>(r.attr("success"));
  j.key("k").str("answer");
  j.key("success").boolean(ok);
  j.key("cost").num(bp::extract<double>(r.attr("cost")));
  try {
    VX x = vecOf(r.attr("x"));
    j.key("x").vec(x);
    j.key("xerr").str("");
  } catch (const bp::error_already_set&) {
    j.key("x").arr().earr();
    j.key("xerr").str(pyError());
  }
  j.key("curve");
  emitCurveObj(r.attr("c_of_t"), j);
  j.key("dL");
  emitCurveObj(r.attr("dL_of_t"), j);
}
static void emitPair(const bp::object& o, Js& j) {
  j.key("A").mat(matOf(o[0]));
  j.key("b").vec(vecOf(o[1]));
}

void run_py(const Scn& s, Js& j) {
  warm_py();
  Problem W;
  buildProblem(s, W);
  Rng g((uint64_t)s.i("seed", 1) ^ 0x9191);
  // ---- the tables of numbers
  std::vector<V3> vec = {W.p.c0_, W.p.dc0_, W.p.ddc0_, W.p.c1_, W.p.dc1_, W.p.ddc1_,
                         W.p.c0_ + g.v(0.02), W.p.c1_ + g.v(0.02), g.v(0.5)};
  for (auto& v : vec)
    if (v.isZero()) v = V3(0.25, -0.5, 0.125);
  std::vector<MX> kinA, angA;
  std::vector<VX> kinb, angb;
  for (auto& c : W.p.contacts_) {
    const bool some = c.kin_.size() > 0;
    kinA.push_back(some ? MX(c.Kin_) : MX(MX::Identity(3, 3)));
    kinb.push_back(some ? c.kin_ : VX(W.p.c0_ + W.p.c1_.cwiseAbs() + V3::Constant(0.4)));
  }
  for (int k = 0; k < 2; ++k) {
    int rows = 3 + g.n(3);
    MX A(rows, 3);
    VX b(rows);
    for (int r = 0; r < rows; ++r) {
      A.row(r) = g.v(1.).transpose();
      b(r) = g.u(0.05, 1.5);
    }
    angA.push_back(A);
    angb.push_back(b);
  }
  std::vector<VX> ts = {W.Ts.head(1), W.Ts.head(2), VX(3)};
  ts[2] << W.Ts(0), W.Ts(1), g.dy(0.3, 0.8);
  std::vector<double> dts = {-1., W.dt, W.dt * 0.75}, maxs = {10., g.u(1., 5.), g.u(5., 20.)}, reds = {1e-3, 0., g.u(0.002, 0.03)};
  j.key("vec").pts(vec);
  j.key("kin").arr();
  for (size_t k = 0; k < kinA.size(); ++k) {
    j.obj();
    j.key("A").mat(kinA[k]);
    j.key("b").vec(kinb[k]);
    j.eobj();
  }
  j.earr();
  j.key("ang").arr();
  for (size_t k = 0; k < angA.size(); ++k) {
    j.obj();
    j.key("A").mat(angA[k]);
    j.key("b").vec(angb[k]);
    j.eobj();
  }
  j.earr();
  j.key("geo").arr();
  for (auto& c : W.p.contacts_) emitContact(ContactData(c.contactPhase_), j);
  j.earr();
  j.key("ts").pts(ts);
  auto nums = [&](const char* k, const std::vector<double>& v) {
    j.key(k).arr();
    for (double x : v) j.num(x);
    j.earr();
  };
  nums("dt", dts);
  nums("max", maxs);
  nums("red", reds);

  // ---- the variables of the program
  bp::object e[3], k[3], p[3], c[3], r[3], t;
  bp::object None;
  bp::object flags = gMod.attr("ConstraintFlag"), costs = gMod.attr("CostFunction"), reps = gMod.attr("GIWCRepresentation");
  const char* bits[12] = {"INIT_POS", "INIT_VEL", "INIT_ACC", "END_POS", "END_VEL", "END_ACC",
                          "INIT_JERK", "END_JERK", "TWO_FREE_VAR", "THREE_FREE_VAR", "FOUR_FREE_VAR", "FIVE_FREE_VAR"};
  auto V = [&](int n) { return bp::object(n == 0 ? V3(V3::Zero()) : vec[n - 1]); };
  auto geoOf = [&](int w) { return W.p.contacts_[w - 1].contactPhase_; };
  auto emitGeo = [&](const bp::object& o) {
    Equilibrium* q = bp::extract<Equilibrium*>(o);
    j.key("k").str("geo");
    j.key("geo");
    emitContact(ContactData(q), j);
  };
  j.key("steps").arr();
  std::istringstream ss(s.s("ops"));
  std::string w;
  while (std::getline(ss, w, ';')) {
    if (w.empty()) continue;
    std::vector<std::string> a;
    {
      std::istringstream aa(w);
      std::string x;
      while (std::getline(aa, x, '/')) a.push_back(x);
    }
    auto I = [&](size_t n) { return atoi(a[n].c_str()); };
    const std::string& op = a[0];
    j.obj();
    j.key("op").arr();
    for (size_t n = 0; n < a.size(); ++n) {
      bool num = !a[n].empty() && (isdigit(a[n][0]) || a[n][0] == '-');
      if (num)
        j.integer(I(n));
      else
        j.str(a[n]);
    }
    j.earr();
    j.key("out").obj();
    const std::string before = j.o;
    try {
      std::string kind = "ok";
      if (op == "newE") e[I(1)] = own(new Equilibrium(*geoOf(I(2))));
      else if (op == "modE") setContacts(*bp::extract<Equilibrium*>(e[I(1)])(), geoOf(I(2)));
      else if (op == "getE") emitGeo(e[I(1)]), kind = "";
      else if (op == "newK") k[I(1)] = gMod.attr("ContactData")(e[I(2)]);
      else if (op == "setPhase") k[I(1)].attr("contactPhase_") = e[I(2)];
      else if (op == "noPhase") k[I(1)].attr("contactPhase_") = None;
      else if (op == "getPhase") {
        bp::object q = k[I(1)].attr("contactPhase_");
        e[I(2)] = q;
        emitGeo(q);
        kind = "";
      } else if (op == "kin" || op == "ang") {
        const int n = I(2);
        k[I(1)].attr(op == "kin" ? "setKinematicConstraints" : "setAngularConstraints")(
            MatrixX3(op == "kin" ? kinA[n - 1] : angA[n - 1]), VectorX(op == "kin" ? kinb[n - 1] : angb[n - 1]));
      } else if (op == "kinBad" || op == "angBad") {
        const int n = I(2);  // one number too many, or too few
        k[I(1)].attr(op == "kinBad" ? "setKinematicConstraints" : "setAngularConstraints")(
            MatrixX3(kinA[0]), VectorX(VX::Zero(kinA[0].rows() + (n ? 1 : -1))));
      } else if (op == "getKin" || op == "getAng") {
        bp::object o = k[I(1)].attr(op == "getKin" ? "Kin_" : "Ang_");
        Js q;
        q.obj();
        emitPair(o, q);
        q.eobj();
        j.key("k").str("pair");
        j.key("v").raw(q.o);
        kind = "";
      } else if (op == "newP") p[I(1)] = gMod.attr("ProblemData")();
      else if (op == "set") p[I(1)].attr((a[2] + "_").c_str()) = V(I(3));
      else if (op == "get") {
        VX v = vecOf(p[I(1)].attr((a[2] + "_").c_str()));
        j.key("k").str("vec");
        j.key("v").vec(v);
        kind = "";
      } else if (op == "setU") p[I(1)].attr("useAngularMomentum_") = I(2) == 1;
      else if (op == "getU") {
        bool b = bp::extract<bool>(p[I(1)].attr("useAngularMomentum_"));
        j.key("k").str("bool");
        j.key("b").boolean(b);
        kind = "";
      } else if (op == "setCost")
        p[I(1)].attr("costFunction_") = costs.attr(I(2) == 1 ? "ACCELERATION" : I(2) == 2 ? "DISTANCE_TRAVELED" : I(2) == 4 ? "TARGET_END_VELOCITY" : "UNKNOWN_COST");
      else if (op == "setRep") p[I(1)].attr("GIWCrepresentation_") = reps.attr(I(2) == 1 ? "DOUBLE_DESCRIPTION" : "FORCE");
      else if (op == "getCost" || op == "getRep") {
        bp::object o = p[I(1)].attr(op == "getCost" ? "costFunction_" : "GIWCrepresentation_");
        long v = bp::extract<long>(o.attr("__int__")());
        j.key("k").str("int");
        j.key("i").integer(v);
        kind = "";
      } else if (op == "newC") c[I(1)] = gMod.attr("Constraints")();
      else if (op == "alias") c[I(1)] = p[I(2)].attr("constraints_");
      else if (op == "assign") p[I(1)].attr("constraints_") = c[I(2)];
      else if (op == "cflag") {
        bp::object v(0);
        for (int b = 0; b < 12; ++b)
          if (I(2) >> b & 1) v = v | flags.attr(bits[b]);
        c[I(1)].attr("flag_") = v;
      } else if (op == "con") c[I(1)].attr("constrainAcceleration_") = I(2) == 1;
      else if (op == "cmax") c[I(1)].attr("maxAcceleration_") = maxs[I(2)];
      else if (op == "cred") c[I(1)].attr("reduce_h_") = reds[I(2)];
      else if (op == "cget") {
        long f = bp::extract<long>(c[I(1)].attr("flag_"));
        bool on = bp::extract<bool>(c[I(1)].attr("constrainAcceleration_"));
        double m = bp::extract<double>(c[I(1)].attr("maxAcceleration_")), h = bp::extract<double>(c[I(1)].attr("reduce_h_"));
        j.key("k").str("con");
        j.key("flag").integer(f);
        j.key("on").boolean(on);
        j.key("max").num(m);
        j.key("red").num(h);
        kind = "";
      } else if (op == "add") p[I(1)].attr("addContact")(k[I(2)]);
      else if (op == "clear") p[I(1)].attr("clearContacts")();
      else if (op == "dropE") e[I(1)] = None;
      else if (op == "dropK") k[I(1)] = None;
      else if (op == "dropP") p[I(1)] = None;
      else if (op == "dropR") r[I(1)] = None;
      else if (op == "solve") {
        bp::object f = gMod.attr("computeCOMTraj"), T = bp::object(VectorX(ts[I(3) - 1]));
        bp::object q = I(5) == 0 ? f(p[I(2)], T, dts[I(4)])
                                 : f(p[I(2)], T, dts[I(4)], bp::object(gMod.attr(I(5) == 1 ? "SOLVER_QUADPROG" : "SOLVER_GLPK")));
        r[I(1)] = q;
        emitAnswer(q, j);
        kind = "";
      } else if (op == "zero") {
        bp::object f = gMod.attr("zeroStepCapturability");
        const double T = ts[I(7) - 1].sum(), dt = I(8) == 0 ? -1. : T / (3.4 * I(8));
        bp::object q = I(9) == 0 ? f(e[I(2)], V(I(3)), V(I(4)), V(I(5)), I(6) == 1, T, dt)
                                 : f(e[I(2)], V(I(3)), V(I(4)), V(I(5)), I(6) == 1, T, dt, MatrixXX(kinA[I(9) - 1]), VectorX(kinb[I(9) - 1]));
        r[I(1)] = q;
        j.key("T").num(T);
        j.key("dt").num(dt);
        emitAnswer(q, j);
        kind = "";
      } else if (op == "ee") {
        bp::object q = gMod.attr("computeEndEffector")(p[I(2)], ts[I(3) - 1].sum());
        r[I(1)] = q;
        j.key("T").num(ts[I(3) - 1].sum());
        emitAnswer(q, j);
        kind = "";
      } else if (op == "eeRows" || op == "eeVel" || op == "eeDist" || op == "eeWps") {
        const double T = ts[I(2) - 1].sum();
        j.key("T").num(T);
        if (op == "eeWps") {
          MX m = matOf(gMod.attr("computeEndEffectorConstantWaypoints")(p[I(1)], T));
          j.key("k").str("wps");
          j.key("wps").mat(m.transpose());
        } else {
          bp::object q;
          if (op == "eeRows") q = gMod.attr("computeEndEffectorConstraints")(p[I(1)], T);
          if (op == "eeVel") q = gMod.attr("computeEndEffectorVelocityCost")(p[I(1)], T);
          if (op == "eeDist") {
            static const std::vector<int> paths[] = {
                {1, 2, 3, 4, 5, 6, 7, 8, 9}, {1, 1, 2, 2, 2, 3, 4, 4, 5, 1, 1}, {4, 4, 4, 4}, {2, 7, 7}};
            const auto& path = paths[I(3) - 1];
            MX pts(3, (long)path.size());
            for (size_t n = 0; n < path.size(); ++n) pts.col(n) = vec[path[n] - 1];
            q = gMod.attr("computeEndEffectorDistanceCost")(p[I(1)], T, (int)path.size(), MatrixXX(pts));
          }
          MX A = matOf(q.attr("A"));
          VX b = vecOf(q.attr("b"));
          j.key("k").str("mat");
          j.key("A").mat(A);
          j.key("b").vec(b);
        }
        kind = "";
      } else if (op == "read") emitAnswer(r[I(1)], j), kind = "";
      else if (op == "hold") t = r[I(1)].attr("c_of_t");
      else if (op == "eval") {
        j.key("k").str("curve");
        j.key("curve");
        emitCurveObj(t, j);
        kind = "";
      } else throw std::runtime_error("unknown operation " + op);
      if (kind == "ok") j.key("k").str("ok");
    } catch (const bp::error_already_set&) {
      j.o = before;
      j.first = true;
      j.key("k").str("error");
      j.key("type").str(pyError());
    }
    j.eobj();
    j.eobj();
  }
  j.earr();
}
