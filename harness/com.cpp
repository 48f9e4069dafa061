#include <mutex>

#include "common.hh"
using namespace bezier_com_traj;
using centroidal_dynamics::Equilibrium;

static const double kHeight = 0.8;

// what each geometry was made of
struct Made {
  Eigen::Matrix<double, Eigen::Dynamic, 3, Eigen::RowMajor> P, N;
  double mu;
};
static std::map<const Equilibrium*, Made> made;
// double description is not re-entrant (it is another library): one geometry at a time
static std::recursive_mutex making;
typedef std::lock_guard<std::recursive_mutex> Making;
bool keepGeometries = false;  // make each only once
void setContacts(Equilibrium& e, const Equilibrium* like) {
  const Made& m = made.at(like);
  e.setNewContacts(m.P, m.N, m.mu, centroidal_dynamics::EQUILIBRIUM_ALGORITHM_PP);
}

static Equilibrium* makeContact_(const std::vector<Foot>& feet, double lx, double ly, double mu, double mass,
                                bool tri) {
  const int np = tri ? 3 : 4;
  Eigen::Matrix<double, Eigen::Dynamic, 3, Eigen::RowMajor> P(feet.size() * np, 3), N(feet.size() * np, 3);
  int r = 0;
  for (const Foot& f : feet) {
    V3 n = f.normal.normalized();
    V3 ax(std::cos(f.yaw), std::sin(f.yaw), 0);
    V3 ex = (ax - n * n.dot(ax)).normalized();
    V3 ey = n.cross(ex);
    const double sx[4] = {1, 1, -1, -1}, sy[4] = {1, -1, -1, 1};
    const double tx[3] = {1, -1, -1}, ty[3] = {0, -1, 1};
    for (int k = 0; k < np; ++k, ++r) {
      P.row(r) = (f.pos + (tri ? tx[k] : sx[k]) * lx * ex + (tri ? ty[k] : sy[k]) * ly * ey).transpose();
      N.row(r) = n.transpose();
    }
  }
  Equilibrium* e = new Equilibrium("c", mass, 4);
  if (!e->setNewContacts(P, N, mu, centroidal_dynamics::EQUILIBRIUM_ALGORITHM_PP)) {
    delete e;
    return nullptr;
  }
  centroidal_dynamics::MatrixXX H;
  VX h;
  if (e->getPolytopeInequalities(H, h) != centroidal_dynamics::LP_STATUS_OPTIMAL || H.rows() == 0 ||
      !H.allFinite() || H.rowwise().norm().minCoeff() < 1e-9) {
    delete e;
    return nullptr;
  }
  made[e] = Made{P, N, mu};
  return e;
}

static Equilibrium* makeContact(const std::vector<Foot>& feet, double lx, double ly, double mu, double mass, bool tri) {
  Making lock(making);
  if (!keepGeometries) return makeContact_(feet, lx, ly, mu, mass, tri);
  static std::map<std::vector<double>, Equilibrium*> kept;
  std::vector<double> key = {lx, ly, mu, mass, double(tri)};
  for (const Foot& f : feet)
    for (double x : {f.pos(0), f.pos(1), f.pos(2), f.normal(0), f.normal(1), f.normal(2), f.yaw}) key.push_back(x);
  auto k = kept.find(key);
  if (k == kept.end()) k = kept.emplace(key, makeContact_(feet, lx, ly, mu, mass, tri)).first;
  if (!k->second) return nullptr;
  Equilibrium* e = new Equilibrium(*k->second);
  const Made m = made[k->second];
  made[e] = m;
  return e;
}

// in a history, the geometries of one problem may be those of an earlier one, with other contacts
bool reuseGeometries = false;
static Equilibrium* pooled(Equilibrium* e, size_t slot) {
  static std::map<std::pair<size_t, double>, Equilibrium*> pool;
  Equilibrium*& q = pool[std::make_pair(slot, e->m_mass)];
  if (!q) q = new Equilibrium("p", e->m_mass, 4);
  const Made m = made[e];
  setContacts(*q, e);
  made[q] = m;
  return q;
}

static V3 centre(const std::vector<Foot>& f) {
  V3 c = V3::Zero();
  for (auto& x : f) c += x.pos;
  return c / double(f.size());
}

static void addRow(ContactData& c, const V3& n, double b) {
  long r = c.kin_.size();
  MX K(r + 1, 3);
  VX k(r + 1);
  if (r) {
    K.topRows(r) = c.Kin_;
    k.head(r) = c.kin_;
  }
  K.row(r) = n.transpose();
  k(r) = b;
  c.Kin_ = K;
  c.kin_ = k;
}

static void kinBox(ContactData& c, const V3& mid, const V3& half, Rng& g, bool scaled) {
  for (int a = 0; a < 3; ++a)
    for (int s = -1; s <= 1; s += 2) {
      double k = scaled ? g.u(0.3, 3.) : 1.;
      V3 n = V3::Zero();
      n(a) = s * k;
      addRow(c, n, k * (s * mid(a) + half(a)));
    }
}

void buildProblem(const Scn& s, Problem& P) {
  Rng g((uint64_t)s.i("seed", 1));
  int nph = (int)s.i("nph", 1);
  std::string geom = s.s("geom", "flat"), mot = s.s("mot", "slow"), kin = s.s("kin", "none"),
              accs = s.s("acc", "off"), red = s.s("red", "def"), cost = s.s("cost", "acc"), rep = s.s("rep", "dd");
  P.mode = s.s("mode", "fixed");
  ProblemData& p = P.p;
  // ---- geometry
  V3 off = V3::Zero();
  if (geom == "far") off = V3(g.u(-6, 6), g.u(-6, 6), g.u(-2, 2));
  double lx = g.u(0.08, 0.2), ly = g.u(0.05, 0.1), mu = g.u(0.3, 0.9), mass = g.dy(20, 90, 2);
  const std::string angc = s.s("angc", s.s("kind") == "com" && s.s("ang") == "on" ? "rows" : "off");
  const std::string massk = s.s("mass", "same"), tim = s.s("tim", "dy");
  if (massk == "light") mass = 0.5;
  if (massk == "heavy") mass = 500.;
  double gait = g.u(0.08, 0.16);
  double step = g.u(0.05, 0.35);
  double dz = geom == "stairs" ? g.u(-0.15, 0.2) : 0.;
  auto nrm = [&]() {
    return geom == "tilt" ? V3(g.u(-0.3, 0.3), g.u(-0.3, 0.3), 1.) : V3(0, 0, 1.);
  };
  auto foot = [&](double x, double y, double z) {
    Foot f;
    f.pos = off + V3(x, y, z);
    f.normal = nrm();
    f.yaw = g.u(-0.3, 0.3);
    return f;
  };
  Foot L = foot(0, gait, 0), Rt = foot(0, -gait, 0), R2 = foot(step, -gait, dz), L2 = foot(2 * step, gait, 2 * dz);
  std::vector<std::vector<Foot>> ph;
  int pat = g.n(3);
  if (nph == 1) {
    if (pat == 0) ph = {{L, Rt}};
    if (pat == 1) ph = {{L}};
    if (pat == 2) ph = {{L, R2}};
  } else if (nph == 2) {
    if (pat == 0) ph = {{L, Rt}, {L}};
    if (pat == 1) ph = {{L}, {L, R2}};
    if (pat == 2) ph = {{L, R2}, {R2}};
    if (s.s("pat") == "swap") ph = {{L}, {R2}};
  } else if (nph == 3) {
    if (pat == 0) ph = {{L, Rt}, {L}, {L, R2}};
    if (pat == 1) ph = {{L}, {L, R2}, {R2}};
    if (pat == 2) ph = {{L, Rt}, {Rt}, {Rt, L2}};
  } else {
    ph = {{L, Rt}, {L}, {L, R2}, {R2}};
    for (int k = 4; k < nph; ++k) ph.push_back(k % 2 ? std::vector<Foot>{L2} : std::vector<Foot>{R2, L2});
  }
  if (s.s("pat") == "free") {
    const Foot all[4] = {L, Rt, R2, L2};
    ph.clear();
    for (int k = 0; k < nph; ++k) {
      std::vector<Foot> v;
      int x = g.n(4), y = g.n(4);
      v.push_back(all[x]);
      if (x != y) v.push_back(all[y]);
      ph.push_back(v);
    }
  }
  bool tri = g.b(0.3);
  Rng g2((uint64_t)s.i("seed", 1) ^ 0x7ea11);  // what was added later
  if (s.s("pat") == "stay") {  // always two feet at least, not always the same ones
    ph.clear();
    for (int k = 0; k < nph; ++k) {
      const int x = g2.n(4);
      ph.push_back(x == 0 ? std::vector<Foot>{L, R2} : x == 1 ? std::vector<Foot>{L, Rt, R2} : std::vector<Foot>{L, Rt});
    }
  }
  if (geom == "wall") {  // a hand against a wall, or on a rail, in some phases
    const V3 at = off + V3(g2.u(0.1, 0.4), g2.b() ? 0.45 : -0.45, g2.u(0.9, 1.4));
    Foot hand;
    hand.pos = at;
    hand.normal = V3(g2.u(-0.3, 0.3), at(1) > 0 ? -1. : 1., g2.u(-0.2, 0.8));
    hand.yaw = g2.u(-0.3, 0.3);
    for (auto& v : ph)
      if (g2.b(0.6)) v.push_back(hand);
  }
  // ---- states
  V3 a = centre(ph.front()), b = centre(ph.back());
  double easy = s.d("easy", g.u(0.2, 1.2));  // how far from the comfortable problem
  p.c0_ = a + V3(0, 0, kHeight) + easy * V3(g.u(-lx, lx), g.u(-ly, ly), g.u(-0.1, 0.1));
  p.c1_ = b + V3(0, 0, kHeight) + easy * V3(g.u(-lx, lx), g.u(-ly, ly), g.u(-0.1, 0.1));
  if (nph == 2 || nph == 3) {
    // leave from / arrive to the side of the support that the neighbouring phase keeps
    double w = g.u(0., 1.);
    V3 m = centre(ph[nph / 2]);
    p.c0_.head<2>() += w * 0.8 * (m - a).head<2>();
    p.c1_.head<2>() += g.u(0., 1.) * 0.8 * (m - b).head<2>();
  }
  double vs = mot == "static" ? 0. : mot == "slow" ? 0.1 : mot == "fast" ? 0.4 : 1.2;
  p.dc0_ = g.v(vs);
  p.dc1_ = g.v(vs);
  p.ddc0_ = g.v(vs * 2);
  p.ddc1_ = g.v(vs * 2);
  p.j0_ = g.v(vs * 4);
  p.j1_ = g.v(vs * 4);
  p.l0_ = g.v(s.s("ang") == "on" ? 2. : 0.);
  if (s.s("l0") == "zero") p.l0_ = V3::Zero();
  p.useAngularMomentum_ = s.s("ang") == "on";
  int flag = (int)s.i("flag", 27);
  p.constraints_.flag_ = (ConstraintFlag)flag;
  if ((flag & END_VEL) && !(flag & END_POS)) p.dc1_ = V3::Zero();
  if (geom == "orig0" || geom == "orig1") {
    V3 sh = geom == "orig0" ? p.c0_ : p.c1_;
    if (geom == "orig1" && g.b()) p.dc1_ = V3::Zero();
    p.c0_ -= sh;
    p.c1_ -= sh;
    for (auto& v : ph)
      for (auto& f : v) f.pos -= sh;
  }
  // ---- contacts
  P.solver = s.s("solver") == "glpk" ? solvers::SOLVER_GLPK : solvers::SOLVER_QUADPROG;
  std::vector<Made> makings;
  for (auto& feet : ph) {
    Equilibrium* e = nullptr;
    for (int tryk = 0; tryk < 6 && !e; ++tryk) e = makeContact(feet, lx + 0.001 * tryk, ly, mu, mass, tri);
    if (massk == "mix") mass = g2.dy(20, 90, 2);
    if (!e) throw Skip();
    P.eq.emplace_back(e);
    ContactData c(e);
    std::string kk = kin;
    if (kin == "mix") kk = g.b() ? "box" : "none";
    if (kk == "box") kinBox(c, centre(feet) + V3(0, 0, kHeight), V3(g.u(0.25, 0.6), g.u(0.25, 0.6), g.u(0.1, 0.3)), g, false);
    if (kk == "tight") {
      V3 lo = p.c0_.cwiseMin(p.c1_), hi = p.c0_.cwiseMax(p.c1_);
      V3 half = (hi - lo) / 2. + V3(g.u(0., 0.06), g.u(0., 0.06), g.u(0., 0.04));
      kinBox(c, (lo + hi) / 2., half, g, true);
      for (int q = g.n(3) + (g2.b(0.1) ? 24 : 0); q > 0; --q) {
        V3 n = g.v(1.);
        double m = std::max(n.dot(p.c0_), n.dot(p.c1_));
        addRow(c, n, m + g.u(0., 0.05));
      }
    }
    if (kk == "rows")  // any number of half-spaces around the beginning
      for (int q = 1 + g.n(9); q > 0; --q) {
        V3 n = g.v(1.);
        addRow(c, n, n.dot(p.c0_) + g.u(0., g.b() ? 0.05 : 0.3));
      }
    if (kk == "vary" && !g.b(0.3)) {
      // around the part of the straight motion that falls into this phase
      const double k0 = double(p.contacts_.size()) / nph, k1 = double(p.contacts_.size() + 1) / nph;
      const V3 a0 = p.c0_ + k0 * (p.c1_ - p.c0_), a1 = p.c0_ + k1 * (p.c1_ - p.c0_);
      V3 lo = a0.cwiseMin(a1), hi = a0.cwiseMax(a1);
      const double room = g.b() ? 0.05 : 0.2;
      V3 half = (hi - lo) / 2. + V3(g.u(0., room), g.u(0., room), g.u(0., room));
      if (g.b(0.7)) kinBox(c, (lo + hi) / 2., half, g, true);
      for (int q = g.n(4); q > 0; --q) {
        V3 n = g.v(1.);
        addRow(c, n, std::max(n.dot(a0), n.dot(a1)) + g.u(0., room));
      }
    }
    if (angc == "rows") {
      int rows = 1 + g.n(9);
      MX A(rows, 3);
      VX bb(rows);
      for (int r = 0; r < rows; ++r) {
        A.row(r) = g.v(1.).transpose();
        bb(r) = g.u(0.01, g.b() ? 0.2 : 1.);
      }
      c.Ang_ = A;
      c.ang_ = bb;
    }
    if (angc == "on") {
      int rows = 6;
      MX A(rows, 3);
      VX bb(rows);
      for (int r = 0; r < 3; ++r) {
        A.row(2 * r) = V3::Unit(r).transpose();
        A.row(2 * r + 1) = -V3::Unit(r).transpose();
        bb(2 * r) = g.u(0.02, 1.5);
        bb(2 * r + 1) = g.u(0.02, 1.5);
      }
      c.Ang_ = A;
      c.ang_ = bb;
    }
    p.contacts_.push_back(c);
    Making lock(making);
    makings.push_back(made[c.contactPhase_]);
  }
  {
    Making lock(making);
    for (size_t k = 0; k < makings.size(); ++k) made[p.contacts_[k].contactPhase_] = makings[k];
  }
  if (reuseGeometries)
    for (size_t k = 0; k < makings.size(); ++k) p.contacts_[k].contactPhase_ = pooled(p.contacts_[k].contactPhase_, k);
  // ---- timing
  double tlo = mot == "static" ? 0.5 : 0.2, thi = mot == "wild" ? 0.6 : 1.5;
  P.Ts = VX(nph);
  if (s.has("dur")) {
    tlo = s.d("dur") * 0.7;
    thi = s.d("dur") * 1.3;
  }
  for (int k = 0; k < nph; ++k) P.Ts(k) = std::max(1. / 8., g.dy(tlo, thi));
  for (int k = 0; k < nph; ++k) {
    if (tim == "long") P.Ts(k) = g2.dy(1.5, 6.);
    if (tim == "short") P.Ts(k) = std::max(1. / 16., g2.dy(0.06, 0.3));
    if (tim == "uneven") P.Ts(k) = k == int(s.i("seed", 1)) % nph ? g2.dy(1., 2.) : 1. / 8.;
    if (tim == "any") P.Ts(k) = g2.u(tlo, thi);
    if (tim == "dec") P.Ts(k) = (1 + g2.n(15)) / 10.;
  }
  const bool fine = s.s("dens") == "fine";
  if (P.mode == "disc") {
    double mn = P.Ts.minCoeff();
    if (s.s("dtk") == "frac") {
      for (int tr = 0; tr < 200; ++tr) {
        P.dt = fine ? g.u(mn / 30., mn / 9.) : g.u(mn / (tim == "uneven" ? 4. : 9.), mn / 2.2);
        bool ok = true;
        for (int k = 0; k < nph; ++k) {
          double r = P.Ts(k) / P.dt;
          ok = ok && (r - std::floor(r) > 0.05) && (r - std::floor(r) < 0.95);
        }
        if (ok) break;
      }
    } else {
      P.dt = 1. / 64.;
      while (P.dt * (fine && tim != "uneven" ? 16 : 5) <= mn) P.dt *= 2;
    }
  }
  if (P.mode == "cont") P.dt = g2.b(0.8) ? -1. : g2.b() ? 0. : -0.25;  // not positive: no time step
  if (P.mode == "fixed") P.ppp = s.has("ppp") ? (int)s.i("ppp") : fine ? 9 + g.n(20) : 1 + g.n(8);
  // ---- options
  p.constraints_.constraintAcceleration_ = accs != "off";
  p.constraints_.maxAcceleration_ = accs == "tight" ? g.u(0.6, 4.) : accs == "loose" ? g.u(6., 15.) : g.u(2., 10.);
  if (P.mode == "cont" && accs == "off") p.constraints_.maxAcceleration_ = g.u(8., 40.);
  p.constraints_.reduce_h_ = red == "0" ? 0. : red == "big" ? g.u(0.005, 0.08) : red == "neg" ? -0.01 : 1e-3;
  p.costFunction_ = cost == "dist" ? DISTANCE_TRAVELED : cost == "vel" ? TARGET_END_VELOCITY : ACCELERATION;
  p.representation_ = rep == "force" ? FORCE : DOUBLE_DESCRIPTION;
}

void emitBc(const ProblemData& p, Js& j) {
  j.key("bc").obj();
  j.key("c0").vec(p.c0_);
  j.key("dc0").vec(p.dc0_);
  j.key("ddc0").vec(p.ddc0_);
  j.key("j0").vec(p.j0_);
  j.key("c1").vec(p.c1_);
  j.key("dc1").vec(p.dc1_);
  j.key("ddc1").vec(p.ddc1_);
  j.key("j1").vec(p.j1_);
  j.eobj();
}

void emitContact(const ContactData& c, Js& j) {
  centroidal_dynamics::MatrixXX H;
  VX h;
  c.contactPhase_->getPolytopeInequalities(H, h);
  MX U = H;
  U.rowwise().normalize();
  j.obj();
  j.key("H").mat(U);
  j.key("hz").boolean(h.isZero(0.));
  j.key("mass").num(c.contactPhase_->m_mass);
  j.key("g").vec(c.contactPhase_->m_gravity);
  j.key("Kin").arr();
  for (long r = 0; r < c.kin_.size(); ++r) j.vec(c.Kin_.row(r));
  j.earr();
  j.key("kin").vec(c.kin_);
  j.key("Ang").arr();
  for (long r = 0; r < c.ang_.size(); ++r) j.vec(c.Ang_.row(r));
  j.earr();
  j.key("ang").vec(c.ang_);
  j.eobj();
}

void emitProblem(const Problem& P, Js& j) {
  const ProblemData& p = P.p;
  j.key("p").obj();
  j.key("flag").integer((long)p.constraints_.flag_);
  emitBc(p, j);
  j.key("l0").vec(p.l0_);
  j.key("Ts").vec(P.Ts);
  j.key("mode").str(P.mode);
  j.key("dt").num(P.dt);
  j.key("ppp").integer(P.ppp);
  j.key("rep").str(p.representation_ == FORCE ? "force" : "dd");
  j.key("solver").str(P.solver == solvers::SOLVER_GLPK && P.mode != "fixed" ? "glpk" : "qp");
  j.key("cost").str(p.costFunction_ == ACCELERATION        ? "acc"
                    : p.costFunction_ == DISTANCE_TRAVELED ? "dist"
                                                           : "vel");
  j.key("accOn").boolean(p.constraints_.constraintAcceleration_);
  j.key("accMax").num(p.constraints_.maxAcceleration_);
  j.key("reduce").num(p.constraints_.reduce_h_);
  j.key("useAng").boolean(p.useAngularMomentum_);
  j.key("contacts").arr();
  for (auto& c : p.contacts_) emitContact(c, j);
  j.earr();
  j.eobj();
}

template <class B>
static void emitCurve(const B& c, Js& j) {
  j.obj();
  j.key("wps").pts(c.waypoints());
  j.key("tmin").num(c.min());
  j.key("tmax").num(c.max());
  j.key("mult").num(c.mult_T_);
  // what the curve object answers when it is used
  j.key("evals").arr();
  if (c.waypoints().size() > 1) {
    const double T = c.max();
    const double us[4] = {0., 0.3, 0.71, 1.};
    for (double u : us) {
      j.obj();
      double t = u == 1. ? T : u * T;
      j.key("t").num(t);
      j.key("c").vec(VX(c(t)));
      j.key("dc").vec(VX(c.derivate(t, 1)));
      j.key("ddc").vec(VX(c.derivate(t, 2)));
      j.eobj();
    }
  }
  j.earr();
  j.eobj();
}

void emitResult(const ResultDataCOMTraj& r, Js& j) {
  j.key("success").boolean(r.success_);
  j.key("cost").num(r.cost_);
  j.key("x").vec(r.x);
  j.key("dc1").vec(r.dc1_);
  j.key("ddc1").vec(r.ddc1_);
  j.key("curve");
  emitCurve(r.c_of_t_, j);
  j.key("dL");
  emitCurve(r.dL_of_t_, j);
}

static void digestV(std::string& o, const MX& m) {
  char b[64];
  snprintf(b, sizeof b, "%ldx%ld:", (long)m.rows(), (long)m.cols());
  o += b;
  for (long k = 0; k < m.size(); ++k) {
    snprintf(b, sizeof b, "%a,", m.data()[k]);
    o += b;
  }
}
static std::string digestP(const ProblemData& p) {
  std::string o;
  for (auto* v : {&p.c0_, &p.dc0_, &p.ddc0_, &p.j0_, &p.c1_, &p.dc1_, &p.ddc1_, &p.j1_, &p.l0_}) digestV(o, MX(*v));
  char b[200];
  snprintf(b, sizeof b, "%d %d %a %a %d %d %d", (int)p.constraints_.flag_, (int)p.constraints_.constraintAcceleration_,
           p.constraints_.maxAcceleration_, p.constraints_.reduce_h_, (int)p.useAngularMomentum_, (int)p.costFunction_,
           (int)p.representation_);
  o += b;
  for (auto& c : p.contacts_) {
    digestV(o, MX(c.Kin_));
    digestV(o, MX(c.kin_));
    digestV(o, MX(c.Ang_));
    digestV(o, MX(c.ang_));
    digestV(o, MX(c.contactPhase_->m_G_centr));
    centroidal_dynamics::MatrixXX H;
    VX h;
    c.contactPhase_->getPolytopeInequalities(H, h);
    digestV(o, MX(H));
    digestV(o, MX(h));
  }
  return o;
}
static std::string digestR(const ResultDataCOMTraj& r) {
  std::string o = r.success_ ? "S" : "F";
  MX c(1, 1);
  c(0, 0) = r.cost_;
  digestV(o, c);
  digestV(o, MX(r.x));
  digestV(o, MX(r.dc1_));
  digestV(o, MX(r.ddc1_));
  for (auto& w : r.c_of_t_.waypoints()) digestV(o, MX(w));
  for (auto& w : r.dL_of_t_.waypoints()) digestV(o, MX(w));
  return o;
}

static ResultDataCOMTraj callCom(const Problem& P) {
  if (P.mode == "fixed") return computeCOMTrajFixedSize(P.p, P.Ts, (unsigned)P.ppp);
  return computeCOMTraj(P.p, P.Ts, P.dt, P.solver);
}

// Brings a problem to the border of what the planner accepts: the strength of
// one requirement (edge=...) is bisected until the answer flips between two
// values next to each other; side says which of the two is kept.
struct Edge {
  Problem& P;
  std::string what;
  V3 dir;
  V3 c1, dc0, dc1;
  double acc, red;
  bool accOn;
  std::vector<VX> kin, ang;
  Edge(Problem& P, const std::string& w, Rng& g) : P(P), what(w) {
    dir = g.v(1.).normalized();
    c1 = P.p.c1_;
    dc0 = P.p.dc0_;
    dc1 = P.p.dc1_;
    acc = P.p.constraints_.maxAcceleration_;
    accOn = P.p.constraints_.constraintAcceleration_;
    red = P.p.constraints_.reduce_h_;
    for (auto& c : P.p.contacts_) {
      kin.push_back(c.kin_);
      ang.push_back(c.ang_);
    }
  }
  void set(double v) {  // 0: as it was; larger: harder
    if (what == "red") P.p.constraints_.reduce_h_ = std::max(0., red) + v;
    if (what == "acc") {
      P.p.constraints_.constraintAcceleration_ = true;
      P.p.constraints_.maxAcceleration_ = 40. / (1. + 10. * v);
    }
    if (what == "kin")
      for (size_t k = 0; k < kin.size(); ++k) P.p.contacts_[k].kin_ = kin[k] - VX::Constant(kin[k].size(), v);
    if (what == "ang")
      for (size_t k = 0; k < ang.size(); ++k) P.p.contacts_[k].ang_ = ang[k] - VX::Constant(ang[k].size(), v);
    if (what == "goal") P.p.c1_ = c1 + v * dir;
    if (what == "push") P.p.dc0_ = dc0 + v * dir;
    if (what == "land" && ((int)P.p.constraints_.flag_ & END_POS)) P.p.dc1_ = dc1 + v * dir;
  }
  void clear() {
    set(0.);
    if (what == "acc") {
      P.p.constraints_.constraintAcceleration_ = accOn;
      P.p.constraints_.maxAcceleration_ = acc;
    }
    if (what == "red") P.p.constraints_.reduce_h_ = red;
  }
  template <class F>
  void find(bool out, int n, F solved) {
    auto ok = [&](double v) {
      set(v);
      try {
        return bool(solved());
      } catch (const std::exception&) {
        return false;
      }
    };
    double lo = 0., hi = 0.05;
    if (!ok(0.)) return clear();
    while (ok(hi)) {
      lo = hi;
      hi *= 2.5;
      if (hi > 30.) return clear();
    }
    for (int k = 0; k < n; ++k) {
      double m = (lo + hi) / 2;
      (ok(m) ? lo : hi) = m;
    }
    // rounded to few bits, so that the exact arithmetic of the judge stays short
    const double q = std::ldexp(1., std::ilogb(hi) - 18);
    set(out ? std::ceil(hi / q) * q : std::floor(lo / q) * q);
  }
};

void run_com(const Scn& s, Js& j) {
  Problem P;
  buildProblem(s, P);
  if (s.has("edge") && s.s("edge") != "none") {
    Rng g((uint64_t)s.i("seed", 1) ^ 0xe49e);
    Edge e(P, s.s("edge"), g);
    const bool force = P.p.representation_ == FORCE;
    e.find(s.s("side") == "out", force ? 9 : 22, [&]() { return callCom(P).success_; });
  }
  emitProblem(P, j);
  std::string d0 = digestP(P.p), ts0;
  digestV(ts0, MX(P.Ts));
  j.key("r").obj();
  try {
    ResultDataCOMTraj r = callCom(P);
    j.key("outcome").str("ok");
    emitResult(r, j);
    std::string ts1;
    digestV(ts1, MX(P.Ts));
    j.key("pure").boolean(digestP(P.p) == d0 && ts0 == ts1);
    ResultDataCOMTraj r2 = callCom(P);
    j.key("repeat").boolean(digestR(r) == digestR(r2));
  } catch (const std::exception& e) {
    j.key("outcome").str("throw");
    j.key("what").str(e.what());
    j.key("pure").boolean(digestP(P.p) == d0);
    j.key("repeat").boolean(true);
  }
  j.eobj();
}

void run_zero(const Scn& s, Js& j) {
  Problem P;
  buildProblem(s, P);
  Rng g((uint64_t)s.i("seed", 1) ^ 0x5a5a5a);
  std::vector<double> Ts(1, P.Ts(0));
  double dt = P.mode == "cont" ? P.dt : -1.;
  if (P.mode == "disc") {
    int n = 1 + g.n(12);
    if (s.i("seed", 1) % 8 == 3) n += 20;
    dt = Ts[0] / (n + g.u(0.05, 0.95));
    if (g.b(0.15)) dt = Ts[0] * g.u(1.1, 2.);  // longer than the motion: falls back to the continuous form
  }
  P.dt = dt;
  if (s.has("edge") && s.s("edge") != "none") {
    Edge e(P, s.s("edge"), g);
    e.find(s.s("side") == "out", 22, [&]() { return solve0step(P.p, Ts, dt).success_; });
  }
  emitProblem(P, j);
  std::string d0 = digestP(P.p);
  j.key("r").obj();
  try {
    ResultDataCOMTraj r = solve0step(P.p, Ts, dt);
    j.key("outcome").str("ok");
    emitResult(r, j);
    j.key("pure").boolean(digestP(P.p) == d0);
    ResultDataCOMTraj r2 = solve0step(P.p, Ts, dt);
    j.key("repeat").boolean(digestR(r) == digestR(r2));
  } catch (const std::exception& e) {
    j.key("outcome").str("throw");
    j.key("what").str(e.what());
    j.key("pure").boolean(digestP(P.p) == d0);
    j.key("repeat").boolean(true);
  }
  j.eobj();
}

static std::string hashR(const ResultDataCOMTraj& r) {
  Hash h;
  h.add(r.success_);
  h.add(r.cost_);
  h.mat(r.x);
  h.mat(r.dc1_);
  h.mat(r.ddc1_);
  for (auto& w : r.c_of_t_.waypoints()) h.mat(w);
  for (auto& w : r.dL_of_t_.waypoints()) h.mat(w);
  return h.str();
}
Hot hotCom(const Scn& s) {
  auto P = std::make_shared<Problem>();
  buildProblem(s, *P);
  if (s.s("kind") == "zero") {
    std::vector<double> Ts(1, P->Ts(0));
    const double dt = P->dt;
    return [P, Ts, dt]() { return hashR(solve0step(P->p, Ts, dt)); };
  }
  return [P]() { return hashR(callCom(*P)); };
}

// the inequalities made for a list of wrenches
static waypoint6_t anyWrench(Rng& g, const std::string& mag) {
  waypoint6_t w = initwp<waypoint6_t>();
  const double k = mag == "big" ? 300. : mag == "small" ? 1e-3 : 3.;
  for (int q = 0; q < 18; ++q) w.first.data()[q] = mag == "grid" ? double(g.n(5) - 2) : g.u(-k, k);
  for (int q = 0; q < 6; ++q) w.second(q) = mag == "grid" ? double(g.n(5) - 2) : g.u(-k, k);
  if (mag == "grid" && g.b(0.2)) w.first.setZero();
  return w;
}
static void emitWrenches(const std::vector<waypoint6_t>& ws, Js& j) {
  j.arr();
  for (auto& w : ws) {
    j.obj();
    j.key("A").mat(w.first).key("b").vec(w.second);
    j.eobj();
  }
  j.earr();
}
void run_sys(const Scn& s, Js& j) {
  Problem P;
  buildProblem(s, P);
  Rng g((uint64_t)s.i("seed", 1) ^ 0x717171);
  const int n = (int)s.i("wps", 3);
  const bool ang = s.s("ang") == "on";
  std::vector<waypoint6_t> W, L;
  for (int k = 0; k < n; ++k) W.push_back(anyWrench(g, s.s("mag"))), L.push_back(anyWrench(g, s.s("mag")));
  const ContactData& c = P.p.contacts_[0];
  bool fail = true;
  std::pair<MatrixXX, VectorX> Ab = compute6dControlPointInequalities(c, W, L, ang, fail);
  j.key("ang").boolean(ang).key("fail").boolean(fail);
  j.key("contact");
  emitContact(c, j);
  j.key("W");
  emitWrenches(W, j);
  j.key("L");
  emitWrenches(L, j);
  j.key("cols").integer(Ab.first.cols());
  j.key("A").mat(Ab.first).key("b").vec(Ab.second);
}
