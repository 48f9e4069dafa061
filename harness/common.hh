// Conformance driver for hpp-bezier-com-traj: shared helpers.
// Every driver takes a scenario (key=value words chosen by the TLA+ model),
// fills in the numbers from the scenario's seed, calls the public API of the
// library built from /repo and writes one event (a JSON line) with everything
// that went in and everything that came out.
#pragma once
#include <functional>
#include <Eigen/Dense>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <hpp/bezier-com-traj/common_solve_methods.hh>
#include <hpp/bezier-com-traj/data.hh>
#include <hpp/bezier-com-traj/solve.hh>
#include <hpp/bezier-com-traj/utils.hh>
#include <hpp/bezier-com-traj/waypoints/waypoints_definition.hh>
#include <hpp/centroidal-dynamics/centroidal_dynamics.hh>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

typedef Eigen::Vector3d V3;
typedef Eigen::VectorXd VX;
typedef Eigen::MatrixXd MX;

struct Scn {
  std::map<std::string, std::string> kv;
  std::string line;
  bool has(const std::string& k) const { return kv.count(k) > 0; }
  std::string s(const std::string& k, const std::string& d = "") const {
    auto it = kv.find(k);
    return it == kv.end() ? d : it->second;
  }
  long i(const std::string& k, long d = 0) const {
    auto it = kv.find(k);
    return it == kv.end() ? d : atol(it->second.c_str());
  }
  double d(const std::string& k, double df = 0) const {
    auto it = kv.find(k);
    return it == kv.end() ? df : strtod(it->second.c_str(), nullptr);
  }
};

struct Rng {
  uint64_t st;
  explicit Rng(uint64_t seed) : st(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {
    for (int k = 0; k < 4; ++k) next();
  }
  uint64_t next() {  // splitmix64
    uint64_t z = (st += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double u() { return double(next() >> 11) / 9007199254740992.0; }
  double u(double a, double b) { return a + (b - a) * u(); }
  int n(int k) { return int(next() % uint64_t(k)); }
  bool b(double p = 0.5) { return u() < p; }
  // a dyadic number in [a,b]: sums and multiples stay exact
  double dy(double a, double b, int bits = 6) {
    double s = double(1 << bits);
    return std::floor(u(a, b) * s + 0.5) / s;
  }
  V3 v(double r) { return V3(u(-r, r), u(-r, r), u(-r, r)); }
};

// ---- JSON --------------------------------------------------------------
struct Js {
  std::string o;
  bool first = true;
  std::vector<bool> st;
  void sep() {
    if (!first) o += ',';
    first = false;
  }
  Js& key(const char* k) {
    sep();
    o += '"';
    o += k;
    o += "\":";
    first = true;
    return *this;
  }
  Js& open(char c) {
    sep();
    o += c;
    first = true;
    return *this;
  }
  Js& close(char c) {
    o += c;
    first = false;
    return *this;
  }
  Js& obj() { return open('{'); }
  Js& eobj() { return close('}'); }
  Js& arr() { return open('['); }
  Js& earr() { return close(']'); }
  Js& raw(const std::string& s) {
    sep();
    o += s;
    return *this;
  }
  Js& str(const std::string& s) {
    std::string e;
    for (char c : s) {
      if (c == '"' || c == '\\') e += '\\';
      if ((unsigned char)c < 32) c = ' ';
      e += c;
    }
    return raw("\"" + e + "\"");
  }
  Js& num(double x) {
    char b[40];
    snprintf(b, sizeof b, "\"%.17g\"", x);
    return raw(b);
  }
  Js& integer(long x) { return raw(std::to_string(x)); }
  Js& boolean(bool x) { return raw(x ? "true" : "false"); }
  template <class D>
  Js& vec(const Eigen::MatrixBase<D>& v) {
    arr();
    for (long k = 0; k < v.size(); ++k) num(v(k));
    return earr();
  }
  template <class D>
  Js& mat(const Eigen::MatrixBase<D>& m) {
    arr();
    for (long r = 0; r < m.rows(); ++r) {
      arr();
      for (long c = 0; c < m.cols(); ++c) num(m(r, c));
      earr();
    }
    return earr();
  }
  template <class Cont>
  Js& pts(const Cont& c) {
    arr();
    for (auto& p : c) vec(p);
    return earr();
  }
};

inline std::string hashOf(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  char b[24];
  snprintf(b, sizeof b, "%016llx", (unsigned long long)h);
  return b;
}

inline Scn words(const std::string& line, char sep) {
  Scn s;
  s.line = line;
  std::istringstream ss(line);
  std::string w;
  while (std::getline(ss, w, sep)) {
    size_t e = w.find('=');
    if (e != std::string::npos) s.kv[w.substr(0, e)] = w.substr(e + 1);
  }
  return s;
}

struct Skip {};  // no scenario to run
__attribute__((weak)) void run_com(const Scn&, Js&);
__attribute__((weak)) void run_zero(const Scn&, Js&);
__attribute__((weak)) void run_sys(const Scn&, Js&);
__attribute__((weak)) void run_ee(const Scn&, Js&);
__attribute__((weak)) void run_wp(const Scn&, Js&);
__attribute__((weak)) void run_time(const Scn&, Js&);
__attribute__((weak)) void run_qp(const Scn&, Js&);
__attribute__((weak)) void run_abs(const Scn&, Js&);
__attribute__((weak)) void run_pre(const Scn&, Js&);
__attribute__((weak)) void run_errf(const Scn&, Js&);
__attribute__((weak)) void run_erro(const Scn&, Js&);
__attribute__((weak)) void run_erra(const Scn&, Js&);
void dispatch(const Scn&, Js&);
void eeCall(const bezier_com_traj::ProblemData& p, double T);  // end effector, straight path
__attribute__((weak)) void run_py(const Scn&, Js&);
__attribute__((weak)) void warm_py();
__attribute__((weak)) void run_hist(const Scn&, Js&);
__attribute__((weak)) void run_conc(const Scn&, Js&);
__attribute__((weak)) void run_expr(const Scn&, Js&);
// one library call on inputs made beforehand and never changed; what it answers, hashed
typedef std::function<std::string()> Hot;
Hot hotCom(const Scn&);
Hot hotEe(const Scn&);
Hot hotWp(const Scn&);
Hot hotQp(const Scn&);
struct Hash {
  uint64_t h = 1469598103934665603ull;
  void add(const double* p, long n) {
    add(double(n));
    for (long i = 0; i < n; ++i) add(p[i]);
  }
  void add(double x) {
    uint64_t b;
    memcpy(&b, &x, sizeof b);
    h = (h ^ b) * 1099511628211ull;
    h ^= h >> 29;
  }
  template <class M>
  void mat(const M& m) {
    const MX c = m;
    add(double(c.rows()));
    add(c.data(), c.size());
  }
  std::string str() const {
    char b[24];
    snprintf(b, sizeof b, "%016llx", (unsigned long long)h);
    return b;
  }
};
std::string runOne(const std::string& call);  // its answer, hashed
std::string forked(const std::function<std::string()>& f);  // what f answers in another process
std::string fresh(const std::string& call);   // and that of another process

// ---- problems ----------------------------------------------------------
struct Foot {
  V3 pos;
  V3 normal;
  double yaw;
};
struct Problem {
  bezier_com_traj::ProblemData p;
  std::vector<std::unique_ptr<centroidal_dynamics::Equilibrium>> eq;
  VX Ts;
  double dt = -1;
  int ppp = 0;
  std::string mode;
  solvers::SolverType solver = solvers::SOLVER_QUADPROG;
};
extern bool reuseGeometries, keepGeometries;
void buildProblem(const Scn& s, Problem& P);
void emitProblem(const Problem& P, Js& j);
void setContacts(centroidal_dynamics::Equilibrium& e, const centroidal_dynamics::Equilibrium* like);  // the contacts of another
void emitContact(const bezier_com_traj::ContactData& c, Js& j);
void emitResult(const bezier_com_traj::ResultDataCOMTraj& r, Js& j);
void emitBc(const bezier_com_traj::ProblemData& p, Js& j);
