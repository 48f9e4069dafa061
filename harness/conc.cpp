// Calls made at the same time from several threads, compared with the same calls made alone.
#include <sys/resource.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <ctime>
#include <thread>

#include "common.hh"

namespace {
struct Ev {
  long at;
  int thread, call;
  bool end;
  std::string answer;
};
}  // namespace

static void emitLog(const std::vector<std::vector<Ev>>& seen, Js& j) {
  j.key("threads").integer((long)seen.size());
  std::vector<Ev> log;
  for (auto& v : seen) log.insert(log.end(), v.begin(), v.end());
  std::sort(log.begin(), log.end(), [](const Ev& a, const Ev& b) { return a.at < b.at; });
  j.key("log").arr();
  for (auto& e : log) {
    j.obj();
    j.key("thread").integer(e.thread);
    j.key("call").integer(e.call);
    j.key("op").str(e.end ? "end" : "begin");
    j.key("answer").str(e.answer);
    j.eobj();
  }
  j.earr();
}

// The same few calls over and over, on inputs made beforehand: a "call" is a
// batch of library calls, whose answer is the one they all give.
static void duel(const Scn& s, const std::vector<std::string>& calls, Js& j) {
  const int nt = (int)s.i("threads", 2);
  std::vector<Hot> hot;
  for (auto& c : calls) {
    Scn q = words(c, '/');
    const std::string k = q.s("kind");
    hot.push_back(k == "ee" ? hotEe(q) : k == "wp" ? hotWp(q) : k == "qp" ? hotQp(q) : hotCom(q));
  }
  auto answer = [&](int c) -> std::string {
    try {
      return hot[c]();
    } catch (const std::exception& e) {
      return std::string("exception ") + e.what();
    }
  };
  j.key("calls").arr();
  double cost = 1e-6;
  for (size_t c = 0; c < calls.size(); ++c) {
    const std::string a = forked([&]() { return answer((int)c); });
    if (a == "crash") throw std::runtime_error("crash in a fresh process");
    answer((int)c);
    const clock_t from = ::clock();
    answer((int)c);
    cost = std::max(cost, double(::clock() - from) / CLOCKS_PER_SEC);
    j.obj();
    j.key("call").str(calls[c]);
    j.key("answer").str(a);
    j.eobj();
  }
  j.earr();
  struct rlimit rl = {200, 210};
  setrlimit(RLIMIT_CPU, &rl);
  alarm(120);
  // one second of each thread, in up to twenty batches
  const int n = std::max(1, std::min(4000, int(1. / cost))), batches = std::min(n, 20), each = n / batches;
  std::atomic<long> clock(0);
  std::atomic<int> ready(0);
  std::vector<std::vector<Ev>> seen(nt);
  std::vector<std::thread> ts;
  for (int t = 0; t < nt; ++t)
    ts.emplace_back([&, t]() {
      ready.fetch_add(1);
      while (ready.load() < nt) std::this_thread::yield();
      for (int r = 0; r < batches; ++r) {
        const int c = (t + r / 4) % (int)calls.size();
        seen[t].push_back(Ev{clock.fetch_add(1), t + 1, c + 1, false, ""});
        std::string a = answer(c);
        for (int k = 1; k < each; ++k) {
          std::string b = answer(c);
          if (b != a) a = "not always the same";
        }
        seen[t].push_back(Ev{clock.fetch_add(1), t + 1, c + 1, true, a});
      }
    });
  for (auto& t : ts) t.join();
  emitLog(seen, j);
}

void run_conc(const Scn& s, Js& j) {
  std::vector<std::string> calls;
  std::istringstream ss(s.s("calls"));
  std::string w;
  while (std::getline(ss, w, ';'))
    if (!w.empty() && std::find(calls.begin(), calls.end(), w) == calls.end()) calls.push_back(w);
  const int nt = (int)s.i("threads", 2);
  keepGeometries = true;
  if (s.s("kind") == "duel") return duel(s, calls, j);
  j.key("calls").arr();
  std::vector<std::string> alone;
  for (auto& c : calls) {
    alone.push_back(fresh(c));
    j.obj();
    j.key("call").str(c);
    j.key("answer").str(alone.back());
    j.eobj();
  }
  j.earr();
  for (auto& a : alone)
    if (a == "crash") throw std::runtime_error("crash in a fresh process");
  // the geometries are made before: making them is not what is asked about
  struct rlimit rl = {200, 210};
  setrlimit(RLIMIT_CPU, &rl);
  std::vector<int> quick;  // calls that do not take too long to be made many times
  double cost = 0;
  for (size_t c = 0; c < calls.size(); ++c) {
    runOne(calls[c]);
    const clock_t from = ::clock();
    runOne(calls[c]);
    const double took = double(::clock() - from) / CLOCKS_PER_SEC;
    if (took > 0.4) continue;
    quick.push_back((int)c);
    cost += took;
  }
  if (quick.empty()) throw Skip();
  const int n = (int)quick.size();
  const int rounds = std::max(1, std::min((int)s.i("rounds", 2), int(4. / (nt * cost + 1e-3))));
  const bool same = s.s("spread") == "same";  // every thread makes the same call, or each its own
  alarm(120);  // threads that wait for each other for ever
  std::atomic<long> clock(0);
  std::atomic<int> waiting(0), gate(0);
  std::vector<std::vector<Ev>> seen(nt);
  std::vector<std::thread> ts;
  for (int t = 0; t < nt; ++t)
    ts.emplace_back([&, t]() {
      for (int r = 0; r < rounds * n; ++r) {
        // all start a call together
        if (waiting.fetch_add(1) + 1 == nt) {
          waiting = 0;
          gate.fetch_add(1);
        } else
          while (gate.load() <= r) std::this_thread::yield();
        const int c = quick[same ? r % n : (r + t * (1 + r / n)) % n];
        seen[t].push_back(Ev{clock.fetch_add(1), t + 1, c + 1, false, ""});
        std::string a;
        a = runOne(calls[c]);
        seen[t].push_back(Ev{clock.fetch_add(1), t + 1, c + 1, true, a});
      }
    });
  for (auto& t : ts) t.join();
  emitLog(seen, j);
}
