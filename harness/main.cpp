// driver SCENARIOS OUT: one forked child per scenario, so that a crash of the
// code under test is an observation ("outcome":"crash") and not the end.
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>

#include <fstream>
#include <iostream>

#include "common.hh"

void dispatch(const Scn& s, Js& j) {
  const std::string k = s.s("kind");
  typedef void (*Fn)(const Scn&, Js&);
  // only the drivers that the check at hand needs are linked
  static const std::map<std::string, Fn> fns = {
      {"com", run_com},   {"zero", run_zero}, {"sys", run_sys}, {"ee", run_ee},     {"wp", run_wp},     {"time", run_time},
      {"qp", run_qp},     {"qpx", run_qp},    {"absx", run_abs},     {"abs", run_abs},   {"pre", run_pre},   {"expr", run_expr},   {"errf", run_errf}, {"erro", run_erro},
      {"erra", run_erra}, {"hist", run_hist}, {"conc", run_conc}, {"duel", run_conc}, {"py", run_py}};
  auto it = fns.find(k);
  if (it == fns.end() || !it->second) _exit(6);
  it->second(s, j);
}

int main(int argc, char** argv) {
  if (argc < 3) return 2;
  std::ifstream in(argv[1]);
  FILE* out = fopen(argv[2], "w");
  if (!in || !out) return 2;
  std::string line;
  int hung = 0;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    Scn s;
    s.line = line;
    std::istringstream ss(line);
    std::string w;
    while (ss >> w) {
      size_t e = w.find('=');
      if (e != std::string::npos) s.kv[w.substr(0, e)] = w.substr(e + 1);
    }
    if (s.s("kind") == "py" && warm_py) warm_py();
    int fd[2];
    if (pipe(fd)) return 2;
    fflush(out);
    pid_t pid = fork();
    if (pid < 0) return 2;
    if (pid == 0) {
      close(fd[0]);
      struct rlimit rl = {45, 50};
      setrlimit(RLIMIT_CPU, &rl);
      struct rlimit as = {4ul << 30, 4ul << 30};
      setrlimit(RLIMIT_AS, &as);
      struct rlimit rc = {0, 0};
      setrlimit(RLIMIT_CORE, &rc);
      freopen("/dev/null", "w", stdout);
      freopen("/dev/null", "w", stderr);
      Js j;
      int rc2 = 0;
      try {
        j.obj();
        j.key("ev").str(s.s("kind"));
        j.key("id").str(s.s("id"));
        dispatch(s, j);
        j.eobj();
        j.o += "\n";
      } catch (const Skip& e) {
        _exit(5);  // no scenario to run
      } catch (const std::exception& e) {
        // an exception where the driver expects none
        Js t;
        t.obj();
        t.key("ev").str("crash").key("id").str(s.s("id")).key("kind").str(s.s("kind")).key("what").str(e.what());
        t.eobj();
        j.o = t.o + "\n";
      }
      const char* p = j.o.data();
      size_t n = j.o.size();
      while (n) {
        ssize_t k = write(fd[1], p, n);
        if (k <= 0) _exit(4);
        p += k;
        n -= size_t(k);
      }
      _exit(rc2);
    }
    close(fd[1]);
    std::string got;
    char buf[65536];
    ssize_t k;
    while ((k = read(fd[0], buf, sizeof buf)) > 0) got.append(buf, size_t(k));
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      fputs(got.c_str(), out);
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 5) {
      continue;
    } else if (WIFSIGNALED(st)) {
      if (WTERMSIG(st) == SIGKILL) {  // not the code's doing: out of memory
        fprintf(stderr, "killed on: %s\n", line.c_str());
        return 3;
      }
      fprintf(out, "{\"ev\":\"crash\",\"id\":\"%s\",\"kind\":\"%s\",\"signal\":%d}\n", s.s("id").c_str(),
              s.s("kind").c_str(), WTERMSIG(st));
      if (WTERMSIG(st) == SIGXCPU && ++hung >= 2) break;  // enough
    } else {
      fprintf(stderr, "driver failed on: %s\n%s\n", line.c_str(), got.substr(0, 300).c_str());
      return 3;
    }
  }
  fclose(out);
  return 0;
}
