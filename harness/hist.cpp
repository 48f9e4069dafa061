// Histories of calls in one process, compared with fresh processes.
#include <sys/wait.h>
#include <unistd.h>

#include "common.hh"

std::string runOne(const std::string& call) {
  Scn s = words(call, '/');
  Js j;
  j.obj();
  try {
    dispatch(s, j);
  } catch (const Skip&) {
    return "skip";
  } catch (const std::exception& e) {
    return std::string("exception ") + e.what();
  }
  return hashOf(j.o);
}
std::string forked(const std::function<std::string()>& f) {
  int fd[2];
  if (pipe(fd)) throw std::runtime_error("pipe");
  pid_t pid = fork();
  if (pid < 0) throw std::runtime_error("fork");
  if (pid == 0) {
    close(fd[0]);
    std::string r = f();
    ssize_t n = write(fd[1], r.data(), r.size());
    _exit(n == (ssize_t)r.size() ? 0 : 1);
  }
  close(fd[1]);
  std::string r;
  char b[256];
  ssize_t k;
  while ((k = read(fd[0], b, sizeof b)) > 0) r.append(b, size_t(k));
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  return WIFEXITED(st) ? r : "crash";
}
std::string fresh(const std::string& call) {
  return forked([&]() { return runOne(call); });
}
void run_hist(const Scn& s, Js& j) {
  reuseGeometries = s.s("reuse") == "yes";
  std::vector<std::string> calls;
  std::istringstream ss(s.s("calls"));
  std::string w;
  while (std::getline(ss, w, ';'))
    if (!w.empty()) calls.push_back(w);
  std::map<std::string, std::string> first;
  for (auto& c : calls)
    if (!first.count(c)) first[c] = fresh(c);
  j.key("fresh").arr();
  for (auto& f : first) {
    j.obj();
    j.key("call").str(f.first);
    j.key("answer").str(f.second);
    j.eobj();
  }
  j.earr();
  j.key("history").arr();
  for (auto& c : calls) {
    j.obj();
    j.key("call").str(c);
    j.key("answer").str(runOne(c));
    j.eobj();
  }
  j.earr();
}
