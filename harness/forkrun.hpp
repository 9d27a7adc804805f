// Runs every scenario of an ndjson file in a process of its own; a process that dies or hangs leaves a Crash event.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <vector>
#include "vjson.hpp"

struct Emitter {
  int fd = -1;
  void operator()(const json & ev) {std::string s = ev.dump() + "\n"; size_t o = 0; while (o < s.size()) {ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) _exit(97); o += k;}}
};
// body(scenario, emit)
inline int ForkRun(const char * in, const char * out, const char * dir, int limit_s, const std::function<void(const json &, Emitter &)> & body)
{
  std::vector<json> sc; { std::ifstream f(in); std::string l; while (std::getline(f, l)) if (!l.empty()) sc.push_back(json::parse(l)); }
  int workers = 8; if (const char * w = getenv("VF_WORKERS")) workers = atoi(w);
  std::map<pid_t, size_t> run; std::vector<int> status(sc.size(), 0); size_t next = 0;
  auto file = [&](size_t i) {return std::string(dir) + "/ev" + std::to_string(i);};
  while (next < sc.size() || !run.empty()) {
    while (next < sc.size() && int(run.size()) < workers) {
      size_t i = next++;
      pid_t p = fork();
      if (p == 0) {
        Emitter e; e.fd = open(file(i).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); if (!getenv("VF_STDERR")) dup2(nul, 2);
        struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        struct rlimit as{4ull << 30, 4ull << 30}; setrlimit(RLIMIT_AS, &as);
        signal(SIGALRM, SIG_DFL); alarm(limit_s);
        std::string wd = std::string(dir) + "/wd" + std::to_string(i); mkdir(wd.c_str(), 0755); if (chdir(wd.c_str())) _exit(96);
        try {body(sc[i], e);} catch (const std::exception & x) {e({{"ev", "Crash"}, {"why", std::string("exception: ") + x.what()}}); _exit(0);}
        _exit(0);
      }
      run[p] = i;
    }
    int st; pid_t p = wait(&st); if (p > 0 && run.count(p)) {status[run[p]] = st; run.erase(p);}
  }
  std::ofstream o(out);
  for (size_t i = 0; i < sc.size(); i++) {
    json r; r["id"] = sc[i].value("id", std::to_string(i)); r["params"] = sc[i].value("params", json::object());
    json evs = json::array(); std::ifstream f(file(i)); std::string l;
    while (std::getline(f, l)) {try {evs.push_back(json::parse(l));} catch (...) {}}
    if (status[i] != 0) {
      std::string why = WIFSIGNALED(status[i]) ? (WTERMSIG(status[i]) == SIGALRM ? "hang" : "signal " + std::to_string(WTERMSIG(status[i]))) : "exit " + std::to_string(WEXITSTATUS(status[i]));
      if (WIFEXITED(status[i]) && WEXITSTATUS(status[i]) >= 96) {std::cerr << "harness failure " << why << "\n"; return 2;}
      evs.push_back({{"ev", "Crash"}, {"why", why}});
    }
    r["events"] = evs; o << r.dump() << "\n"; unlink(file(i).c_str());
  }
  return 0;
}
