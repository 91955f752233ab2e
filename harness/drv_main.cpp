#include <malloc.h>
#include "drv.h"
#ifdef DRV_OMP
#include <omp.h>
#endif
#ifdef DRV_SIM
#include "simomp.h"
#endif
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
std::map<std::string, OpFn> &ops() { static std::map<std::string, OpFn> m; return m; }
static bool parse(const std::string &line, Case &c) {
  std::istringstream is(line); std::string t;
  if (!(is >> c.id >> c.op)) return false;
  while (is >> t) { auto e = t.find('='); if (e != std::string::npos) c.kv[t.substr(0, e)] = t.substr(e + 1); }
  return true;
}
// usage: aggdrv cases out.ndjson log [cpu seconds per case]
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  std::ifstream in(argv[1]); std::vector<Case> cs; std::string line;
  while (std::getline(in, line)) { Case c; if (parse(line, c)) cs.push_back(c); }
  int out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  int lim = argc > 4 ? atoi(argv[4]) : 10;
  size_t next = 0; int hangs = 0;
  volatile size_t *cur; { int fd[2]; (void)fd; }
  cur = (size_t *)aligned_alloc(4096, 4096);
  // shared progress counter through a pipe-free file: use a small mmap
  {
    char tmpl[] = "/tmp/aggdrvXXXXXX"; int f = mkstemp(tmpl); unlink(tmpl);
    if (ftruncate(f, 4096)) return 2;
    extern void *shared_map(int); cur = (size_t *)shared_map(f); close(f);
  }
  while (next < cs.size()) {
    *cur = next;
    pid_t p = fork();
    if (p < 0) return 2;
    if (p == 0) {
      int dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1);
      int lg = open(argv[3], O_WRONLY | O_CREAT | O_APPEND, 0644); if (lg >= 0) dup2(lg, 2);
      struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
#ifndef DRV_ASAN
      rl.rlim_cur = rl.rlim_max = 3UL << 30; setrlimit(RLIMIT_AS, &rl);
#endif
      for (size_t k = next; k < cs.size(); k++) {
        *cur = k;
        struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = lim; setitimer(ITIMER_PROF, &tv, 0);
        alarm(lim * 6);
        auto it = ops().find(cs[k].op);
#ifdef DRV_OMP
        omp_set_num_threads(cs[k].i("nt", 3));
#endif
#ifdef DRV_SIM
        sim_start(cs[k].i("sd", (int)k + 1), cs[k].i("nt", 3));
#endif
        Out o; o.str("id", cs[k].id);
        if (it == ops().end()) { o.str("st", "noop"); }
        else {
          if (cs[k].has("nt2")) { // the same call twice, with other threads and another call of the list in between
            Out a, b, x; it->second(cs[k], a);
            if (k > next && ops().count(cs[k - 1].op)) ops()[cs[k - 1].op](cs[k - 1], x);
#ifdef DRV_OMP
            omp_set_num_threads(cs[k].i("nt2"));
#endif
#ifdef DRV_SIM
            sim_start(cs[k].i("sd") + 1000003, cs[k].i("nt2"));
#endif
            mallopt(M_PERTURB, 0x3c); // fresh memory holds something else the second time
            it->second(cs[k], b);
            mallopt(M_PERTURB, 165);
            o.key("one"); o.o << "{" << a.o.str() << "}"; o.key("two"); o.o << "{" << b.o.str() << "}";
          } else it->second(cs[k], o);
#ifdef DRV_SIM
          o.vvec("acc", sim_signatures()); o.num("regions", sim_regions()); o.num("phases", sim_phases()); o.num("switches", sim_switches());
#endif
          o.str("st", "ok");
        }
        std::string s = "{" + o.o.str() + "}\n";
        if (write(out, s.data(), s.size()) != (ssize_t)s.size()) _exit(77);
        *cur = k + 1;
      }
      _exit(0);
    }
    int st; while (waitpid(p, &st, 0) < 0) {}
    size_t k = *cur;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && k >= cs.size()) break;
    if (k >= cs.size()) break;
    std::ostringstream o; o << "{\"id\":\"" << cs[k].id << "\",\"st\":\"";
    if (WIFSIGNALED(st)) { int g = WTERMSIG(st); if (g == SIGPROF || g == SIGALRM || g == SIGXCPU) { o << "hang"; hangs += g == SIGALRM ? 2 : 1; } else o << "signal " << g; }
    else o << "exit " << WEXITSTATUS(st);
    o << "\"}\n"; std::string s = o.str();
    if (write(out, s.data(), s.size()) < 0) return 2;
    next = k + 1;
    // enough is known about a code that does not end: the calls left are not made
    if (hangs >= 3) for (; next < cs.size(); next++) { std::string a = "{\"id\":\"" + cs[next].id + "\",\"absent\":true}\n"; if (write(out, a.data(), a.size()) < 0) return 2; }
  }
  return 0;
}
#include <sys/mman.h>
void *shared_map(int f) { return mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, f, 0); }
