// Exhaustive-enumeration framework: every harness defines `void enumerate(fw::Emit&)`, which emits
// every case of its bounded space, in a fixed order. The framework counts them, forks one process per
// chunk (fresh library globals, crash/hang isolation), runs every case, and merges what they report.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <iostream>
#include <csignal>
#include <sys/wait.h>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>

#ifdef FW_PAR   // parallel loops checked by par_rt.cpp, run in reverse order
extern "C" { void par_reverse(int r); const char* par_race(); void par_counts(long* l, long* i, long* a); }
#endif
namespace fw {
using u64 = uint64_t;
inline u64 hmix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
inline u64 hstr(const std::string& s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

struct Stats {
  u64 cases = 0, transitions = 0, traces = 0, skipped = 0, checks = 0;
  std::unordered_set<u64> states;
  std::map<std::string, u64> tally;          // named coverage counters
};
struct Shared { volatile u64 cur; volatile u64 started; };

struct Global {
  std::string prop, tier = "quick", only; bool thorough = false;
  Stats st;
  Shared* sh = nullptr;
  int outfd = -1;
  std::string curId;
  bool failed = false; u64 nfail = 0;
  u64 maxFailPerChunk = 40;
  bool verbose = false;
  u64 sampleEvery = 0;
  bool mem = false, reduced = false;   // memory safety only: wrong answers are other properties' business
};
inline Global& G() { static Global g; return g; }

inline std::string jesc(const std::string& s) {
  std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o;
}
inline void wr(const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t n = write(G().outfd, s.data() + o, s.size() - o); if (n <= 0) _exit(97); o += n; } }

// ---- calls available to case bodies ----
// Declare a property violation in the current case. `sub` distinguishes independent observations of one case.
inline void fail(const std::string& sub, const std::string& msg) {
  auto& g = G(); if (g.mem) { ++g.st.tally["other divergences"]; return; } g.failed = true; ++g.nfail;
  std::string id = g.curId + (sub.empty() ? "" : "#" + sub);
  if (g.nfail <= g.maxFailPerChunk || g.verbose) {
    char ix[32]; snprintf(ix, 32, "%llu", (unsigned long long)g.sh->cur);
    wr("{\"t\":\"F\",\"id\":\"" + jesc(id) + "\",\"ix\":" + ix + ",\"msg\":\"" + jesc(msg) + "\"}\n");
  }
}
inline void state(u64 h) { G().st.states.insert(h); }
inline void trans(u64 n = 1) { G().st.transitions += n; }
inline void trace(u64 n = 1) { G().st.traces += n; }
inline void skip(u64 n = 1) { G().st.skipped += n; }
inline void check(u64 n = 1) { G().st.checks += n; }
inline void tally(const std::string& k, u64 n = 1) { G().st.tally[k] += n; }
inline bool thorough() { return G().thorough; }
inline bool reduced() { return G().reduced; }
inline bool memQuick() { return (G().mem || G().reduced) && !G().thorough; }   // the address-checked builds are slow
inline bool isProp(const char* p) { return G().prop == p; }

// ---- enumeration ----
struct Emit {
  u64 n = 0, lo = 0, hi = ~0ull;
  bool counting = false; u64 printIx = ~0ull;
  u64 findHash = 0; bool finding = false; std::string findId;
  template <class IdF, class Body> void operator()(IdF&& idf, Body&& body) {
    u64 ix = n++;
    if (ix == printIx) { printf("%s\n", std::string(idf()).c_str()); return; }
    if (counting || ix < lo || ix >= hi) return;
    auto& g = G();
    if (finding) { std::string id = idf(); if (id != findId) return; g.curId = id; }
    else g.curId = idf();
    g.sh->cur = ix; g.sh->started = 1; g.failed = false;
    ++g.st.cases;
    alarm(60);
#ifdef FW_PAR
    par_reverse(1); body(); par_reverse(0); if (const char* w = par_race()) fail("race", w); long pl, pi, pa; par_counts(&pl, &pi, &pa); g.st.tally["parallel loops"] += pl; g.st.tally["loop iterations"] += pi; g.st.tally["accesses checked"] += pa; g.st.checks += pl;
#else
    body();
#endif
    alarm(0);
    if (g.sampleEvery && (ix % g.sampleEvery) == 0) wr("{\"t\":\"S\",\"id\":\"" + jesc(g.curId) + "\"}\n");
  }
};
} // namespace fw
void enumerate(fw::Emit&);

namespace fw {
inline void childRun(u64 lo, u64 hi, int fd, const std::string& findId = "") {
  auto& g = G(); g.outfd = fd; g.st = Stats();
  Emit e; e.lo = lo; e.hi = hi; if (!findId.empty()) { e.finding = true; e.findId = findId; }
  enumerate(e);
  std::ostringstream o; o << "{\"t\":\"D\",\"cases\":" << g.st.cases << ",\"trans\":" << g.st.transitions << ",\"traces\":" << g.st.traces << ",\"skipped\":" << g.st.skipped << ",\"checks\":" << g.st.checks << ",\"nfail\":" << g.nfail << ",\"tally\":{";
  bool f = true; for (auto& kv : g.st.tally) { if (!f) o << ","; f = false; o << "\"" << jesc(kv.first) << "\":" << kv.second; } o << "}}\n";
  wr(o.str());
  // states as raw hex lines
  std::string b; for (u64 h : g.st.states) { char t[32]; snprintf(t, 32, "H%016llx\n", (unsigned long long)h); b += t; if (b.size() > 60000) { wr(b); b.clear(); } } wr(b);
}

inline int mainImpl(int argc, char** argv) {
  auto& g = G(); if (getenv("FW_MAXFAIL")) g.maxFailPerChunk = strtoull(getenv("FW_MAXFAIL"), 0, 10); std::string out; u64 chunk = 0; int jobs = 8; std::string rlo, rhi; bool listOnly = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--prop") g.prop = nx(); else if (a == "--tier") { g.tier = nx(); g.thorough = g.tier == "thorough"; }
    else if (a == "--out") out = nx(); else if (a == "--chunk") chunk = strtoull(nx().c_str(), 0, 10); else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--only") g.only = nx(); else if (a == "--range") { rlo = nx(); rhi = nx(); } else if (a == "--mem") g.mem = true; else if (a == "--reduced") g.reduced = true; else if (a == "--count") listOnly = true; else if (a == "--id") { Emit e; e.counting = true; e.printIx = strtoull(nx().c_str(), 0, 10); enumerate(e); return 0; }
  }
  g.sh = (Shared*)mmap(nullptr, sizeof(Shared) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Shared* shs = g.sh;
  u64 total = 0; bool counted = false;
  { int p[2]; if (pipe(p)) return 2; pid_t pid = fork(); if (!pid) { close(p[0]); alarm(120); Emit e; e.counting = true; enumerate(e); if (write(p[1], &e.n, sizeof e.n) < 0) _exit(3); _exit(0); }   // may build worlds: not in this process
    close(p[1]); counted = read(p[0], &total, sizeof total) == (ssize_t)sizeof total; close(p[0]); int st; waitpid(pid, &st, 0);
    if (!counted) { if (listOnly) { printf("the process ended: %d\n", st); return 1; } FILE* fo = fopen(out.c_str(), "w"); if (!fo) return 2; fprintf(fo, "{\"t\":\"C\",\"ix\":-1,\"status\":\"while the first objects were built (%s %d)\",\"lo\":0,\"hi\":0}\n{\"t\":\"T\",\"total\":1,\"cases\":0,\"trans\":0,\"traces\":0,\"skipped\":0,\"checks\":0,\"states\":0,\"nfail\":1,\"crashes\":1,\"chunk\":1,\"tally\":{}}\n", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); fclose(fo); return 0; } }
  if (listOnly) { printf("%llu\n", (unsigned long long)total); return 0; }
  if (!g.only.empty()) { g.verbose = true; childRun(0, ~0ull, 1, g.only); if (g.mem) alarm(60); return 0; }
  if (!rlo.empty()) { g.verbose = true; childRun(strtoull(rlo.c_str(), 0, 10), strtoull(rhi.c_str(), 0, 10), 1); return 0; }
  if (!chunk) chunk = std::min<u64>(2000, std::max<u64>(1, total / (u64)(jobs * (g.thorough ? 30 : 4)) + 1));   // what a case allocates through the library is never freed: keep processes short
  g.sampleEvery = std::max<u64>(1, total / 12);
  // never inherit buffered stdout of children
  FILE* fo = fopen(out.c_str(), "w"); if (!fo) { perror("out"); return 2; }
  struct Job { u64 lo, hi; }; std::vector<Job> q; for (u64 l = 0; l < total; l += chunk) q.push_back({l, std::min(total, l + chunk)});
  size_t qi = 0; struct Run { pid_t pid; int fd; Job j; std::string buf; bool done; int slot; }; std::vector<Run> rs; std::vector<bool> slots(jobs, false);
  Stats tot; u64 nfail = 0, crashes = 0; std::vector<Job> extra;
  auto launch = [&](Job j) {
    int p[2]; if (pipe(p)) exit(2); int s = 0; while (slots[s]) ++s; slots[s] = true; shs[s].cur = j.lo; shs[s].started = 0; fflush(fo);
    pid_t pid = fork();
    if (pid == 0) { close(p[0]); g.sh = &shs[s]; for (auto& r : rs) close(r.fd);
      int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); // library assertion text
      childRun(j.lo, j.hi, p[1]); if (g.mem) { alarm(60); exit(0); } _exit(0); }
    close(p[1]); rs.push_back({pid, p[0], j, "", false, s});
  };
  auto line = [&](Run& r, const std::string& l) {
    if (l.empty()) return;
    if (l[0] == 'H') { tot.states.insert(strtoull(l.c_str() + 1, 0, 16)); return; }
    if (l.find("\"t\":\"D\"") != std::string::npos) {
      r.done = true;
      auto num = [&](const char* k) { auto p = l.find(std::string("\"") + k + "\":"); return p == std::string::npos ? 0ull : strtoull(l.c_str() + p + strlen(k) + 3, 0, 10); };
      tot.cases += num("cases"); tot.transitions += num("trans"); tot.traces += num("traces"); tot.skipped += num("skipped"); tot.checks += num("checks"); nfail += num("nfail");
      auto p = l.find("\"tally\":{"); if (p != std::string::npos) { p += 9; while (p < l.size() && l[p] == '"') { auto e = l.find('"', p + 1); std::string k = l.substr(p + 1, e - p - 1); tot.tally[k] += strtoull(l.c_str() + e + 2, 0, 10); p = l.find_first_of(",}", e); if (p == std::string::npos || l[p] == '}') break; ++p; } }
      return;
    }
    if (l.find("\"t\":\"F\"") == 0 + 1) { std::string m = l; m.pop_back(); char t[80]; snprintf(t, 80, ",\"lo\":%llu,\"hi\":%llu}", (unsigned long long)r.j.lo, (unsigned long long)r.j.hi); fprintf(fo, "%s%s\n", m.c_str(), t); return; }
    fprintf(fo, "%s\n", l.c_str());
  };
  while (true) {
    while ((int)rs.size() < jobs && (qi < q.size() || !extra.empty())) { Job j; if (!extra.empty()) { j = extra.back(); extra.pop_back(); } else j = q[qi++]; launch(j); }
    if (rs.empty()) break;
    std::vector<pollfd> pf; for (auto& r : rs) pf.push_back({r.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 1000);
    for (size_t i = 0; i < rs.size(); ++i) {
      if (!(pf[i].revents & (POLLIN | POLLHUP))) continue;
      char b[65536]; ssize_t n = read(rs[i].fd, b, sizeof b);
      if (n > 0) { rs[i].buf.append(b, n); size_t s = 0, e; while ((e = rs[i].buf.find('\n', s)) != std::string::npos) { line(rs[i], rs[i].buf.substr(s, e - s)); s = e + 1; } rs[i].buf.erase(0, s); }
      else if (n == 0) {
        int stt; waitpid(rs[i].pid, &stt, 0); close(rs[i].fd); slots[rs[i].slot] = false;
        int code = WIFSIGNALED(stt) ? -WTERMSIG(stt) : WEXITSTATUS(stt);
        if (g.mem && (rs[i].done ? code == -SIGALRM : code != 99 && code != -SIGSEGV && code != -SIGBUS)) {   // an exception, a hang: not a memory error
          u64 c = shs[rs[i].slot].cur; tot.tally["other endings"]++; tot.cases += rs[i].done ? 0 : c + 1 - rs[i].j.lo; if (!rs[i].done && tot.tally["other endings"] < 200 && c + 1 < rs[i].j.hi) extra.push_back({c + 1, rs[i].j.hi});
        } else if (!rs[i].done || (g.mem && code)) {
          u64 c = shs[rs[i].slot].cur; ++crashes; ++nfail;
          char t[256]; snprintf(t, 256, "{\"t\":\"C\",\"ix\":%llu,\"status\":\"%s %d\",\"lo\":%llu,\"hi\":%llu}\n", (unsigned long long)c, WIFSIGNALED(stt) ? "signal" : "exit", WIFSIGNALED(stt) ? WTERMSIG(stt) : WEXITSTATUS(stt), (unsigned long long)rs[i].j.lo, (unsigned long long)rs[i].j.hi);
          fputs(t, fo);
          if (!rs[i].done && crashes < 200 && c + 1 < rs[i].j.hi) extra.push_back({c + 1, rs[i].j.hi});
          if (c > rs[i].j.lo && crashes < 200) { /* the cases before the crash ran but their counts are lost: they are recounted nowhere */ }
        }
        rs.erase(rs.begin() + i); pf.erase(pf.begin() + i); --i;
      }
    }
  }
  std::ostringstream o; o << "{\"t\":\"T\",\"total\":" << total << ",\"cases\":" << tot.cases << ",\"trans\":" << tot.transitions << ",\"traces\":" << tot.traces << ",\"skipped\":" << tot.skipped << ",\"checks\":" << tot.checks << ",\"states\":" << tot.states.size() << ",\"nfail\":" << nfail << ",\"crashes\":" << crashes << ",\"chunk\":" << chunk << ",\"tally\":{";
  bool f = true; for (auto& kv : tot.tally) { if (!f) o << ","; f = false; o << "\"" << jesc(kv.first) << "\":" << kv.second; } o << "}}\n";
  fputs(o.str().c_str(), fo); fclose(fo);
  return 0;
}
} // namespace fw
#define FW_MAIN int main(int argc, char** argv) { return fw::mainImpl(argc, argv); }
