// Exhaustive exploration of operation histories: every sequence of enabled operations up to a depth is
// executed on fresh real objects next to a model; the last operation of every sequence is compared.
#pragma once
#include "fw.hpp"
namespace hist {
struct WorldBase {                        // one instance = the objects and the model after some history
  virtual ~WorldBase() = default;
  virtual int nops() const = 0;
  virtual std::string name(int op) const = 0;
  virtual bool enabled(int op) const = 0;  // on the model
  virtual void apply(int op, bool check, const std::string& hist) = 0;
  virtual fw::u64 state() const = 0;       // of the model
  virtual bool counts(int) const { return true; } // worth ending a sequence with (an observation)
};
using Make = std::function<WorldBase*()>;
inline WorldBase* run(const Make& mk, const std::vector<int>& seq, size_t checkFrom, std::string* nm = nullptr) {
  static const bool trace = getenv("FW_TRACE"); WorldBase* w = mk(); std::string h;
  for (size_t i = 0; i < seq.size(); ++i) {
    if (!w->enabled(seq[i])) { delete w; return nullptr; }
    h += (i ? ";" : "") + w->name(seq[i]); if (trace) { fprintf(stderr, "%s\n", h.c_str()); }
    w->apply(seq[i], i >= checkFrom, h); fw::trans();
  }
  if (nm) *nm = h;
  return w;
}
// all sequences that start with `pre`, of total length up to `depth`, each executed from scratch
inline void explore(const Make& mk, std::vector<int> pre, int depth) {
  std::function<void()> rec = [&] {
    WorldBase* w = run(mk, pre, pre.empty() ? 0 : pre.size() - 1); if (!w) return;
    fw::trace(); fw::state(w->state());
    bool leaf = (int)pre.size() >= depth; std::vector<int> en; if (!leaf) for (int o = 0; o < w->nops(); ++o) if (w->enabled(o) && ((int)pre.size() + 1 < depth || w->counts(o))) en.push_back(o);
    delete w;
    for (int o : en) { pre.push_back(o); rec(); pre.pop_back(); }
  };
  rec();
}
// One case per enabled prefix of length `plen`; shorter histories are cases of their own.
inline void emitAll(fw::Emit& emit, const std::string& nm, const Make& mk, int plen, int depth) {
  // the set of prefixes comes from the model alone; worlds are built on the real library all the same, so
  // enumerate them once per process
  static std::map<std::string, std::vector<std::vector<int>>> memo; std::string key = nm + "/" + std::to_string(plen) + "/" + std::to_string(depth);
  auto it = memo.find(key);
  if (it == memo.end()) {
    std::vector<std::vector<int>> ps; std::vector<int> pre; 
    std::function<void()> rec = [&] { ps.push_back(pre); if ((int)pre.size() == plen) return; WorldBase* w = run(mk, pre, ~size_t(0)); std::vector<int> en; for (int o = 0; o < w->nops(); ++o) if (w->enabled(o)) en.push_back(o); delete w; for (int o : en) { pre.push_back(o); rec(); pre.pop_back(); } };
    rec(); it = memo.emplace(key, ps).first;
  }
  for (auto& p : it->second) {
    auto pp = p; int d = (int)p.size() < plen ? (int)p.size() : depth;
    emit([&, pp] { std::string s = nm + "/"; WorldBase* w = mk(); for (size_t i = 0; i < pp.size(); ++i) s += (i ? ";" : "") + w->name(pp[i]); delete w; return s; },
         [mk, pp, d] { explore(mk, pp, d); });
  }
}
// Lassos: every sequence of at most `len` operations, repeated `reps` times; every step is compared.
inline void emitRepeats(fw::Emit& emit, const std::string& nm, const Make& mk, int len, int reps) {
  WorldBase* w0 = mk(); int n = w0->nops(); std::vector<std::string> names; for (int i = 0; i < n; ++i) names.push_back(w0->name(i)); delete w0;
  std::vector<int> seq;
  std::function<void()> rec = [&] {
    if (!seq.empty()) { auto s = seq; std::string t; for (size_t i = 0; i < s.size(); ++i) t += (i ? ";" : "") + names[s[i]]; bool prim = !(s.size() > 1 && std::count(s.begin(), s.end(), s[0]) == (long)s.size());
      if (prim) emit([=] { return nm + "/(" + t + ")*" + std::to_string(reps); }, [mk, s, reps, t] {
        WorldBase* w = mk(); bool any = true; for (int k = 0; k < reps && any; ++k) { any = false; std::string h = "round" + std::to_string(k); for (int o : s) { h += ";"; h += w->name(o); if (!w->enabled(o)) continue; any = true; w->apply(o, true, h); fw::trans(); } fw::state(fw::hmix(w->state(), k)); } delete w; fw::trace(); }); }
    if ((int)seq.size() < len) for (int o = 0; o < n; ++o) { seq.push_back(o); rec(); seq.pop_back(); }
  };
  rec();
}
} // namespace hist
