// Sensitivity and budget: what one user can change in the values handed to the mechanisms.
#include "objs.h"

namespace mc {
namespace {

struct Out {
  std::vector<Mech> mechs;
  absl::StatusOr<Output> out = absl::UnknownError("");
};

// Scripted outcomes of the mechanisms, identical for neighbours.
std::vector<double> g_bins;  // forced noised bins
double g_count = 0;          // forced noised count, when not 0
std::vector<double> g_cycle; // forced outcomes of other mechanisms in turn (order statistics, quantiles)
int g_turn = 0;

Out Run(const Spec& s, const std::vector<double>& vs) {
  rec.Clear();
  g_turn = 0;
  auto o = Make(s);
  Out r;
  if (!o.ok()) { r.out = o.status(); return r; }
  bool order = s.kind == "max" || s.kind == "min" || s.kind == "med" || s.kind == "pct";
  rec.script = [&](const Mech& m, int k, int call, double v) -> double {
    if (m.tag == "bins") return call < (int)g_bins.size() ? g_bins[call] : 0;
    if (order || s.kind == "quant") return g_cycle[g_turn++ % g_cycle.size()];
    if (g_count != 0 && (s.kind == "mean" || s.kind == "var" || s.kind == "sd")) {
      int first = s.apx ? 1 : 0;
      if (k == first) return g_count;
    }
    return v;
  };
  for (double v : vs) (*o)->Add(v);
  r.out = (*o)->Result();
  for (auto* m : rec.Used()) r.mechs.push_back(*m);
  return r;
}

void Compare(Ctx& c, const Spec& s, const std::vector<double>& base, const std::vector<double>& more, const Out& a, const Out& b) {
  std::string where = s.name();
  std::string data = cat(show(base), " against the same and ", show(more), s.apx ? cat(" bins ", show(g_bins)) : "");
  std::string key = cat(s.kind, s.real ? " real" : " int", s.apx ? " found" : "");
  if (!c.Check(a.out.ok() == b.out.ok(), key + " status", [&] { return cat(where, ": ", data, ": ", Text(a.out), " / ", Text(b.out)); })) return;
  if (!c.Check(a.mechs.size() == b.mechs.size(), key + " mechanisms",
               [&] { return cat(where, ": number of mechanisms depends on the data: ", a.mechs.size(), " / ", b.mechs.size(), " ", data); }))
    return;
  double eps = 0, del = 0;
  for (size_t i = 0; i < a.mechs.size(); ++i) {
    const Mech &x = a.mechs[i], &y = b.mechs[i];
    c.Check(x.gauss == y.gauss && x.eps == y.eps && x.delta == y.delta && x.sens == y.sens, key + " calibration", [&] {
      return cat(where, ": mechanism ", i, " calibrated by the data: eps ", x.eps, "/", y.eps, " delta ", x.delta, "/", y.delta, " sensitivity ", x.sens,
                 "/", y.sens, " ", data);
    });
    eps += x.eps;
    del += x.delta;
    if (!c.Check(x.vals.size() == y.vals.size(), key + " calls",
                 [&] { return cat(where, ": mechanism ", i, " used ", x.vals.size(), "/", y.vals.size(), " times ", data); }))
      continue;
    double l1 = 0, l2 = 0;
    for (size_t k = 0; k < x.vals.size(); ++k) {
      double d = std::abs(x.vals[k] - y.vals[k]);
      l1 += d;
      l2 += d * d;
    }
    double got = x.gauss ? std::sqrt(s.l0 * l2) : s.l0 * l1;
    bool ok = got <= x.sens * (1 + 1e-9);
    if (!ok && s.kind == "mean" && !s.real && !s.apx && a.out.ok()) {
      // the sum is shifted after the noise: judge what is released
      double lo = s.lo, hi = s.hi, mid = lo + (hi - lo) / 2;
      double d = std::abs(Elem(*a.out, 0) - Elem(*b.out, 0)) * g_count;
      bool inside = Elem(*a.out, 0) > lo && Elem(*a.out, 0) < hi && Elem(*b.out, 0) > lo && Elem(*b.out, 0) < hi;
      got = x.gauss ? std::sqrt((double)s.l0) * d : s.l0 * d;
      ok = inside && got <= x.sens * (1 + 1e-6);
      (void)mid;
    }
    c.Check(ok, key + " sensitivity", [&] {
      return cat(where, ": one user moves the values of mechanism ", i, " (of ", a.mechs.size(), ") by ", got, ", its noise covers ", x.sens, ": ",
                 show(x.vals), " / ", show(y.vals), " ", data);
    });
  }
  c.Check(eps <= s.eps * (1 + 1e-9), key + " epsilon", [&] { return cat(where, ": the mechanisms spend epsilon ", eps, " of ", s.eps, " ", data); });
  c.Check(del <= s.delta * (1 + 1e-9), key + " delta", [&] { return cat(where, ": the mechanisms spend delta ", del, " of ", s.delta, " ", data); });
}

// All multisets of up to n values.
void Multisets(const std::vector<double>& grid, int n, size_t from, std::vector<double>& cur, const std::function<void(const std::vector<double>&)>& f) {
  f(cur);
  if ((int)cur.size() == n) return;
  for (size_t i = from; i < grid.size(); ++i) {
    cur.push_back(grid[i]);
    Multisets(grid, n, i, cur, f);
    cur.pop_back();
  }
}

void Run02(Ctx& c, const Case& cs) {
  Spec s = SpecOf(cs);
  bool order = s.kind == "max" || s.kind == "min" || s.kind == "med" || s.kind == "pct";
  std::vector<double> grid;
  double lo = s.lo, hi = s.hi;
  if (s.apx) {
    lo = -16, hi = 16;
    grid = {-40, -16, -9, -8, -3, -1, 0, 1, 2, 5, 8, 30};
    if (s.real) grid = {-INFINITY, -16, -8.5, -4, -1, -0.25, 0, 0.5, 1, 2.75, 8, 12};
  } else if (s.real) {
    grid = {-INFINITY, lo - 1, lo, lo + (hi - lo) * 0.25, (lo + hi) / 2, lo + (hi - lo) * 0.8, hi, hi + 5, INFINITY, NAN, 0};
  } else {
    grid = {-9.3e18, lo - 1, lo, lo + 1, std::floor((lo + hi) / 2), hi - 1, hi, hi + 4, 9.3e18, 0};
  }
  std::vector<std::vector<double>> scripts = {{}};
  if (s.apx) {
    scripts.clear();
    // every pair of bins found full (positive bins first)
    for (int i = 0; i < 2 * s.bins; ++i)
      for (int j = i; j < 2 * s.bins; ++j) {
        std::vector<double> b(2 * s.bins, 0);
        b[i] = b[j] = 1e6;
        scripts.push_back(b);
      }
  }
  std::vector<std::vector<double>> cycles = {{}};
  if (order) {
    cycles.clear();
    for (double a : {0., 1., 8.})
      for (double b : {0., 1., 8.})
        for (double d : {0., 3.}) cycles.push_back({a, b, d, 2, b, a});
  }
  if (s.kind == "quant") {
    // the searched path: the one of every value of the grid, and some others (every level asks for its 16 children in turn)
    cycles.clear();
    std::set<std::vector<int>> paths = {{0, 15, 0, 15}, {7, 3, 11, 1}};
    for (double v : grid) {
      if (std::isnan(v)) continue;
      double f = (std::min(std::max(v, lo), hi) - lo) / (hi - lo);
      int leaf = (int)(f * 65535);
      paths.insert({leaf >> 12, leaf >> 8 & 15, leaf >> 4 & 15, leaf & 15});
    }
    for (auto& p : paths) {
      std::vector<double> out(64, 0);
      for (int l = 0; l < 4; ++l) out[16 * l + p[l]] = 100;
      cycles.push_back(out);
    }
    cycles.push_back(std::vector<double>(64, 5));
  }
  g_count = s.kind == "mean" && !s.real && !s.apx ? 1 << 20 : 0;
  int base_n = cs.n("base_n", 2), add_n = std::min(s.mcp, (int)cs.n("add_n", 2));
  for (auto& sc : scripts)
    for (auto& cy : cycles) {
      g_bins = sc;
      g_cycle = cy;
      std::vector<double> cur;
      Multisets(grid, base_n, 0, cur, [&](const std::vector<double>& base) {
        Out a = Run(s, base);
        c.State(cat(s.name(), show(base), show(sc), show(cy)));
        ++c.transitions;
        std::vector<double> cur2;
        Multisets(grid, add_n, 0, cur2, [&](const std::vector<double>& more) {
          if (more.empty()) return;
          // a full block of identical contributions shows the worst case of a larger bound
          std::vector<double> m = more;
          if ((int)m.size() == add_n)
            while ((int)m.size() < s.mcp) m.push_back(m.back());
          std::vector<double> d = base;
          d.insert(d.end(), m.begin(), m.end());
          Out b = Run(s, d);
          ++c.transitions;
          Compare(c, s, base, m, a, b);
          c.Trace(cat(s.name(), " ", show(base), " + ", show(m), " ", Log()));
        });
      });
    }
}

std::vector<std::string> List02(const std::string& tier) {
  bool t = tier == "thorough";
  std::vector<std::string> out;
  for (const char* kind : {"count", "sum", "mean", "var", "sd", "quant", "max", "min", "med", "pct", "bounds"}) {
    std::string k = kind;
    bool order = k == "max" || k == "min" || k == "med" || k == "pct";
    for (int real = 0; real < 2; ++real)
      for (int l0 : {1, 3})
        for (int mcp : t ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 3}) {
          std::string tail = cat(" kind=", k, " real=", real, " l0=", l0, " mcp=", mcp, " base_n=", t && !order && k != "quant" ? 2 : 1, " add_n=", t ? 3 : 2);
          std::vector<std::pair<double, double>> bounds = {{-3, 8}, {1, 6}, {-7, -2}, {0, 5}, {-5, 5}, {-4, 0}, {2, 7}};
          if (real) bounds = {{-3, 8}, {1, 6.5}, {-7.25, -2}, {0, 5}, {-5, 5}};
          if (k == "count" || k == "bounds") bounds = {{0, 1}};
          if (!t && (order || k == "quant")) bounds = {{-3, 8}, {0, 5}};
          if (!t && k == "sd") bounds = {{-3, 8}, {1, 6}};
          for (auto& b : bounds)
            for (int g = 0; g < 2; ++g) {
              if (g && !(k == "count" || k == "sum" || k == "mean" || k == "quant")) continue;
              out.push_back(cat("fix", tail, " lo=", b.first, " hi=", b.second, " gauss=", g));
            }
          if (k == "sum" || k == "mean" || k == "var" || k == "sd")
            for (double base : t ? std::vector<double>{2, 1.5, 3} : std::vector<double>{2, 1.5})
              out.push_back(cat("apx kind=", k, " real=", real, " l0=", l0, " mcp=", mcp, " apx=1 base=", base, " base_n=", t ? 2 : 1, " add_n=", t ? 2 : (mcp < 2 ? 1 : 2)));
        }
  }
  // wide and extreme bounds
  for (const char* kind : {"sum", "mean", "var"})
    for (auto& b : std::vector<std::pair<double, double>>{{-1048576, 1048575}, {0, 2147483647}, {-2147483647, -2147483646}})
      for (int real = 0; real < 2; ++real) {
        if (real && std::string(kind) == "var" && b.first < -1e9) continue;  // squares beyond the precision of double
        out.push_back(cat("wide kind=", kind, " real=", real, " l0=2 mcp=2 base_n=2 add_n=2 lo=", b.first, " hi=", b.second));
      }
  return out;
}

Register r02("P02", {Run02, List02});
}  // namespace
}  // namespace mc
