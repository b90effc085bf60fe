// Quantile trees: every small dataset, every assignment of noise outcomes to the nodes that are looked at.
#include <algorithm>

#include "algorithms/quantile-tree.h"
#include "algorithms/quantiles.h"
#include "rec.h"

namespace mc {
namespace {
const double ranks[] = {0, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 1};

template <class T>
struct Shape { T lo, hi; int h, b; int leaves() const { int n = 1; for (int i = 0; i < h; ++i) n *= b; return n; } };

template <class T>
std::unique_ptr<QuantileTree<T>> Tree(const Shape<T>& s) {
  auto t = typename QuantileTree<T>::Builder().SetLower(s.lo).SetUpper(s.hi).SetTreeHeight(s.h).SetBranchingFactor(s.b).Build();
  if (!t.ok()) return nullptr;
  return std::move(*t);
}

template <class T>
absl::StatusOr<typename QuantileTree<T>::Privatized> Priv(QuantileTree<T>& t, bool gauss, double eps = 1, double delta = 0.01, int linf = 3, int l0 = 2) {
  typename QuantileTree<T>::DPParams p;
  p.epsilon = eps;
  p.delta = delta;
  p.max_contributions_per_partition = linf;
  p.max_partitions_contributed_to = l0;
  p.mechanism_builder = RecBuilder(gauss);
  return t.MakePrivate(p);
}

// no noise: the result is within a leaf of the value at that rank
template <class T>
void RunData(Ctx& c, const Case& cs, Shape<T> s, int size) {
  const int L = s.leaves();
  const double w = ((double)s.hi - s.lo) / L, lo = s.lo, hi = s.hi;
  std::vector<T> menu = {s.lo, s.hi};
  for (int i : {0, 1, L / 2, L - 1}) menu.push_back((T)(lo + w * (i + 0.5)));
  menu.push_back((T)(lo - 1));
  menu.push_back((T)(hi + 1));
  if (std::is_floating_point_v<T>) { menu.push_back((T)NAN); menu.push_back((T)INFINITY); menu.push_back(std::nextafter((double)s.hi, -INFINITY)); }
  const double ulps = (std::abs(lo) + std::abs(hi)) * 4e-16;
  std::vector<int> ds;
  std::function<void(size_t)> go = [&](size_t from) {
    std::string name = cs.text + " values";
    auto t = Tree(s);
    if (!c.Check(t != nullptr, "tree", [&] { return name; })) return;
    std::vector<double> xs;
    for (int k : ds) {
      name += cat(" ", menu[k]);
      t->AddEntry(menu[k]);
      ++c.transitions;
      double v = (double)menu[k];
      if (!std::isnan(v)) xs.push_back(std::min(std::max(v, lo), hi));
    }
    std::sort(xs.begin(), xs.end());
    rec.Clear();
    auto p = Priv(*t, false);
    if (!c.Check(p.ok() && rec.mechs.size() == 1, "private", [&] { return name; })) return;
    Mech& m = *rec.mechs[0];
    c.Check(m.eps == 1 && m.sens == 3 * 2 * s.h, "noise", [&] { return cat(name, ": eps ", m.eps, " sensitivity ", m.sens); });
    c.State(name);
    double last = -INFINITY;
    auto other = Priv(*t, false);
    for (double r : {0.3, 0.7}) other->ComputeNoiseConfidenceInterval(r, 0.9).IgnoreError();
    for (double r : ranks) {
      auto a = other->GetQuantile(r), b = p->GetQuantile(r);
      c.Check(a.ok() && b.ok() && *a == *b, "after an interval", [&] { return cat(name, ": rank ", r, " gives ", b.ok() ? *b : NAN, ", after asking for an interval ", a.ok() ? *a : NAN); });
    }
    for (double r : ranks) {
      auto q = p->GetQuantile(r);
      ++c.transitions;
      if (!c.Check(q.ok() && *q >= lo - ulps && *q <= hi + ulps, "range", [&] { return cat(name, ": rank ", r, " gives ", q.ok() ? *q : NAN); })) break;
      double v = *q;
      c.Check(v >= last - ulps, "monotone", [&] { return cat(name, ": rank ", r, " gives ", v, ", a smaller one ", last); });
      last = v;
      if (xs.empty()) {
        double mid = lo + (hi - lo) * std::min(std::max(r, 0.005), 0.995);
        c.Check(std::abs(v - mid) <= (hi - lo) * 1e-9 + ulps, "no data", [&] { return cat(name, ": rank ", r, " gives ", v); });
        continue;
      }
      double n = (double)xs.size();
      auto at = [&](double k) { return xs[(size_t)std::min(std::max(std::floor(k), 0.0), n - 1)]; };
      double a = at(r * n - 1e-4), b = at(r * n + 1e-4), tol = 2 * w * (1 + 1e-6) + std::abs(lo) * 1e-15;
      c.Check(v >= a - tol && v <= b + tol, "value", [&] { return cat(name, ": rank ", r, " gives ", v, ", the values there are within [", a, ", ", b, "], a leaf is ", w, " wide"); });
    }
    for (double r : {-1e-9, 1.0000001, (double)-INFINITY}) c.Check(!p->GetQuantile(r).ok() && !p->ComputeNoiseConfidenceInterval(r, 0.9).ok(), "bad rank", [&] { return cat(name, ": rank ", r, " accepted"); });
    c.Trace(name);
    if ((int)ds.size() == size) return;
    for (size_t k = from; k < menu.size(); ++k) {
      ds.push_back((int)k);
      go(k);
      ds.pop_back();
    }
  };
  go(0);
}

// every assignment of noise to the nodes in the order they are looked at
void RunNoise(Ctx& c, const Case& cs, Shape<double> s, std::vector<double> ds, std::vector<double> menu, std::vector<int> prefix) {
  auto t = Tree(s);
  for (double x : ds) t->AddEntry(x);
  const double rs[] = {0.5, 0, 1, 0.13, 0.31, 0.77};
  int nodes = 0;
  for (int l = 1, m = s.b; l <= s.h; ++l, m *= s.b) nodes += m;
  std::function<int(const std::vector<int>&, bool)> exec = [&](const std::vector<int>& script, bool ci_first) {
    std::string name = cat(cs.text, " noise ", show(script), ci_first ? " interval first" : "");
    rec.Clear();
    auto p = Priv(*t, cs.n("gauss"));
    Mech& m = *rec.mechs[0];
    rec.script = [&](const Mech&, int, int k, double v) { return v + (k < (int)script.size() ? menu[script[k]] : menu[0]); };
    std::vector<double> got;
    std::vector<ConfidenceInterval> ci;
    auto intervals = [&](bool check) {
      size_t before = m.vals.size();
      for (size_t i = 0; i < 6; ++i) {
        auto a = p->ComputeNoiseConfidenceInterval(rs[i], 0.5), b = p->ComputeNoiseConfidenceInterval(rs[i], 0.95);
        ++c.transitions;
        if (!c.Check(a.ok() && b.ok(), "interval", [&] { return name; })) return;
        c.Check(a->lower_bound() <= a->upper_bound() && b->lower_bound() <= a->lower_bound() + 1e-9 && b->upper_bound() >= a->upper_bound() - 1e-9 && b->lower_bound() >= s.lo - 1e-9 && b->upper_bound() <= s.hi + 1e-9, "interval",
                [&] { return cat(name, " rank ", rs[i], ": ", a->ShortDebugString(), " within ", b->ShortDebugString()); });
        c.Check(a->confidence_level() == 0.5 && b->confidence_level() == 0.95, "interval level", [&] { return name; });
        if (!check) ci.push_back(*b);
        else c.Check(ci[i].lower_bound() == b->lower_bound() && ci[i].upper_bound() == b->upper_bound(), ci_first ? "interval asked before any quantile" : "interval again", [&] { return cat(name, " rank ", rs[i], ": ", ci[i].ShortDebugString(), " then ", b->ShortDebugString()); });
        if (!got.empty()) c.Check(b->lower_bound() <= got[i] + 1e-9 && got[i] <= b->upper_bound() + 1e-9, "interval misses", [&] { return cat(name, " rank ", rs[i], " gives ", got[i], " interval ", b->ShortDebugString()); });
      }
      if (check) c.Check(m.vals.size() == before, "interval draws", [&] { return name + " asking for an interval again draws noise"; });
    };
    if (ci_first) intervals(false);
    for (int pass = 0; pass < 2; ++pass) {
      size_t before = m.vals.size();
      for (size_t i = 0; i < 6; ++i) {
        auto q = p->GetQuantile(rs[i]);
        ++c.transitions;
        if (!c.Check(q.ok() && *q >= s.lo - 1e-9 && *q <= s.hi + 1e-9, "noisy range", [&] { return cat(name, " rank ", rs[i], " gives ", q.ok() ? *q : NAN); })) return 0;
        if (pass) c.Check(*q == got[i], "again", [&] { return cat(name, " rank ", rs[i], " gives ", got[i], " then ", *q); });
        else got.push_back(*q);
      }
      c.Check(!pass || m.vals.size() == before, "draws again", [&] { return name + " asking again draws noise"; });
    }
    if (ci_first) intervals(true); else { intervals(false); intervals(true); }
    c.Check((int)m.vals.size() <= nodes, "draws", [&] { return cat(name, ": ", m.vals.size(), " draws for ", nodes, " nodes"); });
    std::vector<std::pair<double, double>> o;
    for (size_t i = 0; i < 6; ++i) o.push_back({rs[i], got[i]});
    std::sort(o.begin(), o.end());
    for (size_t i = 1; i < 6; ++i) c.Check(o[i - 1].second <= o[i].second * (1 + 1e-12) + 1e-12, "noisy monotone", [&] { return cat(name, " rank ", o[i - 1].first, " gives ", o[i - 1].second, " rank ", o[i].first, " ", o[i].second); });
    c.State(name);
    c.Trace(name);
    return (int)m.vals.size();
  };
  int looked = 0;
  std::function<void(std::vector<int>)> walk = [&](std::vector<int> script) {
    exec(script, true);
    int n = exec(script, false);
    looked = std::max(looked, n);
    for (int pos = (int)script.size(); pos < n && pos < cs.n("cut", 99); ++pos)
      for (int v = 1; v < (int)menu.size(); ++v) {
        auto x = script;
        x.resize(pos, 0);
        x.push_back(v);
        walk(x);
      }
  };
  walk(prefix);
}

// noise as a function of the count, against a reference search
double Reference(const Shape<double>& s, const std::vector<double>& xs, double rank, const std::function<double(double)>& noisy) {
  int L = s.leaves();
  std::vector<double> cnt(L);
  for (double x : xs) cnt[(int)((std::min(std::max(x, s.lo), s.hi) - s.lo) / (s.hi - s.lo) * (L - 1))]++;
  rank = std::min(std::max(rank, 0.005), 0.995);
  int lo = 0, w = L;
  while (w > 1) {
    int cw = w / s.b;
    std::vector<double> n(s.b);
    double tot = 0, kept = 0, part = 0;
    for (int j = 0; j < s.b; ++j) {
      for (int i = lo + j * cw; i < lo + (j + 1) * cw; ++i) n[j] += cnt[i];
      n[j] = noisy(n[j]);
      tot += n[j];
    }
    if (tot <= 0) break;
    for (double v : n)
      if (v >= tot * 0.005) kept += v;
    if (kept <= 0) break;
    for (int j = 0; j < s.b; ++j) {
      if (n[j] < tot * 0.005) continue;
      if ((part + n[j]) / kept >= rank - 1e-6) {
        rank = std::min(std::max((rank - part / kept) / (n[j] / kept), 0.0), 1.0);
        lo += j * cw;
        break;
      }
      part += n[j];
    }
    w = cw;
  }
  return s.lo + (s.hi - s.lo) / L * (lo + rank * w);
}

void RunRef(Ctx& c, const Case& cs, Shape<double> s, std::vector<double> ds, std::vector<double> menu) {
  auto t = Tree(s);
  for (double x : ds) t->AddEntry(x);
  std::vector<int> idx(ds.size() + 1);
  std::vector<bool> used(idx.size());
  for (;;) {
    auto f = [&](double n) { used[(int)n] = true; return n + menu[idx[(int)n]]; };
    std::string name = cat(cs.text, " noise by count ", show(idx));
    rec.Clear();
    auto p = Priv(*t, false);
    rec.script = [&](const Mech&, int, int, double v) { return f(v); };
    for (double r : {0.77, 0.0, 1.0, 0.13, 0.31, 0.5}) {
      if (r == 0.0) p->ComputeNoiseConfidenceInterval(0.4, 0.9).IgnoreError();
      auto q = p->GetQuantile(r);
      ++c.transitions;
      double ref = Reference(s, ds, r, f);
      c.Check(q.ok() && std::abs(*q - ref) <= 1e-9 * (std::abs(s.lo) + std::abs(s.hi)), "search", [&] { return cat(name, " rank ", r, " gives ", q.ok() ? *q : NAN, " not ", ref); });
    }
    c.State(name);
    c.Trace(name);
    size_t i = 0;
    for (; i < idx.size(); ++i) {
      if (!used[i]) continue;
      if (++idx[i] < (int)menu.size()) break;
      idx[i] = 0;
    }
    if (i == idx.size()) return;
  }
}

// One level of nodes, every assignment of noised counts from a menu around the fraction below which a node counts as empty.
// At exactly that fraction either reading is accepted, but one of them everywhere.
double RefNodes(const std::vector<double>& n, double rank, double alpha) {
  rank = std::min(std::max(rank, 0.005), 0.995);
  double tot = 0, kept = 0, part = 0, w = 8.0 / n.size();
  for (double v : n) tot += v;
  if (tot <= 0) return 8 * rank;
  for (double v : n)
    if (v >= tot * alpha) kept += v;
  if (kept <= 0) return 8 * rank;
  for (size_t j = 0; j < n.size(); ++j) {
    if (n[j] < tot * alpha) continue;
    if ((part + n[j]) / kept >= rank - 1e-6) return w * (j + std::min(std::max((rank - part / kept) / (n[j] / kept), 0.0), 1.0));
    part += n[j];
  }
  return NAN;
}

void RunEdge(Ctx& c, const Case& cs, int b, int first) {
  const std::vector<double> menu = {0, 2, 396, 398, 400, 199, -3, 1};
  std::vector<int> idx(b);
  idx[0] = first;
  Shape<double> s{0, 8, 1, b};
  auto t = Tree(s);
  for (int i = 0; i < b; ++i)
    for (int k = 0; k < i; ++k) t->AddEntry(std::min(8.0, (i + 0.25) * 8 / (b - 1)));  // entries tell the nodes apart
  for (;;) {
    std::vector<double> n(b);
    for (int i = 0; i < b; ++i) n[i] = menu[idx[i]];
    std::string name = cat(cs.text, " noised counts ", show(idx));
    rec.Clear();
    auto p = Priv(*t, false);
    int looked = 0;
    rec.script = [&](const Mech&, int, int, double v) {
      if (++looked > 100 * b) { printf("the search looks at nodes for ever: %s\n", name.c_str()); abort(); }
      return n[std::min((int)v, b - 1)];
    };
    double last = -INFINITY;
    for (double r : {0.0, 0.005, 0.25, 0.5, 0.75, 0.99, 0.995, 1.0}) {
      auto q = p->GetQuantile(r);
      ++c.transitions;
      double a = RefNodes(n, r, 0.005 * (1 - 1e-9)), z = RefNodes(n, r, 0.005 * (1 + 1e-9));
      if (!c.Check(q.ok() && *q >= 0 && *q <= 8 && (std::abs(*q - a) <= 1e-7 || std::abs(*q - z) <= 1e-7), "search at the fraction", [&] { return cat(name, " rank ", r, " gives ", q.ok() ? *q : NAN, " not ", a, " or ", z); })) continue;
      c.Check(*q >= last - 1e-7, "noisy monotone", [&] { return cat(name, " rank ", r, " gives ", *q, ", a smaller one ", last); });
      last = *q;
    }
    c.State(name);
    c.Trace(name);
    int i = 1;
    for (; i < b; ++i) {
      if (++idx[i] < (int)menu.size()) break;
      idx[i] = 0;
    }
    if (i == b) return;
  }
}

void RunBad(Ctx& c, const Case&) {
  auto t = [&](const char* what, bool want, std::function<void(QuantileTree<double>::Builder&)> f) {
    QuantileTree<double>::Builder b;
    b.SetLower(0).SetUpper(1);
    f(b);
    c.State(what);
    c.Check(b.Build().ok() == want, "refusals", [&] { return cat(what, want ? " refused" : " accepted"); });
  };
  using B = QuantileTree<double>::Builder&;
  t("defaults", true, [](B) {});
  t("height 0", false, [](B b) { b.SetTreeHeight(0); });
  t("height -1", false, [](B b) { b.SetTreeHeight(-1); });
  t("branching 1", false, [](B b) { b.SetBranchingFactor(1); });
  t("equal bounds", false, [](B b) { b.SetUpper(0); });
  t("reversed bounds", false, [](B b) { b.SetUpper(-1); });
  t("wide bounds", false, [](B b) { b.SetLower(-1.7e308).SetUpper(1.7e308); });
  c.Check(!QuantileTree<double>::Builder().Build().ok() && !QuantileTree<double>::Builder().SetLower(1).Build().ok(), "refusals", [&] { return "missing bounds accepted"; });
  c.Check(!QuantileTree<int64_t>::Builder().SetLower(INT64_MIN).SetUpper(3).Build().ok(), "refusals", [&] { return "wide integer bounds accepted"; });
  auto d = std::move(QuantileTree<double>::Builder().SetLower(0).SetUpper(1).Build().value());
  c.Check(d->GetHeight() == 4 && d->GetBranchingFactor() == 16, "defaults", [&] { return "shape"; });
  c.Trace("bad");
}

const std::vector<double> kRef[] = {{0.5}, {0.5, 0.5, 6.5}, {0.5, 0.5, 0.5, 0.5, 1.5, 1.5, 4.5}, {7.9, 7.9, 7.9, 3.1, 3.1, 2.9}, {8, 8, 0}};
const std::vector<double> kNoise[] = {{}, {0.5}, {0.5, 6.5}, {1, 1, 1, 5}};

void Run06(Ctx& c, const Case& cs) {
  std::string k = cs.text.substr(0, cs.text.find(' '));
  int h = (int)cs.n("h"), b = (int)cs.n("b");
  if (k == "data") RunData<double>(c, cs, {cs.d("lo"), cs.d("hi"), h, b}, (int)cs.n("size"));
  else if (k == "ints") RunData<int64_t>(c, cs, {cs.n("lo"), cs.n("hi"), h, b}, (int)cs.n("size"));
  else if (k == "noise") {
    std::vector<double> menu = {0, 2, -3, 400};
    menu.resize(cs.n("menu"));
    RunNoise(c, cs, {0, 8, h, b}, kNoise[cs.n("ds")], menu, {});
  } else if (k == "ref") {
    std::vector<double> menu = {0, 2, -3, 400};
    if (cs.n("deep")) { menu.push_back(-1); menu.push_back(1); }
    RunRef(c, cs, {0, 8, h, b}, kRef[cs.n("ds")], menu);
  } else if (k == "edge") RunEdge(c, cs, b, (int)cs.n("first"));
  else RunBad(c, cs);
}

std::vector<std::string> List06(const std::string& tier) {
  bool t = tier == "thorough";
  std::vector<std::string> out;
  struct HB { int h, b; };
  struct LH { const char *lo, *hi; };
  for (HB s : {HB{1, 2}, {1, 3}, {2, 2}, {2, 3}, {3, 2}, {1, 7}, {4, 2}, {4, 16}}) {
    int size = (t ? 5 : 4) - (s.h * s.b > 60 ? 1 : 0);
    for (LH x : {LH{"0", "1"}, {"-1", "1"}, {"-2", "7"}, {"-1e16", "1"}, {"3", "3.5"}, {"-1e300", "1e-300"}, {"1e15", "1000000000000002"}})
      out.push_back(cat("data lo=", x.lo, " hi=", x.hi, " h=", s.h, " b=", s.b, " size=", size));
    for (LH x : {LH{"0", "1"}, {"-4", "8"}, {"-1000000007", "3"}, {"5", "1000000000000000000"}}) out.push_back(cat("ints lo=", x.lo, " hi=", x.hi, " h=", s.h, " b=", s.b, " size=", size));
  }
  for (int ds = 0; ds < 4; ++ds)
    for (HB s : {HB{1, 2}, {1, 3}, {2, 2}, {1, 5}, {2, 3}, {3, 2}}) {
      int nodes = s.h == 1 ? s.b : s.b == 2 ? (s.h == 2 ? 6 : 14) : 12;
      for (int g = 0; g < 2; ++g) {
        if (!t && nodes > 6) continue;
        out.push_back(cat("noise ds=", ds, " h=", s.h, " b=", s.b, " menu=", nodes > 6 ? 2 : nodes > 5 ? 3 : 4, " gauss=", g));
      }
    }
  for (int ds = 0; ds < 5; ++ds)
    for (HB s : {HB{1, 2}, {1, 3}, {2, 2}, {1, 5}, {3, 2}, {2, 3}, {1, 8}}) out.push_back(cat("ref ds=", ds, " h=", s.h, " b=", s.b, " deep=", t));
  for (int b = 2; b <= 4; ++b)
    for (int f = 0; f < 8; ++f) out.push_back(cat("edge b=", b, " first=", f));
  out.push_back("bad all=1");
  return out;
}

Register r06("P06", {Run06, List06});
}  // namespace
}  // namespace mc
