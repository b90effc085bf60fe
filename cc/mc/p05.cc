// Sampling: every branch of the samplers, with the exact probability of taking it.
#include <cstring>

#include "env.h"
#include "realrand.h"
#include "rec.h"

namespace mc {
namespace {
typedef long double ld;
const double tiny = 5e-324;
const double kMax = 9223372036854775807.0;

double Pow2Ceil(double x) {
  int e;
  double f = std::frexp(x, &e);
  return f == 0.5 ? x : std::ldexp(1, e);
}

// ---- the real source of uniform numbers, in lockstep with a reference reading the same words
void RunWords(Ctx& c, const Case& cs) {
  std::vector<uint64_t> words;
  auto low = [](int k) -> uint64_t {
    const uint64_t m = (uint64_t{1} << 52) - 1;
    switch (k) {
      case 0: return 0;
      case 1: return m;
      case 2: return uint64_t{1} << 51;
      case 3: return 1;
      default: return 0x9e3779b97f4a7ULL * k & m;
    }
  };
  auto put = [&](uint64_t w) { words.push_back(w); };
  bool geo = cs.n("geo");
  int reps = (int)cs.n("reps", 5);
  if (!geo) {
    for (uint64_t top = 0; top < 4096; ++top)
      for (int k = 0; k < reps; ++k) {
        put(top << 52 | low(k));
        if (top == 0)
          put(k % 2 ? 1ULL << (63 - 13 * k) : ~0ULL >> k);
      }
  }
  for (int z = 0; z < 18; ++z)
    for (int lz = 0; lz < 64; ++lz)
      for (int k = 0; k < 2; ++k) {
        if (!geo) put(low(k + 4));  // top bits clear: more zeros are drawn
        for (int i = 0; i < z && i < 16; ++i) put(0);
        if (z < 16) put(1ULL << (63 - lz) | (k ? (1ULL << (63 - lz)) - 1 : 0));
        else put(~0ULL);
      }
  while (words.size() % 8192 || words.size() < 8192 * 3) put(~0ULL);
  size_t fed = 0, cur = 0;
  next_word = [&] { return fed < words.size() ? words[fed++] : ~0ULL; };
  auto ref_geo = [&] {
    int g = 1;
    for (;;) {
      uint64_t w = words[cur++];
      if (w) return g + __builtin_clzll(w);
      g += 64;
      if (g >= 1023) return g;
    }
  };
  size_t n = 0;
  while (cur + 40 < words.size()) {
    size_t at = cur;
    ++c.transitions;
    if (geo) {
      int want = ref_geo();
      uint64_t got = RealGeometric();
      if (!c.Check(got == (uint64_t)want, "geometric", [&] { return cat("word ", at, ": ", got, " not ", want); })) break;
      c.State(cat("geo ", want));
    } else {
      uint64_t w = words[cur++], top = w >> 52;
      int e = top ? __builtin_clzll(top) - 52 + 1 : 12 + ref_geo();
      double want = e >= 1023 ? std::ldexp((double)(w & ((1ULL << 52) - 1)), -1074) : std::ldexp(1 + std::ldexp((double)(w & ((1ULL << 52) - 1)), -52), -e);
      double got = RealUniformDouble();
      if (!c.Check(got == want && got < 1, "uniform", [&] { return cat("word ", at, "=", w, ": ", got, " not ", want); })) break;
      c.State(cat("u ", w));
    }
    ++n;
  }
  c.Trace(cat("numbers ", n, " from words ", cur));
  next_word = nullptr;
}

// ---- Laplace
struct Out { double v; int nu, ns; bool ok; };

Out Draw(Ctx& c, const std::function<double()>& add, const std::vector<double>& us, double filler, const std::vector<int>& signs) {
  Out o{0, 0, 0, true};
  on_uniform = [&] {
    if (++o.nu > 5000) throw Draws();
    return o.nu <= (int)us.size() ? us[o.nu - 1] : filler;
  };
  next_word = [&] {
    ++o.ns;
    bool plus = o.ns <= (int)signs.size() ? signs[o.ns - 1] : true;
    return plus ? 0ULL : ~0ULL;
  };
  ++c.transitions;
  try {
    o.v = add();
  } catch (Draws&) {
    o.ok = false;
  }
  on_uniform = nullptr;
  next_word = nullptr;
  return o;
}

bool AllSame(const std::vector<double>& p) {
  for (double x : p)
    if (x != p[0]) return false;
  return true;
}

void RunLaplace(Ctx& c, const Case& cs) {
  double eps = cs.d("eps"), linf = cs.d("linf"), l0 = cs.d("l0");
  bool integer = cs.n("int");
  int depth = (int)cs.n("depth", 6);
  std::string name = cs.text;
  double l1 = linf * l0, g = Pow2Ceil(l1 / eps / std::ldexp(1, 40));
  ld lam = (ld)g * eps / ((ld)l1 + g);
  LaplaceMechanism::Builder b;
  b.SetEpsilon(eps).SetL0Sensitivity(l0).SetLInfSensitivity(linf);
  auto m = b.Build();
  if (!c.Check(m.ok(), "lap build", [&] { return name; })) return;
  double unit = integer ? std::max(g, 1.0) : g;
  std::function<double()> add = [&] { return integer ? (double)(*m)->AddNoise((int64_t)0) : (*m)->AddNoise(0.0); };
  std::function<double()> fadd = [&] { return (*m)->AddNoise(0.0); };
  bool exact = !integer || (g >= 1 && l1 / eps < 1e17);
  const double root = 0.5;
  auto om = [&](ld k) { return -expm1l(-lam * k); };
  if (!c.Check(om(kMax) > 1 - 1e-6L, "lap range", [&] { return cat(name, ": cut off with probability ", (double)(1 - om(kMax))); })) return;
  auto out = [&](std::vector<double> path, double filler, int* nu = nullptr) {
    path.insert(path.begin(), root);
    Out o = Draw(c, add, path, filler, {});
    c.Check(o.ok, "lap ends", [&] { return name; });
    if (nu) *nu = o.nu;
    return o.v / unit;
  };
  struct Frame { std::vector<double> path; double left, right; };
  std::vector<Frame> stack{{{}, 0, kMax}};
  double lo0 = out({}, tiny);
  c.Check(lo0 == 0, "lap smallest", [&] { return cat(name, ": ", lo0); });
  while (!stack.empty() && exact) {
    Frame fr = stack.back();
    stack.pop_back();
    auto where = [&] { return cat(name, " path ", show(fr.path)); };
    c.State(where());
    int nu;
    out(fr.path, tiny, &nu);
    if (nu <= (int)fr.path.size() + 1) {
      c.Check(fr.left + 1 == fr.right || fr.right - fr.left < fr.right * 1e-15, "lap leaf", [&] { return cat(where(), ": samples (", fr.left, ", ", fr.right, "] left"); });
      continue;
    }
    auto app = [&](double u) { auto p = fr.path; p.push_back(u); return p; };
    double a = out(app(tiny), tiny), bb = out(app(1), tiny);
    if (!c.Check(a == fr.left && bb > a && bb < fr.right, "lap split", [&] { return cat(where(), ": samples from ", a, " and from ", bb, ", not (", fr.left, ", ", fr.right, "]"); })) return;
    double mid = bb, l = tiny, h = 1;
    while (std::nextafter(l, 2) < h && l < h * (1 - 1e-15)) {
      double mm = l < h / 16 ? std::sqrt(l) * std::sqrt(h) : l + (h - l) / 2;
      (out(app(mm), tiny) == a ? l : h) = mm;
    }
    ld want = om((ld)mid - fr.left) / om((ld)fr.right - fr.left), tol = mid > 9e15 ? 1e-9L : 1e-12L;
    c.Check(fabsl(l - want) <= tol * want + 2e-16L || (1 - want < 1e-15L && l > 1 - 1e-15), "lap branch", [&] { return cat(where(), ": samples up to ", mid, " with probability ", l, " not ", (double)want); });
    if ((int)fr.path.size() < depth || ((int)fr.path.size() < 3 * depth && AllSame(fr.path))) {
      stack.push_back({app(tiny), fr.left, mid});
      stack.push_back({app(1), mid, fr.right});
    }
  }
  c.Trace(name);
  for (auto us : std::vector<std::vector<double>>{{root}, {root, 0.9}, {root, 0.9, 0.1, 0.9}}) {
    Out v = Draw(c, add, us, tiny, {1}), w = Draw(c, add, us, tiny, {0, 1});
    if (v.v == 0) {
      if (exact) c.Check(v.ok && w.ok && v.ns == 1 && w.ns == 2 && w.v == 0 && w.nu > 1, "lap zero", [&] { return cat(name, ": negative zero is not drawn again: ", v.ns, " signs, then ", w.ns); });
      continue;
    }
    c.Check(v.ok && w.ok && v.ns == 1 && w.ns == 1 && v.v == -w.v, "lap sign", [&] { return cat(name, ": signs give ", v.v, " and ", w.v); });
  }
  if (!integer) {
    std::vector<double> us{root, 0.7, 0.7, 0.2};
    double v = Draw(c, fadd, us, tiny, {}).v;
    for (double x : {0.0, g, g / 2, g * 0.75, g * 0.25, -g, -g / 2, -g * 1.6, g * 1000001, 1.0, -3.7, l1 * 12.3, -l1 * 1e7, l1 * 1e11}) {
      Out o = Draw(c, [&] { return (*m)->AddNoise(x); }, us, tiny, {});
      double d = o.v - v;
      c.State(cat(name, x));
      c.Check(o.ok && std::abs(d - x) <= g * 0.5 * (1 + 1e-12) + std::abs(x) * 3e-16, "lap value", [&] { return cat(name, ": ", x, " moved to ", d); });
      c.Check(std::isinf(o.v / g) || o.v / g == std::trunc(o.v / g), "lap grid", [&] { return cat(name, " x=", x, ": ", o.v, " is not a multiple of ", g); });
    }
    return;
  }
  for (int sign = 0; sign < 2; ++sign)
    for (int k = 0; k < 64 && l1 / eps < 1e17; ++k) {
      std::vector<double> us{root};
      for (int i = 0; i < 60; ++i) us.push_back((i < 6 && (k >> i & 1)) || (i >= 6 && i * k % 3 == 0) ? 0.01 : 0.99);
      Out ref = Draw(c, fadd, us, tiny, {sign});
      for (int64_t x : {(int64_t)0, (int64_t)1, (int64_t)-1, (int64_t)7, (int64_t)-1000003, (int64_t)1 << 40, -((int64_t)1 << 53) - 1}) {
        Out o = Draw(c, [&] { return (double)((*m)->AddNoise(x) - x); }, us, tiny, {sign});
        c.State(cat(name, x, " ", k, sign));
        bool good = g < 1 ? o.v == std::round(ref.v) : std::abs(o.v - ref.v) <= g / 2 + std::abs(ref.v) * 3e-16;
        c.Check(o.ok && ref.ok && good, "lap integer", [&] { return cat(name, " x=", x, " script ", k, ": noise ", o.v, " from ", ref.v, " granularity ", g); });
      }
    }
}

// ---- Gaussian
struct Prop { int geo; bool plus; uint64_t off; };

bool Propose(Ctx& c, const std::function<double()>& add, Prop p, double u, double* v) {
  int w = 0;
  bool asked = false;
  next_word = [&]() -> uint64_t {
    if (asked || w > 200) throw Draws();
    ++w;
    if (w <= p.geo) return 0;          // heads
    if (w == p.geo + 1) return ~0ULL;  // tails
    if (w == p.geo + 2) return p.plus ? 0 : ~0ULL;
    return w == p.geo + 3 ? p.off : p.off ^ (uint64_t)w * 0x5851f;  // a biased word is drawn again
  };
  on_uniform = [&] {
    if (asked) throw Draws();
    asked = true;
    return u;
  };
  ++c.transitions;
  bool ok = true;
  try {
    *v = add();
  } catch (Draws&) {
    ok = false;
  }
  next_word = nullptr;
  on_uniform = nullptr;
  return ok;
}

void RunGauss(Ctx& c, const Case& cs) {
  std::string name = cs.text;
  double sigma = cs.d("sigma");
  GaussianMechanism::Builder b;
  b.SetStandardDeviation(sigma);
  auto m = b.Build();
  double g = Pow2Ceil(2 * sigma / std::ldexp(1, 57)), sn = 2 * sigma / g;
  std::function<double()> add = [&] { return (*m)->AddNoise(0.0); };
  const uint64_t offs[] = {2, 0x4000000000abcdefULL, 0x8000000000123457ULL, 0xc0000000007654adULL, ~0ULL};
  std::map<std::pair<int, int>, double> edge;
  double norm = 0;
  const double cut = sn * std::sqrt(std::log(sn) / 2);
  for (int geo = 0; geo <= 7; ++geo)
    for (int plus = 0; plus < 2; ++plus)
      for (int oi = 0; oi < 5; ++oi) {
        auto where = [&] { return cat(name, " cell ", plus ? geo : -geo - 1, " offset ", oi); };
        c.State(where());
        double v = 0;
        if (!Propose(c, add, {geo, plus != 0, offs[oi]}, 1e-300, &v)) {
          // only beyond the cut
          c.Check((geo + 1) * std::sqrt(2.0) * sn > cut * (1 - 1e-9), "gauss cell", [&] { return where() + " is never accepted"; });
          continue;
        }
        double k = v / g;
        edge[{plus ? geo : -geo - 1, oi}] = k;
        double dummy;
        if (!c.Check(!Propose(c, add, {geo, plus != 0, offs[oi]}, 1 - 1e-16, &dummy), "gauss certain", [&] { return where() + " is accepted for certain"; })) continue;
        double l = 1e-300, h = 1;
        while (l < h * (1 - 1e-14)) {
          double mm = l < h / 16 ? std::sqrt(l * h) : l + (h - l) / 2;
          (Propose(c, add, {geo, plus != 0, offs[oi]}, mm, &dummy) ? l : h) = mm;
        }
        double p = l * std::ldexp(1, -geo), want = std::exp(-2 * (k / sn) * (k / sn));
        if (norm == 0) norm = p / want;
        c.Check(std::abs(p - norm * want) <= 1e-9 * norm * want, "gauss density", [&] { return cat(where(), ": outcome ", v, " has relative probability ", p / norm, " not ", want); });
      }
  for (int k = -4; k < 3; ++k) {
    auto a = edge.find({k, 4}), z = edge.find({k + 1, 0});
    if (a == edge.end() || z == edge.end()) continue;
    double d = z->second - a->second;
    c.Check(d >= 0 && d <= 8 + std::abs(z->second) * 8e-16, "gauss tiling", [&] { return cat(name, ": cell ", k, " ends at ", a->second, ", the next begins at ", z->second); });
  }
  c.Check(edge.count({0, 0}) && edge[{0, 0}] == 0 && edge.count({-1, 4}) && edge[{-1, 4}] >= -8 && edge[{-1, 4}] < 0, "gauss centre", [&] { return cat(name, ": innermost cells meet at ", edge[{-1, 4}], " and ", edge[{0, 0}]); });
  c.Trace(name);
  double v = 0, got = 0;
  Propose(c, add, {0, true, offs[2]}, 1e-300, &v);
  for (double x : {0.0, 1.0, -3.7, sigma * 12.3, -sigma * 1e7, g * 0.5, g * 0.75, -g * 1.25}) {
    bool ok = Propose(c, [&] { return (*m)->AddNoise(x); }, {0, true, offs[2]}, 1e-300, &got);
    c.Check(ok && std::abs(got - v - x) <= g * 0.5 * (1 + 1e-12) + (std::abs(x) + std::abs(v)) * 3e-16, "gauss value", [&] { return cat(name, ": ", x, " moved to ", got - v); });
    c.Check(got / g == std::trunc(got / g), "gauss grid", [&] { return cat(name, " x=", x, ": ", got, " is not a multiple of ", g); });
  }
  for (int geo = 0; geo < 4; ++geo)
    for (int plus = 0; plus < 2; ++plus)
      for (uint64_t off : offs) {
        double ref;
        if (!Propose(c, add, {geo, plus != 0, off}, 1e-300, &ref) || std::abs(ref) > 4e18) continue;
        for (int64_t x : {(int64_t)0, (int64_t)1, (int64_t)-1, (int64_t)7, (int64_t)-1000003, (int64_t)1 << 40, -((int64_t)1 << 53) - 1}) {
          bool ok = Propose(c, [&] { return (double)((*m)->AddNoise(x) - x); }, {geo, plus != 0, off}, 1e-300, &got);
          c.State(cat(name, x, geo, plus, off));
          bool good = g < 1 ? got == std::round(ref) : std::abs(got - ref) <= g / 2 + std::abs(ref) * 3e-16;
          c.Check(ok && good, "gauss integer", [&] { return cat(name, " x=", x, ": noise ", got, " from ", ref, " granularity ", g); });
        }
      }
}

void Run05(Ctx& c, const Case& cs) {
  std::string k = cs.text.substr(0, cs.text.find(' '));
  if (k == "words") RunWords(c, cs);
  else if (k == "lap") RunLaplace(c, cs);
  else RunGauss(c, cs);
}

std::vector<std::string> List05(const std::string& tier) {
  bool t = tier == "thorough";
  std::vector<std::string> out;
  out.push_back(cat("words reps=", t ? 64 : 5));
  out.push_back("words geo=1");
  for (double eps : {1e-6, 0.01, 0.3, 1.0, 1.0986122886681098, 10.0, 300.0})
    for (double l0 : {1.0, 3.0, 1000.0})
      for (double linf : {1.0, 3.0, 0.001, 12345.678, 1e12, 1e-200, 1e200}) {
        std::string a = cat("lap eps=", eps, " l0=", l0, " linf=", linf, " depth=", t ? 11 : 5);
        out.push_back(a);
        if (linf == std::trunc(linf) && linf < 1e15) out.push_back(a + " int=1");
      }
  for (double s : {1e-250, 1e-20, 0.001, 0.3, 1.0, 1.5, 2.0, 3.999, 1e3, 12345.678, 1e9, 3e15, 1e17, 1e30, 1e200}) out.push_back(cat("gauss sigma=", s));
  return out;
}

Register r05("P05", {Run05, List05});
}  // namespace
}  // namespace mc
