// Accounting: privacy loss distributions, their composition and queries, convolution, searches.
#include <algorithm>

#include "accounting/accountant.h"
#include "accounting/convolution.h"
#include "accounting/privacy_loss_distribution.h"
#include "accounting/privacy_loss_mechanism.h"
#include "rec.h"

namespace mc {
namespace {
using namespace differential_privacy::accounting;
typedef long double ld;
typedef PrivacyLossDistribution PLD;
typedef std::unique_ptr<PLD> P;
const EstimateType kP = EstimateType::kPessimistic, kO = EstimateType::kOptimistic;

// ---- reference: losses in units of one interval, exact convolution
struct Ref {
  std::map<long, ld> m;
  ld inf = 0;
  ld Delta(ld eps, ld d) const {
    ld r = inf;
    for (auto& [k, p] : m)
      if (k * d > eps) r += p * -expm1l(eps - k * d);
    return r;
  }
};
Ref Times(const Ref& a, const Ref& b) {
  Ref r;
  r.inf = a.inf + b.inf - a.inf * b.inf;
  for (auto& [i, p] : a.m)
    for (auto& [j, q] : b.m) r.m[i + j] += p * q;
  return r;
}
Ref RefOf(const PLD& p) {
  Ref r;
  r.inf = p.InfinityMass();
  for (auto& [k, v] : p.Pmf()) r.m[k] = v;
  return r;
}

// delta(eps) between exact bounds, and the two queries against each other
struct Band { std::function<ld(ld)> low, high; };
void Queries(Ctx& c, const PLD& p, const Band& b, ld tol, const std::vector<double>& epss, const std::string& key, const std::function<std::string()>& name) {
  ld prev = INFINITY;
  for (double e : epss) {
    ld got = p.GetDeltaForEpsilon(e), lo = b.low(e), hi = b.high(e);
    ++c.transitions;
    c.Check(got >= lo - tol - 1e-12L * lo && got <= hi + tol + 1e-12L * hi, key + " delta", [&] { return cat(name(), ": delta(", e, ")=", (double)got, " outside [", (double)lo, ", ", (double)hi, "]"); });
    c.Check(got <= prev + 1e-15L, key + " delta decreases", [&] { return cat(name(), ": delta(", e, ")=", (double)got, " above ", (double)prev); });
    prev = got;
  }
  double last = INFINITY;
  for (double de : {0.0, 1e-300, 1e-15, 1e-9, 1e-6, 1e-3, 0.02, 0.1, 0.3, 0.5, 0.75, 0.9, 0.999, 1.0}) {
    double e = p.GetEpsilonForDelta(de);
    ++c.transitions;
    auto say = [&] { return cat(name(), ": epsilon(", de, ")=", e, " infinite mass ", p.InfinityMass()); };
    if (std::isinf(e)) {
      c.Check(p.InfinityMass() > de && e > 0, key + " epsilon infinite", say);
    } else if (c.Check(e >= 0 && !(p.InfinityMass() > de), key + " epsilon", say)) {
      ld at = p.GetDeltaForEpsilon(e * (1 + 1e-12) + 1e-12);
      c.Check(at <= de + 1e-12L * de + 1e-15L, key + " epsilon not enough", [&] { return cat(say(), " but delta there is ", (double)at); });
      if (e > 1e-9 && e < 700) {  // beyond, any upper estimate
        ld less = p.GetDeltaForEpsilon(e * (1 - 1e-6) - 1e-9);
        c.Check(less >= de - 1e-13L, key + " epsilon too large", [&] { return cat(say(), " but delta just below is ", (double)less); });
      }
    }
    c.Check(e > 700 || e <= last * (1 + 1e-9) + 1e-9, key + " epsilon decreases", say);
    last = e;
  }
}

std::vector<double> Epss(ld top, double d) {
  std::set<double> s = {0, d / 2, d, 2 * d, 0.05, 0.1, 0.5, 1, 1.7, 3, 8, 40};
  for (ld f : {0.1L, 0.3L, 0.5L, 0.7L, 0.9L, 0.99L, 1.0L, 1.01L}) s.insert((double)(f * top));
  s.insert((double)(top - d));
  s.insert((double)(top + d));
  std::vector<double> r;
  for (double e : s)
    if (e >= 0) r.push_back(e);
  return r;
}

// ---- one mechanism, with its exact curve D(eps), all eps
void Mechanism(Ctx& c, absl::StatusOr<P> p, EstimateType t, double d, ld trunc, const std::function<ld(ld)>& D, ld top, const std::string& key, const std::string& name) {
  c.State(name);
  if (!c.Check(p.ok(), key + " create", [&] { return cat(name, ": ", p.status().message()); })) return;
  Band b;
  if (t == kP) b = {[&](ld e) { return D(e); }, [&](ld e) { return D(e - d) + trunc; }};
  else b = {[&](ld e) { return std::max(D(e + d) - trunc, (ld)0); }, [&](ld e) { return D(e); }};
  ld mass = (*p)->InfinityMass();
  bool good = true;
  for (auto& [k, v] : (*p)->Pmf()) { mass += v; good = good && v >= 0; }
  c.Check(good, key + " masses", [&] { return name + " has a negative probability"; });
  c.Check(t == kP ? fabsl(mass - 1) <= 1e-11L : mass <= 1 + 1e-11L && mass >= 1 - trunc - 1e-11L, key + " total", [&] { return cat(name, ": masses sum to ", (double)mass); });
  c.Check((*p)->DiscretizationInterval() == d && (*p)->GetEstimateType() == t, key + " parameters", [&] { return name; });
  Queries(c, **p, b, 2e-15L, Epss(top, d), key, [&] { return name; });
  c.Trace(name);
}

// D below zero of a mechanism whose two sides are alike
std::function<ld(ld)> Sym(std::function<ld(ld)> D) {
  return [D](ld e) { return e >= 0 ? std::max(D(e), (ld)0) : -expm1l(-std::fabs(e)) + expl(e) * std::max(D(-e), (ld)0); };
}
ld Phi(ld z) { return 0.5L * erfcl(-z / sqrtl(2.0L)); }

struct Table {  // P(o), Q(o)
  std::vector<std::pair<ld, ld>> o;
  ld D(ld e) const {
    ld r = 0;
    for (auto& [p, q] : o) r += std::max(p - expl(e) * q, (ld)0);
    return r;
  }
};

void RunMech(Ctx& c, const Case& cs) {
  std::string kind = cs.s("kind"), name = cs.text;
  double d = cs.d("d"), x = cs.d("x"), s = cs.d("s", 1);
  EstimateType t = cs.n("opt") ? kO : kP;
  if (kind == "lap") {
    ld L = (ld)s / x;
    Mechanism(c, PLD::CreateForLaplaceMechanism(x, s, t, d), t, d, 0, Sym([=](ld e) { return e >= L ? 0 : -expm1l((e - L) / 2); }), L, "lap", name);
  } else if (kind == "gau") {
    double tr = cs.d("trunc", -50);
    ld m = (ld)s / x;
    Mechanism(c, PLD::CreateForGaussianMechanism(x, s, t, d, tr), t, d, expl(tr), Sym([=](ld e) { return Phi(m / 2 - e / m) - expl(e) * Phi(-m / 2 - e / m); }), m * m / 2 + 3 * m, "gau", name);
  } else if (kind == "dlap") {
    int k = (int)s;
    Table tb;
    ld a = x, z = tanhl(a / 2);
    for (long i = -12000 / std::max(1.0, x * 20) - 3 * k; i <= 12000 / std::max(1.0, x * 20) + 3 * k; ++i) tb.o.push_back({z * expl(-a * labs(i)), z * expl(-a * labs(i - k))});
    Mechanism(c, PLD::CreateForDiscreteLaplaceMechanism(x, k, t, d), t, d, 0, [=](ld e) { return tb.D(e); }, a * k, "dlap", name);
  } else if (kind == "dgau") {
    int k = (int)s;
    long T = cs.n("T", -1);
    bool set = T >= 0;
    if (!set) T = std::max<long>(std::ceil(11.6 * x), (k + 1) / 2);
    Table tb;
    ld sum = 0;
    auto f = [&](long i) { return std::labs(i) > T ? (ld)0 : expl(-0.5L * i * i / ((ld)x * x)); };
    for (long i = -T; i <= T; ++i) sum += f(i);
    for (long i = -T - k; i <= T + k; ++i) tb.o.push_back({f(i) / sum, f(i - k) / sum});
    Mechanism(c, PLD::CreateForDiscreteGaussianMechanism(x, k, t, d, set ? std::optional<int>((int)T) : std::nullopt), t, d, 0, [=](ld e) { return tb.D(e); }, k * (ld)k / (2 * (ld)x * x) + 2 * k / x, "dgau", name);
    auto m = DiscreteGaussianPrivacyLoss::Create(x, k, set ? std::optional<int>((int)T) : std::nullopt);
    if (c.Check(m.ok(), "dgau create", [&] { return name; })) {
      ld var = 0;
      for (long i = -T; i <= T; ++i) var += f(i) / sum * i * i;
      c.Check(fabsl((*m)->StandardDeviation() - sqrtl(var)) <= 1e-12L * sqrtl(var), "dgau deviation", [&] { return cat(name, ": ", (*m)->StandardDeviation()); });
    }
  } else if (kind == "rr") {
    int k = (int)s;
    ld eq = 1 - (ld)x + (ld)x / k, ne = (ld)x / k;
    Table tb{{{eq, ne}, {ne, eq}, {ne * (k - 2), ne * (k - 2)}}};
    Mechanism(c, PLD::CreateForRandomizedResponse(x, k, t, d), t, d, 0, [=](ld e) { return tb.D(e); }, logl(eq / ne), "rr", name);
  } else if (kind == "par") {
    ld e0 = x, de = s;
    Table tb{{{de, 0}, {(1 - de) / (1 + expl(-e0)), (1 - de) / (1 + expl(e0))}, {(1 - de) / (1 + expl(e0)), (1 - de) / (1 + expl(-e0))}}};
    Mechanism(c, absl::StatusOr<P>(PLD::CreateForPrivacyParameters({x, s}, d)), kP, d, 0, [=](ld e) { return tb.D(e); }, e0, "parameters", name);
  }
}

// ---- the curve of the mechanisms themselves, and creation for given epsilon and delta
void RunLoss(Ctx& c, const Case& cs) {
  std::string name = cs.text;
  auto one = [&](AdditiveNoisePrivacyLoss& m, const std::function<ld(ld)>& D, const std::function<ld(ld)>& tol, const std::string& key, const std::string& nm) {
    c.State(nm);
    for (double e : {0.0, 0.01, 0.3, 1.0, 2.0, 5.0, 20.0, 100.0, 650.0, 720.0, 1500.0}) {
      ld got = m.GetDeltaForEpsilon(e), want = D(e);
      ++c.transitions;
      c.Check(got >= want - tol(e) && got <= want + tol(e), key + " exact delta", [&] { return cat(nm, ": delta(", e, ")=", (double)got, " not ", (double)want); });
    }
    // the inverse: the largest point whose loss is at least the one given
    for (double l : {-30.0, -2.0, -1.0, -0.4, -1e-3, 0.0, 1e-3, 0.4, 1.0, 2.0, 30.0}) {
      double x = m.InversePrivacyLoss(l);
      ++c.transitions;
      bool disc = m.Discrete() == NoiseType::kDiscrete;
      auto say = [&] { return cat(nm, ": loss ", l, " at ", x); };
      if (std::isinf(x)) continue;
      double step = disc ? 1 : 1e-9 * (1 + std::abs(x));
      if (disc) c.Check(x == std::floor(x) && m.PrivacyLoss(x) >= l - 1e-9, key + " inverse", say);
      else c.Check(m.PrivacyLoss(x - step) >= l - 1e-12, key + " inverse", say);
      c.Check(m.PrivacyLoss(x + step) <= l + 1e-12 && (!disc || m.PrivacyLoss(x + 1) < l + 1e-9), key + " inverse", say);
    }
    double prev = 0;
    for (double x = -30; x <= 30; x += 0.25) {
      double f = m.NoiseCdf(x);
      c.Check(f >= prev - 1e-16 && f <= 1 && std::abs(f + m.NoiseCdf(m.Discrete() == NoiseType::kDiscrete ? -std::floor(x) - 1 : -x) - 1) <= 1e-12, key + " distribution", [&] { return cat(nm, ": F(", x, ")=", f); });
      prev = f;
    }
    c.Trace(nm);
  };
  auto expo = [](ld e) { return 1e-15L + expl(std::min((ld)e, (ld)0)) * 0; };
  std::string kind = cs.s("kind");
  double x = cs.d("x"), s = cs.d("s", 1);
  if (kind == "lap") {
    ld L = (ld)s / x;
    auto m = LaplacePrivacyLoss::Create(x, s);
    if (c.Check(m.ok(), "lap", [&] { return name; })) one(**m, [=](ld e) { return e >= L ? 0 : -expm1l((e - L) / 2); }, [&](ld e) { return 1e-15L * (2 + L); }, "lap", name);
  } else if (kind == "gau") {
    ld u = (ld)s / x;
    auto m = GaussianPrivacyLoss::Create(x, s);
    auto D = [=](ld e) { return std::max(Phi(u / 2 - e / u) - expl(e) * Phi(-u / 2 - e / u), (ld)0); };
    if (c.Check(m.ok(), "gau", [&] { return name; })) {
      one(**m, D, [&](ld e) { return 1e-14L * (1 + u * u + e * e / u / u) * (Phi(u / 2 - e / u) + 1e-2L); }, "gau", name);
      for (int n : {1, 2, 5, 100}) {
        auto q = (*m)->Compose(n);
        c.Check(q.ok() && (*q)->StandardDeviation() == x && std::abs((*q)->Sensitivity() - s * std::sqrt((double)n)) <= 1e-14 * s * n, "gau compose", [&] { return cat(name, " ", n, " times"); });
      }
    }
  } else if (kind == "dlap") {
    int k = (int)s;
    auto m = DiscreteLaplacePrivacyLoss::Create(x, k);
    Table tb;
    ld a = x, z = tanhl(a / 2);
    for (long i = -8000 / std::max(1.0, x * 20) - 3 * k; i <= 8000 / std::max(1.0, x * 20) + 3 * k; ++i) tb.o.push_back({z * expl(-a * labs(i)), z * expl(-a * labs(i - k))});
    if (c.Check(m.ok(), "dlap", [&] { return name; })) one(**m, [=](ld e) { return tb.D(e); }, [&](ld e) { return 1e-14L; }, "dlap", name);
  } else if (kind == "dgau") {
    int k = (int)s;
    long T = cs.n("T", -1);
    bool set = T >= 0;
    if (!set) T = std::max<long>(std::ceil(11.6 * x), (k + 1) / 2);
    auto m = DiscreteGaussianPrivacyLoss::Create(x, k, set ? std::optional<int>((int)T) : std::nullopt);
    Table tb;
    ld sum = 0;
    auto f = [&](long i) { return std::labs(i) > T ? (ld)0 : expl(-0.5L * i * i / ((ld)x * x)); };
    for (long i = -T; i <= T; ++i) sum += f(i);
    for (long i = -T - k; i <= T + k; ++i) tb.o.push_back({f(i) / sum, f(i - k) / sum});
    if (c.Check(m.ok() && (*m)->TruncationBound() == T, "dgau", [&] { return name; })) one(**m, [=](ld e) { return tb.D(e); }, [&](ld e) { return 1e-14L; }, "dgau", name);
  }
  (void)expo;
}

void RunTarget(Ctx& c, const Case& cs) {
  double eps = cs.d("eps"), delta = cs.d("delta");
  std::string name = cs.text;
  c.State(name);
  c.Trace(name);
  if (delta == 0) {
    auto l = LaplacePrivacyLoss::Create(EpsilonDelta{eps, 0});
    c.Check(l.ok() && std::abs((*l)->Sensitivity() / (*l)->Parameter() - eps) <= 1e-14 * eps, "lap for epsilon", [&] { return name; });
    for (int k : {1, 2, 5}) {
      auto m = DiscreteLaplacePrivacyLoss::Create({eps, 0}, k);
      c.Check(m.ok() && std::abs((*m)->Parameter() * k - eps) <= 1e-14 * eps && (*m)->Sensitivity() == k, "dlap for epsilon", [&] { return name; });
    }
    c.Check(!GaussianPrivacyLoss::Create(EpsilonDelta{eps, 0}).ok() && !DiscreteGaussianPrivacyLoss::Create({eps, 0}, 1).ok(), "gau for delta 0", [&] { return name; });
    return;
  }
  ++c.transitions;
  auto g = GaussianPrivacyLoss::Create(EpsilonDelta{eps, delta});
  if (c.Check(g.ok(), "gau for epsilon", [&] { return name; })) {
    auto D = [&](ld x) { ld u = 1 / x; return Phi(u / 2 - eps / u) - expl(eps) * Phi(-u / 2 - eps / u); };
    ld x = (*g)->StandardDeviation();
    c.Check((*g)->Sensitivity() == 1 && D(x) <= delta * (1 + 1e-9L) + 1e-15L, "gau for epsilon", [&] { return cat(name, ": deviation ", (double)x, " has delta ", (double)D(x)); });
    c.Check(x <= 3e-7 || eps > 700 || D(x - 3e-7) >= delta * (1 - 1e-9L) - 1e-15L, "gau for epsilon smallest", [&] { return cat(name, ": deviation ", (double)x, " a bit less has ", (double)D(x - 3e-7)); });
  }
  for (int k : {1, 2, 7, 100}) {
    if (eps < 0.05) continue;
    if (k == 100 && eps < 1) continue;
    auto m = DiscreteGaussianPrivacyLoss::Create({eps, delta}, k);
    ++c.transitions;
    if (!c.Check(m.ok(), "dgau for epsilon", [&] { return cat(name, " sensitivity ", k, ": ", m.status().message()); })) continue;
    auto D = [&](double x) {
      long T = std::max<long>(std::ceil(11.6 * x), (k + 1) / 2);
      auto f = [&](long i) { return std::labs(i) > T ? (ld)0 : expl(-0.5L * i * i / ((ld)x * x)); };
      ld sum = 0, r = 0;
      for (long i = -T; i <= T; ++i) sum += f(i);
      for (long i = -T; i <= T; ++i) r += std::max(f(i) - expl(eps) * f(i - k), (ld)0);
      return r / sum;
    };
    double x = (*m)->Sigma();
    c.Check((*m)->Sensitivity() == k && D(x) <= delta * (1 + 1e-9L) + 1e-14L, "dgau for epsilon", [&] { return cat(name, " sensitivity ", k, ": sigma ", x, " has delta ", (double)D(x)); });
    c.Check(x <= 3e-7 || D(x - 3e-7) >= delta * (1 - 1e-9L) - 1e-14L, "dgau for epsilon smallest", [&] { return cat(name, " sensitivity ", k, ": sigma ", x, " a bit less has ", (double)D(x - 3e-7)); });
  }
}

// ---- any two distributions over a few outcomes
void RunPair(Ctx& c, const Case& cs) {
  int den = (int)cs.n("den", 4), n = (int)cs.n("n", 3);
  double d = cs.d("d"), cut = cs.d("cut", -50);
  std::vector<std::vector<double>> ps;
  std::vector<double> cur;
  bool wide = cs.n("wide");
  std::function<void(int)> go = [&](int left) {
    if ((int)cur.size() == n - 1) { cur.push_back(left); ps.push_back(cur); cur.pop_back(); return; }
    for (int k = 0; k <= left; ++k) { cur.push_back(k); go(left - k); cur.pop_back(); }
  };
  go(den);
  // masses of very different sizes
  if (wide) {
    ps.clear();
    for (double a : {0.0, 1e-30, 1e-9, 0.2})
      for (double b : {0.0, 1e-21, 1e-3, 0.5}) ps.push_back({a, b, 1 - a - b});
    den = 1;
  }
  for (auto& a : ps)
    for (auto& b : ps) {
      ProbabilityMassFunction up, lo;
      Table tb;
      ld trunc = 0;
      for (int i = 0; i < n; ++i) {
        if (a[i] > 0) up[i * 7 - 3] = a[i] / den;
        if (b[i] > 0) lo[i * 7 - 3] = b[i] / den;
        tb.o.push_back({(ld)a[i] / den, (ld)b[i] / den});
        if (a[i] > 0 && b[i] > 0 && std::log(a[i] / den) <= cut) trunc += (ld)a[i] / den;
      }
      for (EstimateType t : {kP, kO}) {
        std::string name = cat(cs.text, t == kP ? "" : " optimistic", " upper ", show(a), " lower ", show(b));
        P p = PLD::Create(lo, up, t, d, cut);
        Mechanism(c, std::move(p), t, d, trunc, [&](ld e) { return tb.D(e); }, 1.3L, "table", name);
      }
    }
}

// ---- histories of composition
void RunHist(Ctx& c, const Case& cs) {
  bool opt = cs.n("opt");
  EstimateType t = opt ? kO : kP;
  double d = cs.d("d", 0.5);
  int depth = (int)cs.n("depth", 3);
  std::vector<std::pair<std::string, std::function<P()>>> make = {
      {"laplace", [&] { return std::move(PLD::CreateForLaplaceMechanism(1, 1, t, d).value()); }},
      {"identity", [&] { return t == kP ? PLD::CreateIdentity(d) : PLD::Create({{0, 1}}, {{0, 1}}, t, d); }},
      {"gaussian", [&] { return std::move(PLD::CreateForGaussianMechanism(0.7, 1, t, d, -20).value()); }},
      {"table", [&] { return PLD::Create({{0, 0.6}, {1, 0.4}}, {{0, 0.25}, {1, 0.5}, {2, 0.25}}, t, d); }},
      {"far", [&] { return PLD::Create({{0, 1e-18}, {1, 1 - 1e-18}}, {{0, 0.5}, {1, 0.5}}, t, d); }},
      {"parameters", [&] { return t == kP ? PLD::CreateForPrivacyParameters({1.2, 0.1}, d) : PLD::Create({{0, 0.3}, {1, 0.7}}, {{0, 0.7}, {1, 0.3}}, t, d); }},
      {"hopeless", [&] { return t == kP ? PLD::CreateForPrivacyParameters({1, 1 - 1e-7}, d) : PLD::Create({{0, 0.5}, {1, 0.5}}, {{0, 1e-9}, {2, 1 - 1e-9}}, t, d); }},
  };
  std::vector<double> tails = {0, 1e-15, 1e-4, 0.3};
  struct Op { int other, times; double tail; };
  std::vector<Op> ops;
  for (int o : {0, 3, 4, 5, 6})
    for (double tl : tails) ops.push_back({o, 0, tl});
  for (int n : {0, 1, 2, 5})
    for (double tl : tails) ops.push_back({-1, n, tl});
  ops.push_back({-2, 0, 0});
  int start = (int)cs.n("start");
  std::vector<Ref> refs;
  std::vector<P> others;
  for (auto& m : make) { others.push_back(m.second()); refs.push_back(RefOf(*others.back())); }
  std::vector<int> hist;
  std::function<void(int)> dfs = [&](int left) {
    P p = make[start].second();
    Ref r = refs[start];
    ld slack = 0, tol = 1e-14L;
    std::string name = cat(cs.text, " ", make[start].first);
    for (int i : hist) {
      const Op& o = ops[i];
      if (o.other >= 0) {
        name += cat("; with ", make[o.other].first, " tail ", o.tail);
        // asked without composing, it is the same
        for (double e : {0.0, 0.3, 1.0, 2.75, 30.0, 1000.0}) {
          auto q = p->GetDeltaForEpsilonForComposedPLD(*others[o.other], e);
          ld want = Times(RefOf(*p), refs[o.other]).Delta(e, d);
          c.Check(q.ok() && fabsl(*q - want) <= 1e-13L, "composed delta", [&] { return cat(name, ": delta(", e, ")=", q.ok() ? *q : NAN, " not ", (double)want); });
        }
        auto st = p->Compose(*others[o.other], o.tail);
        c.Check(st.ok(), "compose", [&] { return cat(name, ": ", st.message()); });
        r = Times(r, refs[o.other]);
        slack += o.tail;
      } else if (o.other == -1) {
        name += cat("; ", o.times, " times tail ", o.tail);
        p->Compose(o.times, o.tail);
        Ref q;
        q.m[0] = 1;
        for (int k = 0; k < o.times; ++k) q = Times(q, r);
        r = q;
        slack = slack * o.times + (opt ? 0 : 2 * o.tail);  // what is cut counts as infinite, and may wrap around upwards
        tol *= std::max(1, o.times);
      } else {
        auto s = p->Serialize();
        if (!c.Check(s.ok() == !opt, "serialize", [&] { return name; })) return;
        if (opt) continue;
        name += "; restored";
        auto b = PLD::Deserialize(*s);
        if (!c.Check(b.ok(), "deserialize", [&] { return name; })) return;
        bool same = (*b)->InfinityMass() == p->InfinityMass() && (*b)->DiscretizationInterval() == d;
        for (auto& [k, v] : p->Pmf()) same = same && (v == 0 || ((*b)->Pmf().count(k) && (*b)->Pmf().at(k) == v));
        for (auto& [k, v] : (*b)->Pmf()) same = same && p->Pmf().count(k);
        c.Check(same, "restored", [&] { return name; });
        p = std::move(*b);
      }
      tol += 3e-15L;
    }
    c.State(name);
    c.Trace(name);
    ld over = slack;
    Band b;
    if (!opt) b = {[&](ld e) { return r.Delta(e, d); }, [&](ld e) { return r.Delta(e, d) + over; }};
    else b = {[&](ld e) { return std::max(r.Delta(e, d) - over, (ld)0); }, [&](ld e) { return r.Delta(e, d); }};
    // probabilities, so that a pessimistic answer never promises less than the truth
    Queries(c, *p, b, tol, {0, 0.2, 0.5, 1, 1.25, 2, 4, 9, 25, 60}, opt ? "history optimistic" : "history", [&] { return name; });
    if (!left) return;
    for (int i = 0; i < (int)ops.size(); ++i) {
      hist.push_back(i);
      dfs(left - 1);
      hist.pop_back();
    }
  };
  dfs(depth);
  // what must not be composed
  P a = make[start].second();
  auto before = RefOf(*a);
  P wrong = PLD::Create({{0, 0.6}, {1, 0.4}}, {{0, 0.25}, {1, 0.75}}, opt ? kP : kO, d), wrong2 = PLD::Create({{0, 0.6}, {1, 0.4}}, {{0, 0.25}, {1, 0.75}}, t, d * 2);
  for (auto* w : {wrong.get(), wrong2.get()}) {
    c.Check(!a->Compose(*w).ok() && !a->GetDeltaForEpsilonForComposedPLD(*w, 1).ok() && !a->ValidateComposition(*w).ok(), "mixed composition", [&] { return cs.text; });
    auto after = RefOf(*a);
    c.Check(after.m == before.m && after.inf == before.inf, "mixed composition changes", [&] { return cs.text; });
  }
}

// ---- convolution
void RunConv(Ctx& c, const Case& cs) {
  int n = (int)cs.n("n", 4), den = (int)cs.n("den", 3);
  std::vector<std::vector<double>> ps;
  std::vector<double> cur;
  std::function<void(int, int)> go = [&](int k, int left) {
    if (k == n) { if (left < den) ps.push_back(cur); return; }
    for (int v = 0; v <= left; ++v) { cur.push_back(v); go(k + 1, left - v); cur.pop_back(); }
  };
  go(0, den);
  double scale = cs.d("scale", 1);
  auto pmf = [&](const std::vector<double>& v, int shift) {
    ProbabilityMassFunction m;
    for (int i = 0; i < n; ++i)
      if (v[i] > 0) m[i + shift] = v[i] / den * (i && scale < 1 ? std::pow(scale, i) : 1);
    return m;
  };
  auto sums = [](const ProbabilityMassFunction& m) { Ref r; for (auto& [k, v] : m) r.m[k] = v; return r; };
  auto close = [&](const ProbabilityMassFunction& got, Ref want, double tail, const char* key, const std::function<std::string()>& name) {
    ld low = 0, high = 0, tot = 0;
    long first = INT64_MAX, last = INT64_MIN;
    for (auto& [k, v] : got) { first = std::min(first, (long)k); last = std::max(last, (long)k); }
    for (auto& [k, p] : want.m) {
      tot += p;
      auto it = got.find((int)k);
      ld g = it == got.end() ? 0 : it->second;
      if (k < first) low += p;
      else if (k > last) high += p;
      else c.Check(fabsl(g - p) <= 1e-14L, std::string(key) + " mass", [&] { return cat(name(), ": mass ", (double)g, " at ", k, " not ", (double)p); });
    }
    for (auto& [k, v] : got) c.Check(v <= 1e-14 || want.m.count(k), std::string(key) + " place", [&] { return cat(name(), ": mass ", v, " at ", k); });
    c.Check(low + high <= tail + 1e-14L && (got.empty() || (low <= tail / 2 + 1e-14L && high <= tail / 2 + 1e-14L)), std::string(key) + " tails", [&] { return cat(name(), ": drops ", (double)low, " and ", (double)high, " for a tail of ", tail); });
  };
  for (size_t a = 0; a < ps.size(); ++a) {
    for (int shift : {-5, 0}) {
      auto x = pmf(ps[a], shift);
      // packing
      auto u = UnpackProbabilityMassFunction(x);
      bool same = true;
      for (size_t i = 0; i < u.items.size(); ++i) {
        auto it = x.find((int)i + u.min_key);
        same = same && u.items[i] == (it == x.end() ? 0 : it->second);
      }
      c.Check(same && (u.items.empty() ? x.empty() : u.items.front() > 0 && u.items.back() > 0), "unpack", [&] { return cat("pmf ", show(ps[a])); });
      if (!x.empty())
        for (double tail : {0.0, 0.2, 0.7, 1.0}) {
          auto back = CreateProbabilityMassFunction(u, tail);
          close(back, sums(x), tail, "pack", [&] { return cat(cs.text, " pmf ", show(ps[a]), " tail ", tail); });
        }
      for (size_t b = 0; b < ps.size(); ++b) {
        auto y = pmf(ps[b], 2);
        for (double tail : {0.0, 1e-15, 0.3}) {
          auto r = Convolve(x, y, tail);
          ++c.transitions;
          close(r, Times(sums(x), sums(y)), tail, "convolution", [&] { return cat(cs.text, " pmfs ", show(ps[a]), " ", show(ps[b]), " tail ", tail); });
        }
      }
      for (int k : {0, 1, 2, 3, 6}) {
        Ref want;
        want.m[0] = 1;
        for (int i = 0; i < k; ++i) want = Times(want, sums(x));
        ld tot = 0;
        for (auto& [i, p] : want.m) tot += p;
        for (double tail : {0.0, 1e-15, 1e-6, 0.01, 0.5}) {
          auto r = Convolve(x, k, tail);
          ++c.transitions;
          auto name = [&] { return cat(cs.text, " pmf ", show(ps[a]), " from ", shift, " ", k, " times tail ", tail); };
          c.State(name());
          c.Trace(name());
          if (tail == 0) { close(r, want, 0, "power", name); continue; }
          // the bounds by which it is cut, and what wraps around them
          if (!u.items.empty()) {
            auto bd = ComputeConvolutionTruncationBounds(u, k, tail);
            ld below = 0, above = 0;
            for (auto& [i, p] : want.m) {
              long at = i - (long)u.min_key * k;
              if (at < bd.lower_bound) below += p;
              if (at > bd.upper_bound) above += p;
            }
            c.Check(below <= tail / 2 * (1 + 1e-12) && above <= tail / 2 * (1 + 1e-12), "truncation bounds", [&] { return cat(name(), ": [", bd.lower_bound, ", ", bd.upper_bound, "] drops ", (double)below, " and ", (double)above); });
          }
          ld off = 0, got = 0;
          for (auto& [i, p] : want.m) {
            auto it = r.find((int)i);
            off += std::max((ld)0, p - (it == r.end() ? 0 : it->second));
          }
          for (auto& [i, v] : r) got += v;
          c.Check(off <= tail + 1e-13L && got <= tot + 1e-13L, "power with tail", [&] { return cat(name(), ": misses ", (double)off, ", total ", (double)got, " of ", (double)tot); });
        }
      }
    }
  }
}

// ---- searches
void RunSearch(Ctx& c, const Case&) {
  const int N = 9;
  // every place of the step, both directions, continuous and discrete, guesses
  for (int inc = 0; inc < 2; ++inc)
    for (int disc = 0; disc < 2; ++disc)
      for (double at = -0.5; at <= N + 0.5; at += disc ? 0.5 : 0.25)
        for (double guess : {-1.0, 1.0, 2.0, 4.0, 8.0})
          for (int open = 0; open < 2; ++open)
            for (int bad = -1; bad < 4; ++bad)
            for (double value : {0.0, 1.0, 0.5}) {
              BinarySearchParameters p{0, open && !inc ? INFINITY : (double)N};
              if (guess > 0) p.initial_guess = guess;
              if (open && (inc || guess < 0)) continue;
              p.discrete = disc;
              p.tolerance = 1e-3;
              int calls = 0;
              auto f = [&](double x) -> absl::StatusOr<double> {
                if (calls++ == bad) return absl::InternalError("no");
                if (inc) return x < at ? 0.0 : x == at ? 0.5 : 1.0;
                return x < at ? 1.0 : x == at ? 0.5 : 0.0;
              };
              auto r = InverseMonotoneFunction(f, value, p, inc);
              ++c.transitions;
              auto name = [&] { return cat("step at ", at, inc ? " up" : " down", disc ? " discrete" : "", " value ", value, " guess ", guess, " upper ", p.upper_bound, " fails call ", bad, r.ok() ? cat(" gives ", *r) : std::string(" refused")); };
              if (calls > bad && bad >= 0) {
                c.Check(!r.ok() && r.status().code() == absl::StatusCode::kInternal, "search error", name);
                continue;
              }
              auto fv = [&](double x) { return inc ? (x < at ? 0.0 : x == at ? 0.5 : 1.0) : (x < at ? 1.0 : x == at ? 0.5 : 0.0); };
              bool exists = open || fv(inc ? 0 : N) <= value;
              c.State(name());
              if (!c.Check(r.ok() == exists, "search", name) || !exists) continue;
              c.Check(fv(*r) <= value && *r >= 0 && (open || *r <= N), "search", name);
              double step = disc ? 1 : 1.1e-3, next = inc ? *r + step : *r - step;
              if (next > 0 && next < N) c.Check(fv(next) > value, "search best", name);
              if (disc) c.Check(*r == std::floor(*r), "search", name);
            }
  c.Trace("searches");
}

void RunAcct(Ctx& c, const Case& cs) {
  double eps = cs.d("eps");
  std::string kind = cs.s("kind");
  if (kind == "adv") {
    for (double delta : {0.0, 1e-9, 1e-3, 0.05})
      for (int k : {1, 2, 3, 7, 30, 200}) {
        // exact: number of -epsilon outcomes among k
        auto D = [&](ld e) {
          ld r = 0, q = 1 / (1 + expl(-(ld)eps));
          for (int j = 0; j <= k; ++j) {
            ld l = eps * (ld)(k - 2 * j);
            if (l > e) r += expl(lgammal(k + 1) - lgammal(j + 1) - lgammal(k - j + 1) + (k - j) * logl(q) + j * log1pl(-q)) * -expm1l(e - l);
          }
          return 1 - powl(1 - (ld)delta, k) * (1 - r);
        };
        for (double tot : {0.0, 1e-12, 1e-8, 1e-4, 0.01, 0.2, 0.6, 0.99}) {
          auto r = AdvancedComposition({eps, delta}, k, tot);
          ++c.transitions;
          auto name = [&] { return cat("advanced composition eps=", eps, " delta=", delta, " ", k, " times total delta ", tot, r.ok() ? cat(" gives ", *r) : cat(": ", r.status().message())); };
          c.State(name());
          c.Trace(name());
          ld most = D(eps * (ld)k);  // what cannot be avoided
          if (!r.ok()) {
            c.Check(most > tot * (1 - 1e-12L) - 1e-15L, "advanced composition refuses", name);
            continue;
          }
          c.Check(D(*r) <= tot * (1 + 1e-10L) + 1e-14L, "advanced composition", [&] { return cat(name(), " which has delta ", (double)D(*r)); });
          double less = *r - 2 * eps;
          c.Check(less < -1e-12 || D(less) >= tot * (1 - 1e-10L) - 1e-14L, "advanced composition not smallest", [&] { return cat(name(), " but ", less, " has ", (double)D(less)); });
        }
      }
  } else {
    double delta = cs.d("delta");
    int k = (int)cs.n("k");
    double s = cs.d("s");
    NoiseFunction f;
    if (kind == "lap") f = [](double x, double s) { return std::unique_ptr<AdditiveNoisePrivacyLoss>(std::move(LaplacePrivacyLoss::Create(x, s).value())); };
    else f = [](double x, double s) { return std::unique_ptr<AdditiveNoisePrivacyLoss>(std::move(GaussianPrivacyLoss::Create(x, s).value())); };
    auto r = GetSmallestParameter({eps, delta}, k, s, f, kind == "lap" ? std::nullopt : std::optional<double>(60 * s), 0.01 * s);
    ++c.transitions;
    std::string name = cs.text;
    c.State(name);
    c.Trace(name);
    if (!c.Check(r.ok(), "smallest parameter", [&] { return cat(name, ": ", r.status().message()); })) return;
    std::function<ld(ld)> D;
    if (kind == "gau") D = [&](ld x) { ld u = s * sqrtl(k) / x; return Phi(u / 2 - eps / u) - expl(eps) * Phi(-u / 2 - eps / u); };
    else D = [&](ld x) { return k == 1 ? std::max((ld)0, -expm1l((eps - s / x) / 2)) : (ld)NAN; };
    ld at = D(*r), less = D(*r - 0.011 * s);
    c.Check(!(at > delta * (1 + 1e-9L)), "smallest parameter", [&] { return cat(name, " gives ", *r, " with delta ", (double)at); });
    c.Check(!(less < delta * 0.9L), "smallest parameter too large", [&] { return cat(name, " gives ", *r, " less has delta ", (double)less); });
  }
}

void RunBad(Ctx& c, const Case&) {
  auto no = [&](bool ok, const char* what) { c.State(what); c.Check(!ok, "refusals", [&] { return cat(what, " accepted"); }); };
  for (double v : {0.0, -1.0}) {
    no(LaplacePrivacyLoss::Create(v, 1).ok(), "Laplace parameter");
    no(LaplacePrivacyLoss::Create(1, v).ok(), "Laplace sensitivity");
    no(GaussianPrivacyLoss::Create(v, 1).ok(), "Gaussian deviation");
    no(GaussianPrivacyLoss::Create(1, v).ok(), "Gaussian sensitivity");
    no(DiscreteLaplacePrivacyLoss::Create(v, 1).ok(), "discrete Laplace parameter");
    no(DiscreteLaplacePrivacyLoss::Create(1, (int)v).ok(), "discrete Laplace sensitivity");
    no(DiscreteGaussianPrivacyLoss::Create(v, 1).ok(), "discrete Gaussian sigma");
    no(DiscreteGaussianPrivacyLoss::Create(1, (int)v).ok(), "discrete Gaussian sensitivity");
    no(PLD::CreateForRandomizedResponse(v, 3).ok(), "noise parameter");
    no(PLD::CreateForRandomizedResponse(v + 1.0 + (v < 0 ? 1 : 0), 3).ok(), "noise parameter 1");
    no(PLD::CreateForRandomizedResponse(0.5, (int)v + 1).ok(), "one bucket");
    no(PLD::CreateForLaplaceMechanism(v).ok(), "Laplace PLD");
    no(PLD::CreateForGaussianMechanism(v).ok(), "Gaussian PLD");
    no(PLD::CreateForDiscreteLaplaceMechanism(v).ok(), "discrete Laplace PLD");
    no(PLD::CreateForDiscreteGaussianMechanism(v).ok(), "discrete Gaussian PLD");
  }
  no(GaussianPrivacyLoss::Create(1, 1, kP, 0.5).ok(), "mass truncation above one");
  no(DiscreteGaussianPrivacyLoss::Create(1, 5, 2).ok(), "truncation below half of the sensitivity");
  for (EpsilonDelta e : {EpsilonDelta{-1, 0.1}, {1, -0.1}, {1, 1.1}}) {
    no(e.Validate().ok(), "parameters");
    no(LaplacePrivacyLoss::Create(e).ok(), "Laplace for parameters");
    no(GaussianPrivacyLoss::Create(e).ok(), "Gaussian for parameters");
    no(DiscreteLaplacePrivacyLoss::Create(e, 1).ok(), "discrete Laplace for parameters");
    no(DiscreteGaussianPrivacyLoss::Create(e, 1).ok(), "discrete Gaussian for parameters");
  }
  no(PLD::Deserialize({}).ok(), "empty serialization");
  c.Trace("refusals");
}

void Run07(Ctx& c, const Case& cs) {
  std::string k = cs.text.substr(0, cs.text.find(' '));
  if (k == "mech") RunMech(c, cs);
  else if (k == "loss") RunLoss(c, cs);
  else if (k == "target") RunTarget(c, cs);
  else if (k == "pair") RunPair(c, cs);
  else if (k == "hist") RunHist(c, cs);
  else if (k == "conv") RunConv(c, cs);
  else if (k == "search") RunSearch(c, cs);
  else if (k == "acct") RunAcct(c, cs);
  else RunBad(c, cs);
}

std::vector<std::string> List07(const std::string& tier) {
  bool t = tier == "thorough";
  std::vector<std::string> out;
  int n = 0;
  auto add = [&](const std::string& a) {
    if (n++ % 6 == 0) out.push_back(a); else out.back() += ";" + a;
  };
  for (int opt = 0; opt < 2; ++opt) {
    std::string o = cat(" opt=", opt);
    for (double d : {1e-4, 0.01, 0.1, 0.3, 1.0}) {
      for (double x : {0.1, 0.3, 0.7, 1.0, 1.4285714285714286, 3.0, 10.0, 100.0})
        for (double s : {1.0, 0.3, 2.0}) {
          if (d < 0.001 && s / x > 4) continue;
          add(cat("mech kind=lap x=", x, " s=", s, " d=", d, o));
        }
      for (double x : {0.2, 0.5, 1.0, 4.0, 30.0})
        for (double s : {1.0, 0.4})
          for (double tr : {-50.0, -5.0, -300.0}) {
            if (d < 0.001 && (x < 0.5 || tr < -60)) continue;
            add(cat("mech kind=gau x=", x, " s=", s, " d=", d, " trunc=", tr, o));
          }
      for (double x : {0.05, 0.2, 0.7, 2.0, 9.0})
        for (int s : {1, 2, 5, 20}) add(cat("mech kind=dlap x=", x, " s=", s, " d=", d, o));
      for (double x : {0.3, 0.9, 2.0, 12.0})
        for (int s : {1, 2, 5})
          for (int T : {-1, 3, 6}) {
            if (T < 0 && 2 * std::ceil(11.6 * x) < s) continue;
            add(cat("mech kind=dgau x=", x, " s=", s, " d=", d, " T=", T, o));
          }
      for (double x : {1e-9, 0.01, 0.3, 0.5, 0.9, 0.9999})
        for (int s : {2, 3, 4, 100}) add(cat("mech kind=rr x=", x, " s=", s, " d=", d, o));
      if (!opt)
        for (double x : {0.0, 1e-6, 0.1, 0.3, 0.7, 1.0, 4.0, 50.0})
          for (double s : {0.0, 1e-12, 0.1, 0.999, 1.0}) add(cat("mech kind=par x=", x, " s=", s, " d=", d));
    }
    // losses that are multiples of the interval in decimal notation
    for (int i = 1; i <= (t ? 400 : 120); ++i) {
      add(cat("mech kind=lap x=", 1 / (i * 0.05), " s=1 d=0.05", o));
      add(cat("mech kind=lap x=1 s=", i / 100.0, " d=0.01", o));
      if (i % 4 == 0) add(cat("mech kind=lap x=", 1e4 / i, " s=1 d=1e-4", o));
    }
    for (int i = 0; i < 7; ++i) out.push_back(cat("hist start=", i, " depth=", t ? 3 : 2, o));
    for (int i : {0, 3, 5}) out.push_back(cat("hist start=", i, " d=0.01 depth=", t ? 2 : 1, o));
  }
  for (double d : {0.001, 0.1, 1.0})
    for (double cut : {-50.0, -1.0}) {
      out.push_back(cat("pair d=", d, " cut=", cut, " den=", t ? 6 : 4));
      out.push_back(cat("pair wide=1 d=", d, " cut=", cut));
    }
  for (double x : {0.05, 0.3, 1.0, 2.7, 30.0})
    for (double s : {1.0, 2.0, 0.3}) {
      out.push_back(cat("loss kind=lap x=", x, " s=", s));
      out.push_back(cat("loss kind=gau x=", x, " s=", s));
      if (s >= 1) out.push_back(cat("loss kind=dlap x=", x, " s=", s));
      if (s >= 1 && x >= 0.3)
        for (int T : {-1, 1, 4}) out.push_back(cat("loss kind=dgau x=", x, " s=", s, " T=", T));
    }
  for (double e : {1e-3, 0.1, 0.7, 1.0, 3.0, 10.0, 50.0, 300.0, 720.0})
    for (double dl : {0.0, 1e-12, 1e-6, 1e-3, 0.1, 0.6}) out.push_back(cat("target eps=", e, " delta=", dl));
  for (double sc : {1.0, 1e-5}) {
    out.push_back(cat("conv n=1 den=3 scale=", sc));
    out.push_back(cat("conv n=3 den=3 scale=", sc));
    out.push_back(cat("conv n=", t ? 6 : 5, " den=", t ? 3 : 2, " scale=", sc));
    out.push_back(cat("conv n=9 den=1 scale=", sc));
    out.push_back(cat("conv n=20 den=1 scale=", sc));
  }
  out.push_back("search all=1");
  out.push_back("bad all=1");
  for (double e : {0.01, 0.3, 1.0, 3.0, 20.0}) out.push_back(cat("acct kind=adv eps=", e));
  for (int k : {1, 3})
    for (double dl : {1e-6, 1e-2}) {
      out.push_back(cat("acct kind=gau eps=1 delta=", dl, " k=", k, " s=1"));
      if (t) out.push_back(cat("acct kind=gau eps=0.3 delta=", dl, " k=", k, " s=2"));
    }
  for (double dl : {1e-6, 1e-2}) out.push_back(cat("acct kind=lap eps=1 delta=", dl, " k=1 s=1"));
  return out;
}

Register r07("P07", {Run07, List07});
}  // namespace
}  // namespace mc
