// Partition selection: the probability of keeping a partition, for every count.
#include <cstring>

#include "algorithms/partition-selection.h"
#include "env.h"
#include "rec.h"

namespace mc {
namespace {
using PS = PartitionSelectionStrategy;
using Old = PartitionSelectionStrategyWithPreThresholding;

double FromBits(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
uint64_t Bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }

template <class B>
absl::StatusOr<std::unique_ptr<PS>> BuildIt(B&& b, double eps, double delta, int64_t l0, int pre) {
  b.SetEpsilon(eps);
  b.SetDelta(delta);
  b.SetMaxPartitionsContributed(l0);
  if (pre) b.SetPreThreshold(pre);
  return b.Build();
}

absl::StatusOr<std::unique_ptr<PS>> Sel(const std::string& kind, double eps, double delta, int64_t l0, int pre, bool old = false) {
  if (old) {
    Old::Builder b;
    b.SetEpsilon(eps).SetDelta(delta).SetMaxPartitionsContributed(l0).SetPreThreshold(pre);
    b.SetPartitionSelectionStrategy(kind == "lap"   ? Old::PartitionSelectionStrategyType::kLaplace
                                    : kind == "gau" ? Old::PartitionSelectionStrategyType::kGaussian
                                                    : Old::PartitionSelectionStrategyType::kNearTruncatedGeometric);
    return b.Build();
  }
  if (kind == "lap") return BuildIt(LaplacePartitionSelection::Builder(), eps, delta, l0, pre);
  if (kind == "gau") return BuildIt(GaussianPartitionSelection::Builder(), eps, delta, l0, pre);
  return BuildIt(NearTruncatedGeometricPartitionSelection::Builder(), eps, delta, l0, pre);
}

// The probability of keeping, by bisection over the uniform draw that decides.
double Measured(Ctx& c, PS& s, double n, bool* drew) {
  int draws = 0;
  double u = 0;
  on_uniform = [&] { ++draws; return u; };
  auto dec = [&](double x) { u = x; ++c.transitions; return s.ShouldKeep(n); };
  double lo = FromBits(1), hi = std::nextafter(1.0, 0);
  bool a = dec(lo), b = dec(hi);
  *drew = draws > 0;
  double p;
  if (a == b) {
    p = a ? 1 : 0;
  } else {
    uint64_t l = Bits(lo), h = Bits(hi);
    while (l + 1 < h) {
      uint64_t m = l + (h - l) / 2;
      if (dec(FromBits(m)) == a) l = m; else h = m;
    }
    p = a ? FromBits(h) : 1 - FromBits(l);
  }
  on_uniform = nullptr;
  return p;
}

double Tail(double z) { return 0.5 * std::erfc(z / std::sqrt(2.0)); }

void Run03(Ctx& c, const Case& cs) {
  std::string kind = cs.s("kind");
  double eps = cs.d("eps"), delta = cs.d("delta");
  int64_t l0 = cs.n("l0");
  int pre = (int)cs.n("pre");
  int limit = (int)cs.n("limit", 300);
  std::string name = cs.text;
  auto sor = Sel(kind, eps, delta, l0, pre, cs.n("old"));
  if (!c.Check(sor.ok(), kind + " build", [&] { return cat(name, ": ", sor.status().message()); })) return;
  PS& s = **sor;
  auto key = [&](const char* k) { return cat(kind, cs.n("old") ? " wrapped" : "", " ", k); };
  int first = pre < 1 ? 1 : pre;
  c.Check(s.GetEpsilon() == eps && s.GetDelta() == delta && s.GetMaxPartitionsContributed() == l0 && (cs.n("old") || s.GetPreThreshold() == first), key("parameters"),
          [&] { return cat(name, ": eps ", s.GetEpsilon(), " delta ", s.GetDelta(), " partitions ", s.GetMaxPartitionsContributed(), " threshold ", s.GetPreThreshold()); });
  // what one user can do with l0 partitions that nobody else is in
  double part = kind == "gau" ? delta / 2 : delta;
  double adj = part >= 1 ? 1 : -std::expm1(std::log1p(-part) / l0);
  double pe = eps / l0;
  double sigma = 0, b = l0 / eps, thr = 0;
  if (kind == "gau") {
    sigma = GaussianMechanism::CalculateStddev(eps, delta - delta / 2, std::sqrt((double)l0));
    if (auto* g = dynamic_cast<GaussianPartitionSelection*>(&s)) {
      thr = g->GetThreshold();
      c.Check(g->GetNoiseDelta() + g->GetThresholdDelta() <= delta * (1 + 1e-15), key("delta split"), [&] { return cat(name, ": ", g->GetNoiseDelta(), " + ", g->GetThresholdDelta()); });
    }
  }
  if (auto* l = dynamic_cast<LaplacePartitionSelection*>(&s)) {
    thr = l->GetThreshold();
    c.Check(l->GetDiversity() == b && l->GetL1Sensitivity() == l0, key("scale"), [&] { return cat(name, ": scale ", l->GetDiversity(), " sensitivity ", l->GetL1Sensitivity()); });
  }
  double prev = 0, ref = 0;
  int full = 0;
  for (long n : {-1000000007L, -1L, 0L}) {
    bool drew;
    double p = Measured(c, s, (double)n, &drew), q = s.ProbabilityOfKeep((double)n);
    c.Check(p == 0 && q == 0, key("empty partition"), [&] { return cat(name, " n=", n, " kept with probability ", p, " / ", q); });
  }
  for (int n = 1; n <= limit; ++n) {
    bool drew;
    double p = Measured(c, s, n, &drew), q = s.ProbabilityOfKeep(n);
    c.State(cat(name, " ", n));
    auto where = [&] { return cat(name, " n=", n, " kept with probability ", p, ", announced ", q); };
    c.Check(std::abs(p - q) <= 3e-16 + 1e-15 * q, key("announced probability"), where);
    if (n < first) {
      c.Check(p == 0 && q == 0, key("below the pre-threshold"), where);
    } else {
      if (n == first) {
        double any = -std::expm1(l0 * std::log1p(-p));
        if (part < 1) {
          c.Check(any <= part * (1 + 1e-6) + l0 * 3e-16, key("delta"), [&] { return cat(where(), ": some of ", l0, " with ", any); });
          c.Check(std::abs(p - adj) <= 1e-6 * adj + 3e-16, key("first partition"), [&] { return cat(where(), ", should be ", adj); });
        }
      }
      if (kind == "magic") {
        // steps of the optimal rule
        ref = std::min(std::min((ref > 0 ? ref * std::exp(pe) : 0) + adj, 1 - std::exp(-pe) * (1 - ref - adj)), 1.0);
        c.Check(std::abs(p - ref) <= 1e-6 * ref + 3e-16 && 1 - p <= (1 - ref) * (1 + 1e-6) + 1e-12, key("optimal rule"), [&] { return cat(where(), ", the recurrence gives ", ref); });
        c.Check(p <= (prev > 0 ? prev * std::exp(pe) : 0) * (1 + 1e-12) + adj * (1 + 1e-6), key("neighbours"), [&] { return cat(where(), ", one fewer with ", prev); });
        c.Check(1 - prev <= std::exp(pe) * ((1 - p) * (1 + 1e-9) + 3e-16) + adj * (1 + 1e-6) + 1e-12, key("neighbours"), [&] { return cat(where(), ", one fewer with ", prev); });
      } else {
        double m = n - first, want;
        if (kind == "lap") {
          double t0 = adj <= 0.5 ? -std::log(2 * adj) : std::log(2 * (1 - adj));  // in units of the scale
          double z = m / b - t0;
          want = z < 0 ? 0.5 * std::exp(z) : 1 - 0.5 * std::exp(-z);
          if (thr && adj < 1) c.Check(std::abs((thr - first) / b - t0) <= 1e-6 * std::max(1.0, std::abs(t0)), key("threshold"), [&] { return cat(where(), " threshold ", thr); });
        } else {
          // t0 from its own tail
          double lo = -60, hi = 60;
          for (int i = 0; i < 200; ++i) { double mid = (lo + hi) / 2; if (Tail(mid) > adj) lo = mid; else hi = mid; }
          want = Tail(lo - m / sigma);
          if (thr) c.Check(std::abs((thr - first) / sigma - lo) <= 1e-6 * std::max(1.0, std::abs(lo)), key("threshold"), [&] { return cat(where(), " threshold ", thr, " sigma ", sigma, " t ", lo); });
        }
        c.Check(std::abs(p - want) <= 1e-6 * want + 4e-16 && std::abs(p - want) <= 1e-6 * (1 - want) + 4e-16 + 1e-12, key("law"), [&] { return cat(where(), ", the noise gives ", want); });
      }
    }
    c.Check(p >= prev * (1 - 1e-12) - 3e-16, key("monotone"), [&] { return cat(where(), ", one fewer with ", prev); });
    prev = p;
    if (p == 1 && ++full > 3) break;
  }
  c.Trace(name);
  for (double n : {1e6, 1e12, 9e15, 9.2e18}) {
    bool drew;
    double p = Measured(c, s, n, &drew), q = s.ProbabilityOfKeep(n);
    c.Check(p >= prev * (1 - 1e-12) && std::abs(p - q) <= 3e-16, key("large"), [&] { return cat(name, " n=", n, " kept with ", p, " announced ", q, " after ", prev); });
  }
}

// The value released along with the decision.
void RunValue(Ctx& c, const Case& cs) {
  std::string kind = cs.s("kind");
  double eps = cs.d("eps"), delta = cs.d("delta");
  int64_t l0 = cs.n("l0");
  int pre = (int)cs.n("pre");
  std::string name = cs.text;
  rec.Clear();
  std::unique_ptr<PS> s;
  if (kind == "lap") {
    LaplacePartitionSelection::Builder b;
    b.SetLaplaceMechanism(std::make_unique<RecLaplace::Builder>());
    s = std::move(BuildIt(b, eps, delta, l0, pre).value());
  } else {
    GaussianPartitionSelection::Builder b;
    b.SetGaussianMechanism(std::make_unique<RecGauss::Builder>());
    s = std::move(BuildIt(b, eps, delta, l0, pre).value());
  }
  if (!c.Check(rec.mechs.size() == 1, kind + " mechanism", [&] { return cat(name, ": ", rec.mechs.size(), " mechanisms"); })) return;
  Mech& m = *rec.mechs[0];
  c.Check(m.eps == eps && (kind == "lap" ? m.sens == l0 : std::abs(m.sens - std::sqrt((double)l0)) < 1e-12 * m.sens && m.delta <= delta / 2 * (1 + 1e-15)), kind + " noise",
          [&] { return cat(name, ": eps ", m.eps, " delta ", m.delta, " sensitivity ", m.sens); });
  double thr = kind == "lap" ? dynamic_cast<LaplacePartitionSelection*>(s.get())->GetThreshold() : dynamic_cast<GaussianPartitionSelection*>(s.get())->GetThreshold();
  int first = pre < 1 ? 1 : pre;
  for (double n : {-3.0, 0.0, 1.0, 2.0, (double)first - 1, (double)first, (double)first + 1, 50.0}) {
    for (double noised : {thr - 1, std::nextafter(thr, -1e300), thr, std::nextafter(thr, 1e300), thr + 7, -1e9, 1e9}) {
      rec.Mark();
      rec.script = [&](const Mech&, int, int, double) { return noised; };
      std::optional<double> r = kind == "lap" ? dynamic_cast<LaplacePartitionSelection*>(s.get())->NoiseValueIfShouldKeep(n)
                                              : dynamic_cast<GaussianPartitionSelection*>(s.get())->NoiseValueIfShouldKeep(n);
      ++c.transitions;
      c.State(cat(name, n, " ", noised));
      bool want = n >= first && noised > thr;
      c.Check(r.has_value() == want && (!want || *r == noised), kind + " released value",
              [&] { return cat(name, " n=", n, " noised to ", noised, " threshold ", thr, ": ", r.has_value() ? cat("released ", *r) : std::string("kept back")); });
      c.Check(n < first || (m.vals.size() == 1 && m.vals[0] == n), kind + " noised count", [&] { return cat(name, " n=", n, " noises ", show(m.vals)); });
      rec.Mark();
      bool k = s->ShouldKeep(n);
      c.Check(k == want, kind + " decision", [&] { return cat(name, " n=", n, " noised to ", noised, " threshold ", thr, ": ", k); });
    }
  }
  rec.script = nullptr;
  c.Trace(name);
}

// Threshold and delta invert each other.
void RunInverse(Ctx& c, const Case& cs) {
  double eps = cs.d("eps");
  for (int64_t l0 : {1L, 2L, 7L, 100L}) {
    for (double delta : {1e-300, 1e-20, 1e-9, 1e-5, 0.01, 0.3, 0.49, 0.5, 0.51, 0.9, 0.999}) {
      auto t = LaplacePartitionSelection::CalculateThreshold(eps, delta, l0);
      ++c.transitions;
      std::string name = cat("eps=", eps, " delta=", delta, " l0=", l0);
      c.State(name);
      c.Trace(name);
      if (c.Check(t.ok(), "lap threshold", [&] { return cat(name, t.status().message()); })) {
        auto d = LaplacePartitionSelection::CalculateDelta(eps, *t, l0);
        c.Check(d.ok() && std::abs(*d - delta) <= 1e-6 * delta, "lap inverse", [&] { return cat(name, " threshold ", *t, " has delta ", d.ok() ? *d : NAN); });
      }
      if (delta > 1e-5) {
        double sigma = GaussianMechanism::CalculateStddev(eps, 1e-6, std::sqrt((double)l0));
        auto g = GaussianPartitionSelection::CalculateThreshold(eps, 1e-6, delta, l0);
        auto g2 = GaussianPartitionSelection::CalculateThresholdFromStddev(sigma, delta, l0);
        if (c.Check(g.ok() && g2.ok() && *g == *g2, "gau threshold", [&] { return name; })) {
          auto d = GaussianPartitionSelection::CalculateThresholdDelta(eps, 1e-6, *g, l0);
          c.Check(d.ok() && std::abs(*d - delta) <= 1e-6 * delta, "gau inverse", [&] { return cat(name, " threshold ", *g, " has delta ", d.ok() ? *d : NAN); });
        }
      }
    }
    double prev = 2;
    for (double t = 1 - 40 * l0 / eps; t < 1 + 40 * l0 / eps; t += l0 / eps / 3) {
      auto d = LaplacePartitionSelection::CalculateDelta(eps, t, l0);
      double z = (1 - t) * eps / l0, q = z < 0 ? 0.5 * std::exp(z) : 1 - 0.5 * std::exp(-z), want = -std::expm1(l0 * std::log1p(-q));
      c.State(cat(eps, " ", l0, " ", t));
      c.Check(d.ok() && std::abs(*d - want) <= 1e-6 * want && *d <= prev, "lap delta", [&] { return cat("eps=", eps, " l0=", l0, " threshold=", t, " delta ", d.ok() ? *d : NAN, " not ", want); });
      if (d.ok()) prev = *d;
    }
  }
}

void RunBad(Ctx& c, const Case&) {
  for (const char* k : {"magic", "lap", "gau"})
    for (int old = 0; old < 2; ++old) {
      struct P { double eps, delta; int64_t l0; int pre; bool ok; };
      for (P p : {P{1, 0.1, 1, 1, true}, P{0, 0.1, 1, 1, false}, P{-1, 0.1, 1, 1, false}, P{NAN, 0.1, 1, 1, false}, P{INFINITY, 0.1, 1, 1, false}, P{1, -0.1, 1, 1, false},
                  P{1, 1.1, 1, 1, false}, P{1, NAN, 1, 1, false}, P{1, 0.1, 0, 1, false}, P{1, 0.1, -3, 1, false}, P{1, 0.1, 1, -2, false}, P{1, INFINITY, 1, 1, false}}) {
        auto s = Sel(k, p.eps, p.delta, p.l0, p.pre, old);
        ++c.transitions;
        std::string name = cat(k, old ? " wrapped" : "", " eps=", p.eps, " delta=", p.delta, " l0=", p.l0, " pre=", p.pre);
        c.State(name);
        c.Trace(name);
        c.Check(s.ok() == p.ok, std::string(k) + " parameters", [&] { return name + (s.ok() ? " accepted" : " refused"); });
      }
    }
  for (int miss = 0; miss < 8; ++miss) {
    auto t = [&](auto&& b, const char* k) {
      if (!(miss & 1)) b.SetEpsilon(1);
      if (!(miss & 2)) b.SetDelta(0.1);
      if (!(miss & 4)) b.SetMaxPartitionsContributed(2);
      auto s = b.Build();
      c.Check(s.ok() == (miss == 0), std::string(k) + " missing", [&] { return cat(k, " built with parameters ", 7 - miss, " only"); });
    };
    t(NearTruncatedGeometricPartitionSelection::Builder(), "magic");
    t(LaplacePartitionSelection::Builder(), "lap");
    t(GaussianPartitionSelection::Builder(), "gau");
  }
}

void Top(Ctx& c, const Case& cs) {
  std::string k = cs.text.substr(0, cs.text.find(' '));
  if (k == "value") RunValue(c, cs);
  else if (k == "inverse") RunInverse(c, cs);
  else if (k == "bad") RunBad(c, cs);
  else Run03(c, cs);
}

std::vector<std::string> List03(const std::string& tier) {
  bool t = tier == "thorough";
  std::vector<std::string> out;
  int n = 0;
  auto add = [&](const std::string& a) {
    if (n++ % (t ? 4 : 16) == 0) out.push_back(a); else out.back() += ";" + a;
  };
  for (const char* k : {"magic", "lap", "gau"})
    for (double eps : {1e-6, 0.01, 0.3, 1.0, 1.0986122886681098, 2.5, 20.0, 300.0, 720.0, 1e4})
      for (double delta : {1e-100, 1e-12, 1e-5, 0.02, 0.3, 0.6, 0.95, 1.0})
        for (int l0 : {1, 2, 3, 40})
          for (int pre : {0, 1, 2, 9}) {
            if (!t && (pre == 1 || (l0 == 2 && pre) || (eps == 0.3 && pre))) continue;
            bool gau = std::string(k) == "gau";
            if (gau && (delta < 1e-12 || delta == 1)) continue;
            std::string a = cat("k kind=", k, " eps=", eps, " delta=", delta, " l0=", l0, " pre=", pre, " limit=", t ? 2000 : eps < 0.1 ? 150 : 60);
            add(a);
            if (pre && l0 != 2) add(a + " old=1");
            if (std::string(k) != "magic" && pre != 1) add(cat("value kind=", k, " eps=", eps, " delta=", delta, " l0=", l0, " pre=", pre));
          }
  for (double eps : {1e-3, 0.1, 1.0, 5.0, 100.0}) out.push_back(cat("inverse eps=", eps));
  out.push_back("bad all=1");
  return out;
}

Register r03("P03", {Top, List03});
}  // namespace
}  // namespace mc
