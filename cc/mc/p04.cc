// Mechanisms: calibration, intervals, distribution functions, decisions, serialization, refusals.
#include <cstring>

#include "env.h"
#include "rec.h"

namespace mc {
namespace {
using NM = NumericalMechanism;
using NMB = NumericalMechanismBuilder;
typedef long double ld;

double FromBits(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
uint64_t Bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }

ld GaussTail(ld z) { return 0.5L * erfcl(z / sqrtl(2.0L)); }
// log of the upper tail
ld LogTail(ld z) {
  if (z < 100) return logl(GaussTail(z));
  ld x2 = 1 / (z * z);
  return -z * z / 2 - logl(z) - 0.5L * logl(2 * 3.14159265358979323846264338328L) + log1pl(-x2 + 3 * x2 * x2 - 15 * x2 * x2 * x2);
}
// delta of Gaussian noise with sigma for one sensitivity: log of it
ld LogDelta(ld eps, ld s) {
  ld a = 1 / (2 * s), b = eps * s;
  ld l1 = LogTail(b - a), l2 = eps + LogTail(a + b);
  if (l2 >= l1) return -INFINITY;
  return l1 + logl(-expm1l(l2 - l1));
}

struct Law {
  bool gauss;
  ld scale;  // diversity or standard deviation
  ld Cdf(ld x) const {
    if (gauss) return GaussTail(-x / scale);
    return x > 0 ? 1 - 0.5L * expl(-x / scale) : 0.5L * expl(x / scale);
  }
  ld Within(ld h) const { return gauss ? erfl(h / scale / sqrtl(2)) : -expm1l(-h / scale); }
  ld Var() const { return gauss ? scale * scale : 2 * scale * scale; }
};

void Common(Ctx& c, NM& m, const Law& l, const std::string& name) {
  std::string key = l.gauss ? "gauss " : "lap ";
  auto where = [&] { return name; };
  c.State(name);
  ld v = m.GetVariance();
  if (l.Var() > 1e-290L && l.Var() < 1e300L)
    c.Check(fabsl(v - l.Var()) <= 1e-12L * l.Var(), key + "variance", [&] { return cat(name, ": variance ", (double)v, " not ", (double)l.Var()); });
  for (double u : {-60.0, -9.0, -3.5, -1.0, -0.25, -1e-9, 0.0, 1e-9, 0.3, 1.0, 2.5, 8.0, 40.0}) {
    double x = (double)(u * l.scale);
    ld want = l.Cdf(x), got = m.Cdf(x);
    ++c.transitions;
    c.Check(fabsl(got - want) <= 1e-12L * want + (u > 0 ? 2e-16L : 1e-300L), key + "distribution", [&] { return cat(name, ": Cdf(", x, ")=", (double)got, " not ", (double)want); });
    if (u > -30 && u < 5 && want > 0) {
      ld q = m.Quantile((double)want);
      c.Check(fabsl(q - x) <= (u > 0 ? 1e-9L : 1e-11L) * (fabsl(x) + l.scale), key + "quantile", [&] { return cat(name, ": Quantile(", (double)want, ")=", (double)q, " not ", x); });
    }
    double t = 7 * (double)l.scale + x, r = 7 * (double)l.scale;  // decide whether r + noise > t
    ld keep = l.Cdf(-(ld)t + r), ann = m.ProbabilityOfNoisedValueAboveThreshold(r, t);
    c.Check(fabsl(ann - keep) <= 1e-12L * keep + 1e-14L, key + "announced decision", [&] { return cat(name, ": value ", r, " above ", t, " with probability ", (double)ann, " not ", (double)keep); });
    double cur = 0;
    on_uniform = [&] { return cur; };
    auto dec = [&](double w) { cur = w; ++c.transitions; return m.NoisedValueAboveThreshold(r, t); };
    uint64_t lo = 1, hi = Bits(std::nextafter(1.0, 0));
    bool a = dec(FromBits(lo)), b = dec(FromBits(hi));
    ld p;
    if (a == b) p = a;
    else {
      while (lo + 1 < hi) { uint64_t mid = lo + (hi - lo) / 2; (dec(FromBits(mid)) == a ? lo : hi) = mid; }
      p = a ? FromBits(hi) : 1 - FromBits(lo);
    }
    on_uniform = nullptr;
    c.Check(fabsl(p - keep) <= 1e-12L * keep + 1e-14L, key + "decision", [&] { return cat(name, ": value ", r, " found above ", t, " with probability ", (double)p, " not ", (double)keep); });
  }
  ld prev = 0;
  for (double lev : {1e-6, 0.05, 0.3, 0.5, 0.68, 0.9, 0.95, 0.99, 0.999, 1 - 1e-6, 1 - 1e-9}) {
    for (double at : {0.0, 5.0 * (double)l.scale, -100.0 * (double)l.scale}) {
      auto ci = m.NoiseConfidenceInterval(lev, at);
      if (!c.Check(ci.ok(), key + "interval", [&] { return cat(name, " level ", lev, ": ", ci.status().message()); })) continue;
      auto un = m.UncheckedNoiseConfidenceInterval(lev, at);
      c.Check(ci->confidence_level() == lev && un.lower == ci->lower_bound() && un.upper == ci->upper_bound(), key + "interval", [&] { return cat(name, " level ", lev, ": ", ci->ShortDebugString()); });
      ld h = ((ld)ci->upper_bound() - ci->lower_bound()) / 2, mid = ((ld)ci->upper_bound() + ci->lower_bound()) / 2;
      ld tol = 1e-14L * fabsl(at);
      c.Check(fabsl(mid - at) <= tol + 1e-12L * h, key + "interval centre", [&] { return cat(name, " at ", at, " level ", lev, ": ", ci->ShortDebugString()); });
      ld in = l.Within(h), slack = tol / l.scale;
      c.Check(fabsl((1 - in) - (1 - (ld)lev)) <= (lev > 0.99999 ? 1e-2L : 2e-6L) * std::min((ld)1 - lev, (ld)lev) + 1e-15L + slack, key + "interval level", [&] { return cat(name, " at ", at, " level ", lev, ": covers ", (double)in, " ", ci->ShortDebugString()); });
      if (at == 0) {
        auto c0 = m.NoiseConfidenceInterval(lev);
        c.Check(c0.ok() && c0->lower_bound() == ci->lower_bound() && c0->upper_bound() == ci->upper_bound(), key + "interval at zero", where);
        c.Check(h >= prev, key + "interval grows", where);
        prev = h;
      }
    }
  }
  for (double lev : {0.0, 1.0, -0.1, 1.5, (double)NAN, (double)INFINITY}) {
    c.Check(!m.NoiseConfidenceInterval(lev).ok() && !m.NoiseConfidenceInterval(lev, 3).ok(), key + "bad level", [&] { return cat(name, ": accepts level ", lev); });
  }
  c.Check(m.MemoryUsed() > 0, key + "memory", where);
  c.Trace(name);
}

struct Par { double eps, delta, l0, linf, l1; };

bool Close(ld a, ld b, ld tol = 1e-14L) { return fabsl(a - b) <= tol * fabsl(b); }

void CheckLap(Ctx& c, NM* m, const Par& p, const std::string& name) {
  ld l1 = p.l1 > 0 ? (ld)p.l1 : (ld)p.l0 * p.linf;
  auto* l = dynamic_cast<LaplaceMechanism*>(m);
  if (!c.Check(l, "lap kind", [&] { return name; })) return;
  c.Check(l->GetEpsilon() == p.eps && Close(l->GetSensitivity(), l1) && Close(l->GetDiversity(), l1 / p.eps), "lap scale",
          [&] { return cat(name, ": eps ", l->GetEpsilon(), " sensitivity ", l->GetSensitivity(), " diversity ", l->GetDiversity()); });
  Common(c, *m, Law{false, l1 / p.eps}, name);
  auto s = l->Serialize();
  auto back = LaplaceMechanism::Deserialize(s);
  if (!c.Check(back.ok(), "lap serialization", [&] { return cat(name, back.status().message()); })) return;
  auto* b = dynamic_cast<LaplaceMechanism*>(back->get());
  c.Check(b && b->GetEpsilon() == l->GetEpsilon() && b->GetSensitivity() == l->GetSensitivity() && b->GetDiversity() == l->GetDiversity() && b->Serialize().SerializeAsString() == s.SerializeAsString(),
          "lap serialization", [&] { return cat(name, ": restored as ", b->Serialize().ShortDebugString()); });
}

void CheckGauss(Ctx& c, NM* m, const Par& p, const std::string& name) {
  ld l2 = p.l1 > 0 ? (ld)p.l1 : sqrtl(p.l0) * p.linf;
  auto* g = dynamic_cast<GaussianMechanism*>(m);
  if (!c.Check(g, "gauss kind", [&] { return name; })) return;
  double sigma = g->CalculateStddev();
  c.Check(g->GetEpsilon() == p.eps && g->GetDelta() == p.delta && Close(g->GetL2Sensitivity(), l2), "gauss parameters",
          [&] { return cat(name, ": eps ", g->GetEpsilon(), " delta ", g->GetDelta(), " sensitivity ", g->GetL2Sensitivity()); });
  ld want = logl(p.delta), got = LogDelta(p.eps, sigma / l2), less = LogDelta(p.eps, sigma / l2 * (1 - 0.0021L));
  // cancellation in the two terms costs digits of the comparison
  ld cond = std::max((ld)1, (ld)p.eps * sigma / l2 * sigma / l2);
  ld tol = 1e-9L + 4e-15L * std::max(cond, 1 / cond) + fabsl(want) * 1e-13L;
  c.Check(sigma > 0 && got <= want + tol, "gauss calibration", [&] { return cat(name, ": sigma ", sigma, " has delta ", (double)expl(got), " (ln ", (double)got, " over ", (double)want, ")"); });
  c.Check(less > want - tol || sigma <= 3e-308 || p.delta < 1e-290, "gauss tightness", [&] { return cat(name, ": sigma ", sigma, " less 0.2 percent has delta ", (double)expl(less)); });
  c.Check(GaussianMechanism::CalculateStddev(p.eps, p.delta, g->GetL2Sensitivity()) == sigma, "gauss calibration", [&] { return name + " two answers"; });
  Common(c, *m, Law{true, sigma}, name);
  auto s = g->Serialize();
  auto back = GaussianMechanism::Deserialize(s);
  if (!c.Check(back.ok(), "gauss serialization", [&] { return cat(name, back.status().message()); })) return;
  auto* b = dynamic_cast<GaussianMechanism*>(back->get());
  c.Check(b && b->GetEpsilon() == g->GetEpsilon() && b->GetDelta() == g->GetDelta() && b->GetL2Sensitivity() == g->GetL2Sensitivity() && b->CalculateStddev() == sigma, "gauss serialization",
          [&] { return cat(name, ": restored as ", b->Serialize().ShortDebugString()); });
}

template <class B>
void Put(B& b, const Par& p) {
  b.SetEpsilon(p.eps);
  if (p.delta >= 0) b.SetDelta(p.delta);
  if (p.l1 > 0) return;
  b.SetL0Sensitivity(p.l0);
  b.SetLInfSensitivity(p.linf);
}

void Run04(Ctx& c, const Case& cs) {
  std::string kind = cs.text.substr(0, cs.text.find(' '));
  Par p{cs.d("eps"), cs.d("delta", -1), cs.d("l0", 1), cs.d("linf", 1), cs.d("l1", -1)};
  std::string name = cs.text;
  if (kind == "lap") {
    LaplaceMechanism::Builder b;
    Put(b, p);
    if (p.l1 > 0) b.SetL1Sensitivity(p.l1);
    // building leaves the builder as it is, a copy makes the same
    auto k = b.Clone();
    auto m = b.Build(), m2 = k->Build(), m3 = b.Build();
    if (!c.Check(m.ok() && m2.ok() && m3.ok(), "lap build", [&] { return cat(name, ": ", m.status().message()); })) return;
    CheckLap(c, m->get(), p, name);
    for (auto* x : {m2->get(), m3->get()})
      c.Check(dynamic_cast<LaplaceMechanism*>(x)->Serialize().SerializeAsString() == dynamic_cast<LaplaceMechanism*>(m->get())->Serialize().SerializeAsString(), "lap copy", [&] { return name; });
    k->SetEpsilon(p.eps * 2);
    auto m4 = b.Build();
    auto m5 = k->Build();
    c.Check(m4.ok() && m5.ok() && (*m4)->GetEpsilon() == p.eps && (*m5)->GetEpsilon() == p.eps * 2, "lap copy", [&] { return name + " changed with its copy"; });
  } else if (kind == "gauss") {
    GaussianMechanism::Builder b;
    Put(b, p);
    if (p.l1 > 0) b.SetL2Sensitivity(p.l1);
    auto k = b.Clone();
    auto m = b.Build(), m2 = k->Build();
    if (!c.Check(m.ok() && m2.ok(), "gauss build", [&] { return cat(name, ": ", m.status().message()); })) return;
    CheckGauss(c, m->get(), p, name);
    c.Check(dynamic_cast<GaussianMechanism*>(m2->get())->Serialize().SerializeAsString() == dynamic_cast<GaussianMechanism*>(m->get())->Serialize().SerializeAsString(), "gauss copy", [&] { return name; });
    MinVarianceMechanismBuilder v;
    Put(v, p);
    if (p.l1 > 0) return;
    auto mv = v.Clone()->Build();
    LaplaceMechanism::Builder lb;
    Put(lb, p);
    auto lm = lb.Build();
    if (!c.Check(mv.ok(), "minimum", [&] { return cat(name, ": ", mv.status().message()); })) return;
    double gv = (*m)->GetVariance(), lv = lm.ok() ? (*lm)->GetVariance() : INFINITY;
    bool isg = dynamic_cast<GaussianMechanism*>(mv->get()) != nullptr;
    c.Check((*mv)->GetVariance() == std::min(gv, lv) && (*mv)->GetEpsilon() == p.eps, "minimum variance", [&] { return cat(name, ": variance ", (*mv)->GetVariance(), " of ", gv, " and ", lv); });
    if (isg) CheckGauss(c, mv->get(), p, name + " minimum"); else CheckLap(c, mv->get(), p, name + " minimum");
    // without a delta only the one
    MinVarianceMechanismBuilder w;
    p.delta = -1;
    Put(w, p);
    auto only = w.Build();
    c.Check(only.ok() == lm.ok() && (!only.ok() || dynamic_cast<LaplaceMechanism*>(only->get())), "minimum without delta", [&] { return name; });
  } else if (kind == "stddev") {
    for (double s : {1e-300, 1e-9, 0.1, 1.0, 2.5, 1e6, 1e150}) {
      GaussianMechanism::Builder b;
      b.SetStandardDeviation(s);
      auto k = b.Clone();
      auto m = k->Build();
      std::string nm = cat("stddev=", s);
      if (!c.Check(m.ok(), "stddev build", [&] { return nm; })) continue;
      c.Check(dynamic_cast<GaussianMechanism*>(m->get())->CalculateStddev() == s, "stddev", [&] { return nm; });
      Common(c, **m, Law{true, s}, nm);
    }
    for (int w = 0; w < 6; ++w) {
      GaussianMechanism::Builder b;
      b.SetStandardDeviation(2);
      if (w == 1) b.SetEpsilon(1);
      if (w == 2) b.SetDelta(0.1);
      if (w == 3) b.SetL0Sensitivity(1);
      if (w == 4) b.SetLInfSensitivity(1);
      if (w == 5) b.SetL2Sensitivity(1);
      c.Check(b.Build().ok() == (w == 0), "stddev mixed", [&] { return cat("standard deviation with parameter ", w); });
    }
    for (double s : {-1.0, (double)NAN, (double)INFINITY}) {
      GaussianMechanism::Builder b;
      b.SetStandardDeviation(s);
      c.Check(!b.Build().ok(), "stddev bad", [&] { return cat("standard deviation ", s, " accepted"); });
    }
    c.Trace("stddev");
  } else if (kind == "bad") {
    const double bad[] = {0, -1, NAN, INFINITY, -INFINITY};
    for (int g = 0; g < 3; ++g)
      for (int set = 0; set < 16; ++set)      // which are set
        for (int who = -1; who < 4; ++who)    // which is bad
          for (double v : bad) {
            std::unique_ptr<NMB> b;
            if (g == 0) b = std::make_unique<LaplaceMechanism::Builder>();
            if (g == 1) b = std::make_unique<GaussianMechanism::Builder>();
            if (g == 2) b = std::make_unique<MinVarianceMechanismBuilder>();
            double x[4] = {1, 0.01, 3, 2};
            if (who >= 0) { if (!(set >> who & 1)) continue; x[who] = v; }
            if (set & 1) b->SetEpsilon(x[0]);
            if (set & 2) b->SetDelta(x[1]);
            if (set & 4) b->SetL0Sensitivity(x[2]);
            if (set & 8) b->SetLInfSensitivity(x[3]);
            bool lap = (set & 13) == 13 && (who == -1 || who == 1), gau = set == 15 && who == -1;
            bool want = g == 0 ? lap : g == 1 ? gau : lap || gau;
            auto m = b->Build();
            ++c.transitions;
            std::string nm = cat("builder ", g, " set ", set, " parameter ", who, " is ", v);
            c.State(nm);
            c.Check(m.ok() == want, "refusals", [&] { return nm + (m.ok() ? " accepted" : " refused"); });
            if (who < 0) break;
          }
    // delta outside, sensitivities beyond the range
    for (double d : {1.0, 1.5, -0.5}) {
      GaussianMechanism::Builder b;
      b.SetEpsilon(1).SetDelta(d).SetL0Sensitivity(1).SetLInfSensitivity(1);
      c.Check(!b.Build().ok(), "refusals", [&] { return cat("delta ", d, " accepted"); });
    }
    for (double s : {-1.0, 0.0, (double)NAN, (double)INFINITY}) {
      LaplaceMechanism::Builder a;
      a.SetL1Sensitivity(s).SetEpsilon(1);
      GaussianMechanism::Builder b;
      b.SetL2Sensitivity(s).SetEpsilon(1).SetDelta(0.1);
      c.Check(!a.Build().ok() && !b.Build().ok(), "refusals", [&] { return cat("sensitivity ", s, " accepted"); });
    }
    struct Q { double eps, l0, linf; };
    for (Q q : {Q{1, 1e200, 1e200}, Q{1e-10, 1, 1e308}, Q{1, 1e-200, 1e-200}, Q{1e-16, 1, 1}}) {
      LaplaceMechanism::Builder a;
      a.SetEpsilon(q.eps).SetL0Sensitivity(q.l0).SetLInfSensitivity(q.linf);
      c.Check(!a.Build().ok(), "refusals", [&] { return cat("Laplace eps=", q.eps, " l0=", q.l0, " linf=", q.linf, " accepted"); });
    }
    serialization::LaplaceMechanism e;
    serialization::GaussianMechanism f;
    c.Check(!LaplaceMechanism::Deserialize(e).ok() && !GaussianMechanism::Deserialize(f).ok(), "refusals", [&] { return "empty serialization accepted"; });
    e.set_epsilon(1);
    f.set_epsilon(1);
    f.set_delta(0.1);
    c.Check(!LaplaceMechanism::Deserialize(e).ok() && !GaussianMechanism::Deserialize(f).ok(), "refusals", [&] { return "serialization without sensitivity accepted"; });
    c.Trace("bad");
  }
}

std::vector<std::string> List04(const std::string& tier) {
  bool t = tier == "thorough";
  std::vector<std::string> out;
  int n = 0;
  auto add = [&](const std::string& a) {
    if (n++ % 12 == 0) out.push_back(a); else out.back() += ";" + a;
  };
  std::vector<double> epss = {1e-12, 1e-9, 1e-6, 0.01, 0.3, 1.0, 1.0986122886681098, 5.0, 30.0, 300.0, 709.0, 720.0, 5000.0};
  std::vector<double> dels = {1e-300, 1e-100, 1e-20, 1e-12, 1e-9, 1e-5, 0.01, 0.3, 0.5, 0.9, 0.999};
  if (t) {
    for (double e = -9; e < 9; e += 0.37) epss.push_back(std::exp(e));
    for (double d = -600; d < 0; d += 41.3) dels.push_back(std::exp(d));
  }
  struct S { double l0, linf; };
  for (double eps : epss)
    for (S s : {S{1, 1}, S{3, 0.5}, S{1000, 1e6}, S{7, 1e-100}, S{2, 1e100}, S{1, 1e-9}}) {
      if (eps >= 1e-12) {
        add(cat("lap eps=", eps, " l0=", s.l0, " linf=", s.linf));
        add(cat("lap eps=", eps, " l1=", s.linf * 2.5));
      }
      for (double d : dels) {
        if (eps < 1e-9 && d < 1e-21) continue;
        add(cat("gauss eps=", eps, " delta=", d, " l0=", s.l0, " linf=", s.linf));
        if (s.l0 == 3) add(cat("gauss eps=", eps, " delta=", d, " l1=", s.linf * 2.5));
      }
    }
  out.push_back("stddev all=1");
  out.push_back("bad all=1");
  return out;
}

Register r04("P04", {Run04, List04});
}  // namespace
}  // namespace mc
