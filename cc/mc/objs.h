// Every aggregation of the C++ library behind one interface.
#pragma once
#include "algorithms/bounded-mean.h"
#include "algorithms/bounded-standard-deviation.h"
#include "algorithms/bounded-sum.h"
#include "algorithms/bounded-variance.h"
#include "algorithms/count.h"
#include "algorithms/order-statistics.h"
#include "algorithms/quantiles.h"
#include "rec.h"

namespace mc {

struct Spec {
  std::string kind;  // count sum mean var sd quant max min med pct bounds
  bool real = false;  // double, else int64_t
  bool apx = false;   // bounds found by the algorithm
  bool gauss = false;
  double lo = 0, hi = 1, eps = 1, delta = 0;
  int l0 = 1, mcp = 1;
  int bins = 5;
  double base = 2, scale = 1;
  double pct = 0.3;
  std::vector<double> qs = {0.1, 0.5, 0.9};
  std::string name() const {
    return cat(kind, real ? "<double>" : "<int64>", apx ? " found bounds" : cat(" [", lo, ",", hi, "]"), " l0=", l0, " mcp=", mcp,
               gauss ? " gaussian" : "", " eps=", eps, apx && base != 2 ? cat(" base=", base) : "");
  }
};

inline Spec SpecOf(const Case& c) {
  Spec s;
  s.kind = c.s("kind");
  s.real = c.n("real");
  s.apx = c.n("apx");
  s.gauss = c.n("gauss");
  s.lo = c.d("lo", 0);
  s.hi = c.d("hi", 1);
  s.eps = c.d("eps", 1);
  s.delta = c.d("delta", s.gauss ? 1e-3 : 0);
  s.l0 = c.n("l0", 1);
  s.mcp = c.n("mcp", 1);
  s.bins = c.n("bins", 5);
  s.base = c.d("base", 2);
  s.scale = c.d("scale", 1);
  s.pct = c.d("pct", 0.3);
  return s;
}

class Obj {
 public:
  virtual ~Obj() = default;
  virtual void Add(double v) = 0;
  virtual absl::StatusOr<Output> ResultOf(const std::vector<double>& vs) = 0;
  virtual absl::StatusOr<Output> Result() = 0;
  virtual absl::StatusOr<Output> Result(double level) = 0;
  virtual Summary Ser() = 0;
  virtual absl::Status Merge(const Summary& s) = 0;
  virtual void Reset() = 0;
  virtual absl::StatusOr<ConfidenceInterval> Ci(double level) = 0;
  virtual int64_t Mem() = 0;
  virtual double Eps() = 0;
};

template <class T>
class ObjT : public Obj {
 public:
  explicit ObjT(std::unique_ptr<Algorithm<T>> a) : a_(std::move(a)) {}
  static T Conv(double v) {
    if (std::is_integral<T>::value) {
      if (v >= 9.2233720368547758e18) return std::numeric_limits<T>::max();
      if (v <= -9.2233720368547758e18) return std::numeric_limits<T>::lowest();
    }
    return (T)v;
  }
  void Add(double v) override { a_->AddEntry(Conv(v)); }
  absl::StatusOr<Output> ResultOf(const std::vector<double>& vs) override {
    std::vector<T> t;
    for (double v : vs) t.push_back(Conv(v));
    return a_->Result(t.begin(), t.end());
  }
  absl::StatusOr<Output> Result() override { return a_->PartialResult(); }
  absl::StatusOr<Output> Result(double level) override { return a_->PartialResult(level); }
  Summary Ser() override {
    std::string bytes;
    a_->Serialize().SerializeToString(&bytes);  // as a distributed job would ship it
    Summary s;
    s.ParseFromString(bytes);
    return s;
  }
  absl::Status Merge(const Summary& s) override { return a_->Merge(s); }
  void Reset() override { a_->Reset(); }
  absl::StatusOr<ConfidenceInterval> Ci(double level) override { return a_->NoiseConfidenceInterval(level); }
  int64_t Mem() override { return a_->MemoryUsed(); }
  double Eps() override { return a_->GetEpsilon(); }

 private:
  std::unique_ptr<Algorithm<T>> a_;
};

template <class T>
absl::StatusOr<std::unique_ptr<ApproxBounds<T>>> MakeBounds(const Spec& s, double eps) {
  typename ApproxBounds<T>::Builder b;
  b.SetEpsilon(eps).SetMaxPartitionsContributed(s.l0).SetMaxContributionsPerPartition(s.mcp);
  b.SetLaplaceMechanism(RecBuilder(false, "bins"));
  b.SetNumBins(s.bins).SetScale(s.scale).SetBase(s.base).SetSuccessProbability(0.9);
  return b.Build();
}

template <class T, class R>
absl::StatusOr<std::unique_ptr<Obj>> Wrap(R r) {
  if (!r.ok()) return r.status();
  return std::unique_ptr<Obj>(new ObjT<T>(std::move(r.value())));
}

template <class T, class B>
absl::StatusOr<std::unique_ptr<Obj>> MakeBounded(const Spec& s) {
  B b;
  b.SetEpsilon(s.eps).SetMaxPartitionsContributed(s.l0).SetMaxContributionsPerPartition(s.mcp).SetLaplaceMechanism(RecBuilder(s.gauss));
  if (s.delta != 0) b.SetDelta(s.delta);
  if (s.apx) {
    auto ab = MakeBounds<T>(s, s.eps / 2);
    if (!ab.ok()) return ab.status();
    b.SetApproxBounds(std::move(ab.value()));
  } else {
    b.SetLower(ObjT<T>::Conv(s.lo)).SetUpper(ObjT<T>::Conv(s.hi));
  }
  return Wrap<T>(b.Build());
}

template <class T, class B>
absl::StatusOr<std::unique_ptr<Obj>> MakeOrder(const Spec& s, B&& b) {
  b.SetEpsilon(s.eps).SetMaxPartitionsContributed(s.l0).SetMaxContributionsPerPartition(s.mcp).SetLaplaceMechanism(RecBuilder(false));
  b.SetLower(ObjT<T>::Conv(s.lo)).SetUpper(ObjT<T>::Conv(s.hi));
  return Wrap<T>(b.Build());
}

template <class T>
absl::StatusOr<std::unique_ptr<Obj>> MakeT(const Spec& s) {
  if (s.kind == "count") {
    typename Count<T>::Builder b;
    b.SetEpsilon(s.eps).SetMaxPartitionsContributed(s.l0).SetMaxContributionsPerPartition(s.mcp).SetLaplaceMechanism(RecBuilder(s.gauss));
    if (s.delta != 0) b.SetDelta(s.delta);
    return Wrap<T>(b.Build());
  }
  if (s.kind == "sum") return MakeBounded<T, typename BoundedSum<T>::Builder>(s);
  if (s.kind == "mean") return MakeBounded<T, typename BoundedMean<T>::Builder>(s);
  if (s.kind == "var") return MakeBounded<T, typename BoundedVariance<T>::Builder>(s);
  if (s.kind == "sd") return MakeBounded<T, typename BoundedStandardDeviation<T>::Builder>(s);
  if (s.kind == "quant") {
    typename Quantiles<T>::Builder b;
    b.SetEpsilon(s.eps).SetMaxPartitionsContributed(s.l0).SetMaxContributionsPerPartition(s.mcp).SetLaplaceMechanism(RecBuilder(s.gauss));
    if (s.delta != 0) b.SetDelta(s.delta);
    b.SetLower(ObjT<T>::Conv(s.lo)).SetUpper(ObjT<T>::Conv(s.hi)).SetQuantiles(s.qs);
    return Wrap<T>(b.Build());
  }
  if (s.kind == "bounds") return Wrap<T>(MakeBounds<T>(s, s.eps));
  if (s.kind == "max") return MakeOrder<T>(s, typename continuous::Max<T>::Builder());
  if (s.kind == "min") return MakeOrder<T>(s, typename continuous::Min<T>::Builder());
  if (s.kind == "med") return MakeOrder<T>(s, typename continuous::Median<T>::Builder());
  if (s.kind == "pct") {
    typename continuous::Percentile<T>::Builder b;
    b.SetPercentile(s.pct);
    return MakeOrder<T>(s, std::move(b));
  }
  return absl::InvalidArgumentError("no such kind " + s.kind);
}

inline absl::StatusOr<std::unique_ptr<Obj>> Make(const Spec& s) {
  if (s.real) return MakeT<double>(s);
  return MakeT<int64_t>(s);
}

inline double Elem(const Output& o, int i) {
  auto& v = o.elements(i).value();
  return v.has_int_value() ? (double)v.int_value() : v.float_value();
}

inline std::string Text(const absl::StatusOr<Output>& r) {
  if (!r.ok()) return "error " + std::string(r.status().message());
  std::string s;
  for (int i = 0; i < r->elements_size(); ++i) {
    s += cat(i ? "," : "", Elem(*r, i));
    if (r->elements(i).has_noise_confidence_interval()) {
      auto& ci = r->elements(i).noise_confidence_interval();
      s += cat("(", ci.lower_bound(), "..", ci.upper_bound(), ")");
    }
  }
  if (r->error_report().has_bounding_report()) s += " " + r->error_report().bounding_report().ShortDebugString();
  return s;
}

inline std::string Log() {
  std::string s;
  for (auto* m : rec.Used()) s += cat(m->gauss ? "gauss " : "laplace ", m->eps, " ", m->delta, " ", m->sens, " ", show(m->vals), "; ");
  return s;
}

}  // namespace mc
