// Recording mechanisms and reporting for the explorer of the C++ library.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include "algorithms/numerical-mechanisms.h"

namespace mc {
using namespace differential_privacy;

struct Fail { std::string key, msg; };

struct Ctx {
  std::unordered_set<uint64_t> states;
  long transitions = 0, traces = 0, evals = 0;
  std::vector<Fail> fails;
  std::vector<std::string> samples;
  std::map<std::string, int> nfails;
  void State(const std::string& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    states.insert(h);
  }
  void Fail(const std::string& key, const std::string& msg) {
    if (++nfails[key] <= 2 && fails.size() < 60) fails.push_back({key, msg});
  }
  bool Check(bool ok, const std::string& key, const std::function<std::string()>& msg) {
    ++evals;
    if (!ok) Fail(key, msg());
    return ok;
  }
  void Trace(const std::string& s) {
    ++traces;
    if (samples.size() < 2) samples.push_back(s);
  }
  void Write();
};

// Parameters of a case: "k=v k=v ...".
struct Case {
  std::map<std::string, std::string> kv;
  std::string text;
  std::string s(const std::string& k) const { auto i = kv.find(k); return i == kv.end() ? "" : i->second; }
  double d(const std::string& k, double def = 0) const { auto i = kv.find(k); return i == kv.end() ? def : std::stod(i->second); }
  long n(const std::string& k, long def = 0) const { auto i = kv.find(k); return i == kv.end() ? def : std::stol(i->second); }
};

template <class... A>
std::string cat(const A&... a) {
  std::ostringstream o;
  o.precision(17);
  ((o << a), ...);
  return o.str();
}

template <class T>
std::string show(const std::vector<T>& v) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (size_t i = 0; i < v.size(); ++i) o << (i ? " " : "") << v[i];
  o << "]";
  return o.str();
}

struct Explorer {
  void (*run)(Ctx&, const Case&);
  std::vector<std::string> (*list)(const std::string& tier);
};
std::map<std::string, Explorer>& Explorers();
struct Register {
  Register(const std::string& p, Explorer e) { Explorers()[p] = e; }
};

// One mechanism built by the library, and what it was given.
struct Mech {
  bool gauss = false;
  std::string tag;
  double eps = 0, delta = 0, sens = 0;  // sens: L1 (Laplace) or L2 (Gaussian)
  std::vector<double> vals;
  std::vector<double> outs;
};

// The record of everything built since Clear(); scripts the noise.
struct Rec {
  std::vector<std::shared_ptr<Mech>> mechs;
  // script(mechanism, its number among those used, call number, value) -> noised value
  std::function<double(const Mech&, int, int, double)> script;
  int used = 0;
  std::map<Mech*, int> order;
  void Clear() { mechs.clear(); order.clear(); used = 0; script = nullptr; }
  void Mark() {  // forget the values, keep the mechanisms
    for (auto& m : mechs) { m->vals.clear(); m->outs.clear(); }
    order.clear();
    used = 0;
  }
  double Next(Mech* m, double v) {
    auto it = order.find(m);
    int k = it == order.end() ? (order[m] = used++) : it->second;
    double out = script ? script(*m, k, (int)m->vals.size(), v) : v;
    m->vals.push_back(v);
    m->outs.push_back(out);
    return out;
  }
  // Mechanisms in the order of their first use.
  std::vector<Mech*> Used() const {
    std::vector<Mech*> r(used);
    for (auto& p : order) r[p.second] = p.first;
    return r;
  }
};
inline Rec rec;

class RecLaplace : public LaplaceMechanism {
 public:
  class Builder : public LaplaceMechanism::Builder {
   public:
    std::string tag;
    explicit Builder(const std::string& t = "") : tag(t) {}
    absl::StatusOr<std::unique_ptr<NumericalMechanism>> Build() override {
      auto real = LaplaceMechanism::Builder::Build();
      if (!real.ok()) return real.status();
      auto* l = dynamic_cast<LaplaceMechanism*>(real.value().get());
      auto m = std::make_shared<Mech>();
      m->tag = tag;
      m->eps = l->GetEpsilon();
      m->sens = l->GetSensitivity();
      rec.mechs.push_back(m);
      return std::unique_ptr<NumericalMechanism>(new RecLaplace(m));
    }
    std::unique_ptr<NumericalMechanismBuilder> Clone() const override { return std::make_unique<Builder>(*this); }
  };
  explicit RecLaplace(std::shared_ptr<Mech> m) : LaplaceMechanism(m->eps, m->sens), m_(m) {}
  bool NoisedValueAboveThreshold(double v, double t) override { return rec.Next(m_.get(), v) > t; }

 protected:
  double AddDoubleNoise(double v) override { return rec.Next(m_.get(), v); }
  int64_t AddInt64Noise(int64_t v) override { return (int64_t)rec.Next(m_.get(), (double)v); }
  std::shared_ptr<Mech> m_;
};

class RecGauss : public GaussianMechanism {
 public:
  class Builder : public GaussianMechanism::Builder {
   public:
    std::string tag;
    explicit Builder(const std::string& t = "") : tag(t) {}
    absl::StatusOr<std::unique_ptr<NumericalMechanism>> Build() override {
      auto real = GaussianMechanism::Builder::Build();
      if (!real.ok()) return real.status();
      auto* l = dynamic_cast<GaussianMechanism*>(real.value().get());
      auto m = std::make_shared<Mech>();
      m->gauss = true;
      m->tag = tag;
      m->eps = l->GetEpsilon();
      m->delta = l->GetDelta();
      m->sens = l->GetL2Sensitivity();
      rec.mechs.push_back(m);
      return std::unique_ptr<NumericalMechanism>(new RecGauss(m));
    }
    std::unique_ptr<NumericalMechanismBuilder> Clone() const override { return std::make_unique<Builder>(*this); }
  };
  explicit RecGauss(std::shared_ptr<Mech> m) : GaussianMechanism(m->eps, m->delta, m->sens), m_(m) {}
  bool NoisedValueAboveThreshold(double v, double t) override { return rec.Next(m_.get(), v) > t; }

 protected:
  double AddDoubleNoise(double v) override { return rec.Next(m_.get(), v); }
  int64_t AddInt64Noise(int64_t v) override { return (int64_t)rec.Next(m_.get(), (double)v); }
  std::shared_ptr<Mech> m_;
};

inline std::unique_ptr<NumericalMechanismBuilder> RecBuilder(bool gauss, const std::string& tag = "") {
  if (gauss) return std::make_unique<RecGauss::Builder>(tag);
  return std::make_unique<RecLaplace::Builder>(tag);
}

}  // namespace mc
