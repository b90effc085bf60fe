// Histories: every sequence of operations on two objects against the list of contributions.
#include "objs.h"

namespace mc {
namespace {

struct World {
  std::unique_ptr<Obj> a, b;
  std::vector<double> da, db;
  bool asked = false;
};

struct Bad {
  std::string name;
  Summary s;
};

std::string Ask(Obj* o, std::string* log) {
  rec.Mark();
  auto r = o->Result(0.9);
  *log = Log();
  return Text(r);
}

// What a fresh object answers that was given exactly these contributions.
std::pair<std::string, std::string> Fresh(const Spec& s, std::vector<double> d, std::map<std::vector<double>, std::pair<std::string, std::string>>& memo) {
  auto it = memo.find(d);
  if (it != memo.end()) return it->second;
  auto o = Make(s);
  for (double v : d) (*o)->Add(v);
  std::string log, t = Ask(o->get(), &log);
  return memo[d] = {t, log};
}

void RunShapes(Ctx& c, const Case& cs);

void Run01(Ctx& c, const Case& cs) {
  if (cs.text.rfind("shapes", 0) == 0) return RunShapes(c, cs);
  Spec s = SpecOf(cs);
  s.qs = {0.2, 0.75};
  std::vector<double> vals = s.real ? std::vector<double>{s.lo + 1.25, s.hi + 3, NAN} : std::vector<double>{s.lo + 2, s.hi + 3, s.lo - 5};
  if (s.apx) vals = {3, -9, s.real ? NAN : 40};
  std::vector<Bad> bad;
  rec.Clear();
  bad.push_back({"empty", Summary()});
  {
    Summary junk;
    junk.mutable_data()->set_type_url("type.googleapis.com/none");
    bad.push_back({"unknown type", junk});
    for (const char* k : {"count", "sum", "mean", "var", "quant", "max", "bounds"}) {
      if (k == s.kind || (s.kind == "sd" && std::string(k) == "var")) continue;
      if (std::string(k) == "max" && (s.kind == "min" || s.kind == "med" || s.kind == "pct")) continue;
      Spec o = s;
      o.kind = k;
      o.apx = false;
      if (std::string(k) == "max" || std::string(k) == "var") o.gauss = false;
      auto m = Make(o);
      if (!m.ok()) { c.Fail("other " + o.kind, std::string(m.status().message())); continue; }
      (*m)->Add(s.lo + 1);
      bad.push_back({std::string("summary of ") + k, (*m)->Ser()});
    }
    Spec o = s;
    bool have = false;
    if (s.kind == "quant") { o.hi += 1; have = true; }
    if (s.kind == "sum" || s.kind == "mean" || s.kind == "var" || s.kind == "sd") { o.apx = !s.apx; have = true; }
    if (s.kind == "bounds") { o.bins += 1; have = true; }
    if (have) {
      auto m = Make(o);
      if (m.ok()) {
        (*m)->Add(s.lo + 1);
        bad.push_back({"summary of another configuration", (*m)->Ser()});
      }
    }
    if (s.apx) {
      o = s;
      o.bins += 2;
      auto m = Make(o);
      (*m)->Add(3);
      bad.push_back({"summary with more bins", (*m)->Ser()});
    }
  }
  const char* names[] = {"A+0", "A+1", "A+2", "B+0", "A<-B", "B<-A", "A result", "A reset", "A shipped", "A bad", "A asked", "A of list"};
  const int nops = 12;
  int depth = cs.n("depth", 3);
  std::map<std::vector<double>, std::pair<std::string, std::string>> memo;
  std::string key = cat(s.kind, s.real ? " real" : " int", s.apx ? " found" : "", s.gauss ? " gauss" : "");
  std::vector<int> hist;
  auto story = [&] {
    std::string t = s.name() + ":";
    for (int o : hist) t += std::string(" ") + names[o] + ";";
    return t;
  };
  auto expect = [&](Obj* o, const std::vector<double>& d, bool asked, const char* who) {
    std::string log, t = Ask(o, &log);
    if (asked) {
      c.Check(t.rfind("error", 0) == 0 && log.empty(), key + " second result",
              [&] { return cat(story(), " ", who, " asked again answers ", t, " drawing ", log); });
      return;
    }
    std::vector<double> sorted;
    for (double v : d)
      if (s.kind == "count" || !std::isnan(v)) sorted.push_back(v);
    std::sort(sorted.begin(), sorted.end(), [](double x, double y) { return std::isnan(y) ? !std::isnan(x) : x < y; });
    auto f = Fresh(s, sorted, memo);
    c.Check(t == f.first && log == f.second, key + " result", [&] {
      return cat(story(), " ", who, " with contributions ", show(sorted), " answers ", t, " from ", log, ", a fresh one ", f.first, " from ", f.second);
    });
  };
  std::function<void(int)> dfs = [&](int left) {
    // run the history anew
    rec.Clear();
    World w;
    w.a = std::move(Make(s).value());
    w.b = std::move(Make(s).value());
    for (int op : hist) {
      switch (op) {
        case 0: case 1: case 2: w.a->Add(vals[op]); w.da.push_back(vals[op]); break;
        case 3: w.b->Add(vals[0]); w.db.push_back(vals[0]); break;
        case 4: {
          auto st = w.a->Merge(w.b->Ser());
          c.Check(st.ok(), key + " merge", [&] { return cat(story(), " merge refused: ", st.message()); });
          w.da.insert(w.da.end(), w.db.begin(), w.db.end());
          break;
        }
        case 5: {
          auto st = w.b->Merge(w.a->Ser());
          c.Check(st.ok(), key + " merge", [&] { return cat(story(), " merge refused: ", st.message()); });
          w.db.insert(w.db.end(), w.da.begin(), w.da.end());
          break;
        }
        case 6: expect(w.a.get(), w.da, w.asked, "A"); w.asked = true; break;
        case 7: w.a->Reset(); w.da.clear(); w.asked = false; break;
        case 8: {
          auto n = std::move(Make(s).value());
          auto st = n->Merge(w.a->Ser());
          c.Check(st.ok(), key + " merge", [&] { return cat(story(), " merge into a fresh object refused: ", st.message()); });
          w.a = std::move(n);
          w.asked = false;
          break;
        }
        case 9:
          for (auto& x : bad) {
            auto st = w.a->Merge(x.s);
            c.Check(!st.ok(), key + " bad merge", [&] { return cat(story(), " accepts a ", x.name); });
          }
          break;
        case 10: {
          rec.Mark();
          auto ci = w.a->Ci(0.8);
          auto ci2 = w.a->Ci(0.95);
          w.a->Mem();
          c.Check(Log().empty(), key + " interval draws", [&] { return cat(story(), " an interval draws noise: ", Log()); });
          if (ci.ok() && ci2.ok())
            c.Check(ci->lower_bound() <= ci->upper_bound() && ci2->lower_bound() <= ci->lower_bound() && ci->upper_bound() <= ci2->upper_bound(),
                    key + " interval", [&] { return cat(story(), " interval ", ci->ShortDebugString(), " / ", ci2->ShortDebugString()); });
          break;
        }
        case 11: {
          std::vector<double> l = {vals[1], vals[0]};
          rec.Mark();
          auto r = w.a->ResultOf(l);
          std::string log = Log(), t = Text(r);
          std::sort(l.begin(), l.end());
          // at the default level
          auto o = std::move(Make(s).value());
          for (double v : l) o->Add(v);
          rec.Mark();
          auto want = Text(o->Result());
          c.Check(t == want && log == Log(), key + " result of list", [&] { return cat(story(), " answers ", t, " from ", log, ", a fresh one ", want, " from ", Log()); });
          w.da = l;
          w.asked = true;
          break;
        }
      }
      ++c.transitions;
    }
    c.Check(w.a->Eps() == s.eps, key + " epsilon", [&] { return cat(story(), " epsilon ", w.a->Eps()); });
    std::string st = cat(s.name(), show(w.da), show(w.db), w.asked);
    c.State(st);
    expect(w.a.get(), w.da, w.asked, "A");
    expect(w.b.get(), w.db, false, "B");
    c.Trace(story());
    if (left == 0) return;
    for (int op = 0; op < nops; ++op) {
      if (op == 9 && left > 1 && cs.n("light")) continue;
      hist.push_back(op);
      dfs(left - 1);
      hist.pop_back();
    }
  };
  dfs(depth);
}

// Quantile trees of every pair of shapes and bounds: only alike ones merge, and a refused merge changes nothing.
void RunShapes(Ctx& c, const Case&) {
  struct Shape { int h, b; double lo, hi; };
  std::vector<Shape> all;
  for (int h = 1; h <= 6; ++h)
    for (int b = 2; b <= 64; b = b < 10 ? b + 1 : b == 10 ? 16 : b * 2)
      if (std::pow(b, h) <= 256) all.push_back({h, b, 0, 8});
  for (int lo = -2; lo <= 2; ++lo)
    for (int hi = lo + 1; hi <= 3; ++hi) all.push_back({2, 3, (double)lo, (double)hi});
  auto make = [](const Shape& s) { return std::move(QuantileTree<double>::Builder().SetLower(s.lo).SetUpper(s.hi).SetTreeHeight(s.h).SetBranchingFactor(s.b).Build().value()); };
  for (auto& q : all) {
    auto from = make(q);
    from->AddEntry(q.hi);
    from->AddEntry(q.lo);
    auto summary = from->Serialize();
    for (auto& p : all) {
      auto t = make(p);
      t->AddEntry(p.lo);
      auto before = t->Serialize();
      bool ok = t->Merge(summary).ok(), alike = p.h == q.h && p.b == q.b && p.lo == q.lo && p.hi == q.hi;
      auto story = [&] { return cat("tree of height ", p.h, " branching ", p.b, " over [", p.lo, ",", p.hi, "] merges one of height ", q.h, " branching ", q.b, " over [", q.lo, ",", q.hi, "]"); };
      c.State(story());
      ++c.transitions;
      c.Check(ok == alike, "quantile tree bad merge", [&] { return cat(story(), ok ? "" : ": refused"); });
      auto after = t->Serialize();
      int64_t n = 0, n0 = 0;
      for (auto& e : after.quantile_tree()) n += e.second;
      for (auto& e : before.quantile_tree()) n0 += e.second;
      if (!ok) c.Check(n == n0, "quantile tree bad merge", [&] { return cat(story(), ": refused, but changed"); });
      if (ok && alike) c.Check(n == n0 + 2 * q.h, "quantile tree merge", [&] { return cat(story(), " and holds ", n, " counts"); });
    }
  }
  c.Trace("shapes");
}

std::vector<std::string> List01(const std::string& tier) {
  bool t = tier == "thorough";
  std::vector<std::string> out = {"shapes kind=quant"};
  for (const char* kind : {"count", "sum", "mean", "var", "sd", "quant", "max", "min", "med", "pct", "bounds"}) {
    std::string k = kind;
    bool order = k == "max" || k == "min" || k == "med" || k == "pct";
    int depth = (order || k == "quant" ? 3 : 4) + (t ? 1 : 0);
    for (int real = 0; real < 2; ++real)
      for (int g = 0; g < 2; ++g) {
        if (g && !(k == "count" || k == "sum" || k == "mean" || k == "quant")) continue;
        out.push_back(cat("fix kind=", k, " real=", real, " gauss=", g, " lo=-4 hi=8 l0=2 mcp=2 eps=", k == "bounds" ? 80 : 1, " depth=", depth - g));
        if (!g && (k == "sum" || k == "mean" || k == "var" || k == "sd"))
          out.push_back(cat("apx kind=", k, " real=", real, " apx=1 l0=1 mcp=1 eps=80 depth=", depth - 1));
      }
  }
  return out;
}

Register r01("P01", {Run01, List01});
}  // namespace
}  // namespace mc
