package com.google.privacy.differentialprivacy;

import java.util.*;

/** Every sequence of operations on two aggregations, against a model that keeps the list of contributions. */
final class J01 implements Main.Explorer {
  static final String[] ALL = {"count", "thresh", "bsum", "lsum", "mean", "var", "quant", "part", "ab"};

  /** Sums of these are exact. */
  static double[] menu(String kind) {
    switch (kind) {
      case "count":
      case "thresh":
        return new double[] {1, 4, -2};
      case "part":
        return new double[] {1, 4, -2};
      case "lsum":
        return new double[] {1, 100, -100};
      case "ab":
        return new double[] {1.5, Double.NaN, -1.0e300};
      default:
        return new double[] {1, 100, Double.NEGATIVE_INFINITY, Double.NaN};
    }
  }

  static final String[] OUTCOME = {"fine", "state", "argument"};

  public List<String> list(boolean deep) {
    List<String> out = new ArrayList<>();
    for (String k : ALL)
      for (int v = 0; v < 2; v++)
        for (int f = 0; f < ops(k).size(); f++) out.add("k=" + k + " v=" + v + " first=" + f + " depth=" + (deep ? 5 : 4));
    for (String k : ALL) out.add("mismatch=" + k);
    for (String k : ALL) if (!k.equals("ab")) out.add("pairs=" + k);
    return out;
  }

  static P params(String kind, int v) {
    P p = new P(kind);
    if (v == 1) {
      p.eps = 0.5;
      p.l0 = kind.equals("part") ? 5 : 1;
      p.lower = 1;
      p.upper = 3;
      p.lo = 0;
      p.up = 7;
      p.pre = 3;
      p.type = ApproximateBounds.Params.InputType.POSITIVE_INTEGER;
      if (!kind.equals("ab") && !kind.equals("part")) p.gauss(1e-3);
    }
    if (kind.equals("ab")) {
      p.eps = 100;
      p.linf = 1;
    }
    return p;
  }

  /** One differing parameter. */
  static List<P> others(P p) {
    List<P> out = new ArrayList<>();
    P q;
    if (p.kind.equals("ab")) {
      q = p.copy();
      q.type = ApproximateBounds.Params.InputType.INTEGER;
      out.add(q);
      q = p.copy();
      q.type = p.type == ApproximateBounds.Params.InputType.TEST ? ApproximateBounds.Params.InputType.POSITIVE_INTEGER : ApproximateBounds.Params.InputType.TEST;
      out.add(q);
      return out;
    }
    q = p.copy();
    q.eps = Math.nextUp(p.eps);
    out.add(q);
    q = p.copy();
    q.l0++;
    out.add(q);
    if (p.delta > 0) {
      q = p.copy();
      q.delta = Math.nextUp(Math.nextUp(Math.nextUp(Math.nextUp(p.delta))));
      out.add(q);
    }
    if (p.kind.equals("part")) {
      q = p.copy();
      q.pre++;
      out.add(q);
      return out;
    }
    q = p.copy();
    q.gauss = !p.gauss;
    q.delta = q.gauss ? 1e-3 : 0;
    out.add(q);
    q = p.copy();
    q.linf++;
    out.add(q);
    if (p.kind.equals("count") || p.kind.equals("thresh")) return out;
    q = p.copy();
    q.lower = p.lower - 1;
    q.lo = p.lo - 1;
    out.add(q);
    q = p.copy();
    q.upper = p.upper + 1;
    q.up = p.up + 1;
    out.add(q);
    q = p.copy();
    q.upper = p.upper + 1;
    q.lower = p.lower + 1;
    q.up = p.up + 1;
    q.lo = p.lo + 1;
    out.add(q);
    if (p.kind.equals("quant")) {
      q = p.copy();
      q.height++;
      out.add(q);
      q = p.copy();
      q.br++;
      out.add(q);
    }
    return out;
  }

  static boolean same(P a, P b) {
    return a.toString().equals(b.toString()) && a.height == b.height && a.br == b.br && a.type == b.type;
  }

  /** One or two differing parameters, and bounds of the same magnitude or width. */
  static List<P> allOthers(P p) {
    List<P> one = others(p), out = new ArrayList<>(one);
    if (p.kind.equals("ab")) return one;
    if (one.stream().anyMatch(x -> x.lower != p.lower)) {
      P q = p.copy();
      q.lower = -p.upper;
      q.upper = -p.lower;
      q.lo = -p.up;
      q.up = -p.lo;
      out.add(q);
      q = p.copy();
      q.lower = 0;
      q.lo = 0;
      out.add(q);
    }
    for (P a : new ArrayList<>(out)) for (P b : others(a)) out.add(b);
    out.removeIf(q -> same(q, p));
    return out;
  }

  static List<String> ops(String kind) {
    List<String> out = new ArrayList<>();
    for (int i = 0; i < menu(kind).length; i++) out.add("a" + i);
    out.add("b0");
    out.add("b1");
    out.add("am"); // several at once
    out.add("ar");
    out.add("br");
    out.add("ai");
    out.add("as");
    out.add("bs");
    out.add("a<b");
    out.add("b<a");
    out.add("a<other");
    out.add("a<junk");
    return out;
  }

  static final class Model {
    int state; // 0 open, 1 serialized, 2 result returned
    List<Double> vals = new ArrayList<>();
    double[] last;
  }

  static void draws() {
    // a varied and fixed sequence
    int[] k = {0};
    Prov.source =
        n -> {
          byte[] b = new byte[n];
          for (int i = 0; i < n; i++) b[i] = (byte) (37 * k[0]++ + 11);
          if (n == 1) b[0] = (byte) (k[0] % 3 == 0 ? 0x80 : 0);
          return b;
        };
  }

  static RecNoise.Off off = (c, k) -> new double[] {3, -1, 0, 7}[k % 4];

  static int attempt(Runnable r) {
    try {
      r.run();
      return 0;
    } catch (IllegalStateException e) {
      return 1;
    } catch (IllegalArgumentException e) {
      return 2;
    }
  }

  static double[] fresh(P p, List<Double> vals, List<RecNoise.Call> calls, int[] how) {
    Obj o = Obj.make(p);
    for (double v : vals) o.add(v);
    o.noise.off = off;
    o.noise.clear();
    draws();
    double[][] r = {null};
    how[0] = attempt(() -> r[0] = o.result());
    calls.addAll(o.noise.calls);
    return r[0];
  }

  static boolean same(double[] a, double[] b) {
    return Arrays.equals(a, b);
  }

  /** Asks for the result, and compares with the model. */
  void ask(Ctx c, P p, Obj o, Model m, String key) {
    o.noise.off = off;
    int before = o.noise.calls.size();
    if (m.state != 2) o.noise.clear();
    draws();
    double[][] r = {null};
    int how = attempt(() -> r[0] = o.result());
    c.transitions++;
    if (m.state == 1 || m.state == 2 && !p.kind.equals("quant")) {
      c.check(how == 1, p.kind + " result in a closed state", () -> key + ": " + OUTCOME[how]);
      c.check(m.state == 1 || o.noise.calls.size() == before, p.kind + " noise in a closed state", () -> key);
      return;
    }
    if (m.state == 2) {
      c.check(how == 0 && same(r[0], m.last) && o.noise.calls.size() == before, "quantiles asked again", () -> key + ": " + Arrays.toString(r[0]));
      return;
    }
    List<RecNoise.Call> ref = new ArrayList<>();
    int[] want = {0};
    double[] x = fresh(p, m.vals, ref, want);
    c.check(how == want[0] && (how != 0 || same(x, r[0])), p.kind + " result", () -> key + ": " + Arrays.toString(r[0]) + ", contributions " + m.vals + " give " + Arrays.toString(x));
    boolean ok = ref.size() == o.noise.calls.size();
    for (int i = 0; ok && i < ref.size(); i++) ok = ref.get(i).same(o.noise.calls.get(i));
    c.check(ok, p.kind + " noise", () -> key + ": " + o.noise.calls + ", contributions " + m.vals + " give " + ref);
    m.state = 2;
    m.last = r[0];
  }

  void interval(Ctx c, P p, Obj o, Model m, String key) {
    double[][] r = {null};
    int how = attempt(() -> r[0] = o.interval(0.3));
    c.transitions++;
    if (how == 0 && r[0] == null) return;
    c.check(how == (m.state == 2 ? 0 : 1), p.kind + " interval", () -> key + ": " + OUTCOME[how]);
    if (how == 0) c.check(r[0][0] <= r[0][1], p.kind + " interval order", () -> key + ": " + Arrays.toString(r[0]));
  }

  void path(Ctx c, P p, P other, byte[] junk, List<String> ops) {
    Obj[] o = {Obj.make(p), Obj.make(p)};
    Model[] m = {new Model(), new Model()};
    byte[][] saved = {null, null};
    List<List<Double>> savedVals = new ArrayList<>(Arrays.asList(null, null));
    Obj x = Obj.make(other);
    x.add(1);
    byte[] bad = x.ser();
    double[] menu = menu(p.kind);
    String key = p + " " + ops;
    for (String op : ops) {
      int i = op.charAt(0) - 'a';
      Obj t = o[i];
      Model mt = m[i];
      char k = op.charAt(1);
      c.transitions++;
      if (k >= '0' && k <= '9') {
        double v = menu[k - '0'];
        int how = attempt(() -> t.add(v));
        if (p.kind.equals("lsum") && Double.isNaN(v)) continue;
        c.check(how == (mt.state == 0 ? 0 : 1), p.kind + " add", () -> key + ": " + OUTCOME[how]);
        if (mt.state == 0) mt.vals.add(v);
      } else if (k == 'm') {
        List<Double> vs = Arrays.asList(menu[0], menu[1], menu[0]);
        int how = attempt(() -> t.addAll(vs));
        c.check(how == (mt.state == 0 ? 0 : 1), p.kind + " add many", () -> key + ": " + OUTCOME[how]);
        if (mt.state == 0) mt.vals.addAll(vs);
      } else if (k == 'r') {
        ask(c, p, t, mt, key);
      } else if (k == 'i') {
        interval(c, p, t, mt, key);
      } else if (k == 's') {
        byte[][] b = {null};
        int how = attempt(() -> b[0] = t.ser());
        c.check(how == (mt.state == 2 ? 1 : 0), p.kind + " serialize", () -> key + ": " + OUTCOME[how]);
        if (how == 0) {
          saved[i] = b[0];
          savedVals.set(i, new ArrayList<>(mt.vals));
          mt.state = 1;
        }
      } else { // merge
        String from = op.substring(2);
        byte[] b = from.equals("other") ? bad : from.equals("junk") ? junk : saved[1 - i];
        if (b == null) return; // nothing to merge: the shorter path was explored
        boolean fits = from.length() == 1;
        int how = attempt(() -> t.merge(b));
        c.check(mt.state != 0 ? how == 1 : how == (fits ? 0 : 2), p.kind + " merge", () -> key + ": " + OUTCOME[how]);
        if (mt.state == 0 && fits) mt.vals.addAll(savedVals.get(1 - i));
      }
    }
    c.state(p + " " + m[0].state + m[0].vals + m[1].state + m[1].vals + Arrays.toString(m[0].last));
    for (int i = 0; i < 2; i++) {
      if (m[i].state == 1) {
        // what was serialized carries exactly the contributions
        byte[] b = o[i].ser();
        Obj z = Obj.make(p);
        z.merge(b);
        Model mz = new Model();
        mz.vals = m[i].vals;
        ask(c, p, z, mz, key + " restored " + i);
      }
      ask(c, p, o[i], m[i], key + " finally " + i);
    }
    if (ops.size() <= 2 || !p.gauss && !p.kind.equals("mean")) interval(c, p, o[0], m[0], key); // costly otherwise
    c.trace(key);
  }

  void walk(Ctx c, P p, P other, byte[] junk, List<String> ops, List<String> all, int depth) {
    path(c, p, other, junk, ops);
    if (ops.size() == depth) return;
    for (String op : all) {
      if (op.equals("a<b") && !ops.contains("bs") || op.equals("b<a") && !ops.contains("as")) continue;
      if (op.equals("ai") && (p.kind.equals("mean") || p.gauss) && (ops.contains("ai") || ops.size() > 2)) continue;
      ops.add(op);
      walk(c, p, other, junk, ops, all, depth);
      ops.remove(ops.size() - 1);
    }
  }

  /** Grids of parameters: every ordered pair of different ones in a grid is refused, and alike ones merge. */
  static List<List<P>> grids(String kind) {
    List<List<P>> out = new ArrayList<>();
    boolean part = kind.equals("part"), bounded = !part && !kind.equals("count") && !kind.equals("thresh");
    List<P> g = new ArrayList<>();
    for (int l0 = 1; l0 <= 6; l0++)
      for (int k = 1; k <= 6; k++) {
        P p = new P(kind);
        p.l0 = l0;
        if (part) p.pre = k;
        else p.linf = k;
        g.add(p);
      }
    out.add(g);
    g = new ArrayList<>();
    for (double eps : new double[] {0.25, 0.5, 1, 2, 4})
      for (double delta : new double[] {0.25e-3, 0.5e-3, 1e-3, 2e-3, 4e-3}) {
        P p = new P(kind);
        if (!part) p.gauss(delta);
        p.eps = eps;
        p.delta = delta;
        g.add(p);
      }
    out.add(g);
    if (bounded) {
      g = new ArrayList<>();
      for (int lo = -3; lo <= 3; lo++)
        for (int up = lo + 1; up <= 3; up++) {
          P p = new P(kind);
          p.lower = p.lo = lo;
          p.upper = p.up = up;
          g.add(p);
        }
      out.add(g);
    }
    if (kind.equals("quant")) {
      g = new ArrayList<>();
      for (int h = 1; h <= 8; h++)
        for (int br = 2; br <= 1024; br = br < 10 ? br + 1 : br == 10 ? 16 : br * 2) {
          if (Math.pow(br, h) > 1024) continue;
          P p = new P(kind);
          p.height = h;
          p.br = br;
          g.add(p);
        }
      out.add(g);
    }
    return out;
  }

  static boolean shifted(P p, P q) {
    return (p.kind.equals("mean") || p.kind.equals("var")) && q.upper - q.lower == p.upper - p.lower && q.lower != p.lower;
  }

  public void run(Ctx c, Case cs) {
    if (cs.has("pairs")) {
      for (List<P> g : grids(cs.s("pairs")))
        for (P q : g) {
          Obj from = Obj.make(q);
          from.add(1);
          byte[] s = from.ser();
          for (P p : g) {
            Obj a = Obj.make(p);
            int how = attempt(() -> a.merge(s));
            boolean alike = same(p, q);
            c.transitions++;
            c.check(how == (alike ? 0 : 2), p.kind + (alike ? " refuses an aggregation alike" : " merges an aggregation with other parameters" + (shifted(p, q) ? ": bounds shifted, of the same width" : "")),
                () -> p + " h=" + p.height + " b=" + p.br + " merges " + q + " h=" + q.height + " b=" + q.br + ": " + OUTCOME[how]);
            c.state(p + " h=" + p.height + " b=" + p.br + " merges " + q + " h=" + q.height + " b=" + q.br);
          }
        }
      return;
    }
    byte[] junk = {(byte) 0xff, (byte) 0xff, (byte) 0xff, 1, 2};
    if (cs.has("mismatch")) {
      for (int v = 0; v < 2; v++) {
        P p = params(cs.s("mismatch"), v);
        for (P q : allOthers(p)) {
          String key = p + " merges " + q;
          boolean shifted = shifted(p, q);
          for (int n = 0; n < 3; n++) {
            Obj a = Obj.make(p);
            Model m = new Model();
            for (int i = 0; i < n; i++) {
              a.add(1);
              m.vals.add(1.0);
            }
            Obj b = Obj.make(q);
            b.add(1);
            byte[] s = b.ser();
            int how = attempt(() -> a.merge(s));
            c.transitions++;
            c.check(how == 2, p.kind + " merges an aggregation with other parameters" + (shifted ? ": bounds shifted, of the same width" : ""), () -> key + ": " + OUTCOME[how]);
            if (how == 0) continue;
            ask(c, p, a, m, key);
            c.state(key + n);
          }
          c.trace(key);
        }
        // an empty summary is not a neutral element: it has no parameters
        Obj a = Obj.make(p);
        Model m = new Model();
        int how = attempt(() -> a.merge(new byte[0]));
        c.check(how == 2, p.kind + " merges an empty summary", () -> p + ": " + OUTCOME[how]);
        ask(c, p, a, m, p + " after an empty summary");
      }
      return;
    }
    String kind = cs.s("k");
    P p = params(kind, cs.n("v", 0));
    List<String> all = ops(kind);
    String first = all.get(cs.n("first", 0));
    List<P> oth = others(p);
    P other = oth.get(0);
    if (first.equals("a<b") || first.equals("b<a")) {
      path(c, p, other, junk, new ArrayList<>());
      return;
    }
    walk(c, p, other, junk, new ArrayList<>(Arrays.asList(first)), all, cs.n("depth", 4));
  }
}
