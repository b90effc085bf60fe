package com.google.privacy.differentialprivacy;

import java.math.BigInteger;
import java.util.*;

/** What every aggregation hands to the noise, and what it makes of the noisy values. */
final class J02 implements Main.Explorer {
  static final double[][] BOUNDS = {{-2, 5}, {0, 1}, {3, 10}, {-7, -3}, {-1, 0.5}, {-1e-3, 1e6}};

  public List<String> list(boolean deep) {
    List<String> out = new ArrayList<>();
    for (String k : new String[] {"count", "bsum", "lsum", "mean", "var", "quant"})
      for (int b = 0; b < (k.equals("count") ? 1 : BOUNDS.length); b++)
        for (int g = 0; g < 2; g++)
          for (int l0 : new int[] {1, 4})
            for (int linf : new int[] {1, 3}) out.add("agg=" + k + " b=" + b + " g=" + g + " l0=" + l0 + " linf=" + linf + " size=" + (deep ? 4 : 3));
    for (String k : Obj.KINDS) out.add("refuse=" + k);
    out.add("wide=1");
    for (int t = 0; t < ApproximateBounds.Params.InputType.values().length; t++)
      for (int l = 1; l <= 3; l += 2) out.add("ab=" + t + " linf=" + l);
    return out;
  }

  static List<int[]> multisets(int n, int size) {
    List<int[]> out = new ArrayList<>();
    out.add(new int[0]);
    for (int at = 0; at < out.size(); at++) {
      int[] x = out.get(at);
      if (x.length == size) continue;
      for (int v = x.length == 0 ? 0 : x[x.length - 1]; v < n; v++) {
        int[] y = Arrays.copyOf(x, x.length + 1);
        y[x.length] = v;
        out.add(y);
      }
    }
    return out;
  }

  static double clamp(double v, double lo, double up) {
    return Math.max(lo, Math.min(up, v));
  }

  static double[] menu(P p) {
    double mid = p.lower + (p.upper - p.lower) / 2;
    switch (p.kind) {
      case "count":
        return new double[] {1};
      case "lsum":
        return new double[] {p.lo, p.up, 0, 1, -1, p.lo - 100.0, p.up + 100.0, Long.MAX_VALUE, Long.MIN_VALUE};
      default:
        return new double[] {
          p.lower, p.upper, mid, p.lower - 1, p.upper + 1, 0, Double.NaN, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, p.lower + (p.upper - p.lower) * 0.3, Double.MAX_VALUE
        };
    }
  }

  static final double[] OFFS = {0, -2.5, 7, 100000, -0.75};

  static List<RecNoise.Call> calls(P p, double[] menu, int[]... parts) {
    Obj o = Obj.make(p);
    for (int[] d : parts) for (int k : d) o.add(menu[k]);
    o.noise.clear();
    o.result();
    return o.noise.calls;
  }

  static boolean near(double a, double b, double scale) {
    return Math.abs(a - b) <= 1e-12 * (Math.abs(a) + Math.abs(b) + scale) || a == b;
  }

  void aggregate(Ctx c, Case cs) {
    P p = new P(cs.s("agg"));
    double[] b = BOUNDS[cs.n("b", 0)];
    p.lower = b[0];
    p.upper = b[1];
    p.lo = (long) Math.floor(b[0]);
    p.up = (long) b[1];
    if (p.lo == p.up) p.up++;
    p.l0 = cs.n("l0", 1);
    p.linf = cs.n("linf", 1);
    p.eps = 0.7;
    if (cs.n("g", 0) == 1) p.gauss(0.003);
    boolean lng = p.kind.equals("lsum");
    double lo = lng ? p.lo : p.lower, up = lng ? p.up : p.upper, mid = lo + (up - lo) / 2, half = (up - lo) / 2;
    double[] menu = menu(p);
    String K = p.kind;
    int noises = K.equals("mean") ? 2 : K.equals("var") ? 3 : 1;
    for (int[] d : multisets(menu.length, cs.n("size", 3))) {
      String key = p + " values=" + show(d, menu);
      c.state(key);
      int n = 0;
      double sum = 0, nsum = 0, sq = 0, mag = 0;
      for (int k : d) {
        double v = menu[k];
        if (Double.isNaN(v)) continue;
        v = K.equals("count") ? v : clamp(v, lo, up);
        n++;
        sum += v;
        nsum += v - mid;
        sq += (v - mid) * (v - mid);
        mag += Math.abs(v) + Math.abs(mid);
      }
      if (K.equals("quant")) {
        Obj o = Obj.make(p);
        for (int k : d) o.add(menu[k]);
        double[] r = o.result();
        c.transitions++;
        for (RecNoise.Call k : o.noise.calls)
          c.check(k.l0 == p.l0 * p.height && k.linf == p.linf && k.eps == p.eps && k.delta == p.delta && k.x >= 0 && k.x <= n, "quantile noise", () -> key + ": " + k);
        // a value changes one node of every level
        c.trace(key);
        continue;
      }
      List<RecNoise.Call> base = calls(p, menu, d);
      c.transitions++;
      if (!c.check(base.size() == noises, K + " number of noises", () -> key + ": " + base)) return;
      double te = 0, td = 0;
      for (RecNoise.Call k : base) {
        te += k.eps;
        td += k.delta;
        c.check(k.l0 == p.l0 && k.eps > 0 && k.linf > 0, K + " noise", () -> key + ": " + k);
      }
      double fe = te, fd = td;
      c.check(te <= p.eps * (1 + 1e-12) && te >= p.eps * (1 - 1e-9) && td <= p.delta * (1 + 1e-12) && td >= p.delta * (1 - 1e-9), K + " budget", () -> key + ": " + fe + ", " + fd);
      // contributions of one user: adding up to linf values changes no value by more than the sensitivity claimed
      if (d.length <= 2)
        for (int[] more : multisets(menu.length, Math.min(p.linf, 3))) {
          List<RecNoise.Call> x = calls(p, menu, d, more);
          c.transitions++;
          for (int i = 0; i < noises; i++) {
            double df = x.get(i).isLong ? (double) (x.get(i).xl - base.get(i).xl) : x.get(i).x - base.get(i).x;
            RecNoise.Call k = base.get(i);
            c.check(Math.abs(df) <= k.linf + (x.get(i).isLong ? 0 : 1e-12 * (Math.abs(k.x) + Math.abs(df))), K + " sensitivity", () -> key + ": adding " + show(more, menu) + " moves " + k + " by " + df);
          }
        }
      double want = K.equals("count") ? p.linf : K.equals("bsum") || lng ? p.linf * Math.max(Math.abs(lo), Math.abs(up)) : 0;
      if (want > 0) c.check(near(base.get(0).linf, want, 0), K + " sensitivity wasteful", () -> key + ": " + base.get(0));
      for (RecNoise.Call k : base)
        if (K.equals("mean") || K.equals("var"))
          c.check(near(k.linf, k.isLong ? p.linf : p.linf * half, 0) || K.equals("var") && near(k.linf, p.linf * half * half, 0), K + " sensitivity wasteful", () -> key + ": " + k);
      // the values
      final int fn = n;
      double fsum = sum, fns = nsum, fsq = sq, fm = mag;
      RecNoise.Call cnt = null;
      List<RecNoise.Call> real = new ArrayList<>();
      for (RecNoise.Call k : base) if (k.isLong) cnt = k;
      else real.add(k);
      if (K.equals("count") || lng) {
        c.check(cnt != null && cnt.xl == (lng ? (long) fsum : fn), K + " value", () -> key + ": " + base);
      } else if (K.equals("bsum")) c.check(cnt == null && near(real.get(0).x, fsum, fm), K + " value", () -> key + ": " + base);
      else {
        boolean ok = cnt != null && cnt.xl == fn && real.size() == noises - 1;
        if (ok && noises == 2) ok = near(real.get(0).x, fns, fm);
        if (ok && noises == 3)
          ok = near(real.get(0).x, fns, fm) && near(real.get(1).x, fsq, fm * fm) || near(real.get(1).x, fns, fm) && near(real.get(0).x, fsq, fm * fm);
        if (!c.check(ok, K + " value", () -> key + ": " + base)) continue;
      }
      // every combination of noises
      int combos = (int) Math.pow(OFFS.length, noises);
      for (int cb = 0; cb < combos; cb++) {
        int code = cb;
        Obj o = Obj.make(p);
        for (int k : d) o.add(menu[k]);
        o.noise.clear();
        o.noise.off = (call, i) -> OFFS[code / (int) Math.pow(OFFS.length, i) % OFFS.length];
        double r = o.result()[0];
        c.transitions++;
        List<RecNoise.Call> cl = o.noise.calls;
        if (noises == 1) {
          c.check(r == cl.get(0).out, K + " result", () -> key + ": " + r + " from " + cl);
          continue;
        }
        double nc = 0;
        List<Double> outs = new ArrayList<>();
        for (RecNoise.Call k : cl)
          if (k.isLong) nc = Math.max(1, k.outL);
          else outs.add(k.out);
        double fnc = nc;
        if (noises == 2) {
          double ref = clamp(outs.get(0) / nc + mid, lo, up);
          c.check(near(r, ref, Math.abs(lo) + Math.abs(up)) && r >= lo && r <= up, K + " result", () -> key + ": " + r + ", not " + ref + " from " + cl);
        } else {
          double s1 = outs.get(0) / nc, s2 = outs.get(1) / nc;
          double a = clamp(s2 - s1 * s1, 0, half * half), a2 = clamp(s1 - s2 * s2, 0, half * half);
          double sc = Math.abs(s1) + Math.abs(s2) + s1 * s1 + s2 * s2;
          boolean sumFirst = near(cl.get(cl.get(0).isLong ? 1 : 0).x, fns, fm) || !near(cl.get(cl.get(0).isLong ? 1 : 0).x, fsq, fm * fm);
          c.check(near(r, sumFirst ? a : a2, sc) && r >= 0 && r <= half * half * (1 + 1e-12), K + " result", () -> key + ": " + r + ", not " + a + " from " + cl);
        }
      }
      c.trace(key);
    }
  }

  static String show(int[] d, double[] menu) {
    StringBuilder s = new StringBuilder("{");
    for (int k : d) s.append(menu[k]).append(' ');
    return s + "}";
  }

  void refuse(Ctx c, String kind) {
    P ok = new P(kind);
    List<P> bad = new ArrayList<>(), good = new ArrayList<>();
    for (double e : new double[] {0, -1, -0.0, Double.NaN, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, Math.pow(2, -51)}) {
      P q = ok.copy();
      q.eps = e;
      bad.add(q);
    }
    for (double e : new double[] {Math.pow(2, -40), 1e-3, 50, 1e6}) {
      P q = ok.copy();
      q.eps = e;
      good.add(q);
    }
    if (!kind.equals("ab")) {
      for (int l : new int[] {0, -1, Integer.MIN_VALUE}) {
        P q = ok.copy();
        q.l0 = l;
        bad.add(q);
        if (kind.equals("part")) continue;
        q = ok.copy();
        q.linf = l;
        bad.add(q);
      }
      for (double d : new double[] {-1, -1e-300, 1, 1.5, Double.NaN, Double.POSITIVE_INFINITY}) {
        P q = ok.copy();
        q.delta = d;
        bad.add(q);
        if (kind.equals("part")) continue;
        q = ok.copy().gauss(d);
        bad.add(q);
      }
      if (kind.equals("part")) {
        P q = ok.copy();
        q.delta = 0;
        bad.add(q);
        q = ok.copy();
        q.pre = 0;
        bad.add(q);
        q = ok.copy();
        q.pre = -3;
        bad.add(q);
      } else {
        bad.add(ok.copy().gauss(0));
        P q = ok.copy();
        q.delta = 1e-5; // Laplace
        bad.add(q);
        good.add(ok.copy().gauss(1e-5));
      }
    }
    if (kind.equals("ab")) {
      for (int l : new int[] {0, -1}) {
        P q = ok.copy();
        q.linf = l;
        bad.add(q);
      }
    }
    if (kind.equals("bsum") || kind.equals("mean") || kind.equals("var") || kind.equals("quant")) {
      double[][] bs = {{1, 0}, {Double.NaN, 1}, {0, Double.NaN}, {Double.NEGATIVE_INFINITY, 0}, {0, Double.POSITIVE_INFINITY}, {2, 2}, {Double.NaN, Double.NaN}};
      for (double[] x : bs) {
        if (x[0] == 2 && kind.equals("bsum")) continue;
        P q = ok.copy();
        q.lower = x[0];
        q.upper = x[1];
        bad.add(q);
      }
      P q = ok.copy();
      q.lower = -Double.MAX_VALUE;
      q.upper = Double.MAX_VALUE;
      if (!kind.equals("quant")) bad.add(q);
    }
    if (kind.equals("lsum")) {
      P q = ok.copy();
      q.lo = 1;
      q.up = 0;
      bad.add(q);
    }
    if (kind.equals("quant")) {
      for (int h : new int[] {0, -1}) {
        P q = ok.copy();
        q.height = h;
        bad.add(q);
      }
      for (int h : new int[] {1, 0, -1}) {
        P q = ok.copy();
        q.br = h;
        bad.add(q);
      }
    }
    for (boolean want : new boolean[] {true, false})
      for (P q : want ? good : bad) {
        boolean fine = want;
        String key = q + " height=" + q.height + " branching=" + q.br;
        int how =
            J01.attempt(
                () -> {
                  Obj o = Obj.make(q);
                  if (kind.equals("ab") && !fine) o.result();
                });
        c.transitions++;
        c.state(key);
        c.trace(key);
        c.check(how == (want ? 0 : 2), kind + (want ? " refused" : " accepted"), () -> key + ": " + J01.OUTCOME[how]);
      }
    for (double a : new double[] {0, 1, -0.1, 1.1, Double.NaN}) {
      if (kind.equals("part") || kind.equals("ab") || kind.equals("var")) break;
      Obj o = Obj.make(ok);
      o.result();
      int how = J01.attempt(() -> o.interval(a));
      c.check(how == 2, kind + " interval of impossible level", () -> a + ": " + J01.OUTCOME[how]);
    }
    if (kind.equals("quant"))
      for (double r : new double[] {-0.001, 1.001, Double.NaN, -5}) {
        BoundedQuantiles q = BoundedQuantiles.builder().epsilon(1).maxPartitionsContributed(1).maxContributionsPerPartition(1).lower(0).upper(1).noise(new ZeroNoise()).build();
        int how = J01.attempt(() -> q.computeResult(r));
        c.check(how == 2, "quantile of impossible rank", () -> r + ": " + J01.OUTCOME[how]);
      }
  }

  /** Bounds at the ends of the number formats: refused, or noised by enough. */
  void wide(Ctx c) {
    long[] ends = {Long.MIN_VALUE, Long.MIN_VALUE + 1, -(1L << 62), -(1L << 53) - 1, -5, 0, 3, 1L << 53, 1L << 61, 1L << 62, Long.MAX_VALUE - 1, Long.MAX_VALUE};
    int[] ls = {1, 2, 3, 1 << 20, Integer.MAX_VALUE};
    for (boolean g : new boolean[] {false, true})
      for (long lo : ends)
        for (long up : ends)
          for (int l0 : ls)
            for (int linf : ls) {
              if (up < lo || lo == 0 && up == 0) continue;
              P p = new P("lsum");
              p.lo = lo;
              p.up = up;
              p.l0 = l0;
              p.linf = linf;
              if (g) p.gauss(1e-5);
              BigInteger need = BigInteger.valueOf(lo).abs().max(BigInteger.valueOf(up).abs()).multiply(BigInteger.valueOf(linf));
              double l = need.doubleValue() * (g ? Math.sqrt(l0) : l0);
              boolean fits = need.bitLength() <= 63 && l < 9.2e18;
              Obj[] o = {null};
              int how = J01.attempt(() -> o[0] = Obj.make(p));
              c.transitions++;
              c.state(p.toString());
              c.check(how == 0 || how == 2, "wide sum of integers", () -> p + ": " + J01.OUTCOME[how]);
              c.check(how == 0 || !fits, "wide sum of integers refused", () -> p + "");
              if (how != 0) continue;
              o[0].add(lo);
              o[0].result();
              RecNoise.Call k = o[0].noise.calls.get(0);
              c.check(k.linfL > 0 && BigInteger.valueOf(k.linfL).compareTo(need.min(BigInteger.valueOf(Long.MAX_VALUE))) >= 0, "wide sum of integers understated", () -> p + ": sensitivity " + need + ", noise " + k);
              c.check(l < 9.3e18, "wide sum of integers accepted", () -> p + ": sensitivity over partitions " + l);
              c.check(need.bitLength() <= 63 || need.bitLength() == 64 && need.bitCount() == 1, "wide sum of integers accepted", () -> p + ": sensitivity " + need);
            }
    for (boolean g : new boolean[] {false, true})
      for (int l0 : new int[] {1, 2, 1 << 20, 1 << 28, (1 << 29) - 1, 1 << 29, (1 << 29) + 1, 1 << 30, (1 << 30) + 1, Integer.MAX_VALUE - 1, Integer.MAX_VALUE})
        for (int h = 1; h <= 4; h++) {
          P p = new P("quant");
          p.l0 = l0;
          p.height = h;
          p.br = 2;
          if (g) p.gauss(1e-5);
          Obj[] o = {null};
          long need = (long) l0 * h;
          int how = J01.attempt(() -> o[0] = Obj.make(p));
          String key = p + " height=" + h;
          c.state(key);
          c.check(how == 0 || how == 2, "wide quantiles", () -> key + ": " + J01.OUTCOME[how]);
          c.check(how == 0 || need > Integer.MAX_VALUE, "wide quantiles refused", () -> key);
          if (how != 0) continue;
          o[0].add(1);
          int how2 = J01.attempt(() -> o[0].result());
          c.transitions++;
          c.check(how2 == 0 || need > Integer.MAX_VALUE && how2 == 2, "wide quantiles", () -> key + ": " + J01.OUTCOME[how2]);
          for (RecNoise.Call k : o[0].noise.calls) c.check(how2 == 2 || k.l0 >= need, "wide quantiles understated", () -> key + ": " + k);
        }
    c.trace("wide integers");
    double[] fe = {-Double.MAX_VALUE, -1e308, -1e160, -1, 0, 1e-300, 2, 1e155, 1e308, Double.MAX_VALUE};
    for (String kind : new String[] {"bsum", "mean", "var"})
      for (boolean g : new boolean[] {false, true})
        for (double lo : fe)
          for (double up : fe)
            for (int l0 : ls)
              for (int linf : ls) {
                if (up <= lo) continue;
                P p = new P(kind);
                p.lower = lo;
                p.upper = up;
                p.l0 = l0;
                p.linf = linf;
                if (g) p.gauss(1e-5);
                double m = kind.equals("bsum") ? Math.max(Math.abs(lo), Math.abs(up)) : up / 2 - lo / 2;
                if (kind.equals("var")) m = Math.max(m, m * m);
                double l = m * linf * (g ? Math.sqrt(l0) : l0);
                Obj[] o = {null};
                int how = J01.attempt(() -> o[0] = Obj.make(p));
                c.transitions++;
                c.state(p.toString());
                c.check(how == 0 || how == 2, "wide " + kind, () -> p + ": " + J01.OUTCOME[how]);
                c.check(how == 0 || !(l < 1e307), "wide " + kind + " refused", () -> p + ": sensitivity " + l);
                if (how != 0) continue;
                c.check(l < Double.POSITIVE_INFINITY, "wide " + kind + " accepted", () -> p + ": sensitivity " + l);
                o[0].add(lo);
                o[0].noise.clear();
                o[0].result();
                for (RecNoise.Call k : o[0].noise.calls)
                  c.check(k.isLong || Math.abs(k.x) <= k.linf / linf * (1 + 1e-12), "wide " + kind + " understated", () -> p + ": " + k);
              }
    c.trace("wide reals");
  }

  /** Approximate bounds without noise: the bounds enclose everything that is numerous enough. */
  void bounds(Ctx c, int t, int linf) {
    ApproximateBounds.Params.InputType type = ApproximateBounds.Params.InputType.values()[t];
    P p = new P("ab");
    p.type = type;
    p.linf = linf;
    p.eps = 0.5;
    int bins = type.numPositiveBins;
    double top = Math.scalb(type.scale, bins - 1);
    List<Double> m = new ArrayList<>(Arrays.asList(0.0, -0.0, type.scale, type.scale / 2, 1.0, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY));
    for (double v : new double[] {1, 2, 4, 3, 1.0 / 3, type.scale * 2, type.scale * 4, top, top / 2, top / 4, top / 3, top * 2})
      for (double x : new double[] {v, Math.nextUp(v), Math.nextDown(v)}) {
        m.add(x);
        m.add(-x);
      }
    double[] menu = m.stream().mapToDouble(x -> x).toArray();
    double per = linf / p.eps;
    // half of the chance of a bin wrongly found, over all bins
    double thr = -per * Math.log(2 * -Math.expm1(Math.log1p(-1e-9) / type.totalBins()));
    double thrMax = -per * Math.log(2 * -Math.expm1(Math.log1p(-1e-9 * 512) / type.totalBins()));
    long many = (long) Math.ceil(thr) + 1, few = (long) Math.floor(thrMax) - 1;
    long half = 1L << 52;
    for (int[] d : multisets(menu.length, 2)) {
      ApproximateBounds o = ApproximateBounds.builder().epsilon(p.eps).inputType(type).maxContributions(linf).build();
      String key = type + " linf=" + linf + " many of " + show(d, menu);
      double lo = Double.POSITIVE_INFINITY, up = Double.NEGATIVE_INFINITY;
      o.addEntry(Double.NaN);
      for (int k : d) {
        for (long i = 0; i < many; i++) o.addEntry(menu[k]);
        double v = type.hasNegativeBins ? menu[k] : Math.max(0, menu[k]);
        v = clamp(v, -top, top);
        lo = Math.min(lo, v);
        up = Math.max(up, v);
      }
      Prov.doubles(half);
      c.transitions++;
      c.state(key);
      c.trace(key);
      ApproximateBounds.Result[] r = {null};
      int how = J01.attempt(() -> r[0] = o.computeResult());
      double flo = lo, fup = up;
      if (d.length == 0) {
        c.check(how == 2, "bounds of nothing", () -> key + ": " + J01.OUTCOME[how]);
        continue;
      }
      if (!c.check(how == 0, "bounds", () -> key + ": " + J01.OUTCOME[how])) continue;
      double a = r[0].lowerBound(), z = r[0].upperBound();
      c.check(a <= flo + Math.abs(flo) * 1e-9 && z >= fup - Math.abs(fup) * 1e-9, "bounds miss values", () -> key + ": [" + a + "," + z + "]");
      boolean tight = (a < 0 ? flo < 0 && a >= flo * 2 * (1 + 1e-9) || flo <= 0 && -a <= type.scale : flo >= 0 && a * 2 * (1 + 1e-9) >= flo || flo <= type.scale * (1 + 1e-9));
      c.check(tight, "bounds too wide", () -> key + ": [" + a + "," + z + "]");
      boolean tight2 = (z > 0 ? fup > 0 && z <= fup * 2 * (1 + 1e-9) || fup >= 0 && z <= type.scale : fup <= 0 && z * 2 * (1 + 1e-9) <= fup || fup >= -type.scale * (1 + 1e-9));
      c.check(tight2, "bounds too wide above", () -> key + ": [" + a + "," + z + "]");
    }
    // few values of any kind do not decide the bounds
    for (double v : menu) {
      for (long n : new long[] {1, few}) {
        ApproximateBounds o = ApproximateBounds.builder().epsilon(p.eps).inputType(type).maxContributions(linf).build();
        for (long i = 0; i < n; i++) o.addEntry(v);
        Prov.doubles(half);
        int how = J01.attempt(() -> o.computeResult());
        c.transitions++;
        c.check(how == 2, "bounds of too few values", () -> type + " linf=" + linf + ": " + n + " values " + v + ": " + J01.OUTCOME[how]);
      }
    }
    // noise of every bin
    double[] us = {1, half / 2, half, half + half / 2, (1L << 53) - 1, 1 << 20, 0};
    for (double u : us) {
      ApproximateBounds o = ApproximateBounds.builder().epsilon(p.eps).inputType(type).maxContributions(linf).build();
      Prov.doubles((long) u == 0 ? half : (long) u);
      int how = J01.attempt(() -> o.computeResult());
      c.transitions++;
      double q = u / Math.pow(2, 53);
      double noise = q < 0.5 ? per * Math.log(2 * q) : -per * Math.log(2 * (1 - q));
      if (u == 0) {
        Prov.doubles(0, half); // the draw may be made again
        ApproximateBounds o2 = ApproximateBounds.builder().epsilon(p.eps).inputType(type).maxContributions(linf).build();
        for (long i = 0; i < many; i++) o2.addEntry(0);
        int how2 = J01.attempt(() -> o2.computeResult());
        c.check(how2 == 0, "bounds with a draw of zero", () -> type + ": " + J01.OUTCOME[how2]);
        continue;
      }
      c.check(how == (noise >= thr ? 0 : noise < thrMax ? 2 : how), "bounds from noise", () -> type + " linf=" + linf + " noise " + noise + ": " + J01.OUTCOME[how]);
    }
    c.trace(type + " few");
  }

  public void run(Ctx c, Case cs) {
    if (cs.has("agg")) aggregate(c, cs);
    else if (cs.has("refuse")) refuse(c, cs.s("refuse"));
    else if (cs.has("wide")) wide(c);
    else bounds(c, cs.n("ab", 0), cs.n("linf", 1));
  }
}
