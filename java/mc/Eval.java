package com.google.privacy.differentialprivacy;

import java.io.*;
import java.util.*;

/** Answers questions about the library, one line each: "op k=v ...". */
final class Eval {
  static Noise noise(Case q) {
    return q.has("g") ? new GaussianNoise() : new LaplaceNoise();
  }

  static Double del(Case q) {
    return q.has("g") ? q.d("del", 0) : (Double) 0.0;
  }

  static String pair(ConfidenceInterval c) {
    return c.lowerBound() + " " + c.upperBound();
  }

  static String answer(Case q) {
    int l0 = q.n("l0", 1);
    double eps = q.d("eps", 1), linf = q.d("linf", 1), alpha = q.d("alpha", 0);
    if (q.has("sigma")) return "" + GaussianNoise.getSigma(Math.sqrt(l0) * linf, eps, q.d("del", 0));
    if (q.has("rho")) return "" + GaussianNoise.getSigmaForRho(linf, q.d("rho", 0));
    if (q.has("quantile")) return "" + noise(q).computeQuantile(q.d("r", 0), q.d("x", 0), l0, linf, eps, del(q));
    if (q.has("cdf")) return "" + LaplaceNoise.cumulativeDensity(q.d("z", 0), q.d("x", 0), linf, eps);
    if (q.has("cif")) return pair(noise(q).computeConfidenceInterval(q.d("x", 0), l0, linf, eps, del(q), alpha));
    if (q.has("cii")) return pair(noise(q).computeConfidenceInterval(q.l("xi", 0), l0, q.l("linf", 1), eps, del(q), alpha));
    if (q.has("keep")) return keep(q);
    if (q.has("ci")) return aggregate(q);
    throw new IllegalStateException("unknown question " + q.text);
  }

  /** Which noisy counts are released. */
  static String keep(Case q) {
    StringBuilder out = new StringBuilder();
    for (String s : q.s("raws").split(",")) {
      RecNoise n = new RecNoise(noise(q));
      long raw = Long.parseLong(s);
      n.off = (c, k) -> raw;
      Count c =
          Count.builder().epsilon(q.d("eps", 1)).delta(del(q)).maxPartitionsContributed(q.n("l0", 1)).maxContributionsPerPartition(q.n("linf", 1)).noise(new Fixed(n, raw)).build();
      Optional<Long> r = c.computeThresholdedResult(q.d("td", 0));
      if (r.isPresent() && r.get() != raw) return "error released " + r.get() + " for " + raw;
      out.append(r.isPresent() ? "kept " : "dropped ");
    }
    return out.toString();
  }

  /** Noise whose integers come out as one value. */
  static final class Fixed implements Noise {
    final RecNoise n;
    final long raw;

    Fixed(RecNoise n, long raw) {
      this.n = n;
      this.raw = raw;
    }

    public double addNoise(double x, int l0, double linf, double eps, double delta) {
      return n.addNoise(x, l0, linf, eps, delta);
    }

    public long addNoise(long x, int l0, long linf, double eps, double delta) {
      n.addNoise(x, l0, linf, eps, delta);
      return raw;
    }

    public ConfidenceInterval computeConfidenceInterval(double x, int l0, double linf, double eps, Double delta, double alpha) {
      return n.computeConfidenceInterval(x, l0, linf, eps, delta, alpha);
    }

    public ConfidenceInterval computeConfidenceInterval(long x, int l0, long linf, double eps, Double delta, double alpha) {
      return n.computeConfidenceInterval(x, l0, linf, eps, delta, alpha);
    }

    public com.google.privacy.differentialprivacy.proto.SummaryOuterClass.MechanismType getMechanismType() {
      return n.getMechanismType();
    }

    public double computeQuantile(double rank, double x, int l0, double linf, double eps, Double delta) {
      return n.computeQuantile(rank, x, l0, linf, eps, delta);
    }
  }

  static double clamp(double x, double a, double b) {
    return x < a ? a : x > b ? b : x;
  }

  /** The interval of an aggregation with decided noise, and what the noise says about the same value. */
  static String aggregate(Case q) {
    Noise base = noise(q);
    P p = new P(new String[] {"count", "lsum", "bsum", "mean"}[q.n("kind", 0)]);
    p.eps = q.d("eps", 1);
    if (q.has("g")) p.gauss(q.d("del", 0));
    p.l0 = q.n("l0", 1);
    p.linf = 1;
    p.lower = q.d("lo", 0);
    p.upper = q.d("up", 1);
    p.lo = (long) p.lower;
    p.up = (long) p.upper;
    double off = q.d("off", 0), alpha = q.d("alpha", 0);
    long xi = q.l("xi", 0);
    Obj o = Obj.make(p);
    o.noise.off = (c, k) -> c.isLong ? xi : off;
    double r = o.result()[0];
    List<RecNoise.Call> calls = new ArrayList<>(o.noise.calls);
    double[] ci = o.interval(alpha);
    RecNoise.Call a = calls.get(0);
    if (!p.kind.equals("mean")) {
      ConfidenceInterval n =
          a.isLong ? base.computeConfidenceInterval(a.outL, a.l0, a.linfL, a.eps, a.delta, alpha) : base.computeConfidenceInterval(a.out, a.l0, a.linf, a.eps, a.delta, alpha);
      return ci[0] + " " + ci[1] + " " + pair(n) + " " + r;
    }
    RecNoise.Call cc = null, sc = null;
    for (RecNoise.Call c : calls)
      if (c.isLong) cc = c;
      else sc = c;
    double mid = p.lower + (p.upper - p.lower) / 2, best = Double.POSITIVE_INFINITY, tol = (Math.abs(p.lower) + Math.abs(p.upper)) * 1e-9;
    String contained = "no";
    for (int i = 1; i < 1000; i++) {
      double an = i / 1000.0 * alpha, ad = (alpha - an) / (1 - an);
      ConfidenceInterval s = base.computeConfidenceInterval(sc.out, sc.l0, sc.linf, sc.eps, sc.delta, an);
      ConfidenceInterval d = base.computeConfidenceInterval(cc.outL, cc.l0, cc.linfL, cc.eps, cc.delta, ad);
      double dl = Math.max(1, d.lowerBound()), du = Math.max(1, d.upperBound());
      double lo = clamp(Math.min(s.lowerBound() / dl, s.lowerBound() / du) + mid, p.lower, p.upper);
      double hi = clamp(Math.max(s.upperBound() / dl, s.upperBound() / du) + mid, p.lower, p.upper);
      best = Math.min(best, hi - lo);
      if (ci[0] <= lo + tol && ci[1] >= hi - tol) contained = "yes";
    }
    return ci[0] + " " + ci[1] + " " + r + " " + best + " " + contained;
  }

  static void all() throws IOException {
    BufferedReader in = new BufferedReader(new InputStreamReader(System.in));
    StringBuilder out = new StringBuilder();
    for (String line; (line = in.readLine()) != null; ) {
      String r;
      try {
        r = answer(new Case(line));
      } catch (IllegalArgumentException | IllegalStateException e) {
        r = "error " + e.getMessage();
      } catch (Throwable t) {
        r = "panic " + t;
      }
      out.append(r.replace('\n', ' ')).append('\n');
    }
    System.out.print(out);
  }
}
