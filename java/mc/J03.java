package com.google.privacy.differentialprivacy;

import java.util.*;

/** Partition selection: the probability of keeping a partition, for every count. */
final class J03 implements Main.Explorer {
  public List<String> list(boolean deep) {
    List<String> out = new ArrayList<>();
    for (double e : new double[] {1e-15, 1e-10, 1e-5, 0.01, 0.1, 0.5, 1, Math.log(3), 3, 20, 50, 700, 2000}) {
      for (double d : new double[] {1e-13, 1e-7, 1e-5, 0.001, 0.02, 0.3, 0.9, 1 - 1e-9})
        for (int l0 = 1; l0 <= 3; l0++) out.add("eps=" + e + " del=" + d + " l0=" + l0 + " n=" + (deep ? 3000 : 300));
      for (int l0 : new int[] {4, 5, 20}) if (e >= 1e-5 && e < 50) out.add("eps=" + e + " l0=" + l0 + " gauss=1");
    }
    return out;
  }

  static PreAggSelectPartition make(double eps, double del, int l0, int pre, long n) {
    PreAggSelectPartition s = PreAggSelectPartition.builder().epsilon(eps).delta(del).maxPartitionsContributed(l0).preThreshold(pre).build();
    s.incrementBy(n);
    return s;
  }

  static double times(double a, double b) {
    return b == 0 ? 0 : a * b;
  }

  static final long ALL = 1L << 53;

  /** The number of uniforms k/2^53 (out of 2^53) that keep the partition. */
  static double keep(Ctx c, double eps, double del, int l0, int pre, long n, String key) {
    java.util.function.LongPredicate dec =
        k -> {
          PreAggSelectPartition s = make(eps, del, l0, pre, n);
          Prov.doubles(k);
          c.transitions++;
          return s.shouldKeepPartition();
        };
    boolean a = dec.test(0), b = dec.test(ALL - 1);
    if (a == b) return a ? 1 : 0;
    long lo = 0, hi = ALL - 1;
    while (lo + 1 < hi) {
      long m = (lo + hi) >>> 1;
      if (dec.test(m) == a) lo = m;
      else hi = m;
    }
    double x = hi / (double) ALL;
    return a ? x : 1 - x;
  }

  void probabilities(Ctx c, double eps, double del, int l0, int pre, int limit) {
    String name = "eps=" + eps + " delta=" + del + " l0=" + l0 + " pre=" + pre;
    double pe = eps / l0, pd = del / l0;
    final double ulp = 1.2e-16; // the uniforms are multiples of 2^-53
    for (long n : new long[] {Long.MIN_VALUE, -1, 0}) {
      double q = keep(c, eps, del, l0, pre, n, name);
      c.check(q == 0, name + " n=" + n, () -> "kept with probability " + q);
    }
    double ref = 0, prev = 0;
    int hard = -1, cut = 0;
    for (int n = 1; n <= limit; n++) {
      String key = name + " n=" + n;
      double q = keep(c, eps, del, l0, pre, n, key);
      c.state(key);
      double p = prev;
      if (n >= pre) {
        ref = Math.min(Math.min((ref == 0 ? 0 : ref * Math.exp(pe)) + pd, 1 - Math.exp(-pe) * (1 - ref - pd)), 1);
        double r = ref;
        c.check(Math.abs(q - r) <= 1e-6 * r + ulp, key, () -> "kept with probability " + q + ", the recurrence gives " + r);
        c.check(1 - q <= (1 - r) * (1 + 1e-6) + 1e-12, key, () -> "dropped with probability " + (1 - q) + ", the recurrence gives " + (1 - r));
        c.check(1 - p <= times(Math.exp(pe), (1 - q) * (1 + 1e-9) + 3e-16) + pd * (1 + 1e-6) + 1e-12, key, () -> "neighbouring counts are dropped with " + (1 - p) + " and " + (1 - q));
      } else c.check(q == 0, key, () -> "kept with probability " + q + " below the pre-threshold");
      c.check(q >= p * (1 - 1e-9) - ulp, key, () -> "probability falls from " + p + " to " + q);
      c.check(q <= times(Math.exp(pe), p) * (1 + 1e-12) + pd * (1 + 1e-6) + ulp * (1 + Math.exp(pe)), key, () -> "neighbouring counts are kept with " + p + " and " + q + ": beyond eps " + pe + " delta " + pd);
      if (q == 1 && hard < 0) hard = n;
      if (hard >= 0 && cut++ > 5) break;
      prev = q;
    }
    c.trace(name);
    if (hard < 0) return;
    for (long n : new long[] {1 << 20, 1L << 40, Long.MAX_VALUE}) {
      double q = keep(c, eps, del, l0, pre, n, name);
      c.check(q == 1, name + " n=" + n, () -> "kept with probability " + q);
    }
    if (pre == 1) { // the threshold is asked for without a pre-threshold
      long h = PreAggSelectPartition.getHardThreshold(eps, del, l0);
      int fh = hard;
      c.check(h == hard, name + " hard threshold", () -> "claims that " + h + " units are always kept, " + fh + " are needed");
    }
  }

  /** Makes the Gaussian sampler propose one value: so many coins, then the sign, the offset, and an acceptance draw of u. */
  static void script(int geo, boolean positive, long off, long u) {
    int[] st = {0, 0, 0}; // booleans, words, proposals
    Prov.source =
        n -> {
          byte[] b = new byte[n];
          if (n == 1) {
            st[0]++;
            boolean v = st[0] <= geo || st[0] == geo + 2 && positive;
            b[0] = (byte) (v ? 0x80 : 0);
            if (st[0] == geo + 2) {
              st[0] = 0;
              if (st[2]++ > 0) throw new ArithmeticException("rejected");
            }
            return b;
          }
          int w;
          switch (st[1]++ % 4) {
            case 0:
              w = (int) (off >>> 32);
              break;
            case 1:
              w = (int) off;
              break;
            case 2:
              w = (int) (u >>> 27) << 6;
              break;
            default:
              w = (int) (u & ((1 << 27) - 1)) << 5;
          }
          for (int i = n - 1; i >= 0; i--) {
            b[i] = (byte) w;
            w >>>= 8;
          }
          return b;
        };
  }

  void gauss(Ctx c, double eps, int l0, double del, int pre) {
    String name = "eps=" + eps + " delta=" + del + " l0=" + l0 + " pre=" + pre;
    // the chance of one user passing in any of its partitions is half of delta
    double per = -Math.expm1(Math.log1p(-del / 2) / l0);
    double th = 1 - new GaussianNoise().computeQuantile(per, 0.0, l0, 1, eps, del / 2);
    long T = (long) Math.ceil(th + 0.5); // noise of integers is rounded
    for (int geo = 0; geo < 5; geo++)
      for (boolean sg : new boolean[] {false, true})
        for (double f : new double[] {0, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.999}) {
          long off = (long) (f * (1L << 56));
          script(geo, sg, off, 1);
          long v;
          try {
            v = new GaussianNoise().addNoise(0L, l0, 1L, eps, del / 2);
          } catch (ArithmeticException e) {
            continue;
          }
          c.transitions++;
          long base = T - v + pre - 1;
          for (long n : new long[] {-1, 0, 1, pre - 1, pre, base - 2, base - 1, base, base + 1, base + 50}) {
            String key = name + " n=" + n + " noise=" + v;
            PreAggSelectPartition s = make(eps, del, l0, pre, n);
            script(geo, sg, off, 1);
            boolean r = s.shouldKeepPartition();
            c.transitions++;
            c.state(key);
            boolean half = r && n >= pre && n - pre + 1 + v >= th; // keeps what exceeds the threshold by less than the rounding
            c.check(r == (n >= pre && n >= base), half ? "threshold of integers ignores rounding" : name, () -> key + " kept: " + r + ", threshold " + T + " (with pre-threshold " + pre + ")");
          }
        }
    c.trace(name);
    if (pre > 1) return;
    long[] h = {0};
    int how = J01.attempt(() -> h[0] = PreAggSelectPartition.getHardThreshold(eps, del, l0));
    if (how != 0) return;
    PreAggSelectPartition s = make(eps, del, l0, 1, h[0]);
    for (int geo = 3; geo > 0; geo--) { // the lowest outcome that is not rejected
      script(geo, false, 0, 1);
      try {
        boolean kept = s.shouldKeepPartition();
        c.check(kept, "hard threshold of more than three partitions", () -> name + ": " + h[0] + " units are claimed to be always kept, and are dropped");
        return;
      } catch (ArithmeticException e) {
        s = make(eps, del, l0, 1, h[0]);
      }
    }
  }

  public void run(Ctx c, Case cs) {
    double eps = cs.d("eps", 1);
    int l0 = cs.n("l0", 1);
    for (int pre : new int[] {1, 2, 7}) {
      if (cs.has("gauss")) for (double d : new double[] {1e-9, 1e-5, 0.01, 0.3}) gauss(c, eps, l0, d, pre);
      else probabilities(c, eps, cs.d("del", 0), l0, pre, cs.n("n", 300));
    }
  }
}
