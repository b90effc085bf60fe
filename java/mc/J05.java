package com.google.privacy.differentialprivacy;

import java.util.*;
import java.util.function.*;

/** The law of the noise: every branch of the samplers, with the exact probability of taking it. */
final class J05 implements Main.Explorer {
  static final double TINY = Double.MIN_VALUE;
  static final double TOP = Math.nextDown(1.0);

  public List<String> list(boolean deep) {
    List<String> out = new ArrayList<>();
    int depth = deep ? 10 : 6;
    for (double e : new double[] {1e-6, 0.01, 0.3, 1, Math.log(3), 10, 300})
      for (int l0 : new int[] {1, 3, 1000})
        for (double linf : new double[] {1, 3, 0.001, 12345.678, 1e12, 1e-200, 1e200}) {
          String p = "eps=" + e + " l0=" + l0 + " linf=" + linf;
          boolean in = linf == Math.rint(linf) && linf < 1e15;
          out.add("lap " + p + " depth=" + depth);
          if (in) {
            out.add("lap " + p + " depth=" + depth + " int=1");
            out.add("dis " + p + " depth=" + depth);
          }
          if (e <= 10) for (double d : new double[] {1e-9, 1e-5, 0.1}) out.add("gau " + p + " del=" + d + (in ? " int=1" : ""));
          for (double rho : new double[] {1e-6, 0.5, 30}) if (e == 1 && l0 == 1) out.add("gau rho=" + rho + " " + p + (in ? " int=1" : ""));
        }
    out.add("wide");
    return out;
  }

  /** The smallest power of two that is at least x. */
  static double pow2ceil(double x) {
    double p = Math.scalb(1.0, Math.getExponent(x));
    return p >= x ? p : 2 * p;
  }

  static double oneMinusExp(double l, double k) {
    return -Math.expm1(-l * k);
  }

  final Dec src = new Dec();
  int nu, ns;

  /** Draws with the uniforms given (then the filler) and the signs given (then plus); null when refused. */
  Double draw(Ctx c, DoubleSupplier add, double[] us, double filler, boolean... signs) {
    nu = ns = 0;
    src.onDouble =
        () -> {
          if (++nu > 5000) throw new IllegalStateException("sampling does not end");
          return nu <= us.length ? us[nu - 1] : filler;
        };
    src.onBoolean = () -> ++ns <= signs.length ? signs[ns - 1] : true;
    c.transitions++;
    try {
      return add.getAsDouble();
    } catch (IllegalArgumentException e) {
      return null;
    }
  }

  static double[] app(double[] a, double u) {
    double[] r = Arrays.copyOf(a, a.length + 1);
    r[a.length] = u;
    return r;
  }

  static boolean allSame(double[] p) {
    for (double x : p) if (x != p[0]) return false;
    return true;
  }

  record Frame(double[] path, double left, double right) {}

  /** The decisions of the geometric sampler: true when it went through. */
  boolean tree(Ctx c, String name, double lam, double unit, DoubleSupplier add, int depth) {
    double limit = oneMinusExp(lam, Long.MAX_VALUE);
    if (limit < 1 - 1e-6) {
      c.fail(name, "truncated with probability " + (1 - limit));
      return false;
    }
    double[] root = {0.5};
    Function<double[], Double> out =
        path -> {
          double[] p = new double[path.length + 1];
          p[0] = 0.5;
          System.arraycopy(path, 0, p, 1, path.length);
          Double v = draw(c, add, p, TINY);
          return v == null ? Double.NaN : v / unit;
        };
    double lo = out.apply(new double[0]);
    c.check(lo == 0, name, () -> "smallest sample " + lo);
    ArrayDeque<Frame> stack = new ArrayDeque<>();
    stack.push(new Frame(new double[0], 0, Long.MAX_VALUE));
    int seen = 0;
    while (!stack.isEmpty()) {
      Frame fr = stack.pop();
      String key = name + " path=" + Arrays.toString(fr.path);
      c.state(key);
      out.apply(fr.path);
      if (nu <= fr.path.length + 1) {
        c.check(fr.left + 1 == fr.right || fr.right - fr.left < fr.right * 1e-15, key, () -> "ends with samples (" + fr.left + ", " + fr.right + "] left");
        continue;
      }
      double a = out.apply(app(fr.path, TINY)), b = out.apply(app(fr.path, TOP));
      if (a == b && a == fr.left && oneMinusExp(lam, 1) > 1 - 1e-15) continue; // the other outcomes are never seen
      if (!c.check(a == fr.left, key, () -> "smallest sample " + a + ", not " + fr.left) || !c.check(b > a && b < fr.right, key, () -> "samples from " + a + " and from " + b + ", at most " + fr.right)) return false;
      double mid = b, l = TINY, h = TOP;
      while (Math.nextUp(l) < h && l < h * (1 - 1e-15)) {
        double m = l < h / 16 ? Math.sqrt(l) * Math.sqrt(h) : l + (h - l) / 2;
        if (out.apply(app(fr.path, m)) == a) l = m;
        else h = m;
      }
      double want = oneMinusExp(lam, mid - fr.left) / oneMinusExp(lam, fr.right - fr.left);
      double tol = mid > 0x1p53 ? 1e-9 : 1e-12, got = l;
      c.check(Math.abs(got - want) <= tol * want + 2e-16 || 1 - want < 1e-15 && got > 1 - 1e-15, key, () -> "samples up to " + mid + " have probability " + got + ", not " + want);
      seen++;
      if (fr.path.length < depth || fr.path.length < 3 * depth && allSame(fr.path)) {
        stack.push(new Frame(app(fr.path, TINY), fr.left, mid));
        stack.push(new Frame(app(fr.path, TOP), mid, fr.right));
      }
    }
    c.trace(name + " nodes=" + seen);
    return true;
  }

  /** The sign, and zero. */
  void signs(Ctx c, String name, DoubleSupplier add, boolean exact, double slack) {
    for (double[] us : new double[][] {{0.5}, {0.5, 0.9}, {0.5, 0.9, 0.1, 0.9}}) {
      Double v = draw(c, add, us, TINY, true);
      int n1 = ns;
      Double w = draw(c, add, us, TINY, false, true);
      int n2 = ns, u2 = nu;
      if (v == null || w == null) {
        c.fail(name, "refused");
        return;
      }
      if (v == 0) {
        if (exact) c.check(n1 == 1 && n2 == 2 && w == 0 && u2 > 1, name, () -> "zero with the negative sign is not drawn again: " + n1 + " signs, then " + n2);
      } else c.check(n1 == 1 && n2 == 1 && Math.abs(v + w) <= slack, name, () -> "signs give " + v + " and " + w);
    }
  }

  static final long[] VALUES = {0, 1, -1, 7, -1000003, 1L << 40, -(1L << 53) - 1};

  static double[] scripted(int k) {
    double[] us = new double[61];
    us[0] = 0.5;
    for (int i = 0; i < 60; i++) us[i + 1] = i < 6 && (k >> i & 1) == 1 || i >= 6 && i * k % 3 == 0 ? 0.01 : 0.99;
    return us;
  }

  void laplace(Ctx c, double eps, double linf, int l0, int depth, boolean integer) {
    double l1 = linf * l0, g = pow2ceil(l1 / eps / 0x1p40), lam = g * eps / (l1 + g);
    String name = "Laplace integer=" + integer + " eps=" + eps + " l0=" + l0 + " linf=" + linf;
    LaplaceNoise n = LaplaceNoise.createForTesting(src);
    double unit = integer ? Math.max(g, 1) : g;
    DoubleSupplier fadd = () -> n.addNoise(0.0, l0, linf, eps, 0.0);
    DoubleSupplier add = integer ? () -> n.addNoise(0L, l0, (long) linf, eps, 0.0) : fadd;
    boolean exact = !integer || g >= 1 && l1 / eps < 1e17;
    if (exact && !tree(c, name, lam, unit, add, depth)) return;
    signs(c, name, add, exact, integer && g < 1 ? 1 : 0); // halves are rounded up
    double[] sc = {0.5, 0.7, 0.7, 0.2};
    if (!integer) {
      double v = draw(c, add, sc, TINY);
      for (double x : new double[] {0, g, g / 2, g * 0.75, g * 0.25, -g, -g * 1.6, g * 1000001, 1, -3.7, l1 * 12.3, -l1 * 1e7, l1 * 1e11}) {
        Double got = draw(c, () -> n.addNoise(x, l0, linf, eps, 0.0), sc, TINY);
        String key = name + " x=" + x;
        c.state(key);
        if (got == null) {
          c.fail(key, "refused");
          continue;
        }
        double d = got - v;
        c.check(Math.abs(d - x) <= g * 0.5 * (1 + 1e-12) + Math.abs(x) * 3e-16, key, () -> "moved to " + d);
        c.check(Double.isInfinite(got / g) || got / g == Math.rint(got / g), key, () -> got + " is not a multiple of " + g);
      }
      return;
    }
    if (l1 / eps >= 1e17) return;
    for (boolean sign : new boolean[] {true, false})
      for (int k = 0; k < 64; k++) {
        double[] us = scripted(k);
        double ref = draw(c, fadd, us, TINY, sign);
        for (long x : VALUES) {
          Double got = draw(c, () -> n.addNoise(x, l0, (long) linf, eps, 0.0) - x, us, TINY, sign);
          String key = name + " x=" + x + " script=" + k + " sign=" + sign;
          c.state(key);
          c.check(got != null && (g < 1 ? got == Math.round(ref) : Math.abs(got - ref) <= g / 2 + Math.abs(ref) * 3e-16), key, () -> "noise " + got + ", rounded from " + ref + ", granularity " + g);
        }
      }
    c.trace(name + " integers");
  }

  void discrete(Ctx c, double eps, double linf, int l0, int depth) {
    String name = "discrete Laplace eps=" + eps + " l0=" + l0 + " linf=" + linf;
    DiscreteLaplaceNoise n = DiscreteLaplaceNoise.createForTesting(src);
    DoubleSupplier add = () -> n.addNoise(0L, l0, (long) linf, eps, 0.0);
    double lam = eps / (linf * l0);
    if (lam <= 0x1p-59 * 64) return; // truncated or refused
    if (!tree(c, name, lam, 1, add, depth)) return;
    signs(c, name, add, true, 0);
    for (boolean sign : new boolean[] {true, false})
      for (int k = 0; k < 64; k++) {
        double[] us = scripted(k);
        long[] ref = {0};
        draw(c, () -> ref[0] = n.addNoise(0L, l0, (long) linf, eps, 0.0), us, TINY, sign);
        for (long x : VALUES) {
          long[] got = {0};
          draw(c, () -> got[0] = n.addNoise(x, l0, (long) linf, eps, 0.0), us, TINY, sign);
          String key = name + " x=" + x + " script=" + k + " sign=" + sign;
          c.state(key);
          c.check(got[0] == x + ref[0], key, () -> "gives " + got[0] + ", the noise is " + ref[0]);
        }
      }
  }

  static final class Rejected extends RuntimeException {}

  /** Proposes one cell and offset: the outcome if accepted at u, otherwise null. */
  Double gauss(Ctx c, DoubleSupplier add, int geo, boolean plus, long off, double u) {
    int[] at = {0};
    src.onBoolean =
        () -> {
          at[0]++;
          if (at[0] == geo + 3) throw new Rejected();
          return at[0] <= geo || at[0] == geo + 2 && plus;
        };
    int[] longs = {0};
    src.onLong =
        () -> {
          if (longs[0]++ > 0) throw new Rejected();
          return off;
        };
    src.onDouble = () -> u;
    c.transitions++;
    try {
      return add.getAsDouble();
    } catch (Rejected e) {
      return null;
    }
  }

  void gaussian(Ctx c, double eps, double del, double rho, double linf, int l0, boolean integer) {
    String name = "Gaussian integer=" + integer + (rho > 0 ? " rho=" + rho : " eps=" + eps + " delta=" + del) + " l0=" + l0 + " linf=" + linf;
    GaussianNoise n = GaussianNoise.createForTesting(src);
    double sigma = rho > 0 ? linf / Math.sqrt(2 * rho) : GaussianNoise.getSigma(Math.sqrt(l0) * linf, eps, del);
    double g = pow2ceil(2 * sigma / 0x1p57), sqrtN = 2 * sigma / g;
    DoubleFunction<DoubleSupplier> at = x -> rho > 0 ? () -> n.addNoiseDefinedByRho(x, linf, rho) : () -> n.addNoise(x, l0, linf, eps, del);
    LongFunction<LongSupplier> iat = x -> rho > 0 ? () -> n.addNoiseDefinedByRho(x, linf, rho) : () -> n.addNoise(x, l0, (long) linf, eps, del);
    DoubleSupplier add = at.apply(0.0);
    // offsets of a cell go up to its width, then wrap
    long a0 = 0, b0 = 1L << 62;
    while (a0 + 1 < b0) {
      long m = a0 + (b0 - a0) / 2;
      Double v = gauss(c, add, 0, true, m, TINY);
      if (v != null && Math.abs(v / g - m) <= m * 4e-16) a0 = m;
      else b0 = m;
    }
    long step = b0;
    double tail = 1 - Long.MAX_VALUE / step * (double) step / Long.MAX_VALUE; // offsets at the end are drawn again
    c.check(tail < 0.5, name, () -> "width of the cells " + step);
    for (boolean neg : new boolean[] {false, true}) { // the offsets drawn again: all of the incomplete last cell
      long last = Long.MAX_VALUE / step * step;
      c.check(gauss(c, add, 0, !neg, last, TINY) == null, name, () -> "an offset of the incomplete last cell is used");
      c.check(gauss(c, add, 0, !neg, last - 1, TINY) != null, name, () -> "an offset of the last complete cell is not used");
      Double v = gauss(c, add, 0, !neg, (step / 3) | Long.MIN_VALUE, TINY), w = gauss(c, add, 0, !neg, step / 3, TINY);
      c.check(v != null && v.equals(w), name, () -> "the highest bit of the draw changes " + w + " to " + v);
    }
    long[] offs = {0, step / 4, step / 2, step / 4 * 3 + 1, step - 1};
    double cut = sqrtN * Math.sqrt(Math.log(sqrtN) / 2), norm = 0;
    Map<String, Double> edges = new HashMap<>();
    for (int geo = 0; geo < 8; geo++)
      for (boolean plus : new boolean[] {true, false})
        for (int oi = 0; oi < 5; oi++) {
          String key = name + " cell=" + geo + " positive=" + plus + " offset=" + oi;
          c.state(key);
          Double v = gauss(c, add, geo, plus, offs[oi], 1e-300);
          if (v == null) {
            c.check(geo * (double) step + step > cut * (1 - 1e-9), key, () -> "a cell inside the range is never accepted");
            continue;
          }
          double m = v / g;
          if (oi == 0 || oi == 4) edges.put((plus ? geo : -geo - 1) + " " + oi, m);
          if (gauss(c, add, geo, plus, offs[oi], TOP) != null) {
            c.fail(key, "accepted with certainty: the proposal does not cover the density");
            continue;
          }
          double l = 1e-300, h = TOP;
          while (l < h * (1 - 1e-14)) {
            double mm = l < h / 16 ? Math.sqrt(l * h) : l + (h - l) / 2;
            if (gauss(c, add, geo, plus, offs[oi], mm) != null) l = mm;
            else h = mm;
          }
          double p = l * Math.scalb(1.0, -geo), want = Math.exp(-2 * m * m / (sqrtN * sqrtN));
          if (norm == 0) norm = p / want;
          double nn = norm;
          c.check(Math.abs(p - nn * want) <= 1e-9 * nn * want, key, () -> "outcome " + m + " has probability " + p / nn + " relative to the first, not " + want);
        }
    for (int k = -3; k <= 2; k++) {
      Double a = edges.get(k + " 4"), b = edges.get((k + 1) + " 0");
      if (a == null || b == null) continue;
      int kk = k;
      c.check(b - a == 1 || Math.abs(b) > 0x1p53 && Math.abs(b - a) <= Math.abs(b) * 4e-16, name, () -> "cell " + kk + " ends at " + a + ", the next begins at " + b);
    }
    Double z = edges.get("0 0");
    c.check(z != null && z == 0, name, () -> "the innermost cell begins at " + z);
    c.trace(name);
    double v0 = gauss(c, add, 0, true, step / 2, 1e-300);
    for (double x : new double[] {0, 1, -3.7, sigma * 12.3, -sigma * 1e7, g * 0.5, g * 0.75, -g * 1.25}) {
      Double got = gauss(c, at.apply(x), 0, true, step / 2, 1e-300);
      String key = name + " x=" + x;
      c.state(key);
      c.check(got != null && Math.abs(got - v0 - x) <= g * 0.5 * (1 + 1e-12) + Math.abs(x) * 3e-16 + Math.abs(v0) * 3e-16, key, () -> "moved to " + (got - v0));
      c.check(got != null && got / g == Math.rint(got / g), key, () -> got + " is not a multiple of " + g);
    }
    if (!integer) return;
    for (int geo = 0; geo < 4; geo++)
      for (boolean plus : new boolean[] {false, true})
        for (long off : offs) {
          Double ref = gauss(c, add, geo, plus, off, 1e-300);
          if (ref == null || Math.abs(ref) > 0x1p62) continue;
          for (long x : VALUES) {
            LongSupplier f = iat.apply(x);
            Double got = gauss(c, () -> f.getAsLong() - x, geo, plus, off, 1e-300);
            String key = name + " x=" + x + " cell=" + geo + " " + plus + " " + off;
            c.check(got != null && (g < 1 ? got == Math.round(ref) : Math.abs(got - ref) <= g / 2 + Math.abs(ref) * 3e-16), key, () -> "noise " + got + ", rounded from " + ref + ", granularity " + g);
          }
        }
  }

  /** Sensitivities whose product leaves the integers are refused. */
  void wide(Ctx c) {
    LaplaceNoise lap = LaplaceNoise.createForTesting(src);
    DiscreteLaplaceNoise dis = DiscreteLaplaceNoise.createForTesting(src);
    for (int l0 : new int[] {1, 2, 3, 1 << 20, 1 << 30, Integer.MAX_VALUE})
      for (long linf : new long[] {1, 2, 3, 1L << 20, 1L << 31, (1L << 32) + 1, 1L << 40, 1L << 62, Long.MAX_VALUE})
        for (int kind = 0; kind < 2; kind++) {
          String key = (kind == 0 ? "Laplace" : "discrete Laplace") + " integers l0=" + l0 + " linf=" + linf;
          c.state(key);
          c.trace(key);
          double sc = (double) l0 * (double) linf;
          boolean k = kind == 0;
          Double v = draw(c, () -> k ? lap.addNoise(0L, l0, linf, 1.0, 0.0) : dis.addNoise(0L, l0, linf, 1.0, 0.0), new double[] {0.5, 0.9}, TINY);
          if (v == null) c.check(sc >= (k ? Long.MAX_VALUE * (1 - 1e-15) : 0x1p58), "wide integers refused", () -> key + ": refused");
          else if (sc < 4e18) c.check(Math.abs(v) >= sc * 0.05 - 1 && Math.abs(v) <= sc * 20 + 1, "wide integers", () -> key + ": noise " + v + " for a sensitivity of " + sc);
          else c.check(sc <= 0x1p63, "wide integers accepted", () -> key + ": accepted although the sensitivity " + sc + " cannot be represented");
        }
  }

  public void run(Ctx c, Case cs) {
    if (cs.has("wide")) wide(c);
    else if (cs.has("lap")) laplace(c, cs.d("eps", 1), cs.d("linf", 1), cs.n("l0", 1), cs.n("depth", 6), cs.has("int"));
    else if (cs.has("dis")) discrete(c, cs.d("eps", 1), cs.d("linf", 1), cs.n("l0", 1), cs.n("depth", 6));
    else gaussian(c, cs.d("eps", 1), cs.d("del", 0), cs.d("rho", 0), cs.d("linf", 1), cs.n("l0", 1), cs.has("int"));
  }
}
