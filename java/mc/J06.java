package com.google.privacy.differentialprivacy;

import java.util.*;
import java.util.function.DoubleUnaryOperator;

/** Quantiles: every small dataset, and every noise outcome from a menu on every node that is looked at. */
final class J06 implements Main.Explorer {
  static final double[][] BOUNDS = {{0, 1}, {-1, 1}, {-2, 7}, {-1e16, 1}, {3, 3.5}, {-1e300, 1e-300}, {1e15, 1e15 + 2}};
  static final int[][] SHAPES = {{1, 2}, {1, 3}, {2, 2}, {2, 3}, {3, 2}, {1, 7}, {4, 2}};
  static final double[][] REF = {{0.5}, {0.5, 0.5, 6.5}, {0.5, 0.5, 0.5, 0.5, 1.5, 1.5, 4.5}, {7.9, 7.9, 7.9, 3.1, 3.1, 2.9}};
  static final double[][] NOISED = {{}, {0.5}, {0.5, 6.5}, {1, 1, 1, 5}};
  static final double[] MENU = {0, 2, -3, 400};
  static final double[] RANKS = {0.5, 0, 1, 0.13, 0.31, 0.77};

  public List<String> list(boolean deep) {
    List<String> out = new ArrayList<>();
    for (int b = 0; b < BOUNDS.length; b++) for (int s = 0; s < SHAPES.length; s++) out.add("data=" + b + " shape=" + s + " size=" + (deep ? 6 : 4));
    for (int i = 0; i < NOISED.length; i++)
      for (int s = 0; s < SHAPES.length; s++) {
        if (s == 5 || s == 6 || !deep && (s == 3 || s == 4)) continue;
        int m = s == 3 || s == 4 ? 2 : 4;
        for (int f = 0; f < m; f++) for (int ci = 0; ci < 2; ci++) out.add("noise=" + i + " shape=" + s + " first=" + f + " menu=" + m + " ci=" + ci);
      }
    for (int br = 2; br <= 4; br++) for (int f = 0; f < EDGE.length; f++) out.add("edge=" + br + " first=" + f);
    for (int i = 0; i < REF.length; i++) for (int s = 0; s < SHAPES.length - 1; s++) out.add("ref=" + i + " shape=" + s + (deep ? " deep=1" : ""));
    return out;
  }

  static BoundedQuantiles make(double lo, double up, int[] sh, RecNoise n) {
    return BoundedQuantiles.builder().epsilon(1).maxPartitionsContributed(2).maxContributionsPerPartition(3).lower(lo).upper(up).treeHeight(sh[0]).branchingFactor(sh[1]).noise(n).build();
  }

  static double clamp(double x, double a, double b) {
    return x < a ? a : x > b ? b : x;
  }

  static int clampInt(int x, int a, int b) {
    return Math.max(a, Math.min(b, x));
  }

  void data(Ctx c, double lo, double up, int[] sh, int size) {
    int leaves = (int) Math.round(Math.pow(sh[1], sh[0]));
    double w = (up - lo) / leaves;
    double[] menu = {lo, up, Math.nextDown(up), Math.nextUp(lo), Double.NaN, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, lo + w * 0.5, lo + w * 1.5, lo + w * (leaves / 2 + 0.5), lo + w * (leaves - 0.5)};
    multisets(c, lo, up, sh, menu, new int[size], 0, 0, w);
  }

  void multisets(Ctx c, double lo, double up, int[] sh, double[] menu, int[] pick, int n, int from, double w) {
    one(c, lo, up, sh, menu, Arrays.copyOf(pick, n), w);
    if (n == pick.length) return;
    for (int k = from; k < menu.length; k++) {
      pick[n] = k;
      multisets(c, lo, up, sh, menu, pick, n + 1, k, w);
    }
  }

  void one(Ctx c, double lo, double up, int[] sh, double[] menu, int[] ds, double w) {
    double[] vals = Arrays.stream(ds).mapToDouble(k -> menu[k]).toArray();
    String key = "tree " + sh[1] + "^" + sh[0] + " bounds=[" + lo + "," + up + "] values=" + Arrays.toString(vals);
    BoundedQuantiles q = make(lo, up, sh, new RecNoise(new LaplaceNoise()));
    for (double v : vals) q.addEntry(v);
    c.transitions += vals.length;
    double[] xs = Arrays.stream(vals).filter(v -> !Double.isNaN(v)).map(v -> clamp(v, lo, up)).sorted().toArray();
    double last = Double.NEGATIVE_INFINITY, ulps = (Math.abs(lo) + Math.abs(up)) * 4e-16;
    c.state(key);
    for (double r : new double[] {0, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 1}) {
      double v = q.computeResult(r), before = last;
      if (!c.check(v >= lo - ulps && v <= up + ulps, key, () -> "rank " + r + " gives " + v)) break;
      c.check(v >= before - ulps, key, () -> "rank " + r + " gives " + v + ", a smaller rank " + before);
      last = v;
      if (xs.length == 0) {
        double mid = lo + (up - lo) * clamp(r, 0.005, 0.995);
        c.check(Math.abs(v - mid) <= (up - lo) * 1e-9 + ulps, key, () -> "no data: rank " + r + " gives " + v + ", not " + mid);
        continue;
      }
      double n = xs.length;
      int a = (int) Math.floor(r * n - 1e-4), b = (int) Math.floor(r * n + 1e-4);
      double l = xs[clampInt(a, 0, xs.length - 1)], h = xs[clampInt(b, 0, xs.length - 1)];
      if (r * n < 1e-4) l = h = xs[0];
      if (Math.abs(r * n - Math.rint(r * n)) < 1e-4 && a >= 0 && a < xs.length - 1) h = xs[a + 1];
      double t = w * (1 + 1e-6) + Math.abs(lo) * 1e-15, ll = l, hh = h;
      c.check(v >= l - t && v <= h + t, key, () -> key + ": rank " + r + " gives " + v + "; the values at this rank are within [" + ll + ", " + hh + "], a leaf is " + w + " wide");
    }
    c.trace(key);
  }

  /** The quantile of the documentation, computed on a plain array of leaves. */
  static double reference(double lower, double upper, int[] sh, double[] xs, double rank, DoubleUnaryOperator noise) {
    int br = sh[1], leaves = (int) Math.round(Math.pow(br, sh[0]));
    double[] cnt = new double[leaves];
    for (double x : xs) cnt[Math.min(leaves - 1, (int) ((clamp(x, lower, upper) - lower) / (upper - lower) * leaves))]++;
    rank = clamp(rank, 0.005, 0.995);
    int lo = 0, w = leaves;
    while (w > 1) {
      int cw = w / br;
      double[] c = new double[br];
      double tot = 0, kept = 0;
      for (int j = 0; j < br; j++) {
        for (int i = lo + j * cw; i < lo + (j + 1) * cw; i++) c[j] += cnt[i];
        c[j] += noise.applyAsDouble(c[j]);
        tot += Math.max(0, c[j]);
      }
      for (double v : c) if (v >= tot * 0.0075) kept += v;
      if (kept == 0) break;
      double part = 0;
      for (int j = 0; j < br; j++) {
        double v = c[j];
        if (v < tot * 0.0075) continue;
        if ((part + v) / kept >= rank - 1e-6) {
          rank = clamp((rank - part / kept) / (v / kept), 0, 1);
          lo += j * cw;
          w = cw;
          break;
        }
        part += v;
      }
    }
    return lower + (upper - lower) / leaves * (lo + rank * w);
  }

  static final double[] EDGE = {0, 3, 394, 397, 400, 2.9999, -3, 1};

  static double referenceNodes(double[] c, double rank, double gamma) {
    rank = clamp(rank, 0.005, 0.995);
    double tot = 0, kept = 0, part = 0, w = 8.0 / c.length;
    for (double v : c) tot += Math.max(0, v);
    for (double v : c) if (v >= tot * gamma) kept += v;
    if (kept == 0) return 8 * rank;
    for (int j = 0; j < c.length; j++) {
      if (c[j] < tot * gamma) continue;
      if ((part + c[j]) / kept >= rank - 1e-6) return w * (j + clamp((rank - part / kept) / (c[j] / kept), 0, 1));
      part += c[j];
    }
    return Double.NaN;
  }

  /**
   * One level of nodes, every assignment of noised counts from a menu around the fraction below which a node counts as empty. At exactly that fraction either reading is accepted, but one of them
   * everywhere.
   */
  void edge(Ctx c, int br, int first) {
    int[] idx = new int[br];
    idx[0] = first;
    while (true) {
      double[] counts = Arrays.stream(idx).mapToDouble(k -> EDGE[k]).toArray();
      String key = "one level of " + br + " nodes, noised counts " + Arrays.toString(counts);
      RecNoise rn = new RecNoise(new LaplaceNoise());
      rn.off =
          (call, k) -> {
            if (k > 100 * br || call.x >= br) throw new IllegalStateException("more nodes than the tree has are looked at");
            return counts[(int) call.x] - call.x;
          };
      BoundedQuantiles q = make(0, 8, new int[] {1, br}, rn);
      for (int i = 0; i < br; i++) for (int k = 0; k < i; k++) q.addEntry((i + 0.5) * 8 / br); // entries tell the nodes apart
      double last = Double.NEGATIVE_INFINITY;
      try {
        for (double r : new double[] {0, 0.005, 0.25, 0.5, 0.75, 0.985, 0.995, 1}) {
          double v = q.computeResult(r), a = referenceNodes(counts, r, 0.0075 * (1 - 1e-9)), z = referenceNodes(counts, r, 0.0075 * (1 + 1e-9)), before = last;
          c.transitions++;
          c.check(Math.abs(v - a) <= 1e-7 || Math.abs(v - z) <= 1e-7, key, () -> "rank " + r + " gives " + v + ", not " + a + " or " + z);
          c.check(v >= before - 1e-7 && v >= 0 && v <= 8, key, () -> "rank " + r + " gives " + v + ", a smaller rank " + before);
          last = v;
        }
      } catch (RuntimeException e) {
        c.check(false, key, () -> "the search fails: " + e);
      }
      c.state(key);
      c.trace(key);
      int i = 1;
      for (; i < br; i++) {
        if (++idx[i] < EDGE.length) break;
        idx[i] = 0;
      }
      if (i == br) return;
    }
  }

  /** Noise that is a function of the count of a node: every such function on the counts that occur. */
  void ref(Ctx c, int[] sh, double[] ds, double[] menu) {
    int n = ds.length + 1;
    int[] idx = new int[n];
    boolean[] used = new boolean[n];
    while (true) {
      double[] f = new double[n];
      for (int i = 0; i < n; i++) f[i] = menu[idx[i]];
      String key = "tree " + sh[1] + "^" + sh[0] + " values=" + Arrays.toString(ds) + " noise by count=" + Arrays.toString(f);
      RecNoise rn = new RecNoise(new LaplaceNoise());
      rn.off =
          (call, k) -> {
            used[(int) call.x] = true;
            return f[(int) call.x];
          };
      BoundedQuantiles q = make(0, 8, sh, rn);
      for (double x : ds) q.addEntry(x);
      for (double r : RANKS) {
        double v = q.computeResult(r), want = reference(0, 8, sh, ds, r, x -> f[(int) x]);
        c.transitions++;
        c.check(Math.abs(v - want) <= 1e-8, key, () -> "rank " + r + " gives " + v + ", the reference " + want);
      }
      for (RecNoise.Call k : rn.calls)
        c.check(k.l0 == 2 * sh[0] && k.linf == 3 && k.eps == 1 && !k.isLong, "noise of a node", () -> key + ": noise asked for " + k);
      c.state(key);
      c.trace(key);
      int i = 0;
      for (; i < n; i++) {
        if (!used[i]) continue;
        if (++idx[i] < menu.length) break;
        idx[i] = 0;
      }
      if (i == n) return;
    }
  }

  /** Every assignment of noise to the nodes in the order they are looked at. */
  int exec(Ctx c, int[] sh, double[] ds, double[] menu, int[] script, boolean ci) {
    RecNoise rn = new RecNoise(new LaplaceNoise());
    rn.off = (call, k) -> menu[k < script.length ? script[k] : 0];
    BoundedQuantiles q = make(0, 8, sh, rn);
    for (double x : ds) q.addEntry(x);
    String key = "tree " + sh[1] + "^" + sh[0] + " values=" + Arrays.toString(ds) + " noise=" + Arrays.toString(script);
    double[] got = new double[RANKS.length];
    double[][] iv = new double[RANKS.length][];
    for (int pass = 0; pass < 2; pass++) {
      int before = rn.calls.size(), ps = pass;
      for (int i = 0; i < RANKS.length; i++) {
        double r = RANKS[i], v = q.computeResult(r), g = got[i];
        c.transitions++;
        c.check(v >= -1e-9 && v <= 8 + 1e-9, key, () -> "rank " + r + " gives " + v);
        if (pass == 1) c.check(v == g, key, () -> "rank " + r + " gives " + g + ", and " + v + " when asked again");
        got[i] = v;
        if (!ci) continue;
        ConfidenceInterval a = q.computeConfidenceInterval(r, 0.5), b = q.computeConfidenceInterval(r, 0.05);
        c.transitions += 2;
        double[] now = {a.lowerBound(), a.upperBound(), b.lowerBound(), b.upperBound()}, old = iv[i];
        c.check(now[0] <= now[1] && now[2] <= now[0] + 1e-9 && now[3] >= now[1] - 1e-9 && now[2] >= -1e-9 && now[3] <= 8 + 1e-9, "interval", () -> key + " rank " + r + ": intervals " + Arrays.toString(now));
        c.check(now[2] <= v + 1e-9 && v <= now[3] + 1e-9, "interval misses", () -> key + " rank " + r + " gives " + v + ", interval " + Arrays.toString(now));
        if (pass == 1) c.check(Arrays.equals(now, old), "interval again", () -> key + " rank " + r + ": intervals " + Arrays.toString(old) + ", asked again " + Arrays.toString(now));
        iv[i] = now;
      }
      c.check(pass == 0 || rn.calls.size() == before, key, () -> "asking again draws noise again");
    }
    int nodes = 0;
    for (int l = 1, m = sh[1]; l <= sh[0]; l++, m *= sh[1]) nodes += m;
    int max = nodes;
    c.check(rn.calls.size() <= max, key, () -> rn.calls.size() + " draws for " + max + " nodes");
    Integer[] order = new Integer[RANKS.length];
    for (int i = 0; i < order.length; i++) order[i] = i;
    Arrays.sort(order, Comparator.comparingDouble(i -> RANKS[i]));
    for (int i = 1; i < order.length; i++) {
      double a = got[order[i - 1]], b = got[order[i]];
      int ii = i;
      c.check(a <= b * (1 + 1e-12) + 1e-12, key, () -> "rank " + RANKS[order[ii - 1]] + " gives " + a + ", rank " + RANKS[order[ii]] + " gives " + b);
    }
    c.state(key);
    c.trace(key);
    return rn.calls.size();
  }

  void walk(Ctx c, int[] sh, double[] ds, double[] menu, int[] script, int from, boolean ci) {
    int n = exec(c, sh, ds, menu, script, ci);
    for (int pos = Math.max(from, script.length); pos < n; pos++)
      for (int v = 1; v < menu.length; v++) {
        int[] s = Arrays.copyOf(script, pos + 1);
        s[pos] = v;
        walk(c, sh, ds, menu, s, 0, ci);
      }
  }

  public void run(Ctx c, Case cs) {
    int[] sh = SHAPES[cs.n("shape", 0)];
    if (cs.has("data")) {
      double[] b = BOUNDS[cs.n("data", 0)];
      data(c, b[0], b[1], sh, cs.n("size", 4));
    } else if (cs.has("edge")) {
      edge(c, cs.n("edge", 2), cs.n("first", 0));
    } else if (cs.has("ref")) {
      double[] menu = {0, 2, -3, 400, 0.005};
      if (cs.has("deep")) menu = new double[] {0, 2, -3, 400, 0.005, -1, 1};
      ref(c, sh, REF[cs.n("ref", 0)], menu);
    } else {
      double[] menu = Arrays.copyOf(MENU, cs.n("menu", 4));
      int f = cs.n("first", 0);
      walk(c, sh, NOISED[cs.n("noise", 0)], menu, f == 0 ? new int[0] : new int[] {f}, f == 0 ? 1 : 0, cs.n("ci", 0) == 1);
    }
  }
}
