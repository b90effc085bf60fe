package com.google.privacy.differentialprivacy;

import java.util.*;

/** Parameters of an aggregation. */
final class P implements Cloneable {
  String kind;
  double eps = 1, delta = 0, lower = -2, upper = 5;
  long lo = -2, up = 5;
  int l0 = 2, linf = 3, pre = 1, height = 2, br = 3;
  boolean gauss;
  ApproximateBounds.Params.InputType type = ApproximateBounds.Params.InputType.TEST;

  P(String kind) {
    this.kind = kind;
    if (kind.equals("part")) delta = 0.01;
  }

  P copy() {
    try {
      return (P) clone();
    } catch (CloneNotSupportedException e) {
      throw new IllegalStateException(e);
    }
  }

  P gauss(double d) {
    gauss = true;
    delta = d;
    return this;
  }

  @Override
  public String toString() {
    return kind + " eps=" + eps + " delta=" + delta + " l0=" + l0 + " linf=" + linf + (kind.equals("lsum") ? " [" + lo + "," + up + "]" : " [" + lower + "," + upper + "]")
        + (gauss ? " Gaussian" : "") + (kind.equals("part") ? " pre=" + pre : "");
  }
}

/** One aggregation of the library behind a common face. */
abstract class Obj {
  RecNoise noise;

  abstract void add(double v);

  abstract void addAll(List<Double> v);

  abstract double[] result();

  abstract double[] interval(double alpha);

  abstract byte[] ser();

  abstract void merge(byte[] b);

  static final String[] KINDS = {"count", "bsum", "lsum", "mean", "var", "quant", "part", "ab"};

  static double[] ci(ConfidenceInterval c) {
    return new double[] {c.lowerBound(), c.upperBound()};
  }

  static Obj make(P p) {
    RecNoise n = new RecNoise(p.gauss ? new GaussianNoise() : new LaplaceNoise());
    Obj o = make(p, n);
    o.noise = n;
    n.clear();
    return o;
  }

  static Obj make(P p, Noise n) {
    switch (p.kind) {
      case "count":
      case "thresh": {
        Count c =
            Count.builder().epsilon(p.eps).delta(p.delta).maxPartitionsContributed(p.l0).maxContributionsPerPartition(p.linf).noise(n).build();
        boolean thresh = p.kind.equals("thresh");
        return new Obj() {
          void add(double v) {
            if (v == 1) c.increment();
            else c.incrementBy((long) v);
          }

          void addAll(List<Double> v) {
            for (double x : v) add(x);
          }

          double[] result() {
            if (!thresh) return new double[] {c.computeResult()};
            Optional<Long> r = c.computeThresholdedResult(0.01);
            return new double[] {r.isPresent() ? r.get() : Double.NaN};
          }

          double[] interval(double a) {
            return ci(c.computeConfidenceInterval(a));
          }

          byte[] ser() {
            return c.getSerializableSummary();
          }

          void merge(byte[] b) {
            c.mergeWith(b);
          }
        };
      }
      case "bsum": {
        BoundedSum c =
            BoundedSum.builder().epsilon(p.eps).delta(p.delta).maxPartitionsContributed(p.l0).maxContributionsPerPartition(p.linf).lower(p.lower).upper(p.upper)
                .noise(n).build();
        return new Obj() {
          void add(double v) {
            c.addEntry(v);
          }

          void addAll(List<Double> v) {
            c.addEntries(v);
          }

          double[] result() {
            return new double[] {c.computeResult()};
          }

          double[] interval(double a) {
            return ci(c.computeConfidenceInterval(a));
          }

          byte[] ser() {
            return c.getSerializableSummary();
          }

          void merge(byte[] b) {
            c.mergeWith(b);
          }
        };
      }
      case "lsum": {
        LongBoundedSum c =
            LongBoundedSum.builder().epsilon(p.eps).delta(p.delta).maxPartitionsContributed(p.l0).maxContributionsPerPartition(p.linf).lower(p.lo).upper(p.up).noise(n)
                .build();
        return new Obj() {
          void add(double v) {
            if (!Double.isNaN(v)) c.addEntry((long) v);
          }

          void addAll(List<Double> v) {
            List<Long> l = new ArrayList<>();
            for (double x : v) if (!Double.isNaN(x)) l.add((long) x);
            c.addEntries(l);
          }

          double[] result() {
            return new double[] {c.computeResult()};
          }

          double[] interval(double a) {
            return ci(c.computeConfidenceInterval(a));
          }

          byte[] ser() {
            return c.getSerializableSummary();
          }

          void merge(byte[] b) {
            c.mergeWith(b);
          }
        };
      }
      case "mean": {
        BoundedMean c =
            BoundedMean.builder().epsilon(p.eps).delta(p.delta).maxPartitionsContributed(p.l0).maxContributionsPerPartition(p.linf).lower(p.lower).upper(p.upper)
                .noise(n).build();
        return new Obj() {
          void add(double v) {
            c.addEntry(v);
          }

          void addAll(List<Double> v) {
            c.addEntries(v);
          }

          double[] result() {
            return new double[] {c.computeResult()};
          }

          double[] interval(double a) {
            return ci(c.computeConfidenceInterval(a));
          }

          byte[] ser() {
            return c.getSerializableSummary();
          }

          void merge(byte[] b) {
            c.mergeWith(b);
          }
        };
      }
      case "var": {
        BoundedVariance c =
            BoundedVariance.builder().epsilon(p.eps).delta(p.delta).maxPartitionsContributed(p.l0).maxContributionsPerPartition(p.linf).lower(p.lower).upper(p.upper)
                .noise(n).build();
        return new Obj() {
          void add(double v) {
            c.addEntry(v);
          }

          void addAll(List<Double> v) {
            c.addEntries(v);
          }

          double[] result() {
            return new double[] {c.computeResult()};
          }

          double[] interval(double a) {
            return null;
          }

          byte[] ser() {
            return c.getSerializableSummary();
          }

          void merge(byte[] b) {
            c.mergeWith(b);
          }
        };
      }
      case "quant": {
        BoundedQuantiles c =
            BoundedQuantiles.builder().epsilon(p.eps).delta(p.delta).maxPartitionsContributed(p.l0).maxContributionsPerPartition(p.linf).lower(p.lower).upper(p.upper)
                .treeHeight(p.height).branchingFactor(p.br).noise(n).build();
        return new Obj() {
          void add(double v) {
            c.addEntry(v);
          }

          void addAll(List<Double> v) {
            c.addEntries(v);
          }

          double[] result() {
            return new double[] {c.computeResult(0.5), c.computeResult(0.1), c.computeResult(0.9)};
          }

          double[] interval(double a) {
            return ci(c.computeConfidenceInterval(0.5, a));
          }

          byte[] ser() {
            return c.getSerializableSummary();
          }

          void merge(byte[] b) {
            c.mergeWith(b);
          }
        };
      }
      case "part": {
        PreAggSelectPartition c =
            PreAggSelectPartition.builder().epsilon(p.eps).delta(p.delta).maxPartitionsContributed(p.l0).preThreshold(p.pre).build();
        return new Obj() {
          void add(double v) {
            if (v == 1) c.increment();
            else c.incrementBy((long) v);
          }

          void addAll(List<Double> v) {
            for (double x : v) add(x);
          }

          double[] result() {
            return new double[] {c.shouldKeepPartition() ? 1 : 0};
          }

          double[] interval(double a) {
            return null;
          }

          byte[] ser() {
            return c.getSerializableSummary();
          }

          void merge(byte[] b) {
            c.mergeWith(b);
          }
        };
      }
      case "ab": {
        ApproximateBounds c = ApproximateBounds.builder().epsilon(p.eps).inputType(p.type).maxContributions(p.linf).build();
        return new Obj() {
          void add(double v) {
            c.addEntry(v);
          }

          void addAll(List<Double> v) {
            c.addEntries(v);
          }

          double[] result() {
            ApproximateBounds.Result r = c.computeResult();
            return new double[] {r.lowerBound(), r.upperBound()};
          }

          double[] interval(double a) {
            return null;
          }

          byte[] ser() {
            return c.getSerializableSummary();
          }

          void merge(byte[] b) {
            c.mergeWith(b);
          }
        };
      }
      default:
        throw new IllegalStateException(p.kind);
    }
  }
}
