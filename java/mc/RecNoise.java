package com.google.privacy.differentialprivacy;

import com.google.privacy.differentialprivacy.proto.SummaryOuterClass.MechanismType;
import java.util.*;

/** Records what it is asked for, and returns what the harness decides. */
final class RecNoise implements Noise {
  static final class Call {
    boolean isLong;
    double x, linf, eps, delta, out;
    long xl, linfL, outL;
    int l0;

    @Override
    public String toString() {
      return (isLong ? "integer " + xl : "real " + x) + " l0=" + l0 + " linf=" + linf + " eps=" + eps + " delta=" + delta;
    }

    boolean same(Call o) {
      return isLong == o.isLong && Double.compare(x, o.x) == 0 && xl == o.xl && l0 == o.l0 && linf == o.linf && eps == o.eps && delta == o.delta;
    }
  }

  /** Offset added to the value of the k-th call. */
  interface Off {
    double at(Call c, int k);
  }

  final Noise base;
  List<Call> calls = new ArrayList<>();
  Off off;

  RecNoise(Noise base) {
    this.base = base;
  }

  void clear() {
    calls = new ArrayList<>();
  }

  @Override
  public double addNoise(double x, int l0, double linf, double eps, double delta) {
    Call c = new Call();
    c.x = x;
    c.l0 = l0;
    c.linf = linf;
    c.eps = eps;
    c.delta = delta;
    c.out = x + (off == null ? 0 : off.at(c, calls.size()));
    calls.add(c);
    return c.out;
  }

  @Override
  public long addNoise(long x, int l0, long linf, double eps, double delta) {
    Call c = new Call();
    c.isLong = true;
    c.x = x;
    c.xl = x;
    c.l0 = l0;
    c.linf = linf;
    c.linfL = linf;
    c.eps = eps;
    c.delta = delta;
    c.outL = x + (off == null ? 0 : (long) off.at(c, calls.size()));
    c.out = c.outL;
    calls.add(c);
    return c.outL;
  }

  @Override
  public ConfidenceInterval computeConfidenceInterval(double x, int l0, double linf, double eps, Double delta, double alpha) {
    return base.computeConfidenceInterval(x, l0, linf, eps, delta, alpha);
  }

  @Override
  public ConfidenceInterval computeConfidenceInterval(long x, int l0, long linf, double eps, Double delta, double alpha) {
    return base.computeConfidenceInterval(x, l0, linf, eps, delta, alpha);
  }

  @Override
  public MechanismType getMechanismType() {
    return base.getMechanismType();
  }

  @Override
  public double computeQuantile(double rank, double x, int l0, double linf, double eps, Double delta) {
    return base.computeQuantile(rank, x, l0, linf, eps, delta);
  }
}
