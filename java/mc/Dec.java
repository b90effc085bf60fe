package com.google.privacy.differentialprivacy;

import java.util.Random;
import java.util.function.*;

/** A source whose every draw is decided by the harness. */
final class Dec extends Random {
  DoubleSupplier onDouble;
  BooleanSupplier onBoolean;
  LongSupplier onLong;
  IntUnaryOperator onInt;

  @Override
  public double nextDouble() {
    return onDouble.getAsDouble();
  }

  @Override
  public boolean nextBoolean() {
    return onBoolean.getAsBoolean();
  }

  @Override
  public long nextLong() {
    return onLong.getAsLong();
  }

  @Override
  public int nextInt(int n) {
    return onInt.applyAsInt(n);
  }

  @Override
  protected int next(int bits) {
    if (onInt == null) throw new IllegalStateException("raw draw of " + bits + " bits");
    return onInt.applyAsInt(1 << bits);
  }
}
