package com.google.privacy.differentialprivacy;

import java.security.*;
import java.util.*;
import java.util.function.Supplier;

/** Makes every new SecureRandom ask the harness for its bytes. */
public final class Prov extends Provider {
  /** The next draw: the bytes of as many as asked for. */
  static java.util.function.IntFunction<byte[]> source;
  static int draws;

  public Prov() {
    super("Decided", "1", "decided draws");
    put("SecureRandom.Decided", Spi.class.getName());
  }

  public static final class Spi extends SecureRandomSpi {
    @Override
    protected void engineSetSeed(byte[] seed) {}

    @Override
    protected void engineNextBytes(byte[] bytes) {
      draws++;
      if (source == null) throw new IllegalStateException("undecided draw");
      byte[] b = source.apply(bytes.length);
      System.arraycopy(b, 0, bytes, 0, bytes.length);
    }

    @Override
    protected byte[] engineGenerateSeed(int n) {
      return new byte[n];
    }
  }

  static void install() {
    Security.insertProviderAt(new Prov(), 1);
    if (!new SecureRandom().getAlgorithm().equals("Decided")) throw new IllegalStateException("the secure source is not decided");
    for (long k : new long[] {0, 1, 1L << 52, 123456789012345L, (1L << 53) - 1}) {
      doubles(k);
      if (new SecureRandom().nextDouble() != k * 0x1p-53) throw new IllegalStateException("the uniforms are not as decided");
    }
  }

  /** All uniforms drawn from now on are k / 2^53 for the k given, in order, then the last of them. */
  static void doubles(long... ks) {
    ArrayDeque<Integer> words = new ArrayDeque<>();
    int[] at = {0};
    source =
        n -> {
          if (words.isEmpty()) {
            long k = ks[Math.min(at[0]++, ks.length - 1)];
            words.add((int) (k >>> 27) << 6); // 26 bits, of which the highest are used
            words.add((int) (k & ((1 << 27) - 1)) << 5); // 27 bits
          }
          int w = words.poll();
          byte[] b = new byte[n];
          for (int i = n - 1; i >= 0; i--) {
            b[i] = (byte) w;
            w >>>= 8;
          }
          return b;
        };
  }
}
