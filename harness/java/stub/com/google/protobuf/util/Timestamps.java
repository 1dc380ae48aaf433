package com.google.protobuf.util;

import com.google.protobuf.Duration;
import com.google.protobuf.Timestamp;
import java.util.Comparator;

/** Follows com.google.protobuf.util.Timestamps of protobuf 3.21. */
public final class Timestamps {
  static final long MIN = -62135596800L, MAX = 253402300799L;
  public static Comparator<Timestamp> comparator() {
    return (a, b) -> {
      checkValid(a);
      checkValid(b);
      int c = Long.compare(a.getSeconds(), b.getSeconds());
      return c != 0 ? c : Integer.compare(a.getNanos(), b.getNanos());
    };
  }
  public static boolean isValid(Timestamp t) { return t.getSeconds() >= MIN && t.getSeconds() <= MAX && t.getNanos() >= 0 && t.getNanos() <= 999999999; }
  public static Timestamp checkValid(Timestamp t) {
    if (!isValid(t)) throw new IllegalArgumentException("Timestamp is not valid: " + t.getSeconds() + "s " + t.getNanos() + "ns");
    return t;
  }
  public static Duration between(Timestamp from, Timestamp to) {
    checkValid(from);
    checkValid(to);
    long s = to.getSeconds() - from.getSeconds();
    int n = to.getNanos() - from.getNanos();
    if (s > 0 && n < 0) { s--; n += 1000000000; }
    if (s < 0 && n > 0) { s++; n -= 1000000000; }
    return Duration.newBuilder().setSeconds(s).setNanos(n).build();
  }
  public static Timestamp fromMillis(long ms) { return Timestamp.newBuilder().setSeconds(Math.floorDiv(ms, 1000L)).setNanos((int) Math.floorMod(ms, 1000L) * 1000000).build(); }
  public static final Timestamp EPOCH = Timestamp.getDefaultInstance();
  public static int compare(Timestamp a, Timestamp b) { return comparator().compare(a, b); }
  public static Timestamp add(Timestamp t, Duration d) { return norm(t.getSeconds() + d.getSeconds(), (long) t.getNanos() + d.getNanos()); }
  public static Timestamp subtract(Timestamp t, Duration d) { return norm(t.getSeconds() - d.getSeconds(), (long) t.getNanos() - d.getNanos()); }
  private static Timestamp norm(long s, long n) {
    s += Math.floorDiv(n, 1000000000L);
    return checkValid(Timestamp.newBuilder().setSeconds(s).setNanos((int) Math.floorMod(n, 1000000000L)).build());
  }
  public static Timestamp fromSeconds(long s) { return checkValid(Timestamp.newBuilder().setSeconds(s).build()); }
  public static Timestamp fromNanos(long n) { return norm(0, n); }
  public static long toSeconds(Timestamp t) { return checkValid(t).getSeconds(); }
  public static long toMillis(Timestamp t) { checkValid(t); return Math.addExact(Math.multiplyExact(t.getSeconds(), 1000L), t.getNanos() / 1000000L); }
  public static long toMicros(Timestamp t) { checkValid(t); return Math.addExact(Math.multiplyExact(t.getSeconds(), 1000000L), t.getNanos() / 1000L); }
  public static long toNanos(Timestamp t) { checkValid(t); return Math.addExact(Math.multiplyExact(t.getSeconds(), 1000000000L), t.getNanos()); }
  public static String toString(Timestamp t) { checkValid(t); return t.getSeconds() + "s " + t.getNanos() + "ns"; }
}
