package com.google.protobuf.util;

import com.google.protobuf.Duration;
import java.util.Comparator;

/** Follows com.google.protobuf.util.Durations of protobuf 3.21. */
public final class Durations {
  static final long MAX = 315576000000L;
  public static Comparator<Duration> comparator() {
    return (a, b) -> {
      checkValid(a);
      checkValid(b);
      int c = Long.compare(a.getSeconds(), b.getSeconds());
      return c != 0 ? c : Integer.compare(a.getNanos(), b.getNanos());
    };
  }
  public static boolean isValid(Duration d) {
    long s = d.getSeconds(), n = d.getNanos();
    return s >= -MAX && s <= MAX && n >= -999999999L && n <= 999999999L && !((s < 0 || n < 0) && (s > 0 || n > 0));
  }
  public static Duration checkValid(Duration d) {
    if (!isValid(d)) throw new IllegalArgumentException("Duration is not valid: " + d.getSeconds() + "s " + d.getNanos() + "ns");
    return d;
  }
  public static long toNanos(Duration d) { checkValid(d); return Math.addExact(Math.multiplyExact(d.getSeconds(), 1000000000L), d.getNanos()); }
  public static final Duration ZERO = Duration.getDefaultInstance();
  public static int compare(Duration a, Duration b) { return comparator().compare(a, b); }
  public static boolean isNegative(Duration d) { checkValid(d); return d.getSeconds() != 0 ? d.getSeconds() < 0 : d.getNanos() < 0; }
  public static long toSeconds(Duration d) { return checkValid(d).getSeconds(); }
  public static long toMillis(Duration d) { checkValid(d); return Math.addExact(Math.multiplyExact(d.getSeconds(), 1000L), d.getNanos() / 1000000L); }
  public static long toMicros(Duration d) { checkValid(d); return Math.addExact(Math.multiplyExact(d.getSeconds(), 1000000L), d.getNanos() / 1000L); }
  public static Duration fromSeconds(long s) { return of(s, 0); }
  public static Duration fromMillis(long n) { return of(n / 1000, (int) (n % 1000) * 1000000); }
  public static Duration fromNanos(long n) { return of(n / 1000000000L, (int) (n % 1000000000L)); }
  public static Duration add(Duration a, Duration b) { return norm(a.getSeconds() + b.getSeconds(), (long) a.getNanos() + b.getNanos()); }
  public static Duration subtract(Duration a, Duration b) { return norm(a.getSeconds() - b.getSeconds(), (long) a.getNanos() - b.getNanos()); }
  private static Duration of(long s, int n) { return checkValid(Duration.newBuilder().setSeconds(s).setNanos(n).build()); }
  private static Duration norm(long s, long n) {
    s += n / 1000000000L;
    n %= 1000000000L;
    if (s > 0 && n < 0) { s--; n += 1000000000L; }
    if (s < 0 && n > 0) { s++; n -= 1000000000L; }
    return of(s, (int) n);
  }
  public static String toString(Duration d) { checkValid(d); return d.getSeconds() + "s " + d.getNanos() + "ns"; }
}
