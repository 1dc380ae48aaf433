package com.google.common.primitives;

public final class Bytes {
  public static int indexOf(byte[] array, byte target) { return indexOf(array, new byte[] {target}); }
  public static boolean contains(byte[] array, byte target) { return indexOf(array, target) >= 0; }
  public static int indexOf(byte[] array, byte[] target) {
    outer:
    for (int i = 0; i + target.length <= array.length; i++) {
      for (int j = 0; j < target.length; j++) if (array[i + j] != target[j]) continue outer;
      return i;
    }
    return -1;
  }
}
