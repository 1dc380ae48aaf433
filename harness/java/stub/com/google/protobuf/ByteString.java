package com.google.protobuf;

import java.nio.charset.StandardCharsets;
import java.util.Arrays;

public final class ByteString implements Iterable<Byte> {
  public static final ByteString EMPTY = new ByteString(new byte[0]);
  private final byte[] b;
  private ByteString(byte[] b) { this.b = b; }
  public static ByteString copyFrom(byte[] b) { return new ByteString(b.clone()); }
  public static ByteString copyFromUtf8(String s) { return new ByteString(s.getBytes(StandardCharsets.UTF_8)); }
  public String toStringUtf8() { return new String(b, StandardCharsets.UTF_8); }
  public boolean isValidUtf8() { return new String(b, StandardCharsets.UTF_8).getBytes(StandardCharsets.UTF_8).length == b.length && Arrays.equals(toStringUtf8().getBytes(StandardCharsets.UTF_8), b); }
  public byte[] toByteArray() { return b.clone(); }
  public int size() { return b.length; }
  public boolean isEmpty() { return b.length == 0; }
  public String toString(java.nio.charset.Charset c) { return new String(b, c); }
  public ByteString substring(int from) { return substring(from, b.length); }
  public ByteString substring(int from, int to) { if (from < 0 || to > b.length || from > to) throw new IndexOutOfBoundsException(); return new ByteString(Arrays.copyOfRange(b, from, to)); }
  public ByteString concat(ByteString o) { byte[] r = Arrays.copyOf(b, b.length + o.b.length); System.arraycopy(o.b, 0, r, b.length, o.b.length); return new ByteString(r); }
  public java.nio.ByteBuffer asReadOnlyByteBuffer() { return java.nio.ByteBuffer.wrap(b).asReadOnlyBuffer(); }
  public void copyTo(byte[] to, int at) { System.arraycopy(b, 0, to, at, b.length); }
  public byte byteAt(int i) { return b[i]; }
  public boolean startsWith(ByteString p) { return b.length >= p.b.length && Arrays.equals(Arrays.copyOf(b, p.b.length), p.b); }
  public boolean endsWith(ByteString p) { return b.length >= p.b.length && Arrays.equals(Arrays.copyOfRange(b, b.length - p.b.length, b.length), p.b); }
  public java.util.Iterator<Byte> iterator() { java.util.ArrayList<Byte> l = new java.util.ArrayList<>(); for (byte x : b) l.add(x); return l.iterator(); }
  public boolean equals(Object o) { return o instanceof ByteString && Arrays.equals(b, ((ByteString) o).b); }
  public int hashCode() { return Arrays.hashCode(b); }
  public String toString() { return "<ByteString size=" + b.length + ">"; }
}
