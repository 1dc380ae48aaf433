package com.google.protobuf;

public abstract class AbstractMessageLite<M extends AbstractMessageLite<M, B>, B extends AbstractMessageLite.Builder<M, B>> implements MessageLite {
  protected int memoizedHashCode = 0;
  public ByteString toByteString() { return ByteString.copyFrom(toByteArray()); }
  public byte[] toByteArray() {
    CodedOutputStream o = new CodedOutputStream();
    try {
      writeTo(o);
    } catch (java.io.IOException e) {
      throw new IllegalStateException(e);
    }
    return o.toByteArray();
  }
  public abstract static class Builder<M extends AbstractMessageLite<M, B>, B extends Builder<M, B>> implements MessageLite.Builder {
    public abstract B clone();
    public static <T> void addAll(Iterable<T> values, java.util.Collection<? super T> list) { for (T v : values) list.add(v); }
    public static <T> void addAll(Iterable<T> values, java.util.List<? super T> list) { for (T v : values) list.add(v); }
  }
}
