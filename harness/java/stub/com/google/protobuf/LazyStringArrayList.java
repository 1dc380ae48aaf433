package com.google.protobuf;

public class LazyStringArrayList extends java.util.ArrayList<String> implements LazyStringList {
  public static final LazyStringList EMPTY = new LazyStringArrayList();
  public LazyStringArrayList() {}
  public LazyStringArrayList(LazyStringList l) { super(l); }
  public ByteString getByteString(int i) { return ByteString.copyFromUtf8(get(i)); }
  public Object getRaw(int i) { return get(i); }
  public void add(ByteString b) { add(b.toStringUtf8()); }
  public void set(int i, ByteString b) { set(i, b.toStringUtf8()); }
  public LazyStringList getUnmodifiableView() { return this; }
  public java.util.List<ByteString> asByteStringList() { throw new UnsupportedOperationException(); }
}
