package com.google.protobuf;

public interface LazyStringList extends ProtocolStringList {
  ByteString getByteString(int i);
  Object getRaw(int i);
  void add(ByteString b);
  void set(int i, ByteString b);
  LazyStringList getUnmodifiableView();
}
