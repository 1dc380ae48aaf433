package com.google.protobuf;

public final class UnknownFieldSet {
  private static final UnknownFieldSet EMPTY = new UnknownFieldSet();
  public static UnknownFieldSet getDefaultInstance() { return EMPTY; }
  public void writeTo(CodedOutputStream o) {}
  public int getSerializedSize() { return 0; }
}
