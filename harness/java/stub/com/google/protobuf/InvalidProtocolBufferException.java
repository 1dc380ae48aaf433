package com.google.protobuf;

public class InvalidProtocolBufferException extends java.io.IOException {
  public InvalidProtocolBufferException(String s) { super(s); }
  public InvalidProtocolBufferException(java.io.IOException e) { super(e); }
  public InvalidProtocolBufferException setUnfinishedMessage(MessageLite m) { return this; }
  public java.io.IOException unwrapIOException() { return this; }
}
