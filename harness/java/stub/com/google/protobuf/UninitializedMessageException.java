package com.google.protobuf;

public class UninitializedMessageException extends RuntimeException {
  public UninitializedMessageException() {}
  public UninitializedMessageException(MessageLite m) {}
  public InvalidProtocolBufferException asInvalidProtocolBufferException() { return new InvalidProtocolBufferException("uninitialized"); }
}
