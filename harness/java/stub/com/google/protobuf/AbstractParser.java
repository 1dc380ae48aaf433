package com.google.protobuf;

public abstract class AbstractParser<M extends MessageLite> implements Parser<M> {
  public M parseFrom(byte[] data) throws InvalidProtocolBufferException { return parsePartialFrom(new CodedInputStream(data), new ExtensionRegistry()); }
  public M parseFrom(byte[] data, ExtensionRegistryLite r) throws InvalidProtocolBufferException { return parseFrom(data); }
  public M parseFrom(ByteString data) throws InvalidProtocolBufferException { return parseFrom(data.toByteArray()); }
  public M parseFrom(ByteString data, ExtensionRegistryLite r) throws InvalidProtocolBufferException { return parseFrom(data); }
  public M parseFrom(java.nio.ByteBuffer data) throws InvalidProtocolBufferException { throw new UnsupportedOperationException(); }
  public M parseFrom(java.nio.ByteBuffer data, ExtensionRegistryLite r) throws InvalidProtocolBufferException { throw new UnsupportedOperationException(); }
}
