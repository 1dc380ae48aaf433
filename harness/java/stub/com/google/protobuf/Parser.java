package com.google.protobuf;

public interface Parser<M> {
  M parsePartialFrom(CodedInputStream input, ExtensionRegistryLite r) throws InvalidProtocolBufferException;
  M parseFrom(byte[] data) throws InvalidProtocolBufferException;
  M parseFrom(byte[] data, ExtensionRegistryLite r) throws InvalidProtocolBufferException;
  M parseFrom(ByteString data) throws InvalidProtocolBufferException;
  M parseFrom(ByteString data, ExtensionRegistryLite r) throws InvalidProtocolBufferException;
  M parseFrom(java.nio.ByteBuffer data) throws InvalidProtocolBufferException;
  M parseFrom(java.nio.ByteBuffer data, ExtensionRegistryLite r) throws InvalidProtocolBufferException;
}
