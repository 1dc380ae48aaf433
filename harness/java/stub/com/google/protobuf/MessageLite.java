package com.google.protobuf;

public interface MessageLite extends MessageLiteOrBuilder {
  void writeTo(CodedOutputStream output) throws java.io.IOException;
  int getSerializedSize();
  Parser<? extends MessageLite> getParserForType();
  ByteString toByteString();
  byte[] toByteArray();
  Builder newBuilderForType();
  Builder toBuilder();
  interface Builder extends MessageLiteOrBuilder, Cloneable {
    Builder clear();
    MessageLite build();
    MessageLite buildPartial();
    Builder clone();
    Builder mergeFrom(CodedInputStream input, ExtensionRegistryLite registry) throws java.io.IOException;
  }
}
