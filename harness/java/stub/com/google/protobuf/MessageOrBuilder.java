package com.google.protobuf;

public interface MessageOrBuilder extends MessageLiteOrBuilder {
  Message getDefaultInstanceForType();
  Descriptors.Descriptor getDescriptorForType();
  UnknownFieldSet getUnknownFields();
}
