package com.google.protobuf;

public interface Message extends MessageLite, MessageOrBuilder {
  Parser<? extends Message> getParserForType();
  Builder newBuilderForType();
  Builder toBuilder();
  interface Builder extends MessageLite.Builder, MessageOrBuilder {
    Builder clear();
    Builder mergeFrom(Message other);
    Message build();
    Message buildPartial();
    Builder clone();
    Builder mergeFrom(CodedInputStream input, ExtensionRegistryLite registry) throws java.io.IOException;
    Builder setField(Descriptors.FieldDescriptor field, Object value);
    Builder clearField(Descriptors.FieldDescriptor field);
    Builder setUnknownFields(UnknownFieldSet unknownFields);
    Builder mergeUnknownFields(UnknownFieldSet unknownFields);
  }
}
