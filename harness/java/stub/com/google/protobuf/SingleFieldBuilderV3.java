package com.google.protobuf;

public class SingleFieldBuilderV3<M extends GeneratedMessageV3, B extends GeneratedMessageV3.Builder, I extends MessageOrBuilder> {
  private M message;
  private B builder;
  public SingleFieldBuilderV3(M m, GeneratedMessageV3.BuilderParent p, boolean clean) { message = m; }
  public void dispose() {}
  public M getMessage() { if (message == null) message = (M) builder.buildPartial(); return message; }
  public M build() { return builder != null ? (M) builder.buildPartial() : message; }
  public B getBuilder() {
    if (builder == null) { builder = (B) message.newBuilderForType((GeneratedMessageV3.BuilderParent) null); builder.mergeFrom((Message) message); }
    message = null;
    return builder;
  }
  public I getMessageOrBuilder() { return builder != null ? (I) builder : (I) message; }
  public SingleFieldBuilderV3<M, B, I> setMessage(M m) { message = m; builder = null; return this; }
  public SingleFieldBuilderV3<M, B, I> mergeFrom(M m) { getBuilder().mergeFrom((Message) m); return this; }
  public SingleFieldBuilderV3<M, B, I> clear() { message = null; builder = null; return this; }
}
