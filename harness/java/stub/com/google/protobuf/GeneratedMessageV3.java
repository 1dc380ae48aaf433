package com.google.protobuf;

import java.util.List;

public abstract class GeneratedMessageV3 extends AbstractMessage {
  protected UnknownFieldSet unknownFields = UnknownFieldSet.getDefaultInstance();
  protected static boolean alwaysUseFieldBuilders = false;
  protected GeneratedMessageV3() {}
  protected GeneratedMessageV3(Builder<?> b) { unknownFields = b.unknownFields; }
  public UnknownFieldSet getUnknownFields() { return unknownFields; }
  public Descriptors.Descriptor getDescriptorForType() { return internalGetFieldAccessorTable().descriptor; }
  protected abstract FieldAccessorTable internalGetFieldAccessorTable();
  protected MapField internalGetMapField(int n) { throw new RuntimeException(); }
  protected Object newInstance(UnusedPrivateParameter unused) { throw new UnsupportedOperationException(); }
  protected abstract Message.Builder newBuilderForType(BuilderParent parent);
  public boolean isInitialized() { return true; }
  protected static final class UnusedPrivateParameter {}
  protected interface BuilderParent extends AbstractMessage.BuilderParent {}
  protected static Internal.IntList emptyIntList() { return new Internal.IntList(); }
  protected static Internal.LongList emptyLongList() { return new Internal.LongList(); }
  protected static Internal.FloatList emptyFloatList() { return new Internal.FloatList(); }
  protected static Internal.DoubleList emptyDoubleList() { return new Internal.DoubleList(); }
  protected static Internal.BooleanList emptyBooleanList() { return new Internal.BooleanList(); }
  protected static Internal.IntList newIntList() { return new Internal.IntList(); }
  protected static Internal.LongList newLongList() { return new Internal.LongList(); }
  protected static Internal.FloatList newFloatList() { return new Internal.FloatList(); }
  protected static Internal.DoubleList newDoubleList() { return new Internal.DoubleList(); }
  protected static Internal.BooleanList newBooleanList() { return new Internal.BooleanList(); }
  protected static <T extends Internal.PList<?>> T mutableCopy(T l) { return (T) l.copy(); }
  private static String str(Object v) { return v instanceof String ? (String) v : ((ByteString) v).toStringUtf8(); }
  protected static void writeString(CodedOutputStream o, int f, Object v) { o.writeString(f, str(v)); }
  protected static void writeStringNoTag(CodedOutputStream o, Object v) { o.writeStringNoTag(str(v)); }
  protected static int computeStringSize(int f, Object v) { return CodedOutputStream.computeStringSize(f, str(v)); }
  protected static int computeStringSizeNoTag(Object v) { return CodedOutputStream.computeStringSizeNoTag(str(v)); }
  protected static boolean isStringEmpty(Object v) { return v instanceof String ? ((String) v).isEmpty() : ((ByteString) v).isEmpty(); }
  protected static <V> void serializeIntegerMapTo(CodedOutputStream o, MapField<Integer, V> f, MapEntry<Integer, V> d, int n) {}
  protected static <V> void serializeLongMapTo(CodedOutputStream o, MapField<Long, V> f, MapEntry<Long, V> d, int n) {}
  protected static <V> void serializeStringMapTo(CodedOutputStream o, MapField<String, V> f, MapEntry<String, V> d, int n) {}
  protected static <V> void serializeBooleanMapTo(CodedOutputStream o, MapField<Boolean, V> f, MapEntry<Boolean, V> d, int n) {}
  protected static <M extends Message> M parseWithIOException(Parser<M> p, java.io.InputStream in) { throw new UnsupportedOperationException(); }
  protected static <M extends Message> M parseWithIOException(Parser<M> p, java.io.InputStream in, ExtensionRegistryLite r) { throw new UnsupportedOperationException(); }
  protected static <M extends Message> M parseWithIOException(Parser<M> p, CodedInputStream in) { throw new UnsupportedOperationException(); }
  protected static <M extends Message> M parseWithIOException(Parser<M> p, CodedInputStream in, ExtensionRegistryLite r) { throw new UnsupportedOperationException(); }
  protected static <M extends Message> M parseDelimitedWithIOException(Parser<M> p, java.io.InputStream in) { throw new UnsupportedOperationException(); }
  protected static <M extends Message> M parseDelimitedWithIOException(Parser<M> p, java.io.InputStream in, ExtensionRegistryLite r) { throw new UnsupportedOperationException(); }

  public static final class FieldAccessorTable {
    final Descriptors.Descriptor descriptor;
    public FieldAccessorTable(Descriptors.Descriptor d, String[] names) { descriptor = d; }
    public FieldAccessorTable ensureFieldAccessorsInitialized(Class m, Class b) { return this; }
  }

  public abstract static class Builder<B extends Builder<B>> extends AbstractMessage.Builder<B> {
    UnknownFieldSet unknownFields = UnknownFieldSet.getDefaultInstance();
    protected Builder() {}
    protected Builder(GeneratedMessageV3.BuilderParent p) {}
    public UnknownFieldSet getUnknownFields() { return unknownFields; }
    public Descriptors.Descriptor getDescriptorForType() { return internalGetFieldAccessorTable().descriptor; }
    protected abstract FieldAccessorTable internalGetFieldAccessorTable();
    protected MapField internalGetMapField(int n) { throw new RuntimeException(); }
    protected MapField internalGetMutableMapField(int n) { throw new RuntimeException(); }
    public boolean isInitialized() { return true; }
    public B clear() { unknownFields = UnknownFieldSet.getDefaultInstance(); return (B) this; }
    public B mergeFrom(Message other) { throw new UnsupportedOperationException(); }
    public B setField(Descriptors.FieldDescriptor f, Object v) { throw new UnsupportedOperationException(); }
    public B clearField(Descriptors.FieldDescriptor f) { throw new UnsupportedOperationException(); }
    public B clearOneof(Descriptors.OneofDescriptor f) { throw new UnsupportedOperationException(); }
    public B setRepeatedField(Descriptors.FieldDescriptor f, int i, Object v) { throw new UnsupportedOperationException(); }
    public B addRepeatedField(Descriptors.FieldDescriptor f, Object v) { throw new UnsupportedOperationException(); }
    public B setUnknownFields(UnknownFieldSet u) { unknownFields = u; return (B) this; }
    public B mergeUnknownFields(UnknownFieldSet u) { return (B) this; }
    protected void mergeUnknownVarintField(int n, int v) {}
    protected boolean parseUnknownField(CodedInputStream in, ExtensionRegistryLite r, int tag) throws java.io.IOException { return in.skipField(tag); }
    protected void onBuilt() {}
    protected void onChanged() {}
    protected boolean isClean() { return false; }
    protected void markClean() {}
    protected GeneratedMessageV3.BuilderParent getParentForChildren() { return null; }
    protected void mergeUnknownLengthDelimitedField(int n, ByteString b) {}
    protected static void checkByteStringIsUtf8(ByteString b) {}
  }

  public interface ExtendableMessageOrBuilder<M> extends MessageOrBuilder {}

  public abstract static class ExtendableMessage<M extends ExtendableMessage> extends GeneratedMessageV3 implements ExtendableMessageOrBuilder<M> {
    protected ExtendableMessage() {}
    protected ExtendableMessage(ExtendableBuilder<M, ?> b) { super(b); }
    protected boolean extensionsAreInitialized() { return true; }
    protected int extensionsSerializedSize() { return 0; }
    protected Object getExtensionFields() { return java.util.Collections.emptyMap(); }
    protected ExtensionWriter newExtensionWriter() { return new ExtensionWriter(); }
    protected class ExtensionWriter { public void writeUntil(int end, CodedOutputStream o) {} }
  }

  public abstract static class ExtendableBuilder<M extends ExtendableMessage, B extends ExtendableBuilder<M, B>> extends Builder<B> implements ExtendableMessageOrBuilder<M> {
    protected ExtendableBuilder() {}
    protected ExtendableBuilder(GeneratedMessageV3.BuilderParent p) {}
    protected boolean extensionsAreInitialized() { return true; }
    protected void mergeExtensionFields(ExtendableMessage m) {}
    public <T> B setExtension(GeneratedMessage.GeneratedExtension<M, T> e, T v) { return (B) this; }
    public <T> B setExtension(GeneratedMessage.GeneratedExtension<M, List<T>> e, int i, T v) { return (B) this; }
    public <T> B addExtension(GeneratedMessage.GeneratedExtension<M, List<T>> e, T v) { return (B) this; }
    public <T> B clearExtension(GeneratedMessage.GeneratedExtension<M, ?> e) { return (B) this; }
  }
}
