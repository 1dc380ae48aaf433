package com.google.protobuf;

public final class MapEntry<K, V> implements MessageLite {
  final WireFormat.FieldType kt, vt;
  final K key;
  final V value;
  private MapEntry(WireFormat.FieldType kt, K key, WireFormat.FieldType vt, V value) { this.kt = kt; this.key = key; this.vt = vt; this.value = value; }
  public static <K, V> MapEntry<K, V> newDefaultInstance(Descriptors.Descriptor d, WireFormat.FieldType kt, K k, WireFormat.FieldType vt, V v) { return new MapEntry<>(kt, k, vt, v); }
  public K getKey() { return key; }
  public V getValue() { return value; }
  public Builder<K, V> newBuilderForType() { return new Builder<>(this); }
  public Builder<K, V> toBuilder() { return new Builder<>(this); }
  public void writeTo(CodedOutputStream o) {}
  public int getSerializedSize() { return 0; }
  public ByteString toByteString() { return null; }
  public byte[] toByteArray() { return null; }
  public boolean isInitialized() { return true; }
  public MessageLite getDefaultInstanceForType() { return this; }
  public Parser<MapEntry<K, V>> getParserForType() {
    return new AbstractParser<MapEntry<K, V>>() {
      public MapEntry<K, V> parsePartialFrom(CodedInputStream in, ExtensionRegistryLite r) throws InvalidProtocolBufferException {
        Object k = key, v = value;
        try {
          for (int tag; (tag = in.readTag()) != 0; ) {
            if (tag >>> 3 == 1) k = in.readField(kt, k);
            else if (tag >>> 3 == 2) v = in.readField(vt, v);
            else if (!in.skipField(tag)) break;
          }
        } catch (InvalidProtocolBufferException e) {
          throw e;
        } catch (java.io.IOException e) {
          throw new InvalidProtocolBufferException(e);
        }
        return new MapEntry<K, V>(kt, (K) k, vt, (V) v);
      }
    };
  }
  public static final class Builder<K, V> implements MessageLite.Builder {
    private MapEntry<K, V> e;
    Builder(MapEntry<K, V> e) { this.e = e; }
    public Builder<K, V> setKey(K k) { e = new MapEntry<>(e.kt, k, e.vt, e.value); return this; }
    public Builder<K, V> setValue(V v) { e = new MapEntry<>(e.kt, e.key, e.vt, v); return this; }
    public MapEntry<K, V> build() { return e; }
    public MapEntry<K, V> buildPartial() { return e; }
    public Builder<K, V> clear() { return this; }
    public Builder<K, V> clone() { return this; }
    public Builder<K, V> mergeFrom(CodedInputStream in, ExtensionRegistryLite r) { throw new UnsupportedOperationException(); }
    public boolean isInitialized() { return true; }
    public MessageLite getDefaultInstanceForType() { return e; }
  }
}
