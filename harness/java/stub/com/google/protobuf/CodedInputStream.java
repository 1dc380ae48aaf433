package com.google.protobuf;

import java.io.IOException;
import java.nio.ByteBuffer;
import java.nio.ByteOrder;
import java.nio.charset.CharacterCodingException;
import java.nio.charset.StandardCharsets;

public final class CodedInputStream {
  private final byte[] b;
  private int pos, end;
  CodedInputStream(byte[] b) { this.b = b; end = b.length; }
  private static InvalidProtocolBufferException bad(String s) { return new InvalidProtocolBufferException(s); }
  private long varint() throws IOException {
    long v = 0;
    for (int i = 0; i < 70; i += 7) {
      if (pos >= end) throw bad("truncated");
      byte x = b[pos++];
      v |= (long) (x & 127) << i;
      if (x >= 0) return v;
    }
    throw bad("long varint");
  }
  private ByteBuffer take(int n) throws IOException {
    if (n < 0 || n > end - pos) throw bad("truncated");
    ByteBuffer r = ByteBuffer.wrap(b, pos, n).order(ByteOrder.LITTLE_ENDIAN);
    pos += n;
    return r;
  }
  private byte[] bytes() throws IOException { ByteBuffer r = take((int) varint()); byte[] x = new byte[r.remaining()]; r.get(x); return x; }
  public int readTag() throws IOException { if (pos >= end) return 0; int t = (int) varint(); if (t >>> 3 == 0) throw bad("field 0"); return t; }
  public boolean isAtEnd() { return pos >= end; }
  public int readInt32() throws IOException { return (int) varint(); }
  public int readUInt32() throws IOException { return (int) varint(); }
  public int readEnum() throws IOException { return (int) varint(); }
  public int readRawVarint32() throws IOException { return (int) varint(); }
  public int readSInt32() throws IOException { int n = (int) varint(); return (n >>> 1) ^ -(n & 1); }
  public int readFixed32() throws IOException { return take(4).getInt(); }
  public int readSFixed32() throws IOException { return take(4).getInt(); }
  public long readInt64() throws IOException { return varint(); }
  public long readUInt64() throws IOException { return varint(); }
  public long readSInt64() throws IOException { long n = varint(); return (n >>> 1) ^ -(n & 1); }
  public long readFixed64() throws IOException { return take(8).getLong(); }
  public long readSFixed64() throws IOException { return take(8).getLong(); }
  public boolean readBool() throws IOException { return varint() != 0; }
  public float readFloat() throws IOException { return take(4).getFloat(); }
  public double readDouble() throws IOException { return take(8).getDouble(); }
  public ByteString readBytes() throws IOException { return ByteString.copyFrom(bytes()); }
  public String readString() throws IOException { return new String(bytes(), StandardCharsets.UTF_8); }
  public String readStringRequireUtf8() throws IOException {
    try {
      return StandardCharsets.UTF_8.newDecoder().decode(ByteBuffer.wrap(bytes())).toString();
    } catch (CharacterCodingException e) {
      throw bad("invalid UTF-8");
    }
  }
  public int pushLimit(int n) throws IOException { if (n < 0 || n > end - pos) throw bad("truncated"); int old = end; end = pos + n; return old; }
  public void popLimit(int old) { end = old; }
  public int getBytesUntilLimit() { return end - pos; }
  public <T extends MessageLite> T readMessage(Parser<T> p, ExtensionRegistryLite r) throws IOException {
    int old = pushLimit((int) varint());
    T m = p.parsePartialFrom(this, r);
    if (pos != end) throw bad("end group");
    popLimit(old);
    return m;
  }
  public void readMessage(MessageLite.Builder m, ExtensionRegistryLite r) throws IOException {
    int old = pushLimit((int) varint());
    m.mergeFrom(this, r);
    if (pos != end) throw bad("end group");
    popLimit(old);
  }
  public boolean skipField(int tag) throws IOException {
    switch (tag & 7) {
      case 0: varint(); return true;
      case 1: take(8); return true;
      case 2: take((int) varint()); return true;
      case 5: take(4); return true;
      default: throw bad("group");
    }
  }
  Object readField(WireFormat.FieldType t, Object old) throws IOException {
    switch (t) {
      case DOUBLE: return readDouble();
      case FLOAT: return readFloat();
      case INT64: case UINT64: return readInt64();
      case INT32: case UINT32: case ENUM: return readInt32();
      case FIXED64: case SFIXED64: return readFixed64();
      case FIXED32: case SFIXED32: return readFixed32();
      case SINT32: return readSInt32();
      case SINT64: return readSInt64();
      case BOOL: return readBool();
      case STRING: return readStringRequireUtf8();
      case BYTES: return readBytes();
      case MESSAGE: {
        MessageLite.Builder m = ((MessageLite) old).toBuilder();
        readMessage(m, ExtensionRegistry.getEmptyRegistry());
        return m.buildPartial();
      }
      default: throw bad("type");
    }
  }
}
