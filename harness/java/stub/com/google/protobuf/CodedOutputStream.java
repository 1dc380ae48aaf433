package com.google.protobuf;

public final class CodedOutputStream {
  private final java.io.ByteArrayOutputStream out = new java.io.ByteArrayOutputStream();
  byte[] toByteArray() { return out.toByteArray(); }
  private void varint(long v) {
    for (; (v & ~0x7fL) != 0; v >>>= 7) out.write((int) (v & 0x7f) | 0x80);
    out.write((int) v);
  }
  private void fixed(long v, int n) { for (int i = 0; i < n; i++) out.write((int) (v >>> (8 * i))); }
  private void bytes(byte[] b) { varint(b.length); out.write(b, 0, b.length); }
  public void writeTag(int f, int wire) { varint(f << 3 | wire); }
  public void writeInt32NoTag(int v) { varint(v); }
  public void writeInt32(int f, int v) { writeTag(f, 0); writeInt32NoTag(v); }
  public static int computeInt32SizeNoTag(int v) { CodedOutputStream o = new CodedOutputStream(); o.writeInt32NoTag(v); return o.out.size(); }
  public static int computeInt32Size(int f, int v) { CodedOutputStream o = new CodedOutputStream(); o.writeInt32(f, v); return o.out.size(); }
  public void writeUInt32NoTag(int v) { varint(v & 0xffffffffL); }
  public void writeUInt32(int f, int v) { writeTag(f, 0); writeUInt32NoTag(v); }
  public static int computeUInt32SizeNoTag(int v) { CodedOutputStream o = new CodedOutputStream(); o.writeUInt32NoTag(v); return o.out.size(); }
  public static int computeUInt32Size(int f, int v) { CodedOutputStream o = new CodedOutputStream(); o.writeUInt32(f, v); return o.out.size(); }
  public void writeSInt32NoTag(int v) { varint(((v << 1) ^ (v >> 31)) & 0xffffffffL); }
  public void writeSInt32(int f, int v) { writeTag(f, 0); writeSInt32NoTag(v); }
  public static int computeSInt32SizeNoTag(int v) { CodedOutputStream o = new CodedOutputStream(); o.writeSInt32NoTag(v); return o.out.size(); }
  public static int computeSInt32Size(int f, int v) { CodedOutputStream o = new CodedOutputStream(); o.writeSInt32(f, v); return o.out.size(); }
  public void writeFixed32NoTag(int v) { fixed(v, 4); }
  public void writeFixed32(int f, int v) { writeTag(f, 5); writeFixed32NoTag(v); }
  public static int computeFixed32SizeNoTag(int v) { CodedOutputStream o = new CodedOutputStream(); o.writeFixed32NoTag(v); return o.out.size(); }
  public static int computeFixed32Size(int f, int v) { CodedOutputStream o = new CodedOutputStream(); o.writeFixed32(f, v); return o.out.size(); }
  public void writeSFixed32NoTag(int v) { fixed(v, 4); }
  public void writeSFixed32(int f, int v) { writeTag(f, 5); writeSFixed32NoTag(v); }
  public static int computeSFixed32SizeNoTag(int v) { CodedOutputStream o = new CodedOutputStream(); o.writeSFixed32NoTag(v); return o.out.size(); }
  public static int computeSFixed32Size(int f, int v) { CodedOutputStream o = new CodedOutputStream(); o.writeSFixed32(f, v); return o.out.size(); }
  public void writeEnumNoTag(int v) { varint(v); }
  public void writeEnum(int f, int v) { writeTag(f, 0); writeEnumNoTag(v); }
  public static int computeEnumSizeNoTag(int v) { CodedOutputStream o = new CodedOutputStream(); o.writeEnumNoTag(v); return o.out.size(); }
  public static int computeEnumSize(int f, int v) { CodedOutputStream o = new CodedOutputStream(); o.writeEnum(f, v); return o.out.size(); }
  public void writeInt64NoTag(long v) { varint(v); }
  public void writeInt64(int f, long v) { writeTag(f, 0); writeInt64NoTag(v); }
  public static int computeInt64SizeNoTag(long v) { CodedOutputStream o = new CodedOutputStream(); o.writeInt64NoTag(v); return o.out.size(); }
  public static int computeInt64Size(int f, long v) { CodedOutputStream o = new CodedOutputStream(); o.writeInt64(f, v); return o.out.size(); }
  public void writeUInt64NoTag(long v) { varint(v); }
  public void writeUInt64(int f, long v) { writeTag(f, 0); writeUInt64NoTag(v); }
  public static int computeUInt64SizeNoTag(long v) { CodedOutputStream o = new CodedOutputStream(); o.writeUInt64NoTag(v); return o.out.size(); }
  public static int computeUInt64Size(int f, long v) { CodedOutputStream o = new CodedOutputStream(); o.writeUInt64(f, v); return o.out.size(); }
  public void writeSInt64NoTag(long v) { varint((v << 1) ^ (v >> 63)); }
  public void writeSInt64(int f, long v) { writeTag(f, 0); writeSInt64NoTag(v); }
  public static int computeSInt64SizeNoTag(long v) { CodedOutputStream o = new CodedOutputStream(); o.writeSInt64NoTag(v); return o.out.size(); }
  public static int computeSInt64Size(int f, long v) { CodedOutputStream o = new CodedOutputStream(); o.writeSInt64(f, v); return o.out.size(); }
  public void writeFixed64NoTag(long v) { fixed(v, 8); }
  public void writeFixed64(int f, long v) { writeTag(f, 1); writeFixed64NoTag(v); }
  public static int computeFixed64SizeNoTag(long v) { CodedOutputStream o = new CodedOutputStream(); o.writeFixed64NoTag(v); return o.out.size(); }
  public static int computeFixed64Size(int f, long v) { CodedOutputStream o = new CodedOutputStream(); o.writeFixed64(f, v); return o.out.size(); }
  public void writeSFixed64NoTag(long v) { fixed(v, 8); }
  public void writeSFixed64(int f, long v) { writeTag(f, 1); writeSFixed64NoTag(v); }
  public static int computeSFixed64SizeNoTag(long v) { CodedOutputStream o = new CodedOutputStream(); o.writeSFixed64NoTag(v); return o.out.size(); }
  public static int computeSFixed64Size(int f, long v) { CodedOutputStream o = new CodedOutputStream(); o.writeSFixed64(f, v); return o.out.size(); }
  public void writeFloatNoTag(float v) { fixed(Float.floatToRawIntBits(v), 4); }
  public void writeFloat(int f, float v) { writeTag(f, 5); writeFloatNoTag(v); }
  public static int computeFloatSizeNoTag(float v) { CodedOutputStream o = new CodedOutputStream(); o.writeFloatNoTag(v); return o.out.size(); }
  public static int computeFloatSize(int f, float v) { CodedOutputStream o = new CodedOutputStream(); o.writeFloat(f, v); return o.out.size(); }
  public void writeDoubleNoTag(double v) { fixed(Double.doubleToRawLongBits(v), 8); }
  public void writeDouble(int f, double v) { writeTag(f, 1); writeDoubleNoTag(v); }
  public static int computeDoubleSizeNoTag(double v) { CodedOutputStream o = new CodedOutputStream(); o.writeDoubleNoTag(v); return o.out.size(); }
  public static int computeDoubleSize(int f, double v) { CodedOutputStream o = new CodedOutputStream(); o.writeDouble(f, v); return o.out.size(); }
  public void writeBoolNoTag(boolean v) { varint(v ? 1 : 0); }
  public void writeBool(int f, boolean v) { writeTag(f, 0); writeBoolNoTag(v); }
  public static int computeBoolSizeNoTag(boolean v) { CodedOutputStream o = new CodedOutputStream(); o.writeBoolNoTag(v); return o.out.size(); }
  public static int computeBoolSize(int f, boolean v) { CodedOutputStream o = new CodedOutputStream(); o.writeBool(f, v); return o.out.size(); }
  public void writeStringNoTag(String v) { bytes(v.getBytes(java.nio.charset.StandardCharsets.UTF_8)); }
  public void writeString(int f, String v) { writeTag(f, 2); writeStringNoTag(v); }
  public static int computeStringSizeNoTag(String v) { CodedOutputStream o = new CodedOutputStream(); o.writeStringNoTag(v); return o.out.size(); }
  public static int computeStringSize(int f, String v) { CodedOutputStream o = new CodedOutputStream(); o.writeString(f, v); return o.out.size(); }
  public void writeBytesNoTag(ByteString v) { bytes(v.toByteArray()); }
  public void writeBytes(int f, ByteString v) { writeTag(f, 2); writeBytesNoTag(v); }
  public static int computeBytesSizeNoTag(ByteString v) { CodedOutputStream o = new CodedOutputStream(); o.writeBytesNoTag(v); return o.out.size(); }
  public static int computeBytesSize(int f, ByteString v) { CodedOutputStream o = new CodedOutputStream(); o.writeBytes(f, v); return o.out.size(); }
  public void writeMessageNoTag(MessageLite v) { bytes(v.toByteArray()); }
  public void writeMessage(int f, MessageLite v) { writeTag(f, 2); writeMessageNoTag(v); }
  public static int computeMessageSizeNoTag(MessageLite v) { CodedOutputStream o = new CodedOutputStream(); o.writeMessageNoTag(v); return o.out.size(); }
  public static int computeMessageSize(int f, MessageLite v) { CodedOutputStream o = new CodedOutputStream(); o.writeMessage(f, v); return o.out.size(); }
}
