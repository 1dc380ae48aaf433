package com.google.protobuf;

import java.util.AbstractList;
import java.util.List;

/** Descriptors of names and nothing else: every list has an element for every index. */
public final class Descriptors {
  private interface Make<T> { T make(); }
  private static <T> List<T> endless(Make<T> m) {
    java.util.HashMap<Integer, T> all = new java.util.HashMap<>();
    return new AbstractList<T>() {
      public T get(int i) { return all.computeIfAbsent(i, k -> m.make()); }
      public int size() { return Integer.MAX_VALUE; }
    };
  }
  /** The values of a length-delimited field. */
  private static List<byte[]> sub(byte[] b, int field) {
    List<byte[]> out = new java.util.ArrayList<>();
    int[] at = {0};
    while (at[0] < b.length) {
      long tag = varint(b, at);
      switch ((int) tag & 7) {
        case 0: varint(b, at); break;
        case 1: at[0] += 8; break;
        case 5: at[0] += 4; break;
        default:
          int n = (int) varint(b, at);
          if (tag >>> 3 == field) out.add(java.util.Arrays.copyOfRange(b, at[0], at[0] + n));
          at[0] += n;
      }
    }
    return out;
  }
  private static long varint(byte[] b, int[] at) {
    long v = 0;
    for (int s = 0; ; s += 7) {
      byte x = b[at[0]++];
      v |= (long) (x & 0x7f) << s;
      if (x >= 0) return v;
    }
  }
  public static class FileDescriptor {
    private String pkg = "";
    private final List<Descriptor> messages = endless(Descriptor::new);
    private final List<EnumDescriptor> enums = endless(EnumDescriptor::new);
    private final List<FieldDescriptor> extensions = endless(FieldDescriptor::new);
    public static FileDescriptor internalBuildGeneratedFileFrom(String[] data, FileDescriptor[] deps) {
      FileDescriptor f = new FileDescriptor();
      byte[] b = String.join("", data).getBytes(java.nio.charset.StandardCharsets.ISO_8859_1);
      for (byte[] x : sub(b, 2)) f.pkg = new String(x, java.nio.charset.StandardCharsets.UTF_8) + ".";
      int i = 0;
      for (byte[] x : sub(b, 4)) f.messages.get(i++).read(f.pkg, x);
      return f;
    }
    public String getPackage() { return pkg.isEmpty() ? "" : pkg.substring(0, pkg.length() - 1); }
    public static void internalUpdateFileDescriptor(FileDescriptor d, ExtensionRegistry r) {}
    public List<Descriptor> getMessageTypes() { return messages; }
    public List<EnumDescriptor> getEnumTypes() { return enums; }
    public List<FieldDescriptor> getExtensions() { return extensions; }
    public List<ServiceDescriptor> getServices() { return endless(ServiceDescriptor::new); }
  }
  public static class Descriptor {
    private String name = "";
    private void read(String scope, byte[] b) {
      for (byte[] x : sub(b, 1)) name = scope + new String(x, java.nio.charset.StandardCharsets.UTF_8);
      int i = 0;
      for (byte[] x : sub(b, 3)) nested.get(i++).read(name + ".", x);
    }
    private final List<Descriptor> nested = endless(Descriptor::new);
    private final List<EnumDescriptor> enums = endless(EnumDescriptor::new);
    public List<Descriptor> getNestedTypes() { return nested; }
    public List<EnumDescriptor> getEnumTypes() { return enums; }
    public List<FieldDescriptor> getExtensions() { return endless(FieldDescriptor::new); }
    public String getFullName() { return name; }
    public String getName() { return name.substring(name.lastIndexOf('.') + 1); }
  }
  public static class EnumDescriptor { public List<EnumValueDescriptor> getValues() { return endless(EnumValueDescriptor::new); } }
  public static class EnumValueDescriptor { public EnumDescriptor getType() { return null; } public int getIndex() { return 0; } public int getNumber() { return 0; } public String getName() { return ""; } }
  public static class FieldDescriptor {}
  public static class OneofDescriptor {}
  public static class ServiceDescriptor { public List<MethodDescriptor> getMethods() { return endless(MethodDescriptor::new); } }
  public static class MethodDescriptor {}
}
