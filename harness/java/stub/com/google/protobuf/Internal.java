package com.google.protobuf;

import java.util.AbstractList;
import java.util.AbstractMap;
import java.util.List;
import java.util.Map;

public final class Internal {
  public interface EnumLite { int getNumber(); }
  public interface EnumLiteMap<T extends EnumLite> { T findValueByNumber(int n); }
  public interface EnumVerifier { boolean isInRange(int n); }
  public static int hashLong(long n) { return (int) (n ^ (n >>> 32)); }
  public static int hashBoolean(boolean b) { return b ? 1231 : 1237; }
  public static int hashEnum(EnumLite e) { return e.getNumber(); }
  public static int hashEnumList(List<? extends EnumLite> l) { return l.hashCode(); }
  public static String stringDefaultValue(String bytes) { return new String(bytes.getBytes(java.nio.charset.StandardCharsets.ISO_8859_1), java.nio.charset.StandardCharsets.UTF_8); }
  public static ByteString bytesDefaultValue(String bytes) { return ByteString.copyFrom(bytes.getBytes(java.nio.charset.StandardCharsets.ISO_8859_1)); }
  public static <T extends MessageLite> T getDefaultInstance(Class<T> c) {
    try {
      return (T) c.getMethod("getDefaultInstance").invoke(null);
    } catch (ReflectiveOperationException e) {
      throw new IllegalStateException(e);
    }
  }

  public abstract static class PList<E> extends java.util.ArrayList<E> {
    private boolean immutable;
    PList() {}
    PList(List<E> l) { super(l); }
    abstract PList<E> copy();
    public void makeImmutable() { immutable = true; }
    public boolean isModifiable() { return !immutable; }
  }

  public static class IntList extends PList<Integer> {
    public IntList() {}
    IntList(java.util.List<Integer> l) { super(l); }
    public int getInt(int i) { return get(i); }
    public int setInt(int i, int v) { return set(i, v); }
    public void addInt(int v) { add(v); }
    PList<Integer> copy() { return new IntList(this); }
  }

  public static class LongList extends PList<Long> {
    public LongList() {}
    LongList(java.util.List<Long> l) { super(l); }
    public long getLong(int i) { return get(i); }
    public long setLong(int i, long v) { return set(i, v); }
    public void addLong(long v) { add(v); }
    PList<Long> copy() { return new LongList(this); }
  }

  public static class FloatList extends PList<Float> {
    public FloatList() {}
    FloatList(java.util.List<Float> l) { super(l); }
    public float getFloat(int i) { return get(i); }
    public float setFloat(int i, float v) { return set(i, v); }
    public void addFloat(float v) { add(v); }
    PList<Float> copy() { return new FloatList(this); }
  }

  public static class DoubleList extends PList<Double> {
    public DoubleList() {}
    DoubleList(java.util.List<Double> l) { super(l); }
    public double getDouble(int i) { return get(i); }
    public double setDouble(int i, double v) { return set(i, v); }
    public void addDouble(double v) { add(v); }
    PList<Double> copy() { return new DoubleList(this); }
  }

  public static class BooleanList extends PList<Boolean> {
    public BooleanList() {}
    BooleanList(java.util.List<Boolean> l) { super(l); }
    public boolean getBoolean(int i) { return get(i); }
    public boolean setBoolean(int i, boolean v) { return set(i, v); }
    public void addBoolean(boolean v) { add(v); }
    PList<Boolean> copy() { return new BooleanList(this); }
  }

  public static class ListAdapter<F, T> extends AbstractList<T> {
    public interface Converter<F, T> { T convert(F from); }
    private final List<F> list;
    private final Converter<F, T> c;
    public ListAdapter(List<F> list, Converter<F, T> c) { this.list = list; this.c = c; }
    public T get(int i) { return c.convert(list.get(i)); }
    public int size() { return list.size(); }
  }

  public static class MapAdapter<K, V, R> extends AbstractMap<K, V> {
    public interface Converter<A, B> { B doForward(A a); A doBackward(B b); }
    public static <T extends EnumLite> Converter<Integer, T> newEnumConverter(EnumLiteMap<T> m, T unrecognized) {
      return new Converter<Integer, T>() {
        public T doForward(Integer v) { T r = m.findValueByNumber(v); return r == null ? unrecognized : r; }
        public Integer doBackward(T v) { return v.getNumber(); }
      };
    }
    private final Map<K, R> map;
    private final Converter<R, V> c;
    public MapAdapter(Map<K, R> map, Converter<R, V> c) { this.map = map; this.c = c; }
    public V get(Object k) { R r = map.get(k); return r == null ? null : c.doForward(r); }
    public V put(K k, V v) { map.put(k, c.doBackward(v)); return null; }
    public java.util.Set<Map.Entry<K, V>> entrySet() {
      java.util.LinkedHashMap<K, V> m = new java.util.LinkedHashMap<>();
      for (Map.Entry<K, R> e : map.entrySet()) m.put(e.getKey(), c.doForward(e.getValue()));
      return m.entrySet();
    }
  }
}
