package io.grpc;

import java.util.*;

/** A stand-in: keys by name, values as they are. */
public final class Metadata {
  public static final String BINARY_HEADER_SUFFIX = "-bin";
  public interface AsciiMarshaller<T> { String toAsciiString(T value); T parseAsciiString(String s); }
  public interface BinaryMarshaller<T> { byte[] toBytes(T value); T parseBytes(byte[] b); }
  public static final AsciiMarshaller<String> ASCII_STRING_MARSHALLER = new AsciiMarshaller<String>() {
    public String toAsciiString(String s) { return s; }
    public String parseAsciiString(String s) { return s; }
  };

  public static final class Key<T> {
    final String name;
    private Key(String n) { name = n.toLowerCase(Locale.ROOT); }
    public static <T> Key<T> of(String n, AsciiMarshaller<T> m) { return new Key<>(n); }
    public static <T> Key<T> of(String n, BinaryMarshaller<T> m) { return new Key<>(n); }
    public String name() { return name; }
    @Override public boolean equals(Object o) { return o instanceof Key && ((Key<?>) o).name.equals(name); }
    @Override public int hashCode() { return name.hashCode(); }
  }

  private final Map<String, List<Object>> m = new LinkedHashMap<>();

  public <T> void put(Key<T> k, T v) { m.computeIfAbsent(k.name, x -> new ArrayList<>()).add(Objects.requireNonNull(v)); }
  @SuppressWarnings("unchecked") public <T> T get(Key<T> k) { List<Object> l = m.get(k.name); return l == null ? null : (T) l.get(l.size() - 1); }
  @SuppressWarnings("unchecked") public <T> Iterable<T> getAll(Key<T> k) { return (Iterable<T>) (Iterable<?>) m.get(k.name); }
  public boolean containsKey(Key<?> k) { return m.containsKey(k.name); }
  @SuppressWarnings("unchecked") public <T> Iterable<T> removeAll(Key<T> k) { return (Iterable<T>) (Iterable<?>) m.remove(k.name); }
  public Set<String> keys() { return new TreeSet<>(m.keySet()); }
  public void merge(Metadata o) { for (Map.Entry<String, List<Object>> e : o.m.entrySet()) m.computeIfAbsent(e.getKey(), x -> new ArrayList<>()).addAll(e.getValue()); }
}
