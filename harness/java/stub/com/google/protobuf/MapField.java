package com.google.protobuf;

public class MapField<K, V> {
  private final java.util.LinkedHashMap<K, V> map = new java.util.LinkedHashMap<>();
  public static <K, V> MapField<K, V> emptyMapField(MapEntry<K, V> d) { return new MapField<>(); }
  public static <K, V> MapField<K, V> newMapField(MapEntry<K, V> d) { return new MapField<>(); }
  public java.util.Map<K, V> getMap() { return java.util.Collections.unmodifiableMap(map); }
  public java.util.Map<K, V> getMutableMap() { return map; }
  public void mergeFrom(MapField<K, V> o) { map.putAll(o.map); }
  public void clear() { map.clear(); }
  public void makeImmutable() {}
  public boolean isMutable() { return true; }
  public MapField<K, V> copy() { MapField<K, V> f = new MapField<>(); f.map.putAll(map); return f; }
  public boolean equals(Object o) { return o instanceof MapField && map.equals(((MapField) o).map); }
  public int hashCode() { return map.hashCode(); }
}
