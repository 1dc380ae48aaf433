package org.apache.commons.validator.routines;

/** RFC 1034 names, without the list of top-level domains. */
public class DomainValidator {
  public static DomainValidator getInstance(boolean allowLocal) { return new DomainValidator(); }
  public boolean isValid(String s) {
    if (s == null || s.length() > 253) return false;
    if (s.endsWith(".")) s = s.substring(0, s.length() - 1);
    for (String l : s.split("\\.", -1)) {
      if (l.isEmpty() || l.length() > 63 || l.startsWith("-") || l.endsWith("-")) return false;
      for (char c : l.toCharArray()) if (!(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-')) return false;
    }
    return true;
  }
}
