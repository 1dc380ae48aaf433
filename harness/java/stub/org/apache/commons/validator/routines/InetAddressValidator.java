package org.apache.commons.validator.routines;

/** Textual addresses, without zones and prefixes. */
public class InetAddressValidator {
  public static InetAddressValidator getInstance() { return new InetAddressValidator(); }
  public boolean isValid(String s) { return isValidInet4Address(s) || isValidInet6Address(s); }
  public boolean isValidInet4Address(String s) {
    String[] p = s.split("\\.", -1);
    if (p.length != 4) return false;
    for (String x : p) {
      if (x.isEmpty() || x.length() > 3 || x.length() > 1 && x.charAt(0) == '0') return false;
      for (char c : x.toCharArray()) if (c < '0' || c > '9') return false;
      if (Integer.parseInt(x) > 255) return false;
    }
    return true;
  }
  public boolean isValidInet6Address(String s) {
    int gap = s.indexOf("::");
    if (gap >= 0 && s.indexOf("::", gap + 1) >= 0) return false;
    int n;
    if (gap < 0) {
      n = groups(s, true);
      return n == 8;
    }
    String a = s.substring(0, gap), b = s.substring(gap + 2);
    int x = a.isEmpty() ? 0 : groups(a, false), y = b.isEmpty() ? 0 : groups(b, true);
    return x >= 0 && y >= 0 && x + y < 8;
  }
  private int groups(String s, boolean v4) {
    String[] p = s.split(":", -1);
    int n = 0;
    for (int i = 0; i < p.length; i++) {
      if (v4 && i == p.length - 1 && p[i].indexOf('.') >= 0) {
        if (!isValidInet4Address(p[i])) return -1;
        n += 2;
        continue;
      }
      if (p[i].isEmpty() || p[i].length() > 4) return -1;
      for (char c : p[i].toCharArray()) if (!(c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' || c >= '0' && c <= '9')) return -1;
      n++;
    }
    return n;
  }
}
