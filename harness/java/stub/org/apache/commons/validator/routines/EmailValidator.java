package org.apache.commons.validator.routines;

/** Plain addresses only. */
public class EmailValidator {
  public static EmailValidator getInstance(boolean allowLocal, boolean allowTld) { return new EmailValidator(); }
  public boolean isValid(String s) {
    if (s == null) return false;
    int at = s.lastIndexOf('@');
    if (at < 1 || at > 64) return false;
    for (char c : s.substring(0, at).toCharArray()) if (!(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9')) return false;
    return DomainValidator.getInstance(true).isValid(s.substring(at + 1));
  }
}
