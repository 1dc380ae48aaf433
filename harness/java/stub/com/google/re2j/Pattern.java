package com.google.re2j;

/** re2j by way of java.util.regex, for expressions that mean the same in both. */
public final class Pattern {
  private final String text;
  private final java.util.regex.Pattern p;
  private Pattern(String text) { this.text = text; p = java.util.regex.Pattern.compile(text); }
  public static Pattern compile(String text) { return new Pattern(text); }
  public boolean matches(String s) { return p.matcher(s).matches(); }
  public boolean find(String s) { return p.matcher(s).find(); }
  public static boolean matches(String text, CharSequence s) { return compile(text).matches(s.toString()); }
  public Matcher matcher(CharSequence s) { return new Matcher(p.matcher(s)); }
  public String toString() { return text; }
  public String pattern() { return text; }
}
