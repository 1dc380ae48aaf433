package com.google.re2j;

public final class Matcher {
  private final java.util.regex.Matcher m;
  Matcher(java.util.regex.Matcher m) { this.m = m; }
  public boolean matches() { return m.matches(); }
  public boolean find() { return m.find(); }
  public boolean lookingAt() { return m.lookingAt(); }
  public int start() { return m.start(); }
  public int end() { return m.end(); }
}
