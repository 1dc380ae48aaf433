package io.grpc;

public final class CallOptions {
  public static final CallOptions DEFAULT = new CallOptions(null);
  private final String authority;
  private CallOptions(String a) { authority = a; }
  public CallOptions withAuthority(String a) { return new CallOptions(a); }
  public String getAuthority() { return authority; }
}
