package io.grpc;

public final class MethodDescriptor<ReqT, RespT> {
  private final String name;
  public MethodDescriptor(String name) { this.name = name; }
  public String getFullMethodName() { return name; }
}
