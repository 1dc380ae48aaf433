package io.grpc;

public abstract class Channel {
  public abstract <RequestT, ResponseT> ClientCall<RequestT, ResponseT> newCall(MethodDescriptor<RequestT, ResponseT> method, CallOptions options);
  public abstract String authority();
}
