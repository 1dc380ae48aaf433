package io.grpc;

public abstract class ForwardingServerCall<ReqT, RespT> extends ServerCall<ReqT, RespT> {
  protected abstract ServerCall<ReqT, RespT> delegate();
  @Override public void request(int n) { delegate().request(n); }
  @Override public void sendHeaders(Metadata h) { delegate().sendHeaders(h); }
  @Override public void sendMessage(RespT m) { delegate().sendMessage(m); }
  @Override public boolean isReady() { return delegate().isReady(); }
  @Override public void close(Status s, Metadata t) { delegate().close(s, t); }
  @Override public boolean isCancelled() { return delegate().isCancelled(); }
  @Override public void setMessageCompression(boolean e) { delegate().setMessageCompression(e); }
  @Override public void setCompression(String c) { delegate().setCompression(c); }
  @Override public String getAuthority() { return delegate().getAuthority(); }
  @Override public MethodDescriptor<ReqT, RespT> getMethodDescriptor() { return delegate().getMethodDescriptor(); }

  public abstract static class SimpleForwardingServerCall<ReqT, RespT> extends ForwardingServerCall<ReqT, RespT> {
    private final ServerCall<ReqT, RespT> delegate;
    protected SimpleForwardingServerCall(ServerCall<ReqT, RespT> d) { delegate = d; }
    @Override protected ServerCall<ReqT, RespT> delegate() { return delegate; }
  }
}
