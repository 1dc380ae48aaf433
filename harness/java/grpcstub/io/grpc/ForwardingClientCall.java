package io.grpc;

public abstract class ForwardingClientCall<ReqT, RespT> extends ClientCall<ReqT, RespT> {
  protected abstract ClientCall<ReqT, RespT> delegate();
  @Override public void start(Listener<RespT> l, Metadata h) { delegate().start(l, h); }
  @Override public void request(int n) { delegate().request(n); }
  @Override public void cancel(String m, Throwable t) { delegate().cancel(m, t); }
  @Override public void halfClose() { delegate().halfClose(); }
  @Override public void sendMessage(ReqT m) { delegate().sendMessage(m); }
  @Override public boolean isReady() { return delegate().isReady(); }
  @Override public void setMessageCompression(boolean e) { delegate().setMessageCompression(e); }

  public abstract static class SimpleForwardingClientCall<ReqT, RespT> extends ForwardingClientCall<ReqT, RespT> {
    private final ClientCall<ReqT, RespT> delegate;
    protected SimpleForwardingClientCall(ClientCall<ReqT, RespT> d) { delegate = d; }
    @Override protected ClientCall<ReqT, RespT> delegate() { return delegate; }
  }
}
