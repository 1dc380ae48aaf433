package io.grpc;

public abstract class ServerCall<ReqT, RespT> {
  public abstract static class Listener<ReqT> {
    public void onMessage(ReqT message) {}
    public void onHalfClose() {}
    public void onCancel() {}
    public void onComplete() {}
    public void onReady() {}
  }
  public abstract void request(int n);
  public abstract void sendHeaders(Metadata headers);
  public abstract void sendMessage(RespT message);
  public boolean isReady() { return true; }
  public abstract void close(Status status, Metadata trailers);
  public abstract boolean isCancelled();
  public void setMessageCompression(boolean enabled) {}
  public void setCompression(String compressor) {}
  public String getAuthority() { return null; }
  public abstract MethodDescriptor<ReqT, RespT> getMethodDescriptor();
}
