package io.grpc.protobuf;

import io.grpc.Metadata;
import io.grpc.Status;
import io.grpc.StatusRuntimeException;

public final class StatusProto {
  private StatusProto() {}

  private static final Metadata.Key<com.google.rpc.Status> KEY = Metadata.Key.of("grpc-status-details-bin", new Metadata.BinaryMarshaller<com.google.rpc.Status>() {
    public byte[] toBytes(com.google.rpc.Status s) { return s.toByteArray(); }
    public com.google.rpc.Status parseBytes(byte[] b) { try { return com.google.rpc.Status.parseFrom(b); } catch (Exception e) { throw new IllegalArgumentException(e); } }
  });

  private static Status toStatus(com.google.rpc.Status p) {
    Status s = Status.fromCodeValue(p.getCode());
    if (s.getCode().value() != p.getCode()) throw new IllegalArgumentException("invalid status code");
    return s.withDescription(p.getMessage());
  }

  public static StatusRuntimeException toStatusRuntimeException(com.google.rpc.Status p) { return toStatusRuntimeException(p, new Metadata()); }

  public static StatusRuntimeException toStatusRuntimeException(com.google.rpc.Status p, Metadata m) {
    m.put(KEY, p);
    return toStatus(p).asRuntimeException(m);
  }

  public static com.google.rpc.Status fromThrowable(Throwable t) {
    for (Throwable c = t; c != null; c = c.getCause())
      if (c instanceof StatusRuntimeException) return fromStatusAndTrailers(((StatusRuntimeException) c).getStatus(), ((StatusRuntimeException) c).getTrailers());
    return null;
  }

  public static com.google.rpc.Status fromStatusAndTrailers(Status s, Metadata trailers) {
    if (trailers != null && trailers.get(KEY) != null) {
      com.google.rpc.Status p = trailers.get(KEY);
      if (p.getCode() != s.getCode().value()) throw new IllegalArgumentException("com.google.rpc.Status code must match gRPC status code");
      return p;
    }
    com.google.rpc.Status.Builder b = com.google.rpc.Status.newBuilder().setCode(s.getCode().value());
    if (s.getDescription() != null) b.setMessage(s.getDescription());
    return b.build();
  }
}
