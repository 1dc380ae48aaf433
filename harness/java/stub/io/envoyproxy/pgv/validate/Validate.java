package io.envoyproxy.pgv.validate;

/** The options of validate.proto, which generated code registers. */
public final class Validate {
  public static final Object rules = null, required = null, disabled = null, ignored = null;
  public static com.google.protobuf.Descriptors.FileDescriptor getDescriptor() { return null; }
}
