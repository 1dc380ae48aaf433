package io.grpc;

import java.util.Objects;

public final class Status {
  public enum Code {
    OK, CANCELLED, UNKNOWN, INVALID_ARGUMENT, DEADLINE_EXCEEDED, NOT_FOUND, ALREADY_EXISTS, PERMISSION_DENIED, RESOURCE_EXHAUSTED,
    FAILED_PRECONDITION, ABORTED, OUT_OF_RANGE, UNIMPLEMENTED, INTERNAL, UNAVAILABLE, DATA_LOSS, UNAUTHENTICATED;
    public int value() { return ordinal(); }
    public Status toStatus() { return fromCode(this); }
  }

  private final Code code;
  private final String description;
  private final Throwable cause;

  private Status(Code c, String d, Throwable t) { code = Objects.requireNonNull(c); description = d; cause = t; }

  public static final Status OK = Code.OK.toStatus();
  public static final Status CANCELLED = Code.CANCELLED.toStatus();
  public static final Status UNKNOWN = Code.UNKNOWN.toStatus();
  public static final Status INVALID_ARGUMENT = Code.INVALID_ARGUMENT.toStatus();
  public static final Status FAILED_PRECONDITION = Code.FAILED_PRECONDITION.toStatus();
  public static final Status OUT_OF_RANGE = Code.OUT_OF_RANGE.toStatus();
  public static final Status ABORTED = Code.ABORTED.toStatus();
  public static final Status UNIMPLEMENTED = Code.UNIMPLEMENTED.toStatus();
  public static final Status INTERNAL = Code.INTERNAL.toStatus();

  public static Status fromCode(Code c) { return new Status(c, null, null); }
  public static Status fromCodeValue(int v) {
    return v < 0 || v >= Code.values().length ? UNKNOWN.withDescription("Unknown code " + v) : fromCode(Code.values()[v]);
  }
  public static Status fromThrowable(Throwable t) {
    for (Throwable c = t; c != null; c = c.getCause()) if (c instanceof StatusRuntimeException) return ((StatusRuntimeException) c).getStatus();
    return UNKNOWN.withCause(t);
  }
  public Status withDescription(String d) { return new Status(code, d, cause); }
  public Status augmentDescription(String d) { return d == null ? this : new Status(code, description == null ? d : description + "\n" + d, cause); }
  public Status withCause(Throwable t) { return new Status(code, description, t); }
  public Code getCode() { return code; }
  public String getDescription() { return description; }
  public Throwable getCause() { return cause; }
  public boolean isOk() { return code == Code.OK; }
  public StatusRuntimeException asRuntimeException() { return new StatusRuntimeException(this); }
  public StatusRuntimeException asRuntimeException(Metadata m) { return new StatusRuntimeException(this, m); }
}
