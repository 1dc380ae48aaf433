package com.google.protobuf;

public abstract class AbstractMessage extends AbstractMessageLite implements Message {
  protected int memoizedSize = -1;
  public boolean equals(Object other) { return this == other; }
  public int hashCode() { return System.identityHashCode(this); }
  protected interface BuilderParent { void markDirty(); }
  protected static int hashFields(int hash, Object o) { return hash; }
  public interface InternalOneOfEnum { int getNumber(); }
  public abstract static class Builder<B extends Builder<B>> extends AbstractMessageLite.Builder implements Message.Builder {
    public B clone() { throw new UnsupportedOperationException(); }
    public B clear() { return (B) this; }
    protected static UninitializedMessageException newUninitializedMessageException(Message m) { return new UninitializedMessageException(); }
  }
}
