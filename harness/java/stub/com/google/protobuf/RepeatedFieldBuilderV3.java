package com.google.protobuf;

import java.util.ArrayList;
import java.util.List;

/** Never made by generated code while it parses. */
public class RepeatedFieldBuilderV3<M extends GeneratedMessageV3, B extends GeneratedMessageV3.Builder, I extends MessageOrBuilder> {
  private final List<M> list;
  public RepeatedFieldBuilderV3(List<M> l, boolean mutable, GeneratedMessageV3.BuilderParent p, boolean clean) { list = new ArrayList<>(l); }
  public void dispose() {}
  public int getCount() { return list.size(); }
  public boolean isEmpty() { return list.isEmpty(); }
  public M getMessage(int i) { return list.get(i); }
  public B getBuilder(int i) { throw new UnsupportedOperationException(); }
  public I getMessageOrBuilder(int i) { return (I) list.get(i); }
  public void setMessage(int i, M m) { list.set(i, m); }
  public void addMessage(M m) { list.add(m); }
  public void addMessage(int i, M m) { list.add(i, m); }
  public void addAllMessages(Iterable<? extends M> l) { for (M m : l) list.add(m); }
  public B addBuilder(M m) { throw new UnsupportedOperationException(); }
  public B addBuilder(int i, M m) { throw new UnsupportedOperationException(); }
  public void remove(int i) { list.remove(i); }
  public void clear() { list.clear(); }
  public List<M> build() { return list; }
  public List<M> getMessageList() { return list; }
  public List<B> getBuilderList() { throw new UnsupportedOperationException(); }
  public List<I> getMessageOrBuilderList() { return (List<I>) list; }
}
