package com.google.protobuf;

public abstract class GeneratedMessage {
  public static class GeneratedExtension<C, T> { public void internalInit(Descriptors.FieldDescriptor d) {} }
  public static <C, T> GeneratedExtension<C, T> newFileScopedGeneratedExtension(Class c, Object d) { return new GeneratedExtension<>(); }
  public static <C, T> GeneratedExtension<C, T> newMessageScopedGeneratedExtension(Object scope, int index, Class c, Object d) { return new GeneratedExtension<>(); }
}
