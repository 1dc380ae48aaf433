package com.google.protobuf;

public class ExtensionRegistryLite { public void add(Object e) {} public static ExtensionRegistryLite getEmptyRegistry() { return new ExtensionRegistry(); } }
