package com.google.protobuf;

public class ExtensionRegistry extends ExtensionRegistryLite { public static ExtensionRegistry newInstance() { return new ExtensionRegistry(); } public static ExtensionRegistry getEmptyRegistry() { return new ExtensionRegistry(); } }
