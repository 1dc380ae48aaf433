package com.google.protobuf;

public interface MessageLiteOrBuilder { MessageLite getDefaultInstanceForType(); boolean isInitialized(); }
