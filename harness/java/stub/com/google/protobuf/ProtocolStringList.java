package com.google.protobuf;

public interface ProtocolStringList extends java.util.List<String> { java.util.List<ByteString> asByteStringList(); }
