#!/bin/bash
# Sends messages through the gRPC interceptors of the repository (run in /repo
# after the build). stub.tgz: stand-ins for the libraries they need, which are
# not installed.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" "$t/stub" "$t/out" || exit 3
tar -C "$t/stub" -xzf "$here/stub.tgz" || exit 3
cp "$here/Main.java.txt" "$t/src/Main.java" || exit 3
protoc --java_out="$t/stub" google/protobuf/{any,duration,timestamp,wrappers,struct,field_mask,empty}.proto || exit 3
protoc -I "$t/stub/proto" -I "$repo" --java_out="$t/stub" google/rpc/{status,code,error_details}.proto || exit 3
GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=0 GOFLAGS=-mod=readonly go build -o "$t/protoc-gen-validate" . || exit 3
cp "$here/demo.proto" "$t/" || exit 3
protoc -I "$t" -I "$repo" --plugin="$t/protoc-gen-validate" --java_out="$t/src" --validate_out=lang=java:"$t/src" "$t/demo.proto" || { echo "generation failed"; exit 1; }
find "$t/stub" "$repo/java/pgv-java-stub/src/main/java" "$repo/java/pgv-java-grpc/src/main/java" "$t/src" -name '*.java' > "$t/files"
javac -J-XX:+UseSerialGC -proc:none -nowarn -encoding UTF-8 -d "$t/out" @"$t/files" > "$t/log" 2>&1 || { grep -A3 error "$t/log" | head -20; echo "the Java code does not compile"; exit 1; }
java -XX:+UseSerialGC -cp "$t/out" Main
