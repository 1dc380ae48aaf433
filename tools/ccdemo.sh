#!/bin/bash
# Generates and runs the C++ code of demo.proto with main.cc.txt (run in /repo
# after the build).
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp "$here/demo.proto" "$t/" && cp "$here/main.cc.txt" "$t/main.cc" || exit 3
GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=0 GOFLAGS=-mod=readonly go build -o "$t/protoc-gen-validate" . || exit 3
protoc -I "$repo" --cpp_out="$t" validate/validate.proto || exit 3
protoc -I "$t" -I "$repo" --plugin="$t/protoc-gen-validate" --cpp_out="$t" --validate_out=lang=cc:"$t" "$t/demo.proto" || { echo "generation failed"; exit 1; }
cd "$t" || exit 3
for f in validate/validate.pb.cc demo.pb.cc; do
  g++ -std=c++14 -w -I . -I "$repo" -c "$f" -o "$(basename "$f" .cc).o" & 
done
g++ -std=c++14 -w -I . -I "$repo" -c demo.pb.validate.cc -o v.o || { echo "the generated code does not compile"; wait; exit 1; }
g++ -std=c++14 -w -I . -I "$repo" -c main.cc -o main.o || exit 3
wait
g++ -o demo ./*.o -lprotobuf -lre2 -lpthread || exit 3
./demo
