#!/bin/bash
# Generates and runs the Go code of demo.proto with main.go (run in /repo
# after the build).
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/demo"
cp "$here/demo.proto" "$t/demo/" && cp "$here/main.go.txt" "$t/main.go" || exit 3
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod CGO_ENABLED=0
(cd "$repo" && GOFLAGS=-mod=readonly go build -o "$t/protoc-gen-validate" . && GOFLAGS=-mod=readonly go build -o "$t/protoc-gen-go" google.golang.org/protobuf/cmd/protoc-gen-go) || exit 3
protoc -I "$t" -I "$repo" --plugin="$t/protoc-gen-validate" --plugin="$t/protoc-gen-go" \
  --go_out=paths=source_relative:"$t" --validate_out=lang=go,paths=source_relative:"$t" "$t/demo/demo.proto" || { echo "generation failed"; exit 1; }
cat > "$t/go.mod" <<M
module demo.test

go 1.18

require (
	github.com/envoyproxy/protoc-gen-validate v0.0.0
	google.golang.org/protobuf v1.26.0
)

replace github.com/envoyproxy/protoc-gen-validate => $repo
M
cp "$repo/go.sum" "$t/go.sum"
cd "$t" && go run .
