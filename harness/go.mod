module verif/harness

go 1.23

require (
	github.com/envoyproxy/protoc-gen-validate v0.0.0
	google.golang.org/protobuf v1.26.0
)

replace github.com/envoyproxy/protoc-gen-validate => /repo
