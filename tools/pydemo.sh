#!/bin/bash
# Validates the messages of cases.txt (type, ok or fail, text format) with the
# Python module of the repository (run in /repo after the build). stub.tgz:
# stand-ins for jinja2, protobuf and validate_email, which are not installed.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
tar -C "$t" -xzf "$here/stub.tgz" || exit 3
cp "$here/demo.proto" "$t/" || exit 3
protoc -I "$t" -I "$repo" --include_imports --descriptor_set_out="$t/fds" "$t/demo.proto" || exit 3
cat > "$t/main.py" <<'EOF'
import subprocess, sys
sys.dont_write_bytecode = True
t, repo, here = sys.argv[1:]
sys.path[:0] = [t, repo + "/python"]
from google.protobuf import dyn
from protoc_gen_validate import validator
pool = dyn.Pool(open(t + "/fds", "rb").read())
bad = 0
for line in open(here + "/cases.txt"):
    name, want, text = line.rstrip("\n").split(" ", 2)
    wire = subprocess.run(["protoc", "-I", t, "-I", repo, "--encode=demo." + name, t + "/demo.proto"], input=text.encode(), stdout=subprocess.PIPE, check=True).stdout
    try:
        validator.validate(pool.new("demo." + name, wire))
        got = "ok"
    except validator.ValidationFailed:
        got = "fail"
    except Exception as e:
        got = "%s: %s" % (type(e).__name__, e)
    if got != want:
        print("%s {%s}: %s, want %s" % (name, text, got, want))
        bad = 1
sys.exit(bad)
EOF
python3 "$t/main.py" "$t" "$repo" "$here"
