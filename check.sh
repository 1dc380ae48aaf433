#!/bin/bash
# check.sh Cnn | replay FILE: builds the harness and runs one check against /repo.
cd "$(dirname "$0")" || exit 3
. ./env.sh
mkdir -p .cache/bin
(cd harness && go build -o "$VERIF_DIR/.cache/bin/pgvcheck" ./cmd/pgvcheck) || { echo "check.sh: the harness does not build" >&2; exit 3; }
exec "$VERIF_DIR/.cache/bin/pgvcheck" "$@"
