#!/bin/bash
# Builds the harness once, to fill the caches. Every check does so too.
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p .cache/bin
cd harness && go vet ./... && go build -o "$VERIF_DIR/.cache/bin/pgvcheck" ./cmd/pgvcheck
