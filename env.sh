# Sourced by setup.sh and check.sh.
export VERIF_DIR="$PWD"
export HOME=/root LANG=C.UTF-8
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
export GOMODCACHE=/root/go/pkg/mod GOPATH=/root/go GOCACHE="$VERIF_DIR/.cache/gocache"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
unset GOWORK GOBIN
if [ ! -d "$GOCACHE" ]; then
  # start from the build cache that comes with the sandbox; it is only read
  mkdir -p "$VERIF_DIR/.cache"
  if [ -d /opt/vp/gocache ] && cp -a /opt/vp/gocache "$GOCACHE.$$" 2> /dev/null; then
    mv -T "$GOCACHE.$$" "$GOCACHE" 2> /dev/null || rm -rf "$GOCACHE.$$"
  else
    rm -rf "$GOCACHE.$$"
  fi
fi
