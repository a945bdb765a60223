# sourced by the scripts here: offline Go environment and the executor binary
export HOME="${HOME:-/root}"
export PATH="$PATH:/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
SYMGO="$PWD/bin/symgo"
build_symgo() { mkdir -p bin && (cd symgo && go build -o "$SYMGO" .); }
