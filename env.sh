# Sourced by check.sh and setup.sh.
export HOME="${HOME:-/root}"
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH="${GOPATH:-/root/go}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
