# Toolchain settings shared by setup and checks.
export HOME="${HOME:-/root}" PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
