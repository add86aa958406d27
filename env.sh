# The environment of all builds. Everything is in the module cache, nothing is fetched
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly GOWORK=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOPATH=${GOPATH:-/root/go} HOME=${HOME:-/root}
