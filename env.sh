# Go environment of the checks
export HOME=${HOME:-/root}
export LANG=C.UTF-8
export PATH=$PATH:/usr/local/go/bin:/usr/local/bin
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
export GOFLAGS="-mod=mod -trimpath -buildvcs=false"
