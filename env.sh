export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GOSUMDB=off
export GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
GO=/usr/local/bin/go1.23
