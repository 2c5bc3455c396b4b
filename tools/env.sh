export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1 GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
