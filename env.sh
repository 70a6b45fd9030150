# Toolchain environment of the checks (as in /opt/vp/env.sh).
export HOME=/root
export GOROOT=/opt/veriftools/go1.27.3 GOTOOLCHAIN=local
export PATH=$GOROOT/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOENV=off GOWORK=off GOFLAGS="-buildvcs=false" GOPROXY=off GOSUMDB=off CGO_ENABLED=0
