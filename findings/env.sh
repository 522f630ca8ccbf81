export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin GOROOT= GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GOPATH=/root/go GOCACHE=/root/.cache/go-build GOFLAGS="-mod=mod -buildvcs=false"
