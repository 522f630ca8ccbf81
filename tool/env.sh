export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOPATH=/root/go GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*'
