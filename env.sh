export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod
export PATH="$PATH:/usr/local/go/bin:/opt/veriftools/bin"
