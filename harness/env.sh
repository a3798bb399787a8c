# sourced by the driver: offline go environment for the harness module
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod GONOSUMDB='*' GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
