# The toolchain and module cache of the sandbox, offline.
export HOME=/root GOTOOLCHAIN=local
if [ -d /opt/veriftools/go1.27.3 ]; then
	export GOROOT=/opt/veriftools/go1.27.3
	export PATH=$GOROOT/bin:$PATH
fi
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GODEBUG=
