export HOME=/root
for g in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x "$g/go" ] && PATH="$g:$PATH" && break; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOSUMDB=off GONOSUMDB='*' GONOSUMCHECK=1
