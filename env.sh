export GOTOOLCHAIN=local
unset GOPATH GOFLAGS GOWORK GOROOT
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
