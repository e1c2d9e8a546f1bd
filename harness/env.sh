# build environment of the harness: offline; /repo has no go.mod, the overlay
# gives it one without touching the tree
export GOFLAGS="-mod=mod -overlay=/verif/harness/overlay.json"
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOENV=off GO111MODULE=on CGO_ENABLED=0
export HOME="${HOME:-/root}"
