# Build environment of the harness (sourced by run.sh and setup.sh).
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOTOOLCHAIN=local GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS="-mod=readonly -buildvcs=false" GOWORK=off
unset GOOS GOARCH
