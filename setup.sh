#!/bin/sh
# Builds the analyser into .bin (offline, from the committed sources).
set -e
cd "$(dirname "$0")/checker"
export GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off GOTOOLCHAIN=local GONOSUMDB='*' GONOSUMCHECK=1
mkdir -p ../.bin
go build -o ../.bin/vc .
