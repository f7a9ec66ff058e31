#!/bin/bash
# builds the analyser from the committed source (offline); output in .build (git-ignored)
cd "$(dirname "$0")/sa" || exit 2
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
mkdir -p ../.build && go build -o ../.build/sa . 
