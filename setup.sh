#!/bin/bash
# Builds the checker from the committed sources (offline).
set -e
cd "$(dirname "$0")/checker"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
mkdir -p .bin ../evidence
go build -o .bin/checker .
