#!/bin/bash
# Builds the verifier once (each check builds it again from source: the checks
# run in separate copies and share nothing but the committed files).
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOTOOLCHAIN=local GOPROXY=off
W=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 1
trap 'rm -rf "$W"' EXIT
cd "$(dirname "$0")/gvc" && GOFLAGS=-mod=mod go build -o "$W/gvc" . && command -v z3-new cvc5 lean >/dev/null
