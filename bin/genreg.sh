#!/bin/bash
# writes harness/reg.go from the vh* functions of the harness files
cd "$(dirname "$0")/../harness" && { echo "package readability"; echo; echo "var vxHarnesses = map[string]func(){"; grep -ho '^func vh[A-Za-z0-9]*()' *.go | sed 's/func \(.*\)()/\t"\1": \1,/' ; echo "}"; } > reg.go.tmp && mv reg.go.tmp reg.go && gofmt -w reg.go
