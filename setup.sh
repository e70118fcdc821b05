#!/bin/bash
# Nothing to install: every check builds itself from /repo and /verif/gopath.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
go version >/dev/null || exit 1
exit 0
