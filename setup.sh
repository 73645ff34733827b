#!/bin/bash
# Compile the simulator once so that the first check starts with warm caches.
cd "$(dirname "$0")" || exit 2
. ./env.sh || exit 2
mkdir -p .work/bin || exit 2
(cd gosim && go vet ./runner ./wire ./rt && go build -o ../.work/bin/runner ./runner && go build -o ../.work/bin/rt ./rt)
