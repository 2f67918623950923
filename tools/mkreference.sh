#!/bin/bash
# Copies the opsqueue library at /repo's HEAD to reference/, only used to resolve the other crates when the current one does not type-check.
set -e
cd "$(dirname "$0")/.."
mkdir -p reference
rm -rf "$PWD/reference/opsqueue"
git -C /repo archive HEAD opsqueue | tar -x -C reference
rm -f reference/opsqueue/report*.txt reference/opsqueue/opsqueue.nix
