#!/bin/bash
# Runs a built harness binary in a network namespace of its own with a non-loopback address (the broker asks for
# the machine's own address), or directly where that is not possible.
# Usage: run.sh BINARY ARGS...
set -u
if unshare -Urn true 2>/dev/null; then
    exec unshare -Urn bash -c 'ip link set lo up && ip addr add 10.99.0.1/24 dev lo; exec "$@"' run "$@"
fi
exec "$@"
