#!/bin/sh
# Deterministic tar for simulated runs.
exec /usr/bin/tar --mtime=@0 --owner=0 --group=0 --numeric-owner "$@"
