#!/bin/bash
# Warms the build: builds the harness once.
V=$(cd "$(dirname "$0")" && pwd)
exec "$V/build.sh" "$V/build/setup"
