#!/bin/bash
# Builds the executor and the harness once (checks rebuild what is stale).
set -e
cd "$(dirname "$0")"
exec python3 check.py --build-only
