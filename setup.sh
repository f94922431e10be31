#!/bin/bash
# Nothing to install: every check builds what it needs. Only confirms that the toolchain works offline.
cd "$(dirname "$0")/harness" && . ./env.sh && cargo --version && cargo metadata --offline --format-version 1 >/dev/null && echo ready
