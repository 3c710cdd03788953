#!/bin/bash
# RUSTC_WORKSPACE_WRAPPER: lets the pinned stable rustc print the expanded source
# of the workspace's own crates (-Zunpretty=expanded); dependencies are not touched.
export RUSTC_BOOTSTRAP=1
exec "$@"
