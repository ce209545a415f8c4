#!/bin/bash
# a fresh scratch copy of /repo's HEAD in /tmp/bug/repo
rm -rf /tmp/bug; mkdir -p /tmp/bug; cp -a ${REPO:-/repo} /tmp/bug/repo; git -C /tmp/bug/repo checkout -q -- .
