#!/bin/bash
# wt.sh fresh: a scratch copy of /repo in /tmp/wt (for trying mutants)
mkdir -p /tmp/wt && rsync -a --delete --exclude .git /repo/ /tmp/wt/ 2>/dev/null || { find /tmp/wt -mindepth 1 -delete; cp -a /repo/. /tmp/wt/; }
