#!/usr/bin/env bash
# Restores CRLF line ends in modified files of /repo whose committed version uses them.
cd /repo
for f in $(git diff --name-only); do
  if git show HEAD:"$f" | head -1 | grep -q $'\r'; then sed -i 's/\r$//; s/$/\r/' "$f"; fi
done
git diff --stat
