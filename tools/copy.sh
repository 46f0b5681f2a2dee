#!/bin/bash
# copy.sh DIR: makes DIR/verif and DIR/repo, a working copy of the machinery bound to a copy of /repo.
mkdir -p "$1" && cp -a /repo "$1/repo" && mkdir "$1/verif" && (cd /verif && tar cf - --exclude=./.git --exclude=./out --exclude=./evidence .) | tar xf - -C "$1/verif" &&
  mkdir -p "$1/verif/evidence" && sed -i "s#=> /repo\$#=> $1/repo#" "$1/verif/harness/go.mod" && sed -i "s#REPO:-/repo#REPO:-$1/repo#" "$1/verif/run.sh"
