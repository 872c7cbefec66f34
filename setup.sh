#!/bin/bash
# compile once, so that a broken toolchain shows early; every check builds for itself
here=$(cd "$(dirname "$0")" && pwd)
for id in C01 C07 C30; do
	"$here/check.sh" $id -list || exit 1
done
