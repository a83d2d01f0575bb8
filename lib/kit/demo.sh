#!/bin/bash
# Exits with 0 if the property holds in the repository of the working directory.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf -- "$scratch"' EXIT
export VERIF_REPO=$PWD VERIF_BUILD=$scratch PYTHONDONTWRITEBYTECODE=1
exe=$(python3 "$here/kit/build_demo.py" "$here/demo.cpp") || exit 2
cd "$scratch" || exit 2
timeout -k 5 200 "$exe"
