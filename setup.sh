#!/bin/bash
# Builds what the checks need, offline, from the committed files.
cd "$(dirname "$0")" || exit 1
exec ./check.sh --build
