#!/bin/bash
# builds the symbolic executor and pre-compiles /repo's sources (bitcode and native objects) into /verif/build
cd "$(dirname "$0")" || exit 1
exec python3 lib/setup.py
