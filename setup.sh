#!/bin/bash
# Builds the extractor and warms the fact cache; every check does this itself when needed.
cd "$(dirname "$0")" || exit 2
PYTHONPATH=engine python3 -c 'import facts; p = facts.Program(); print(len(p.tus), "translation units,", len(p.fns), "function bodies")'
