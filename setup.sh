#!/bin/bash
# builds the framework from the committed files (offline): the AST extractor
set -e
cd "$(dirname "$0")"
bash build_extractor.sh
python3-vt -c 'import z3, cvc5'
echo ready
