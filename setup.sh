#!/bin/bash
# builds the verifier from the committed files
cd "$(dirname "$0")" && exec ./govc.sh list >/dev/null
