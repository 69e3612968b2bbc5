#!/bin/bash
# verbose run of functions, condensed
for f in "$@"; do ( time "$(dirname "$0")/../govc.sh" fn -v $f ) 2>&1 | grep -v "goal:" | egrep "NOT|obligations|real|rror|:[0-9]+|unsup|proved.* [0-9]{1,2}\.[0-9]+s" | egrep -v " proved.* 0\.[0-9]+s| proved.*simplif" | cut -c1-300; done
