#!/bin/bash
GOVC_FEAS=1  "$(dirname "$0")/../govc.sh" fn -v -secs 1 $1 2>/tmp/feas.txt | egrep "NOT|oblig|[0-9]{1,2}\.[0-9]+s" | cut -c1-200 |egrep -v " 0\.[0-9]+s";  awk '$1=="feas"{n[$2]++;s=$5; if(s~/µs$/){v=s/1000}else if(s~/ms$/){v=s+0}else{v=s*1000}; t[$2]+=v; q[$2]+=$4} END{for(k in t)print k,n[k],t[k],q[k]}' /tmp/feas.txt
