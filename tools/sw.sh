python3 /tmp/sweep.py edge-p01,edge-p02,edge-p03,edge-p04,edge-p05,edge-p06,edge-p07,edge-p08,edge-p09 $1 $2 $3 | grep -v "'ok'\|connections are still open"
