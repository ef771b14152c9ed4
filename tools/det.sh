# det.sh SCEN FIRST COUNT: plans whose two runs differ
export GOMAXPROCS=1 GOGC=off GODEBUG=asyncpreemptoff=1
S=${SIM:-/verif/.build/sim}
one() { $S gen $1 quick $2 1 > /tmp/det.$1.$2.json; a=$($S run < /tmp/det.$1.$2.json 2>/dev/null | grep -o '"hash":"[0-9a-f]*"'); b=$($S run < /tmp/det.$1.$2.json 2>/dev/null| grep -o '"hash":"[0-9a-f]*"'); [ "$a" = "$b" ] || echo $1 $2 $a $b; rm -f /tmp/det.$1.$2.json; }
export -f one; export S
seq $2 $(($2+$3-1)) | xargs -P 8 -I{} bash -c "one $1 {}"
