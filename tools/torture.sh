#!/bin/bash
# torture.sh [mode...]: apply each global behaviour-keeping edit to a copy of
# the repository and run every check on it; prints what is not quiet.
V=/verif
T=$(mktemp -d)
mkdir -p $V/sa/cmdtort && cp $V/tools/torture/main.go $V/sa/cmdtort/ && (cd $V/sa && go build -o $T/tort ./cmdtort) ; rm -rf $V/sa/cmdtort
cp ${SA:-$V/.build/sa} $T/sa
one() {
  m=$1; rm -rf $T/$m; cp -a /repo $T/$m; mkdir -p $T/$m.v; cp $V/known_findings.txt $T/$m.v
  mkdir -p $T/$m.tests; (cd $T/$m && find . -name '*_test.go' -exec cp --parents {} $T/$m.tests \; -delete)
  $T/tort $T/$m $m
  (cd $T/$m && go build ./... 2>&1 | head -5)
  if [ -n "$TESTS" ]; then cp -a $T/$m.tests/. $T/$m/; (cd $T/$m && go test ./... 2>&1 | grep -v '^ok\|no test files' | head -5); fi
  timeout 900 $T/sa check -repo $T/$m -verif $T/$m.v ${IDS:-all} 2>&1 | grep -E '^VIOL|^KNOWN|^[^ ]*: \[' | cut -c1-250 | head -12
  echo "== $m done"; rm -rf $T/$m $T/$m.v $T/$m.tests
}
export -f one; export T V TESTS
printf '%s\n' ${*:-swap nest cond demorgan flip results forever index opassign args fieldtmp thunk ifinit switchif var} | xargs -P 3 -I{} bash -c 'one {} > $T/{}.log 2>&1; cat $T/{}.log'
rm -rf "$T"
