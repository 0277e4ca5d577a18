#!/bin/bash
# usage: refac.sh ARTCHECK REFAC OUT [TRANSFORM...]: runs all checks on mechanical rewrites of /repo
A=$1; R=$2; OUT=$3; shift 3
export GOTOOLCHAIN=local GOPROXY=off
one() {
  t=$1; d=/tmp/rf/$t; rm -rf "/tmp/rf/$t"; mkdir -p /tmp/rf; git clone -q /repo $d
  msg=$($R $d $t 2>&1 | tail -3)
  if ! b=$(cd $d && go build ./... 2>&1 && go vet . ./packet/... >/dev/null 2>&1; go build ./... 2>&1); then echo "$t BUILD $msg: $(echo "$b" | head -5)"; rm -rf "/tmp/rf/$t"; return; fi
  if ! b=$(cd $d && go test ./... 2>&1); then echo "$t TESTS $msg: $(echo "$b" | grep FAIL | head -5)"; fi
  $A -repo $d -verif $d/ev ${PROPS:-all} > $d.out 2>&1; rc=$?
  echo "$t ($msg) rc=$rc $(grep -o 'VIOLATION property=C[0-9]*' $d.out | cut -d= -f2 | tr '\n' ' ')"
  [ $rc = 0 ] && rm -rf "/tmp/rf/$t"
}
export -f one; export A R
[ $# = 0 ] && set -- $($R /repo list | sort)
printf '%s\n' "$@" | xargs -P ${J:-4} -I{} bash -c 'one {}' > $OUT 2>&1
