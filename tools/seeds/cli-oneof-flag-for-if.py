ID='cli-oneof-flag-for-if'; PROPERTY='C24'
NEEDS='the command line tool with --maximum-if-attempts and --maximum-oneof-attempts set to different values and a conditional schema that needs several attempts'
BREAKS='--maximum-oneof-attempts limits the attempts for if as well when it is lower than --maximum-if-attempts'
EDITS=[('cli/cli.go','		MaximumIfAttempts:          *MaximumIfAttempts,','''		// No more attempts for "if" than for "oneOf", nested combinations would multiply them
		MaximumIfAttempts:          util.MinInt(*MaximumIfAttempts, *MaximumOneOfAttempts),''')]
DEMO_SH='''#!/bin/bash
. /opt/vp/env.sh 2>/dev/null
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/chaff" ./cli || exit 1
schema='{"type":"object","properties":{"a":{"enum":[1,2,3,4,5,6,7,8]},"b":{"enum":[1,2,3,4,5,6,7,8]}},"required":["a","b"],"if":{"properties":{"a":{"const":1}}},"then":{"properties":{"b":{"const":1}}},"else":{"properties":{"b":{"const":2}}}}'
for i in $(seq 40); do
  out=$(echo "$schema" | "$tmp/chaff" --maximum-oneof-attempts 1 --maximum-if-attempts 200)
  case $out in '"Failed'*) echo "$out"; exit 1;; esac
done
'''
