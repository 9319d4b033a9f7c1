#!/bin/bash
# development helper: run several checks, stopping at a build failure
for c in "$@"; do /verif/check.sh $c || { r=$?; [ $r = 2 ] && exit 2; }; done
