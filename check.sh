#!/bin/bash
# check.sh PROPERTY [TIER]   rebuilds from /repo and decides one property
cd "$(dirname "$0")" || exit 2
P=$1
TIER=${2:-${VERIF_TIER:-quick}}
case $P in
  C0*|C1*) G=web ;;
  C24) G=chat ;;
  C25) G=list ;;
  *) G=lv ;;
esac
./build.sh $G || exit 2
exec target/sim/release/sim run "$P" --tier "$TIER" --root "$PWD"
