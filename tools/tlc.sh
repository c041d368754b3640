#!/bin/sh
# tlc.sh WORKERS METADIR CONFIG MODULE  (run in spec/)
exec java -XX:+UseParallelGC -Xss512m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -metadir "$2" -workers "$1" -noGenerateSpecTE -config "$3" "$4"
