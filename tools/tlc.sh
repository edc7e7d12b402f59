#!/bin/sh
# tlc.sh MODULE  -- run TLC on MODULE.tla / MODULE.cfg in the current directory
exec java -Xss512m -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 1 -deadlock -config "$1.cfg" "$1.tla"
