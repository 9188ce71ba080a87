#!/bin/bash
# debugging aid: sim.sh CFG NUM SEED -> behaviours on stdout
CP=/verif/build/classes:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
java -Xmx2g -XX:+UseParallelGC -DTLA-Library=/verif/spec -cp $CP tlc2.TLC -simulate num=$2 -depth 80 -seed $3 -config $1 -deadlock -metadir /tmp/simmeta /verif/spec/$4.tla 2>&1
