#!/bin/bash
# mut.sh MODULE CFG MUTANT...: each mutant of the design has to be detected.
m=$1; c=$2; shift 2
d=$(mktemp -d /tmp/mut.XXXXXX); cp /verif/specs/* "$d"; cd "$d"
for x in none "$@"; do
  sed "s/Mutant = \"none\"/Mutant = \"$x\"/" "$c" > m.cfg
  echo "$x: $(timeout 800 java -XX:+UseParallelGC -Xmx6g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 8 -metadir "$d/meta" -noGenerateSpecTE -config m.cfg "$m.tla" | grep -aE 'violated|states generated, |Error:|No error|rror' | tr '\n' ' ' | cut -c1-300)"
done
rm -rf "${d:?}"
