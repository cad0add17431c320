#!/bin/bash
# The arithmetic overrides agree with the definitions of the specification (spec/SelfTest.tla).
set -e
cd "$(dirname "$0")/.."
t=$(mktemp -d); trap 'find "$t" -delete' EXIT
sed 's/MODULE LinAlg /MODULE LinAlgDef /' spec/LinAlg.tla > "$t/LinAlgDef.tla"
cp spec/SelfTest.tla spec/LinAlg.tla spec/Num.tla "$t/"
printf 'INIT Init\nNEXT Next\nINVARIANT Inv\nCONSTRAINT Bound\n' > "$t/SelfTest.cfg"
printf 'CHECK_DEADLOCK FALSE\n' >> "$t/SelfTest.cfg"
sed -i 's/^Init == s = 17/Bound == TLCGet("level") < 400\nInit == s = 17/' "$t/SelfTest.tla"
cd "$t"
java -Djava.io.tmpdir="$t" -Xss64m -Xmx2g -cp "$OLDPWD/build/classes:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar" tlc2.TLC -workers 4 -noGenerateSpecTE -metadir "$t/m" SelfTest.tla > "$t/log" 2>&1 || { tail -30 "$t/log"; exit 1; }
grep -E 'distinct states' "$t/log" | tail -1
