#!/bin/bash
# development helper: mk.sh PREFIX [cases] : compiles harness/PREFIX*.cpp in two configurations and runs them
cd /verif/harness; p=$1; n=${2:-3000}
for c in "g++-13 -std=c++17" "clang++-18 -std=c++20"; do k=${c:0:3}; [ -f /tmp/pbt.$k.o ] && [ /tmp/pbt.$k.o -nt ../engine/pbt_main.cpp ] || $c -w -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -I../engine -c ../engine/pbt_main.cpp -o /tmp/pbt.$k.o & done; wait
for f in $p*.cpp; do for c in "g++-13 -std=c++17" "clang++-18 -std=c++20"; do k=${c:0:3}; ( $c -w -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -I/repo/include -I../engine -I. $X -c $f -o /tmp/${f%.cpp}.$k.o >/tmp/${f%.cpp}.$k.err 2>&1 || { rm -f /tmp/${f%.cpp}.$k.o; echo "== $f $k"; grep -E "error|static assertion|required from here" /tmp/${f%.cpp}.$k.err | head -${E:-8}; } ) & done; done; wait
for c in "g++-13 -std=c++17" "clang++-18 -std=c++20"; do k=${c:0:3}; ( $c -fsanitize=address,undefined /tmp/pbt.$k.o $(for f in $p*.cpp; do echo /tmp/${f%.cpp}.$k.o; done) -o /tmp/$p.$k.exe 2>&1 | head -3 && timeout 200 /tmp/$p.$k.exe --seed ${S:-1} --cases $n --time 40 --out /tmp/$p.$k.txt --stats /tmp/$p.$k.json 2>&1 | tail -${L:-12} | sed "s/^/$k: /" ) & done; wait
