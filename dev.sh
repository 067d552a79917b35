#!/bin/bash
# developer loop: rebuild everything
cd "$(dirname "$0")"
./setup.sh 2>&1 | grep -E "^error" -A9 | head -60
./extract.sh .work/p.bin 2>&1 | tail -15
