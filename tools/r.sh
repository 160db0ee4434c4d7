#!/bin/bash
# dev helper: run with limits;  r.sh bin PROP filter
( time VERIF_ROOT=/verif timeout ${T:-300} /verif/target/debug/$1 $2 $3 ) 2>&1 | cut -c1-${W:-240} | tail -${N:-40}
