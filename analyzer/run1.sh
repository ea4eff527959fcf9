#!/bin/bash
# dev helper: run1.sh PROP
bash /verif/analyzer/b.sh && /tmp/lochk -prop $1 -noevidence -v -repo ${REPO:-/repo} | cut -c1-${2:-230} | head -${3:-120}
