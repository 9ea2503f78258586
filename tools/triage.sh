#!/bin/bash
# development aid: triage.sh PROP [args]: run and collect all failing cases in /tmp/triage
rm -f /tmp/triage.*
cd "$(dirname "$(readlink -f "$0")")/.." && python3 tools/check.py "$@" --triage /tmp/triage --maxviol 60 2>&1 | cut -c1-700 | tail -${TAILN:-40}
cat /tmp/triage.* 2>/dev/null > /tmp/triage; rm -f /tmp/triage.[0-9]*
grep -c '^##' /tmp/triage
