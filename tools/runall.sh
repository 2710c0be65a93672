#!/bin/bash
# all quick (or: runall.sh thorough) checks, prints the last line of each
cd "$(dirname "$0")/.."
tier=${1:-quick}; shift
ids=${*:-$(cd symtn/props; ls C*.py | sed 's/.py//')}
printf '%s\n' $ids | xargs -P ${JOBS:-1} -I{} sh -c "OMP_NUM_THREADS=1 /opt/venv/bin/python -m symtn {} --tier $tier > /tmp/p/{}.$tier.log 2>&1; echo \"{} rc=\$? \$(tail -1 /tmp/p/{}.$tier.log)\""
