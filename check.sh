#!/bin/bash
# usage: check.sh <property id> [--tier quick|thorough] [--replay file] [--only workload] [--seed n]
# Imports the code from /repo's working tree, compiled afresh in a private cache directory.
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d /tmp/vp.XXXXXXXX)" || exit 3
trap 'rm -rf "$work"' EXIT
trap 'kill -TERM -- $child 2>/dev/null; exit 3' TERM INT
export VP_WORK="$work" VP_HOME="$here"
export NUMBA_CACHE_DIR="$work/nb" PYTHONPYCACHEPREFIX="$work/pyc"
export PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export PYTHONPATH="${VP_REPO:-/repo}:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
unset NUMBA_DISABLE_JIT NUMBA_BOUNDSCHECK NUMBA_OPT PYTHONWARNINGS
mkdir -p "$here/evidence"
cd "$work" || exit 3
/opt/venv/bin/python -W ignore -m vp.main "$@" &
child=$!
wait $child
rc=$?
case $rc in
  139|134|135|136|132|155)   # the interpreter itself was killed by SIGSEGV, SIGABRT, SIGBUS, SIGFPE or SIGILL while running supported calls,
                             # or by SIGPROF because they did not return (see vp/main.py)
    mkdir -p "$here/evidence/replays"
    echo "the process running the workloads of $1 was killed by signal $((rc-128)); arguments: $*" | tee "$here/evidence/replays/$1-crash.txt"
    echo "VIOLATION property=$1 replay=$here/evidence/replays/$1-crash.txt"
    exit 1;;
esac
exit $rc
