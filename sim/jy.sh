#!/bin/bash
# Jython as /opt/vp/jy.sh runs it, tuned for many short-lived workers: quick JIT, sequential identity hashes
# (identity-ordered containers then iterate the same way in every process).
J=/usr/share/java
export JYTHONPATH=/opt/jysite:${VERIF_REPO:-/repo} PYTHONDONTWRITEBYTECODE=1 PRIVCOUNT_DIRECTORY=${VERIF_REPO:-/repo} LC_ALL=C.UTF-8 TZ=UTC
unset PYTHONPATH PYTHONHOME
# a private current directory: simulated processes see it as /proc/self/cwd/r, the same name in every worker
A=()
for a in "$@"; do if [ -e "$a" ]; then A+=("$(realpath "$a")"); else A+=("$a"); fi; done
export SIM_SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/vsimXXXXXX")
cd "$SIM_SCRATCH"
exec /usr/bin/java -XX:+UseSerialGC -Xmx2000m -Xss8m ${JVM_TIER:--XX:TieredStopAtLevel=1} -XX:+UnlockExperimentalVMOptions -XX:hashCode=3 \
    -Djava.net.preferIPv4Stack=true -cp $J/jython.jar:$J/bcprov.jar:$J/bcpkix.jar:$J/bcutil.jar \
    -Dpython.home=/usr/share/jython -Dpython.executable=/usr/bin/jython -Dpython.cachedir.skip=true \
    org.python.util.jython -B "${A[@]}"
