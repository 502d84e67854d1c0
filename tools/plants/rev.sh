# rev.sh COMMIT CHECK...: run checks with a fix reverted
cd /repo && git revert -n $1 >/dev/null 2>&1 || { git revert --abort; echo CONFLICT; exit 1; }
shift
for c in "$@"; do (cd /verif; ./run $c 2>&1 | tail -6 | cut -c1-400); done
cd /repo && git reset -q --hard HEAD; git status --short
