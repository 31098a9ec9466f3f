# source tools/dev.sh: development in clones, so that /repo and /verif stay as committed while vcheck runs
mkdir -p /tmp/dev; [ -d /tmp/dev/repo ] || git clone -q /repo /tmp/dev/repo; [ -d /tmp/dev/verif ] || git clone -q /verif /tmp/dev/verif
export VERIF_REPO=/tmp/dev/repo; cd /tmp/dev/verif
