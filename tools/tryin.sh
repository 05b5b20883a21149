#!/bin/bash
# tryin.sh DIR PATCH CHECK [pipelines...]: runs a check against a copy of /repo with a patch (- : none), in DIR
# (several can run at once, in different directories; /repo is not touched)
set -e
D=$1; P=$2; shift 2
mkdir -p $D/verif $D/repo
rsync -a --delete --exclude .git --exclude target --exclude work --exclude seeded --exclude evidence /verif/ $D/verif/ 2>/dev/null || { cd /verif; tar cf - --exclude=.git --exclude=target --exclude=work --exclude=seeded --exclude=evidence . | tar xf - -C $D/verif; }
rm -rf "$D/repo"; mkdir -p $D/repo
git -C /repo archive HEAD | tar xf - -C $D/repo
sed -i "s#/repo/stable-fs#$D/repo/stable-fs#" $D/verif/harness/Cargo.toml
find $D/repo -name '*.rs' -exec touch {} +
if [ "$P" != - ]; then (cd $D/repo; patch -p1 -s < $P); fi
cd $D/verif
exec python3 check.py "$@"
