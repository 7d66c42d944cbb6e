#!/bin/bash
# try.sh ID [CHECK...] : demo on the clean and on the patched tree, then the checks on the patched tree
id=$1; shift; d=/verif/seeded/$id; w=/tmp/bugs/try-$id
rm -rf "$w"; git clone -q "${SRC:-/repo}" "$w"; mkdir -p /tmp/bugs/lay; rm -rf "/tmp/bugs/lay/$id"; cp -r $d "/tmp/bugs/lay/$id"
(cd $w && bash /tmp/bugs/lay/$id/demo.sh > /tmp/bugs/$id.clean 2>&1); c=$?
git -C $w apply $d/patch.diff || exit 1
(cd $w && bash /tmp/bugs/lay/$id/demo.sh > /tmp/bugs/$id.bug 2>&1); b=$?
echo "$id demo: clean=$c patched=$b"
for k in "${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}"; do
  VF_REPO=$w VF_BUILD=/tmp/bugs/build-$id python3 /verif/check.py $k > /tmp/bugs/$id.$k.out 2> /tmp/bugs/$id.$k.err; echo "$id check $k: rc=$? $(grep -c ^VIOLATION /tmp/bugs/$id.$k.out)"
done
rm -rf "$w" "/tmp/bugs/build-$id" "/tmp/bugs/lay/$id"
