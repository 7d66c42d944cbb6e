#!/bin/bash
# new.sh ID PROPERTY "needs" "what it breaks" : records the change in /tmp/bugs/wt (demo.cpp in /tmp/bugs/demo.cpp)
set -e
d=/verif/seeded/$1; mkdir -p $d/kit
git -C /tmp/bugs/wt diff > $d/patch.diff; [ -s $d/patch.diff ]
cp -r /verif/harness/nanothread /verif/harness/robin_map $d/kit/
sed -e '/^file(GLOB DRIVERS/,$d' /verif/harness/CMakeLists.txt > $d/kit/CMakeLists.txt
cat >> $d/kit/CMakeLists.txt <<'X'
add_executable(demo ${DEMO}/demo.cpp)
target_compile_options(demo PRIVATE -w -O0)
target_link_libraries(demo PRIVATE drjit-core nanothread dl pthread)
X
cp /verif/tools/bug/demo.sh $d/demo.sh; chmod +x $d/demo.sh
cp /tmp/bugs/demo.cpp $d/demo.cpp; cp /verif/tools/bug/demo.h $d/demo.h
python3 - "$@" <<'X'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
X
git -C /tmp/bugs/wt checkout -q -- .
