#!/bin/bash
# hseed.sh <id> <backend> <sources...>: give a planted bug of a hardware backend the stub headers and demo.sh (demo.cpp is on stdin)
id=$1; b=$2; shift 2; S=/verif/seeded/$id; mkdir -p $S/stub; cp -r /verif/drivers/hal/$b/. $S/stub/
d=arduino; [ $b = esp ] && d=esp32-esp-idf
src=""; for s in "$@"; do src="$src \"\$PWD/$s\""; done
cat > $S/demo.cpp
cat > $S/demo.sh <<P
#!/bin/bash
# run in /repo: the backend with stand-ins for the vendor's drivers
here=\$(cd "\$(dirname "\$0")" && pwd)
tmp=\$(mktemp -d)
g++ -std=c++17 -g -fsanitize=address -I"\$here/stub" -I"\$PWD" -I"\$PWD/$d" "\$here/demo.cpp" $src -o "\$tmp/demo" || exit 3
timeout 60 "\$tmp/demo"; rc=\$?
rm -rf "\$tmp"
exit \$rc
P
