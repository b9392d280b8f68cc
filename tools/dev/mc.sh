cd /verif/spec; timeout ${T:-600} java -XX:+UseParallelGC -Xmx8g -Xss256m -DTLA-Library=. -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers ${W:-4} -metadir /tmp/mc_$2 -noGenerateSpecTE -config $2.cfg $1.tla > /tmp/mc_$2.out 2>&1; rm -rf /tmp/mc_$2; grep -v -e '^$' -e Semantic -e Parsing -e Linting /tmp/mc_$2.out | tail -${N:-30}
