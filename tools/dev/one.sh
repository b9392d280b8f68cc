# prop exe mode hist
ASAN_OPTIONS="exitcode=77:detect_leaks=0:handle_segv=1:allocator_may_return_null=1" TZ=UTC /verif/build/$1/$2 --seed 1 --from $4 --to $(($4+1)) --out /tmp/w/o.ndjson --timeout 20 --work /tmp/w --tier 0 --mode $3 2>&1 | head -${5:-40}; ls /tmp/w
