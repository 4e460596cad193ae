#!/bin/bash
# builds the servers from the current tree with the driver beside this script and runs random histories against one
# property's oracle; nonzero as soon as a history violates it
d=$(cd "$(dirname "$0")" && pwd)
prop=$(cat "$d/prop")
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'kill $(jobs -p) 2>/dev/null; rm -rf "$t"' EXIT
for s in buffer cluster_config srv_config snapshot snapshot_sync_req peer raft_server raft_server_req_handlers raft_server_resp_handlers; do
  (clang++ -std=gnu++17 -w -pthread -O1 -I include -I asio/asio/include -c src/$s.cxx -o "$t/$s.o" || touch "$t/bad") &
done
(clang++ -std=gnu++17 -w -pthread -O1 -I include -I asio/asio/include -I "$d" -c "$d/h_raft.cxx" -o "$t/h.o" || touch "$t/bad") &
wait
[ -e "$t/bad" ] && exit 2
clang++ -pthread -o "$t/h" "$t"/*.o || exit 2
: > "$t/hints"
for i in 1 2 3 4 5 6; do
  (cd "$t" && timeout 140 ./h $prop $i 60 "$t/hints" > "$t/o$i" 2>/dev/null; [ $? = 1 ] && grep -q "^FAIL" "$t/o$i" && touch "$t/fail") &
done
for k in $(seq 1 150); do
  [ -e "$t/fail" ] && { grep -h "^FAIL" "$t"/o* | head -1; exit 1; }
  [ -z "$(jobs -rp)" ] && break
  sleep 1
done
[ -e "$t/fail" ] && { grep -h "^FAIL" "$t"/o* | head -1; exit 1; }
exit 0
