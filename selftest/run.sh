# run.sh [tier]: checks the exploration runtime against litmus tests with known outcomes
cd "$(dirname "$0")/.."
d=$(mktemp -d)
bash lib/build_mc.sh "${CO_ECS_REPO:-/repo}" selftest/litmus.cpp "$d/litmus" || exit 2
bad=0
for n in $(grep -o '"X\.[a-z.0-9-]*"' selftest/litmus.cpp | tr -d '"'); do
  "$d/litmus" --property X --tier "${1:-quick}" --out "$d" --suite $n --json "$d/j.json" > "$d/log"
  python3 - "$d/j.json" $n <<'P' || { bad=1; cat "$d/log"; }
import json, sys
for s in json.load(open(sys.argv[1]))["suites"]:
    n = s["suite"]
    if n != sys.argv[2]: continue
    if n.startswith("X.ok."): ok = not s["violated"] and s["complete"] and s["outcomes"] == int(n.rsplit(".", 1)[1])
    else: ok = bool(s["violated"])
    print("%-28s %-6s executions=%d outcomes=%d violated=%d complete=%s" % (n, "ok" if ok else "WRONG", s["executions"], s["outcomes"], s["violated"], s["complete"]))
    sys.exit(0 if ok else 1)
P
done
rm -r "$d"
exit $bad
