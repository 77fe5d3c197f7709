# try.sh ID...: apply a planted bug to /repo, build, test, run its demo and checks; undo.
for id in "$@"; do
  p=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$p/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
  (cd /repo && bash $p/demo.sh >/tmp/demo.out 2>&1); a=$?
  git -C /repo apply $p/patch.diff || { echo "$id does not apply"; continue; }
  (cd /repo && bash $p/demo.sh >/tmp/demo.out2 2>&1); b=$?
  t=$([ -n "$SKIPTEST" ] || bash /verif/t.sh | head -1)
  (cd /verif && for q in $prop ${CHECKS}; do bash run.sh $q quick > /tmp/check.out 2>&1; echo "$q -> $? $(grep -E '^VIOL' /tmp/check.out) $(grep -B1 VIOL /tmp/check.out | head -1 | cut -c1-150)"; done) > /tmp/checks.out
  git -C /repo checkout -- .
  echo "$id [$prop] demo clean=$a patched=$b ($(tail -1 /tmp/demo.out2 | cut -c1-120)); $t"
  sed 's/^/     /' /tmp/checks.out
done
