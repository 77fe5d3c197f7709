# new.sh ID PROP "needs" "breaks": take the diff of /tmp/wt as planted bug ID, reset /tmp/wt
p=/verif/seeded/$1; mkdir -p $p
git -C /tmp/wt diff > $p/patch.diff
git -C /tmp/wt checkout -q -- .
cp /verif/tools/demo/demo.sh $p/demo.sh
python3 - "$p" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
cat > $p/main.rs
