# minimised account: m.sh PROP RUN
cd /verif/sim; timeout 60 target/release/sieve-sim triage $1 $2 1 1 min 2>/dev/null | sed 's/^settings: Settings {.*cpu:/settings: ... cpu:/' | cut -c1-${W:-1100} | head -${L:-60}
