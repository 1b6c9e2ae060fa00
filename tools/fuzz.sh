#!/bin/bash
# fuzz.sh ID VHARNESS DIR: coverage-guided search for a case that breaks the property, with
# the fuzz target DIR/property (built by check.sh): 8 libFuzzer processes with seeds from
# VERIF_SEED. Quick: a fixed number of executions each; thorough: FUZZ_SECONDS (900).
# Exit 1 with a VIOLATION line for a case that a replay confirms, otherwise 0: a fuzzer that
# cannot run is noted in the evidence file and decides nothing.
set -u
id=$1 run=$2 lab=$3
export VERIF_PROPERTY=$id VERIF_SEED=${VERIF_SEED:-1}
if [ "${VERIF_TIER:-quick}" = thorough ]; then
    how=(-max_total_time="${FUZZ_SECONDS:-900}" -max_len=4096)
else
    case $id in
    C24) n=6000 ;;
    C16 | C20 | C21 | C22 | C23 | C27) n=15000 ;;
    *) n=60000 ;;
    esac
    how=(-runs=$n -max_total_time=60 -max_len=400)
fi
for w in 1 2 3 4 5 6 7 8; do
    mkdir -p "$lab/$w/corpus"
    VERIF_SEED=$((VERIF_SEED * 8 + w)) "$run" seeds "$id" "$lab/$w/corpus"
    # half of them also follow how close a comparison comes
    VERIF_FUZZ_OUT=$lab/$w/replay.json "$lab/property" -seed=$((VERIF_SEED * 8 + w)) -use_value_profile=$((w % 2)) \
        "${how[@]}" -timeout=60 -rss_limit_mb=3500 -print_final_stats=1 -artifact_prefix="$lab/$w/" "$lab/$w/corpus" >"$lab/$w/log" 2>&1 &
done
wait
rc=0
for f in "$lab"/*/replay.json; do
    [ -f "$f" ] || continue
    "$run" report "$f"
    [ $? = 1 ] && { rc=1; break; }
done
if [ $rc = 0 ]; then
    # inputs on which the process itself went
    for f in "$lab"/*/crash-* "$lab"/*/timeout-*; do
        [ -f "$f" ] || continue
        "$run" case "$id" "$f" >"$lab/case.json" || continue
        "$run" report "$lab/case.json"
        [ $? = 1 ] && { rc=1; break; }
    done
fi
python3 - "$lab" "evidence/$id.json" $rc <<'P'
import glob, json, re, sys
lab, path, rc = sys.argv[1:]
runs = cov = corpus = 0
for f in glob.glob(lab + '/*/log'):
    s = open(f, errors='replace').read()
    runs += sum(map(int, re.findall(r'number_of_executed_units: (\d+)', s)))
    c = re.findall(r'cov: (\d+) ft: \d+ corp: (\d+)', s)
    if c:
        cov, corpus = max(cov, int(c[-1][0])), corpus + int(c[-1][1])
e = json.load(open(path))
e['coverage']['coverage_guided'] = {'executions': runs, 'edges': cov, 'corpus': corpus, 'processes': 8}
if rc == '1':
    e['violations'] = e.get('violations', 0) + 1
open(path, 'w').write(json.dumps(e, indent=2) + '\n')
print(f'{e["property"]}: coverage-guided: {runs} executions, {cov} edges, {corpus} inputs kept')
P
exit $rc
