#!/bin/bash
# usage: commitfix.sh "fix: ..." : run all tests on the working tree, commit when nothing new fails
cd /repo
base="pass.fanout pass.generator_hash pass.verilog_instance fault.parse_verilog_cov_file fault.produce_cov_xml fault.parse_icc_cov_file generator.load generator.fsm generator.function_call_stmt lib.single_port_sram lib.single_port_sram_array"
TAIL=400 bash /verif/tools/fulltest.sh > /tmp/ft.log 2>&1
grep -q "suites ran" /tmp/ft.log || { echo "full test did not finish"; tail -20 /tmp/ft.log; exit 1; }
new=""
for t in $(sed -n '/listed below/,$p' /tmp/ft.log | grep '^\[  FAILED' | awk '{print $4}' | grep '\.'); do case " $base " in *" $t "*) ;; *) new="$new $t";; esac; done
[ -n "$new" ] && { echo "new failures: $new"; exit 1; }
bash /opt/vp/build.sh > /tmp/b.log 2>&1 || { echo build failed; tail /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json > /tmp/t.log 2>&1
python3 - <<'P' || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/o.json'))['passed']
m=[t for t in b if t not in o]
print("stable missing:",m)
sys.exit(bool(m))
P
git commit -qam "$1" && git log --oneline | head -1
