cd /verif/specx && cargo +stable build --offline --release 2>&1 | grep -E '^error' -A8 | head -80
./target/release/specx /tmp/tr/src src/builtins.txt structural.txt /tmp/tr/gen.rs /tmp/tr/rep.json; wc /tmp/tr/gen.rs; python3 - <<'P'
import json
r=json.load(open('/tmp/tr/rep.json'))
for f in r['functions']:
    if f['error']: print(f['path'],f['file'],f['line'],f['error'])
P
