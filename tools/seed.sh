#!/bin/bash
# seed.sh ID...: confirms planted changes in a scratch copy: builds, passes the stable tests, demo 0 without / nonzero with.
S=/tmp/seedcopy
[ -d $S ] || { mkdir -p $S; git clone -q /repo $S; }
export RUSTUP_TOOLCHAIN=1.76-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
for id in "$@"; do
  d=/verif/seeded/$id
  (cd $S && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD)
  a=0; (cd $S && bash $d/demo.sh >/tmp/seedcopy.$id.a 2>&1) || a=$?
  if ! git -C $S apply $d/patch.diff; then echo "$id APPLY-FAILED"; continue; fi
  b=0; (cd $S && bash $d/demo.sh >/tmp/seedcopy.$id.b 2>&1) || b=$?
  (cd $S && python3 - <<'P'
import re
t=open('Cargo.toml').read(); open('Cargo.toml','w').write(re.sub(r"^curve25519-dalek = .*\n?","",t,flags=re.M))
t=open('Cargo.lock').read(); open('Cargo.lock','w').write(re.sub(r'\n\[\[patch\.unused\]\]\n(.+\n)+','',t))
P
  CARGO_TARGET_DIR=/tmp/seedcopy.target cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 >/tmp/seedcopy.$id.t 2>&1)
  python3 /opt/vp/results.py /tmp/seedcopy.$id.json cargo:/tmp/seedcopy.$id.t
  t=$(python3 - /tmp/seedcopy.$id.json <<'P'
import sys,json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
r=json.load(open(sys.argv[1]))
miss=[x for x in b if x not in set(r['passed'])]
print(len(b)-len(miss),'of',len(b),*miss[:4])
P
)
  echo "$id demo-unchanged=$a demo-patched=$b tests: $t"; tail -2 /tmp/seedcopy.$id.b
done
