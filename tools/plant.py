"""usage: plant.py ID  (reads /tmp/w/plants/ID.py with PROP, NEEDS, BREAKS, EDITS, MAIN)"""
import sys,os,subprocess,json,shutil
ID=sys.argv[1]
g={}
exec(open('/tmp/w/plants/%s.py'%ID).read(),g)
D='/verif/seeded/%s'%ID
W='/tmp/bug'
env=dict(os.environ)
if not os.path.exists(W+'/.git'):
    subprocess.check_call(['cp','-a','/repo',W])
subprocess.check_call('git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD && git -C %s clean -fdq'%(W,W,W),shell=True)
for f,a,b in g['EDITS']:
    s=open(W+'/'+f).read()
    assert s.count(a)==1,(f,s.count(a),a)
    open(W+'/'+f,'w').write(s.replace(a,b))
diff=subprocess.check_output(['git','-C',W,'diff']).decode()
os.makedirs(D,exist_ok=True)
open(D+'/patch.diff','w').write(diff)
open(D+'/main.rs','w').write(g['MAIN'])
open(D+'/demo.sh','w').write('''#!/bin/bash
# builds main.rs against the crate in the current directory and runs it: exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH="$HOME/.cargo/bin:$PATH"
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
dxf = { path = "$repo" }
EOF
cd "$w" || exit 3
CARGO_TARGET_DIR="$w/target" cargo build --offline -q 2> "$w/log" || { tail -20 "$w/log"; exit 3; }
timeout 60 "$w/target/debug/demo"
''')
json.dump(dict(property=g['PROP'],needs=g['NEEDS'],what_it_breaks=g['BREAKS']),open(D+'/meta.json','w'),indent=1)
def demo(repo):
    r=subprocess.run(['bash',D+'/demo.sh'],cwd=repo,capture_output=True,text=True,timeout=400)
    return r.returncode,(r.stdout+r.stderr)[-600:]
if '-c' in sys.argv: sys.exit()   # patch only
print('clean demo',demo('/repo'))
print('bug demo',demo(W))
env['CARGO_TARGET_DIR']=W+'/target'
r=subprocess.run('cargo test --offline 2>&1 | grep -E "^test result|FAILED|failed|error" | head',shell=True,cwd=W,capture_output=True,text=True)
print(r.stdout)
def chk(c):
    e=dict(os.environ,VERIF_REPO=W,VERIF_WORK='/tmp/bugwork')
    r=subprocess.run(['./check',c],cwd='/verif',capture_output=True,text=True,env=e)
    return r.returncode,[l for l in r.stdout.splitlines() if 'KNOWN' not in l][-6:]
for c in ([g['PROP']] if len(sys.argv)<3 else sys.argv[2:]): print(c,*chk(c),sep='\n   ')
