#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: turns the edit made in the scratch copy (default /tmp/sw) into /verif/seeded/ID.
Reads meta (needs, what_it_breaks, cases or main) from /tmp/seed_meta/ID.json."""
import json, os, subprocess, sys, tarfile, shutil, tempfile
V="/verif"
def kit(path):
    w=tempfile.mkdtemp()
    shutil.copytree(V+"/shims", w+"/shims")
    os.makedirs(w+"/demo/src")
    c=open(V+"/harness/Cargo.toml").read().replace('name = "mc"','name = "demo"')
    open(w+"/demo/Cargo.toml","w").write(c)
    shutil.copy(V+"/tools/demo/main.rs", w+"/demo/src/main.rs")
    shutil.copy(V+"/harness/src/driver.rs", w+"/demo/src/driver.rs")
    l=open(V+"/harness/Cargo.lock").read().replace('name = "mc"','name = "demo"')
    open(w+"/demo/Cargo.lock","w").write(l)
    # lock entries are sorted by name
    env=dict(os.environ, CARGO_NET_OFFLINE="true")
    subprocess.run(["cargo","generate-lockfile","--offline"],cwd=w+"/demo",env=env,check=False,capture_output=True)
    def clean(t):
        t.mtime=0; t.uid=t.gid=0; t.uname=t.gname="root"; return t
    with tarfile.open(path,"w:gz") as t:
        t.add(w+"/shims","shims",filter=clean); t.add(w+"/demo","demo",filter=clean)
    shutil.rmtree(w)
if __name__=="__main__":
    i=sys.argv[1]; sw=sys.argv[2] if len(sys.argv)>2 else "/tmp/sw"
    m=json.load(open(f"/tmp/seed_meta/{i}.json"))
    d=f"{V}/seeded/{i}"; os.makedirs(d,exist_ok=True)
    p=subprocess.run(["git","-C",sw,"diff"],capture_output=True,text=True).stdout
    assert p.strip(), "no edit"
    open(d+"/patch.diff","w").write(p)
    json.dump({k:m[k] for k in("property","needs","what_it_breaks")},open(d+"/meta.json","w"),indent=1)
    if m.get("demo"):
        open(d+"/demo.sh","w").write(m["demo"])
        for n,t in m.get("files",{}).items(): open(d+"/"+n,"w").write(t)
    else:
        shutil.copy(V+"/tools/demo/demo.sh", d+"/demo.sh")
        kit(d+"/kit.tgz")
        if "cases" in m: json.dump(m["cases"],open(d+"/cases.json","w"),indent=1)
        for n,t in m.get("files",{}).items(): open(d+"/"+n,"w").write(t)
    os.chmod(d+"/demo.sh",0o755)
