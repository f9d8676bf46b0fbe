#!/usr/bin/env python3
"""mutate.py FILE.py [NAME...]: applies each mutant of tools/mutants/FILE.py to a scratch copy of /repo, builds
the simulator there, and reports which rules notice it (every rule active), so that gaps of the checks show.
A mutant: (name, expected property, scenarios, [(file, old, new)...]).  Nothing in /repo or /verif/build changes."""
import os, re, subprocess, sys, importlib.util, shutil, collections
from concurrent.futures import ThreadPoolExecutor
import queue
LANES = int(os.environ.get("LANES", "2")); N = int(os.environ.get("N", "1600"))
FIRST = {"calls": "C01", "glare": "C01", "groups": "G01", "links": "G01", "audio": "D01", "pair": "M01", "hostile-peer": "M05", "frames": "K01", "actors": "A01", "router": "R01", "http": "H01", "assets": "S01", "locks": "L01", "rooms": "N01", "worker": "V01", "stats": "V02"}
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def lane_setup(i):
    d = f"/tmp/mut/lane{i + int(os.environ.get("LANE0", 0))}"
    os.makedirs(d, exist_ok=True)
    sh(f"rsync -a --delete /repo/ {d}/repo/" if shutil.which("rsync") else f"rm -rf {d}/repo; cp -a /repo {d}/repo")
    os.makedirs(f"{d}/verif", exist_ok=True)
    sh(f"rm -rf {d}/verif/harness; cp -a /verif/harness /verif/build.sh {d}/verif/")
    return d
def run(m, d):
    name, prop, scens, edits = m[:4]
    if len(m) > 4: name += " `" + m[4][:150] + "`"
    for f, old, new in edits:
        p = f"{d}/repo/{f}"; s = open(p).read()
        if isinstance(old, int):
            ls = s.split("\n"); ls[old] = new; open(p, "w").write("\n".join(ls))
            continue
        if s.count(old) != 1:
            sh(f"git -C {d}/repo checkout -- ."); return f"{name}: BAD EDIT {f} count={s.count(old)}"
        open(p, "w").write(s.replace(old, new))
    try:
        b = sh("./build.sh", cwd=f"{d}/verif", env={**os.environ, "RSIM_REPO": f"{d}/repo"})
        if b.returncode:
            e = [l for l in b.stderr.splitlines() if l.startswith("error")]
            return f"{name}: DOES NOT COMPILE {e[:3]} {b.stderr[-300:] if not e else ''}"
        def search(all_rules):
            c = collections.Counter(); first = {}
            k = max(1, 8 // LANES)
            for s in scens:
                n = N // k
                cmd = f"{d}/verif/build/target/release/rsim run {FIRST[s] if all_rules else prop} {s} "
                ps = [subprocess.Popen(("RSIM_ALL=1 " if all_rules else "") + "timeout 600 " + cmd + f"{1 + j * n} {n} 2>&1 | grep -v '^seed [0-9]*: None err None' | cut -c1-400", shell=True, stdout=subprocess.PIPE, text=True, errors="replace") for j in range(k)]
                for p in ps:
                    for l in p.communicate()[0].splitlines():
                        r = re.match(r'seed (\d+): [^"]*"([^"]*)"', l)
                        key = r.group(2) if r else l[:60]
                        c[key] += 1; first.setdefault(key, l[:260])
            return c, first
        c, first = search(True)
        hit = any(k.startswith(prop + ":") for k in c)
        out = f"{name} [{prop}]: " + ("hit " if hit else ("OTHER " if c else "MISSED ")) + ", ".join(f"{k} {v}" for k, v in c.most_common(7))
        if c and not hit:
            c2, _ = search(False)
            out += "  ALONE: " + (", ".join(f"{k} {v}" for k, v in c2.most_common(4)) or "missed")
        if os.environ.get("V"): out += "".join("\n    " + v for v in list(first.values())[:4])
        return out
    finally:
        sh(f"git -C {d}/repo checkout -- .")
def main():
    s = importlib.util.spec_from_file_location("m", f"/verif/tools/mutants/{sys.argv[1]}.py")
    mod = importlib.util.module_from_spec(s); s.loader.exec_module(mod)
    ms = [m for m in mod.MUTANTS if len(sys.argv) < 3 or m[0] in sys.argv[2:]]
    q = queue.Queue()
    for i in range(LANES): q.put(lane_setup(i))
    def one(m):
        d = q.get()
        try: r = run(m, d)
        except Exception as e: r = f"{m[0]}: ERROR {e!r}"
        finally: q.put(d)
        print(r, flush=True)
    with ThreadPoolExecutor(LANES) as ex: list(ex.map(one, ms))
main()
