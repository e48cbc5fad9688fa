"""Self-test of the model checker: every toy program of harness/selftest.cpp must get the verdict its name states."""
import json, os, re, subprocess, sys, tempfile
def run(build, env):
    x = build("mc", "selftest", "20", ())
    names = [l.split()[1] for l in subprocess.run([x, "--list"], stdout=subprocess.PIPE, env=env, text=True).stdout.splitlines()]
    bad = 0
    for n in names:
        with tempfile.TemporaryDirectory() as td:
            sf = os.path.join(td, "s.json")
            p = subprocess.run([x, "--prop", "X00", "--only", n, "--stats", sf, "--replay-dir", td], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True, errors="replace")
            sc = [s for s in json.load(open(sf))["scenarios"] if s["name"] == n] if os.path.exists(sf) else []
            want = 0 if n.startswith("ok-") else 1
            m = re.search(r"-(\d+)$", n); outs = sc[0]["outcomes"] if sc else None
            good = p.returncode == want and (want or not m or outs == int(m.group(1)))
            if not good: bad += 1
            print("%-32s %s rc=%d executions=%s outcomes=%s %s" % (n, "as expected" if good else "WRONG", p.returncode, sc[0]["executions"] if sc else "?", outs, p.stdout.splitlines()[0][:200] if p.stdout and (want or not good) else ""))
    print("%d of %d as expected" % (len(names) - bad, len(names)))
    return 1 if bad else 0
