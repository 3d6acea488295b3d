"""Run every planted change against the check of its property (in a scratch copy of /repo)
and rewrite the table at the end of DESIGN.md.  Usage: catches.py [id ...] (others keep their row)."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted bugs"
def main():
    ids = sorted(os.listdir(f"{V}/seeded"))
    txt = open(f"{V}/DESIGN.md").read()
    head, tail = txt.split(MARK, 1)
    rows = dict(re.findall(r"^\| ([a-z0-9_]+) \| (.*)\|$", tail, re.M))
    todo = [i for i in ids if i in sys.argv[1:]] or ([] if sys.argv[1:] else ids)
    for i in ids:
        m = json.load(open(f"{V}/seeded/{i}/meta.json"))
        if i not in todo and i in rows:
            continue
        tmp = tempfile.mkdtemp(prefix="catch_")
        try:
            subprocess.run(["cp", "-a", "/repo", f"{tmp}/r"], check=True)
            subprocess.run(["git", "apply", f"{V}/seeded/{i}/patch.diff"], cwd=f"{tmp}/r", check=True)
            r = subprocess.run([sys.executable, "check.py", m["property"]], cwd=V, capture_output=True, text=True,
                               env={**os.environ, "OUPS_REPO": f"{tmp}/r"})
            hit = r.returncode == 1 and f"VIOLATION property={m['property']}" in r.stdout
            rows[i] = f"{m['property']} | {'caught' if hit else 'MISSED'} | {m['what_it_breaks'].strip().replace('|', '/')} "
            print(i, m["property"], "caught" if hit else "MISSED", flush=True)
        finally:
            shutil.rmtree(tmp)
    pre = tail.split("| change |")[0].rstrip()
    tab = "\n".join(["| change | check | result | what it breaks |", "|---|---|---|---|"] +
                    [f"| {i} | {rows[i]}|" for i in ids])
    open(f"{V}/DESIGN.md", "w").write(f"{head}{MARK}{pre}\n\n{tab}\n")
main()
