"""
seed.py SPEC.py      write /verif/seeded/<id>/ from a spec
A spec defines BUGS = [dict(id=, prop=, needs=, breaks=, edits=[(file, old,
new[, count])], demo="python source; exit non-zero / raise when broken")]
"""
import importlib.util, json, os, pathlib, re, shutil, subprocess, sys, tempfile
ROOT = pathlib.Path(__file__).resolve().parent.parent
spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
only = sys.argv[2:]
for b in m.BUGS:
    if only and b["id"] not in only:
        continue
    w = tempfile.mkdtemp(prefix="vf-seed-")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        subprocess.run(f"git -C /repo archive HEAD | tar -x -C {w}", shell=True, check=True)
        subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=w, check=True)
        for f, old, new, *n in b["edits"]:
            p = pathlib.Path(w) / "aiootp" / f
            s = p.read_text()
            want = n[0] if n else 1
            if s.count(old) != want:    # same tokens, other spacing
                toks = re.findall(r"\w+|[^\w\s]", old)
                pat = r"\s*(?:#[^\n]*\n\s*)?(?:,\s*(?=[)\]}]))?".join(
                    "[\"']" if t in "\"'" else re.escape(t) for t in toks)
                found = list(re.finditer(pat, s))
                if len(found) != want:
                    sys.exit(f"{b['id']}: {f}: {len(found)} occurrences of {old!r}")
                new = new.lstrip(" ").rstrip("\n")
                for x in reversed(found):
                    s = s[:x.start()] + new + s[x.end():]
            else:
                s = s.replace(old, new)
            compile(s, str(p), "exec")
            p.write_text(s)
        d = subprocess.run(["git", "diff"], cwd=w, check=True, capture_output=True, text=True).stdout
        out = ROOT / "seeded" / b["id"]
        out.mkdir(parents=True, exist_ok=True)
        (out / "patch.diff").write_text(d)
        (out / "demo.py").write_text("import sys, os\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n" + b["demo"].strip() + "\nprint('ok')\n")
        (out / "demo.sh").write_text('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out / "demo.sh", 0o755)
        (out / "meta.json").write_text(json.dumps(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), indent=1) + "\n")
        print("wrote", b["id"])
    finally:
        shutil.rmtree(w)
