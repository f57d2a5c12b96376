#!/usr/bin/env python3
"""Development aid: measures how sensitive the checks are.

Makes textual mutants of the specification (Rust code blocks of spec/**/*.md) in scratch copies of
/repo and /verif under /tmp, runs a check mixing all profiles against each and lists the survivors.

  mutants.py gen OUT.json [files...]        enumerate mutants
  mutants.py run IN.json OUT.jsonl LO HI SLOT  run mutants LO..HI in scratch slot SLOT
"""
import json, os, re, subprocess, sys, random
REPO = "/repo"
OPS = [(r'(?<![<=>!-])<=(?![<=>])', '<'), (r'(?<![<=>!-])>=(?![<=>])', '>'), (r' < ', ' <= '), (r' > ', ' >= '), (r' == ', ' != '), (r' != ', ' == '),
       (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'Int::ZERO', 'Int::ONE'), (r'Int::ONE', 'Int::ZERO'), (r'if !', 'if '), (r'\bSigned\b', 'Unsigned'), (r'\bUnsigned\b', 'Signed'), (r'\.all\(', '.any('), (r'\.any\(', '.all('),
       (r'\.max\(', '.min('), (r'\.min\(', '.max('), (r'Size::ZERO', 'Size::from_bytes_const(1)'), (r'AccessKind::Read\b', 'AccessKind::Write'), (r'AccessKind::Write\b', 'AccessKind::Read'),
       (r'Protected::Strong', 'Protected::Weak'), (r'Protected::Weak', 'Protected::Strong'), (r'\bReserved\b(?! *\{)', 'Frozen'), (r'Mutability::Mutable', 'Mutability::Immutable'), (r'is_sized\(\)', 'is_sized() == false'),
       (r'=> None,', '=> panic!(),'), (r'\?;$', '.is_ok();'), (r'if (?!let)(.+) \{$', r'if false && (\1) {'), (r'if (?!let)(.+) \{$', r'if true || (\1) {'), (r'^(\s*)(self\.[^=]*;)$', r'\1'), (r'None => (?!throw|panic)', 'None if false => '),
       (r'\.insert\(', '.remove('), (r'had_local_read: true', 'had_local_read: false'), (r'had_foreign_read: true', 'had_foreign_read: false'), (r'bytes\(\)', 'bits()')]
def code_lines(path):
    inb = False
    for i, l in enumerate(open(path).read().split("\n")):
        if l.startswith("```"):
            inb = not inb and l.startswith("```rust")
            continue
        if inb: yield i, l
def gen(files):
    out = []
    for f in files:
        for i, l in code_lines(os.path.join(REPO, f)):
            s = l.strip()
            if not s or s.startswith("//") or s.startswith("#") or s.startswith("pub enum") or s.startswith("use "): continue
            code = l.split("//")[0]
            for pat, rep in OPS:
                for m in re.finditer(pat, code):
                    new = code[:m.start()] + m.expand(rep) + code[m.end():]
                    if new != code: out.append({"file": f, "line": i, "old": l, "new": new})
            # drop UB: a throw becomes unreachable by the condition mutants; also delete match guards
            if re.search(r' if .* =>', code) and 'if let' not in code:
                out.append({"file": f, "line": i, "old": l, "new": re.sub(r' if .* =>', ' if true =>', code, 1)})
    # panics and asserts are not behaviour
    out = [o for o in out if not re.search(r'assert|panic!|unreachable!|unwrap\(\)$', o["old"])]
    return out
def sh(cmd, timeout=None, env=None):
    try:
        r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"
def slot_setup(slot):
    d = f"/tmp/mut{slot}"
    sh(f"rm -rf {d}; mkdir -p {d}; cp -a /repo {d}/repo; rm -rf {d}/repo/tooling/target; mkdir -p {d}/verif; cp -a /verif/harness /verif/vendor /verif/check {d}/verif/; mkdir -p {d}/verif/build; cp -a /verif/build/target {d}/verif/build/target")
    sh(f"grep -rlE '/repo|/verif' {d}/verif/check {d}/verif/harness/Cargo.toml {d}/verif/harness/.cargo {d}/verif/vendor --include=*.toml --include=check | xargs sed -i 's#/repo#{d}/repo#g; s#/verif#{d}/verif#g'")
    # relative paths
    return d
def run(muts, out, lo, hi, slot, check="ALL", secs=20):
    d = slot_setup(slot)
    env = dict(os.environ, VERIF_SECS=str(secs), VERIF_SEED="1")
    rc, o = sh(f"cd {d}/verif && ./check {check} quick", 600, env)
    print("baseline", rc, o[-300:], flush=True)
    if rc != 0: return
    with open(out, "a") as fo:
        for k in range(lo, min(hi, len(muts))):
            m = muts[k]
            p = f"{d}/repo/{m['file']}"
            src = open(p).read().split("\n")
            assert src[m["line"]] == m["old"]
            src[m["line"]] = m["new"]
            open(p, "w").write("\n".join(src))
            rc, o = sh(f"cd {d}/verif && ./check {m.get('check', check)} quick", 400, env)
            res = {0: "SURVIVED", 1: "caught", 2: "nobuild"}.get(rc, f"rc{rc}")
            if rc == 2 and "does not build" not in o: res = "noanswer"
            src[m["line"]] = m["old"]
            open(p, "w").write("\n".join(src))
            fo.write(json.dumps({"k": k, "res": res, **m, "out": o[-400:]}) + "\n"); fo.flush()
if __name__ == "__main__":
    if sys.argv[1] == "gen":
        files = sys.argv[3:] or sorted(subprocess.check_output("cd /repo && find spec -name '*.md'", shell=True, text=True).split())
        ms = gen(files)
        random.Random(7).shuffle(ms)
        json.dump(ms, open(sys.argv[2], "w"))
        print(len(ms))
    else:
        run(json.load(open(sys.argv[2])), sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), sys.argv[6])
