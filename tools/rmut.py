#!/usr/bin/env python3
"""Development aid: measures how sensitive the checks are to changes of the tools.

  rmut.py gen OUT.json N [files...]   N random textual mutants of the Rust sources
  rmut.py run IN.json OUT.jsonl LO HI SLOT SECS   check mutants in a scratch slot (/tmp/pb/in.sh)
"""
import json, os, re, random, subprocess, sys
REPO = "/repo"
FILES = [f for f in subprocess.check_output("cd /repo && git ls-files tooling | grep '\\.rs$' | grep -v /tests/", shell=True, text=True).split()]
OPS = [(r'(?<![<=>!-])<=(?![<=>])', '<'), (r'(?<![<=>!-])>=(?![<=>])', '>'), (r' < (?!\w+>)', ' <= '), (r' > ', ' >= '), (r' == ', ' != '), (r' != ', ' == '),
       (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'Int::ZERO', 'Int::ONE'), (r'Int::ONE', 'Int::ZERO'), (r'if !', 'if '), (r'\bSigned\b', 'Unsigned'), (r'\bUnsigned\b', 'Signed'), (r'\.all\(', '.any('), (r'\.any\(', '.all('),
       (r'\.max\(', '.min('), (r'\.min\(', '.max('), (r'Size::ZERO', 'Size::from_bytes_const(1)'), (r'Mutability::Mutable', 'Mutability::Immutable'), (r'Mutability::Immutable', 'Mutability::Mutable'),
       (r'if (?!let)(.+) \{$', r'if false && (\1) {'), (r'if (?!let)(.+) \{$', r'if true || (\1) {'), (r'^(\s*)((?:self\.|[a-z_.]+)\w*\([^=]*\);)$', r'\1'), (r'^(\s*)([a-z_.]+ \+?= [^=].*;)$', r'\1'),
       (r'BbKind::Cleanup', 'BbKind::Regular'), (r'BbKind::Regular', 'BbKind::Cleanup'), (r'\.0\b', '.1'), (r'\.1\b', '.0'), (r'\bSome\(([^()]*)\)(?=[,;)]|$)', 'None'), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b1\b', '0'), (r'\b8\b', '4'),
       (r'\.rev\(\)', ''), (r'\.skip\(1\)', ''), (r'_unchecked\(', '('), (r'build::shl', 'build::shr'), (r'build::(add|sub|mul)\(', r'build::\1_unchecked('), (r'build::lt', 'build::le'), (r'build::ge', 'build::gt'), (r'wrapping_', 'checked_'),
       (r'PtrType::Raw', 'PtrType::Box'), (r'(\w+)\.start\b', r'\1.end'), (r'(\w+)\.end\b', r'\1.start'), (r'Endianness::\w+', 'BigEndian'), (r'\.size\b', '.align'), (r'ReturnValue|CallingConvention::Rust', 'CallingConvention::C'), (r'CallingConvention::C\b', 'CallingConvention::Rust'),
       (r'is_signed', 'is_unsigned'), (r'unwrap_or\((\w+)\)', r'unwrap()'), (r'"([^"{}]+)"', r'"\1 "'), (r'\("', '("x'), (r'writeln!', 'write!'), (r'break\b', 'continue'), (r'continue\b', 'break')]
def gen(files):
    out = []
    for f in files:
        ls = open(os.path.join(REPO, f)).read().split("\n")
        for i, l in enumerate(ls):
            s = l.strip()
            if not s or s.startswith(("//", "#", "use ", "pub use", "pub enum", "mod ", "pub mod", "extern", "fn ", "pub fn", "impl")): continue
            if re.search(r'assert|panic!|unreachable!|span_bug|unimplemented!|todo!|expect\(', l): continue
            code = l.split("//")[0].rstrip()
            for pat, rep in OPS:
                for m in re.finditer(pat, code):
                    try: new = code[:m.start()] + m.expand(rep) + code[m.end():]
                    except re.error: continue
                    if new != code: out.append({"file": f, "line": i, "old": l, "new": new})
            if re.search(r' if .* =>', code) and 'if let' not in code:
                out.append({"file": f, "line": i, "old": l, "new": re.sub(r' if .* =>', ' if true =>', code, count=1)})
            # swapping a match arm's result with the next one's
            if i + 1 < len(ls) and (a := re.match(r'^(\s*\S.*=> )(.+),$', l)) and (b := re.match(r'^(\s*\S.*=> )(.+),$', ls[i + 1])) and a[2] != b[2]:
                out.append({"file": f, "line": i, "old": l, "new": a[1] + b[2] + ","})
    return out
def sh(cmd, timeout):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "timeout"
def run(muts, out, lo, hi, slot, secs):
    d = f"/tmp/pb/{slot}"
    done = {}
    for k in range(lo, min(hi, len(muts))):
        m = muts[k]
        p = f"{d}/repo/{m['file']}"
        src = open(p).read().split("\n")
        assert src[m["line"]] == m["old"], m
        src[m["line"]] = m["new"]
        open(p, "w").write("\n".join(src))
        # does it compile?
        pk = "minimize" if "minimize/src" in m["file"] else "miniutil"
        rc, o = sh(f"bash /tmp/pb/in.sh {slot} bash -c '. /opt/vp/env.sh; cd /repo/tooling && touch {m['file'].replace('tooling/', '')} && timeout 200 cargo build --release --offline --locked -p minimize -p minirun --target-dir /verif/build/tooling 2>&1 | tail -3; exit ${{PIPESTATUS[0]}}'", 300)
        if rc == 0:
            rc, o = sh(f"bash /tmp/pb/in.sh {slot} bash -c 'cd /verif && VERIF_SECS={secs} ./check ALL quick 2>&1'", 500)
            res = {0: "SURVIVED", 1: "caught", 2: "noanswer"}.get(rc, f"rc{rc}")
        else: res = "nobuild"
        src[m["line"]] = m["old"]
        open(p, "w").write("\n".join(src))
        with open(out, "a") as fo: fo.write(json.dumps({"k": k, "res": res, **m, "out": o[-300:]}) + "\n")
if __name__ == "__main__":
    if sys.argv[1] == "gen":
        ms = gen(sys.argv[4:] or [f for f in FILES])
        random.Random(int(os.environ.get("SEED", "7"))).shuffle(ms)
        ms = ms[:int(sys.argv[3])]
        json.dump(ms, open(sys.argv[2], "w"))
        print(len(ms))
    else:
        run(json.load(open(sys.argv[2])), sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), sys.argv[6], int(sys.argv[7]))
