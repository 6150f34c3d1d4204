"""Mutation campaign: mutate.py OUT.json [FILE…]

Makes small syntactic changes to every line of /repo's non-test source, one at
a time, in private copies (a mount namespace per worker shows the copies as
/repo and /verif), runs the checks nearest to the file first and then the
others, and writes down which check reports each change.  What survives is
read by hand: an equivalent change, or a gap.  Nothing registered uses this.
"""
import json, os, random, re, shutil, subprocess, sys, time

WORK = "/tmp/mw"
N = int(os.environ.get("MUT_WORKERS", "7"))
FIRST = {
    "src/ast.rs": "C03 C05 C06 C04 C01 C02",
    "src/input.rs": "C11 C10 C09 C01",
    "src/lexer.rs": "C12 C13 C09 C11 C05",
    "src/reader.rs": "C10 C09 C11",
    "src/lib.rs": "C08 C25",
    "src/span.rs": "C07 C08 C28 C06 C27",
    "src/parse.rs": "C03 C04 C01 C05",
    "src/token.rs": "C02 C01 C05 C26 C20",
    "laps_macros/src/spanned.rs": "C14 C06 C24 C25",
    "laps_macros/src/tokenize.rs": "C15 C16 C24 C25",
    "laps_macros/src/token_kind.rs": "C19 C26 C24 C25",
    "laps_macros/src/token_ast.rs": "C18 C26 C24 C25",
    "laps_macros/src/parse.rs": "C14 C24 C25",
    "laps_macros/src/utils.rs": "C19 C24 C14 C18 C25",
    "laps_macros/src/lib.rs": "C14 C18 C19 C25",
    "laps_regex/src/re.rs": "C23 C30 C24",
    "laps_regex/src/lib.rs": "C23",
    "laps_regex/src/nfa.rs": "C21 C22 C16",
    "laps_regex/src/fa.rs": "C22 C21 C16 C17 C29",
    "laps_regex/src/dfa.rs": "C16 C17 C29",
    "laps_regex/src/mir.rs": "C30 C20 C24 C16",
    "laps_regex/src/table.rs": "C16 C23 C29",
}
ALL = ["C%02d" % i for i in range(1, 31)]
RULES = [
    (r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= ", " > "]), (r" <= ", [" < "]),
    (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", [""]), (r" \+ (?!1\b)", [" - "]), (r" - (?!1\b)", [" + "]),
    (r" \* ", [" + "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]),
    (r"(?<![\w'\"\\.])(\d+)(?![\w'\".])", ["+1"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<![\w!=#])!(?=[a-z(*])", [""]),
    (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
    (r"\bpush_back\(", ["push_front("]), (r"\bpush_front\(", ["push_back("]),
    (r"\bpop_front\(", ["pop_back("]), (r"\bpop_back\(", ["pop_front("]),
    (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]),
    (r"\.is_ok\(\)", [".is_err()"]), (r"\.is_err\(\)", [".is_ok()"]),
    (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
    (r"\.iter\(\)", [".iter().rev()", ".iter().skip(1)", ".iter().take(1)"]),
    (r"\.into_iter\(\)", [".into_iter().rev()", ".into_iter().skip(1)"]),
    (r"\.chars\(\)", [".chars().rev()", ".chars().skip(1)"]),
    (r"\.skip\((\w+)\)", [""]),
    (r"\.\.=", [".."]), (r"(?<=\w)\.\.(?=\w)", ["..="]),
    (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;", ""]),
    (r"\bstart\b", ["end"]), (r"\bend\b", ["start"]), (r"\bline\b", ["col"]), (r"\bcol\b", ["line"]),
    (r"\bl\b", ["h"]), (r"\bh\b", ["l"]),
    (r"\bwarning", ["error"]), (r"\berror(?=s?_num)", ["warning"]),
    (r"\bif (?!let )([^{]+) \{", ["if true {", "if false {"]),
    (r"\bSome\(\w+\)", ["None"]), (r"\(&?(\w+), &?(\w+)\)", ["SWAP"]),
    (r"(?<![\w.])(\w+)\.update_span\([^;]*;", [""]),
    (r"\.clone\(\)\?", [".clone()"]), (r"\?;$", [".ok();"]),
    (r"\bor_default\(\)", ["or_default().clone()"]),
    (r"\.extend\(", [".push("]), (r"\.insert\(", [".remove("]),
    (r"\bunion\b", ["difference"]), (r"\.pop\(\)", [".first()"]), (r"\.filter\(\|", [".skip_while(|"]),
    (r"saturating_add\(", ["saturating_sub("]), (r"\bu8\b", ["i8"]),
    (r"\.next\(\)", [".last()"]), (r"\.peek\(\)", [".next()"]), (r"\bpeek\b", ["next_token"]),
    (r"\bnext_token\b", ["peek"]), (r"\bErr\(", ["Ok("]), (r"\bOk\(false\)", ["Ok(true)"]),
    (r"\.unwrap_or\(\w+\)", [".unwrap()"]), (r"\bis_ascii_hexdigit\b", ["is_ascii_digit"]),
    (r"\.len\(\)", [".len().saturating_sub(1)", ".len() + 1"]),
    (r" as u8\b", [" as i8 as u8"]), (r"\.map\(", [".filter_map("]), (r"\.and_then\(", [".map("]),
    (r"\bbuild\b", ["build_ignored"]),
]


def code_part(text):
    """the text up to the test module, comments and doc lines blanked out"""
    m = re.search(r"^#\[cfg\(test\)\]", text, re.M)
    return text[: m.start()] if m else text


def mutants(f):
    text = open("/repo/" + f).read()
    code = code_part(text)
    out = []
    pos = 0
    for ln, line in enumerate(code.splitlines(True), 1):
        s = line.strip()
        if s and not s.startswith("//") and not s.startswith("use ") and not s.startswith("#!["):
            body = line.rstrip("\n")
            cut = body.find(" // ")
            scope = body if cut < 0 else body[:cut]
            for pat, reps in RULES:
                for m in re.finditer(pat, scope):
                    for rep in reps:
                        if rep == "+1":
                            r = str(int(m.group(1)) + 1)
                        elif rep == "SWAP":
                            g0 = m.group(0)
                            a, b = g0[1:-1].split(", ")
                            if a == b or scope[: m.start()].rstrip().endswith("fn"):
                                continue
                            r = f"({b}, {a})"
                        else:
                            r = rep
                        new = scope[: m.start()] + r + body[m.end():]
                        if new != body:
                            out.append((f, ln, pos, body, new))
            if s.endswith(";") and not re.match(r"(let|use|pub|type|const|static|return|mod|fn|extern)\b", s) and \
                    s.count("(") == s.count(")") and s.count("{") == s.count("}") and not s.startswith((".", "}", ")")):
                out.append((f, ln, pos, body, body[: len(body) - len(body.lstrip())]))
            m = re.match(r"\s*return\b.*;$", scope)
            if m:
                out.append((f, ln, pos, body, ""))
            if re.match(r"\s*[^=]+ => .*,$", scope) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
                out.append((f, ln, pos, body, ""))
            if re.match(r"\s*\.\w+\(.*\)$", scope) and s.count("(") == s.count(")"):
                out.append((f, ln, pos, body, ""))
        pos += len(line)
    seen, uniq = set(), []
    for x in out:
        if (x[1], x[4]) not in seen:
            seen.add((x[1], x[4]))
            uniq.append(x)
    return uniq


def sh(cmd, timeout=900):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "timeout"


def worker(k, jobs, out):
    """inside the namespace: /repo and /verif are this worker's copies"""
    todo = json.load(open(jobs))
    for i, (f, ln, pos, old, new) in todo:
        if i % N != k:
            continue
        p = "/repo/" + f
        text = open(p).read()
        assert text[pos: pos + len(old)] == old, (f, ln)
        rec = {"i": i, "file": f, "line": ln, "old": old.strip(), "new": new.strip()}
        with open(p, "w") as h:
            h.write(text[:pos] + new + text[pos + len(old):])
        t0 = time.time()
        try:
            rc, o = sh("cd /repo && CARGO_TARGET_DIR=/tmp/mw/%d/t cargo check --workspace --all-features --offline -q" % k)
            if rc:
                rec["result"] = "no build"
            else:
                first = FIRST[f].split()
                order = first + ([c for c in ALL if c not in first] if os.environ.get("MUT_ALL", "1") == "1" else [])
                rec["result"] = "survived"
                rec["und"] = []
                for c in order:
                    rc, o = sh("cd /verif && ./check.sh " + c, 600)
                    if rc == 1 and "VIOLATION property=" + c in o:
                        rec["result"] = c
                        rec["why"] = [x[:200] for x in o.splitlines() if x.startswith("  ") or "VIOLATION" in x][:3]
                        break
                    if rc != 0:
                        rec["und"].append(c + " rc=%d " % rc + o[-300:])
                    elif "UNDECIDED" in o:
                        rec["und"].append(c)
                if rec["result"] == "survived":
                    rc, o = sh("cd /repo && CARGO_TARGET_DIR=/tmp/mw/%d/t cargo test --workspace --all-features --offline -q" % k)
                    rec["tests"] = "pass" if rc == 0 else "fail"
        finally:
            with open(p, "w") as h:
                h.write(text)
        rec["s"] = round(time.time() - t0)
        with open(out, "a") as h:
            h.write(json.dumps(rec) + "\n")


def main():
    out = os.path.realpath(sys.argv[1])
    files = sys.argv[2:] or list(FIRST)
    todo = [x for f in files for x in mutants(f)]
    frac = float(os.environ.get("MUT_FRACTION", "1"))
    rnd = random.Random(int(os.environ.get("MUT_SEED", "1")))
    if frac < 1:
        todo = [x for x in todo if rnd.random() < frac]
    rnd.shuffle(todo)
    done = set()
    if os.path.exists(out):
        for line in open(out):
            r = json.loads(line)
            done.add((r["file"], r["line"], r["new"]))
    todo = [x for x in todo if (x[0], x[1], x[4].strip()) not in done]
    print(len(todo), "changes", flush=True)
    if os.environ.get("MUT_LIST"):
        for x in todo:
            print(x[0], x[1], x[4].strip())
        return
    os.makedirs(WORK, exist_ok=True)
    jobs = os.path.join(WORK, "jobs.json")
    json.dump(list(enumerate(todo)), open(jobs, "w"))
    ps = []
    for k in range(N):
        d = f"{WORK}/{k}"
        os.makedirs(d, exist_ok=True)
        subprocess.run(f"rsync -a --delete --exclude target /repo/ {d}/repo/ && rsync -a --delete --exclude seeded --exclude '.cache/dump' /verif/ {d}/verif/",
                       shell=True, check=True) if shutil.which("rsync") else subprocess.run(
            f"mkdir -p {d}/repo {d}/verif && tar -C /repo --exclude=./target -cf - . | tar -C {d}/repo -xf - && "
            f"tar -C /verif --exclude=./seeded --exclude=./.cache/dump -cf - . | tar -C {d}/verif -xf -", shell=True, check=True)
        ps.append(subprocess.Popen(
            ["unshare", "-m", "sh", "-c",
             f"mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && exec python3 /verif/tools/mutate.py --worker {k} {jobs} {out}.{k}"]))
    for p in ps:
        p.wait()
    with open(out, "a") as h:
        for k in range(N):
            if os.path.exists(f"{out}.{k}"):
                h.write(open(f"{out}.{k}").read())
                os.remove(f"{out}.{k}")


if sys.argv[1] == "--worker":
    worker(int(sys.argv[2]), sys.argv[3], sys.argv[4])
else:
    main()
