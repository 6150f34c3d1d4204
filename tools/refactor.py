"""Edits that keep the behaviour: refactor.py NAME… [-c C01,C02]

Applies tools/refactors/NAME.py (EDITS: [file, old, new]; "@k@old" is the k-th
occurrence from 1) to a private copy of /repo, builds, runs the tests and every
check there, and says which were not quiet.  Nothing registered uses this.
"""
import concurrent.futures, importlib.util, os, subprocess, sys, time

WORK = "/tmp/rfw"
HERE = os.path.dirname(os.path.abspath(__file__))
ALL = ["C%02d" % i for i in range(1, 33) if os.path.exists(os.path.join(HERE, "../lapscheck/checks/c%02d.py" % i))]


def edits(name):
    sp = importlib.util.spec_from_file_location(name, os.path.join(HERE, "refactors", name + ".py"))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m.EDITS


def apply(root, es):
    for f, old, new in es:
        p = os.path.join(root, f)
        s = open(p).read()
        k = 1
        if old.startswith("@"):
            n, old = old[1:].split("@", 1)
            k = int(n)
        elif s.count(old) != 1:
            raise SystemExit(f"{f}: {s.count(old)} occurrences of {old[:80]!r}")
        i = -1
        for _ in range(k):
            i = s.index(old, i + 1)
        s = s[:i] + new + s[i + len(old):]
        open(p, "w").write(s)


def go(name, checks):
    d = f"{WORK}/{name}"
    os.makedirs(d, exist_ok=True)
    subprocess.run(f"mkdir -p {d}/repo {d}/verif && tar -C /repo --exclude=./target -cf - . | tar -C {d}/repo -xf - && "
                   f"tar -C /verif --exclude=./seeded --exclude=./.cache/dump -cf - . | tar -C {d}/verif -xf -",
                   shell=True, check=True)
    try:
        apply(d + "/repo", edits(name))
        sh = f"""mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /repo &&
CARGO_TARGET_DIR={d}/t cargo test --workspace --all-features --offline -q > {d}/test.log 2>&1; r=$?; echo tests $r > {d}/out; [ $r = 0 ] || exit
cd /verif; for c in {' '.join(checks)}; do timeout 900 ./check.sh $c > {d}/$c.log 2>&1; echo $c $? $(grep -c UNDECIDED {d}/$c.log) >> {d}/out; done"""
        subprocess.run(["unshare", "-m", "sh", "-c", sh])
        res = open(d + "/out").read().split("\n")
        bad = [r for r in res if r and not r.endswith(" 0 0") and r != "tests 0"]
        print(name, "quiet" if not bad else bad, flush=True)
        for r in bad:
            c = r.split()[0]
            if c == "tests":
                print(open(d + "/test.log").read()[-1500:])
            else:
                print("\n".join(x[:300] for x in open(f"{d}/{c}.log").read().splitlines()
                                if "UNDECIDED" in x or not x.startswith("    "))[:1500], flush=True)
    finally:
        subprocess.run(["rm", "-rf", d])


if __name__ == "__main__":
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    checks = ALL
    if "-c" in sys.argv:
        checks = sys.argv[sys.argv.index("-c") + 1].split(",")
        names.remove(",".join(checks))
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(go, n, checks) for n in names]:
            f.result()
