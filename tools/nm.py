"""Changes to try against named checks, each in a private copy: nm.py FILE.py [NAME…]

FILE.py defines M = {NAME: ([[file, old, new], …], "C01,C02")}; edits as in
refactor.py.  Says for each whether the tests pass and what the checks answer.
Nothing registered uses this.
"""
import concurrent.futures, importlib.util, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactor
refactor.WORK = "/tmp/nmw"


def go(name, es, checks):
    d = f"{refactor.WORK}/{name}"
    subprocess.run(f"mkdir -p {d}/repo {d}/verif && tar -C /repo --exclude=./target -cf - . | tar -C {d}/repo -xf - && "
                   f"tar -C /verif --exclude=./seeded --exclude=./.cache/dump -cf - . | tar -C {d}/verif -xf -",
                   shell=True, check=True)
    try:
        refactor.apply(d + "/repo", es)
        sh = f"""mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /repo &&
CARGO_TARGET_DIR={d}/t cargo test --workspace --all-features --offline -q > {d}/test.log 2>&1; echo tests $? > {d}/out
cd /verif; for c in {checks.replace(',', ' ')}; do timeout 900 ./check.sh $c > {d}/$c.log 2>&1; echo $c rc=$? und=$(grep -c UNDECIDED {d}/$c.log) >> {d}/out; done"""
        subprocess.run(["unshare", "-m", "sh", "-c", sh])
        print("==", name, open(d + "/out").read().replace("\n", " "), flush=True)
        for c in checks.split(","):
            print("\n".join(x[:260] for x in open(f"{d}/{c}.log").read().splitlines()
                            if "UNDECIDED" in x or not x.startswith("    "))[:500], flush=True)
        if "tests 0" not in open(d + "/out").read():
            print(open(d + "/test.log").read()[-700:])
    finally:
        subprocess.run(["rm", "-rf", d])


sp = importlib.util.spec_from_file_location("m", sys.argv[1])
m = importlib.util.module_from_spec(sp)
sp.loader.exec_module(m)
names = sys.argv[2:] or list(m.M)
with concurrent.futures.ThreadPoolExecutor(3) as ex:
    for f in [ex.submit(go, n, *m.M[n]) for n in names]:
        try:
            f.result()
        except BaseException as e:
            print("!!", e)
