"""Whole programs against laps, type-checked by the stable compiler in every feature combination."""
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import tempfile

from .common import BUILD_SECONDS, CACHE, CheckError, WITNESS, run

COMBOS = {"no features": "w_f0", "logger": "w_f1", "macros": "w_f2", "logger and macros": "w_f3"}
TARGET = os.path.join(CACHE, "s")


def fresh():
    """makes cargo look at the crates under analysis again, whatever the times of their files say"""
    for name in ("laps", "laps_macros", "laps_regex"):
        for kind in (".fingerprint", "build"):
            for p in glob.glob(os.path.join(TARGET, "debug", kind, name + "-*")):
                shutil.rmtree(p, ignore_errors=True)


def build(witness):
    """(compiler arguments to use laps, None) or (None, what the compiler says)"""
    r = run(["cargo", "check", "--offline", "-q", "-p", witness, "--message-format=json"],
            {"CARGO_TARGET_DIR": TARGET}, WITNESS, BUILD_SECONDS)
    ext, said = [], []
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "laps":
            f = [x for x in m["filenames"] if x.endswith(".rmeta")]
            if f:
                ext = ["--extern", "laps=" + f[0]]
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            said.append(m["message"])
    if r.returncode != 0:
        return None, said or [{"message": r.stderr[-2000:], "spans": []}]
    if not ext:
        raise CheckError("no compiled laps found")
    return ext + ["-L", "dependency=" + os.path.join(TARGET, "debug", "deps")], None


def where(m):
    for s in m.get("spans", ()):
        if s.get("is_primary"):
            return f"{s['file_name']}:{s['line_start']}"
    return "?"


def errors(ext, source, edition="2021"):
    """the errors the compiler reports for a program"""
    d = tempfile.mkdtemp(prefix="laps-prog")
    try:
        f = os.path.join(d, "program.rs")
        with open(f, "w") as h:
            h.write(source)
        p = subprocess.run(["rustc", "--edition", edition, "--crate-type", "lib", "--emit", "metadata", "--crate-name",
                            "program", "--error-format=json", "-Awarnings", "-o", os.path.join(d, "out.rmeta"), f] + ext,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, cwd=d)
        out = []
        for line in p.stderr.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("level") in ("error", "failure-note") and not m["message"].startswith("aborting due"):
                out.append(m)
        if p.returncode != 0 and not out:
            out.append({"message": p.stderr[-1000:], "spans": []})
        return out if p.returncode != 0 else []
    finally:
        shutil.rmtree(d, ignore_errors=True)


def errors_of(ext, programs, edition="2021"):
    """errors of each of many programs"""
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: errors(ext, s, edition), programs))
