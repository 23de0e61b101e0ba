"""Systematic mutants of the daemon, against its checks (there are no tests of it).

usage: mutate_c.py OUT.jsonl [--jobs N] [--list]
"""
import argparse
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/daemon/usbhid.c"
ORDER = ["D03", "D02", "D06", "D05", "D04", "D01"]


def mutants():
    lines = open(SRC).read().split("\n")
    out = []

    def add(n, kind, new):
        if new != lines[n]:
            out.append((n, kind, lines[n], "\n".join(lines[:n] + [new] + lines[n + 1:])))

    for n, l in enumerate(lines):
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\0" * len(m.group()), l)
        code = re.sub(r"/\*.*?\*/|//.*", lambda m: "\0" * len(m.group()), code)
        if l.startswith("#include") or not code.strip("\0 \t{}"):
            continue
        for m in re.finditer(r"\b\d+\b", code):
            v = int(m.group())
            for w in sorted({v + 1, v - 1, v * 2, 0} - {v}):
                add(n, "const", l[: m.start()] + str(w) + l[m.end():])
        for a, bs in (("<=", ["<"]), (">=", [">"]), ("==", ["!="]), ("!=", ["=="]), ("&&", ["||"]), ("||", ["&&"])):
            for m in re.finditer(re.escape(a), code):
                for b in bs:
                    add(n, "op", l[: m.start()] + b + l[m.end():])
        for m in re.finditer(r"(?<![<>=!\-])([<>])(?![<>=])", code):
            if "#" in code:
                continue
            for b in ("<=", ">=", "=="):
                add(n, "op", l[: m.start()] + b + l[m.end():])
        for m in re.finditer(r" ([+\-*/%]) ", code):
            for b in "+-*":
                add(n, "arith", l[: m.start(1)] + b + l[m.end(1):])
        for m in re.finditer(r"\+\+", code):
            add(n, "inc", l[: m.start()] + "--" + l[m.end():])
            add(n, "inc", l[: m.start()] + "" + l[m.end():])
        for a, b in (("KNXHIDPACKETLEN", "(KNXHIDPACKETLEN - 1)"), ("KNXHIDPACKETLEN", "(KNXHIDPACKETLEN + 1)"),
                     ("KNXHIDPACKETLEN", "64"), ("MAX_CLIENTS", "(MAX_CLIENTS - 1)"), ("MAX_CLIENTS", "(MAX_CLIENTS + 1)"),
                     ("MAXMSG", "(MAXMSG - 1)"), ("MAXMSG", "(MAXMSG + 1)"), ("FD_SETSIZE", "64"), ("FD_SETSIZE", "sock + 1"),
                     ("O_RDWR", "O_RDONLY"), ("O_RDWR", "O_WRONLY"), ("EXIT_FAILURE", "EXIT_SUCCESS"),
                     ("INADDR_ANY", "INADDR_LOOPBACK"), ("SO_REUSEADDR", "SO_REUSEPORT"), ("SIG_IGN", "SIG_DFL"),
                     ("htons", ""), ("htonl", ""), ("MSG_DONTWAIT", "0"), ("SHUT_RDWR", "SHUT_RD"), ("SHUT_RDWR", "SHUT_WR"),
                     ("unsigned char", "char"), ("(unsigned char)", ""), ("FD_CLR", "FD_SET"), ("%02x", "%2x"), ("%02x", "%x"), ("%02x", "%02X"),
                     ("%2hhx", "%hhx"), ("%2hhx", "%1hhx"), ("%2hhx", "%2x"), ("break", "continue"), ("exit", "(void)"), ("isxdigit", "isalnum"),
                     ("read_fd_set", "active_fd_set"), ("new_client", "sock")):
            for m in re.finditer(re.escape(a), l):
                add(n, "name", l[: m.start()] + b + l[m.end():])
        s = code.strip()
        if s.endswith(";") and not re.match(r"(int|char|struct|static|unsigned|size_t|fd_set|socklen_t|void|return|extern)\b", s) and "(" in s.split("=")[0] or re.match(r"\w[\w\[\]\.>-]* = .*;$", s):
            add(n, "delete", re.match(r"\s*", l).group() + ";")
        for m in re.finditer(r"\bif \((.*)\)(?= ?\{?$)", l):
            for b in ("0", "1"):
                add(n, "if", l[: m.start(1)] + b + l[m.end(1):])
    return out


def work(job):
    i, (n, kind, old, src) = job
    root = "/tmp/mutc/w%s" % mp.current_process().name.split("-")[-1]
    if not os.path.exists(root):
        shutil.copytree("/repo", root, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    f = root + "/daemon/usbhid.c"
    open(f, "w").write(src)
    r = {"n": i, "line": n + 1, "kind": kind, "old": old.strip(), "new": src.split("\n")[n].strip()}
    exe = root + "/mutant"
    if subprocess.run(["cc", "-w", "-O1", "-o", exe, f], stderr=subprocess.DEVNULL).returncode:
        return dict(r, verdict="build")
    same = []
    for path in (SRC, f):
        x = subprocess.run(["cc", "-w", "-O1", "-S", "-o", "-", path], stdout=subprocess.PIPE).stdout
        same.append(re.sub(rb"\t\.file.*", b"", x))
    if same[0] == same[1]:
        return dict(r, verdict="equal")
    t, noans = time.time(), []
    for p in ORDER:
        try:
            x = subprocess.run([VERIF + "/check", p], cwd=VERIF, env=dict(os.environ, VERIF_REPO=root, VERIF_SEED="1", VERIF_TIER="quick"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            code, text = x.returncode, x.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            code, text = -1, "timeout"
        if code == 1 and "VIOLATION" in text:
            return dict(r, verdict="caught", by=p, noans=noans, secs=round(time.time() - t))
        if code:
            noans.append((p, code, text[-300:]))
    return dict(r, verdict="noanswer" if noans else "alive", noans=noans, secs=round(time.time() - t))


def main():
    p = argparse.ArgumentParser()
    p.add_argument("out")
    p.add_argument("--jobs", type=int, default=4)
    p.add_argument("--list", action="store_true")
    a = p.parse_args()
    jobs = list(enumerate(mutants()))
    done = set()
    if os.path.exists(a.out):
        done = {(r["line"], r["new"]) for r in map(json.loads, open(a.out))}
    jobs = [j for j in jobs if (j[1][0] + 1, j[1][3].split("\n")[j[1][0]].strip()) not in done]
    print(len(jobs), "mutants")
    if a.list:
        return
    with mp.Pool(a.jobs) as pool, open(a.out, "a") as h:
        for r in pool.imap_unordered(work, jobs, chunksize=1):
            h.write(json.dumps(r) + "\n")
            h.flush()


if __name__ == "__main__":
    main()
