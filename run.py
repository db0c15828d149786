#!/usr/bin/env python3
"""Check driver.

  run.py setup                      build everything
  run.py check C01 [quick|thorough] run one check (the tier also comes from VERIF_TIER)
  run.py replay FILE                run the case of a replay file again
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
RS = os.path.join(ROOT, "rs")
BUILD = os.path.join(ROOT, "build")
TARGET = os.path.join(BUILD, "target")
NSH = 32  # pieces of the enumeration
JOBS = 8  # of them at a time
PATIENCE = 200  # seconds a case gets when it is run alone

sys.path.insert(0, ROOT)
import props  # noqa: E402


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", RUSTC_WRAPPER="",
             CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never", HOME="/root",
             PYO3_PYTHON="/usr/bin/python3", RUST_BACKTRACE="0")
    e.pop("CARGO_BUILD_TARGET", None)
    e.pop("RUSTFLAGS", None)
    e.pop("RUST_LOG", None)
    return e


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def tree_hash():
    h = hashlib.sha256()
    files = []
    for d in ("src", "bindings/python/src"):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            files += [os.path.join(r, f) for f in fs]
    files += [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "bindings/python/Cargo.toml")]
    for f in sorted(files):
        try:
            with open(f, "rb") as fh:
                b = fh.read()
        except OSError:
            continue
        h.update(f.encode() + b"\0" + b + b"\0")
    return h.hexdigest()


DERIVED = ["tokengeex", "tgcli", "tokengeex-sched", "tgcli-sched"]


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def cargo(args, cwd, quiet=False, timeout=880):
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode and not quiet:
        print("\n".join(r.stdout.splitlines()[-60:]))
    return r


def stamp_check(name, pkgs, cwd):
    """Rebuild what comes from the repository when its content changed since the
    last build, whatever the file times say."""
    want = tree_hash()
    p = os.path.join(BUILD, "stamp-" + name)
    have = open(p).read() if os.path.exists(p) else None
    if have != want:
        if have is not None:
            a = ["clean", "--release", "--offline"]
            for k in pkgs:
                a += ["-p", k]
            cargo(a, cwd, quiet=True)
        if os.path.exists(p):
            os.remove(p)
    return p, want


# the parts of the command-line crate a harness uses: each can be left out
PARTS = {"vsched": ["gen", "merge", "prune", "mine", "task"], "vplain": ["gen", "merge", "prune", "mine", "task"], "vcli": ["filter", "patterns"],
         "vseq": ["nodes", "c10", "c11"]}


def build_rust(pkg, lib_only=False):
    """Build a harness; parts whose interface has changed are left out. When
    the command-line crate does not build at all, the harness is built without
    it if `lib_only` or if that is the last resort."""
    with Lock():
        p, want = stamp_check("rs-" + pkg, DERIVED, RS)
        every = PARTS.get(pkg, [])
        parts = list(every)
        while True:
            args = ["build", "--release", "--offline", "--locked", "-p", pkg]
            if parts != every:
                args += ["--no-default-features", "--features", ",".join(parts + ["plain"] * (pkg == "vplain"))]
            r = cargo(args, RS, quiet=True)
            if r.returncode == 0:
                break
            bad = set(re.findall(r"--> \S*/src/(?:api/)?(\w+)\.rs:", r.stdout)) & set(parts)
            if not bad and parts and re.search(r"could not compile `tgcli", r.stdout) and (lib_only or pkg != "vsched"):
                bad = set(parts) - {"task"}
            if not bad:
                print("\n".join(r.stdout.splitlines()[-60:]))
                return None
            print("note: %s is built without %s" % (pkg, ", ".join(sorted(bad))))
            parts = [x for x in parts if x not in bad]
        with open(p, "w") as f:
            f.write(want)
    return os.path.join(TARGET, "release", pkg)


def build_cli():
    """The real command-line program, as the repository builds it (release)."""
    t = os.path.join(BUILD, "repo-target")
    with Lock():
        p = os.path.join(BUILD, "stamp-cli")
        want = tree_hash()
        have = open(p).read() if os.path.exists(p) else None
        e = env()
        e["CARGO_TARGET_DIR"] = t
        if have not in (None, want):
            subprocess.run(["cargo", "clean", "--offline", "-p", "tokengeex", "--manifest-path", REPO + "/Cargo.toml"],
                           env=e, cwd=BUILD, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", REPO + "/Cargo.toml"],
                           env=e, cwd=BUILD, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print("\n".join(r.stdout.splitlines()[-40:]))
            return None
        with open(p, "w") as f:
            f.write(want)
    return os.path.join(t, "debug", "tokengeex")


def build_py():
    """The Python extension module; returns the directory to import it from."""
    t = os.path.join(BUILD, "py-target")
    with Lock():
        p = os.path.join(BUILD, "stamp-py")
        want = tree_hash()
        have = open(p).read() if os.path.exists(p) else None
        e = env()
        e["CARGO_TARGET_DIR"] = t
        mf = REPO + "/bindings/python/Cargo.toml"
        if have not in (None, want):
            for k in ("tokengeex", "tokengeex-python"):
                subprocess.run(["cargo", "clean", "--offline", "-p", k, "--manifest-path", mf],
                               env=e, cwd=BUILD, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline", "--features", "pyo3/extension-module", "--manifest-path", mf],
                           env=e, cwd=BUILD, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print("\n".join(r.stdout.splitlines()[-40:]))
            return None
        d = os.path.join(BUILD, "pymod")
        os.makedirs(d, exist_ok=True)
        so = glob.glob(os.path.join(t, "debug", "libtokengeex*.so"))
        if not so:
            print("no extension module built")
            return None
        shutil.copy(so[0], os.path.join(d, "tokengeex.so.tmp"))
        os.replace(os.path.join(d, "tokengeex.so.tmp"), os.path.join(d, "tokengeex.so"))
        with open(p, "w") as f:
            f.write(want)
    return d


def lines(out):
    for l in out.splitlines():
        if l.startswith("{"):
            try:
                yield json.loads(l)
            except ValueError:
                pass


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.p = pid, tier, props.PROPS[pid]
        self.base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=self.base)
        self.t0 = time.time()
        self.plain = False
        self.sub = ""
        self.missing = []
        self.patience = 0

    def commands(self):
        kinds = [self.p["kind"]] + self.p.get("also", [])
        cmds = [self.command(k) for k in kinds]
        if not any(cmds):
            die("the harness does not build against the current tree")
        for k, c in zip(kinds, cmds):
            if c is None:
                print("note: %s does not build against the current tree; exploring the rest" % k)
                self.missing.append("left out: %s, which does not build against the tree" % k)
        return cmds

    def command(self, k):
        needs = self.p.get("needs", []) + (["cli"] if k == "vreal" else [])
        if k in props.RUST:
            b = build_rust(k, self.pid == "C09")
            if b is None and k == "vsched":
                print("note: the tree does not build against the scheduler's std facade; running the same exploration without control of schedules")
                b = build_rust("vplain")
                self.plain = True
            if b is None:
                return None
            cmd = [b, self.pid]
        else:
            cmd = ["/usr/bin/python3", os.path.join(ROOT, "py", k + ".py"), self.pid]
        if self.p.get("aux"):
            aux = os.path.join(self.tmp, "aux")
            props.AUX[self.p["aux"]](aux)
            cmd += ["--aux", aux]
        if "cli" in needs:
            b = build_cli()
            if b is None:
                die("the command-line program does not build")
            cmd += ["--cli", b]
        if "py" in needs:
            b = build_py()
            if b is None:
                die("the Python extension does not build")
            cmd += ["--pymod", b]
        return cmd

    def opts(self):
        c = max(self.p.get("case_secs", 40), self.patience)
        d = self.p.get("deadline", 240) if self.tier == "quick" else self.p.get("deadline_thorough", 3000)
        # what earlier pieces of the same program used is gone
        d = max(10, int(d - (time.time() - getattr(self, "began", time.time()))))
        return ["--tier", self.tier, "--case-secs", str(c), "--deadline", str(d), "--rss-mb", str(self.p.get("rss_mb", 3000))]

    def start(self, cmd, i, n, extra=()):
        d = os.path.join(self.tmp, "%ss%d" % (self.sub, i))
        os.makedirs(d, exist_ok=True)
        full = cmd + ["--shard", "%d/%d" % (i, n), "--scratch", os.path.join(d, "scratch"), "--mark", os.path.join(d, "mark"),
                      "--states-out", os.path.join(d, "states")] + self.opts() + list(extra)
        out = open(os.path.join(d, "out"), "w+")
        err = open(os.path.join(d, "err"), "w+")
        e = dict(os.environ)
        e.pop("RUST_LOG", None)
        e["RUST_BACKTRACE"] = "0"
        pr = subprocess.Popen(full, stdout=out, stderr=err, cwd=d, env=e, start_new_session=True)
        return pr, d

    def collect(self, pr, d):
        rc = pr.wait()
        out = open(os.path.join(d, "out"), errors="replace").read()
        err = open(os.path.join(d, "err"), errors="replace").read()
        return rc, list(lines(out)), err

    def mark(self, d):
        try:
            return int.from_bytes(open(os.path.join(d, "mark"), "rb").read(8), "little")
        except OSError:
            return None

    def one(self, cmd, case, describe=False, tag="x"):
        pr, d = self.start(cmd, 100 + hash(tag) % 7, 1, ["--only", str(case)] + (["--describe"] if describe else []))
        return self.collect(pr, d) + (d,)

    def describe(self, cmd, case):
        rc, ls, _, _ = self.one(cmd, case, True)
        for l in ls:
            if l.get("t") == "desc":
                return l["desc"]
        return "case %s" % case

    def confirm(self, cmd, case):
        """Run the case alone, with more patience. Returns a message when it fails again, else None."""
        was, self.patience = self.patience, PATIENCE
        rc, ls, err, d = self.one(cmd, case)
        self.patience = was
        for l in ls:
            if l.get("t") == "viol":
                return l["msg"]
            if l.get("t") == "hang":
                return l["msg"]
        if rc < 0:
            return "the program was killed by signal %d (%s)" % (-rc, signal.Signals(-rc).name)
        if rc not in (0,) or not any(l.get("t") == "end" for l in ls):
            return "the program ended with exit code %d: %s" % (rc, err.strip()[-500:])
        return None

    def shards(self, cmd, ids, n):
        stop = threading.Event()
        def go(i):
            if stop.is_set():
                return (i, None, None, [], "")
            pr, d = self.start(cmd, i, n)
            r = self.collect(pr, d)
            if r[0] != 0:
                # hung or killed: look at that before going on
                stop.set()
            return (i, d) + r
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            return list(ex.map(go, ids))

    def explore(self, k, cmd):
        """All shards of one program of this check."""
        n = self.p.get("shards", NSH)
        res, viol, errors = self.res, self.viol, self.errors
        self.sub = "p%d-" % k
        self.began = time.time()
        todo = list(range(n))
        before, late, tried = set(), [], set()
        t0 = time.time()
        while todo:
            again, rest = [], []
            impatient = not self.patience
            for i, d, rc, ls, err in self.shards(cmd, todo, n):
                if d is None:
                    rest.append(i)
                    continue
                if len(viol) >= 3 or viol and time.time() - t0 > 60:
                    # enough is known
                    continue
                ended = any(l.get("t") == "end" for l in ls)
                hang = next((l for l in ls if l.get("t") == "hang"), None)
                if rc == 0 and ended:
                    res[(k, i)] = ls
                    bad = False
                    for l in ls:
                        if l.get("t") == "viol" and len(viol) < 3:
                            m = self.confirm(cmd, l["case"]) if l["desc"] != "whole run" else l["msg"]
                            if m:
                                viol.append(((k, l["case"]), l["desc"], m))
                            elif (l["case"], l["msg"]) in before:
                                # the same failure in both runs of the shard: state left by earlier cases
                                viol.append(((k, l["case"]), l["desc"] + " (after the earlier cases of shard %d/%d)" % (i, n), l["msg"]))
                            else:
                                before.add((l["case"], l["msg"]))
                                bad = True
                                print("note: case %s failed once but not when run again alone: %s" % (l["case"], l["msg"][:300]))
                    if bad and i not in tried and not viol:
                        tried.add(i)
                        again.append(i)
                    elif bad and not viol:
                        errors.append("shard %d: a case fails only in the company of others" % i)
                    continue
                case = hang["case"] if hang else self.mark(d)
                if case is None:
                    errors.append("shard %d ended with %d before any case: %s" % (i, rc, err[-800:]))
                    continue
                if hang and impatient and self.patience:
                    # to be run again with the patience another slow case asked for
                    again.append(i)
                    continue
                if hang and self.patience and self.tier == "quick" and time.time() - self.t0 > 800 - PATIENCE:
                    # a slow tree on a slow machine: no verdict on this case
                    self.missing.append("case %s took too long" % case)
                    continue
                m = self.confirm(cmd, case)
                if m:
                    viol.append(((k, case), self.describe(cmd, case), m))
                elif hang and not self.patience:
                    # slow, not hung: everything gets that much time from here on
                    print("note: case %s is slow" % case)
                    self.patience = PATIENCE
                    self.began += time.time() - t0
                    again.append(i)
                elif i not in tried:
                    tried.add(i)
                    again.append(i)
                else:
                    errors.append("shard %d: case %d %s, not reproduced alone. %s" % (i, case, hang and hang["msg"] or "ended with %d" % rc, err[-400:]))
            if viol:
                break
            # a shard that failed once is run again last, and once only
            todo, late = (rest, late + again) if rest else (late + again, [])

    def main(self):
        cmds = self.commands()
        self.res, self.viol, self.errors = {}, [], []
        for k, cmd in enumerate(cmds):
            if cmd is None:
                continue
            self.explore(k, cmd)
            if self.viol:
                break
        res, viol, errors = self.res, self.viol, self.errors
        ends = [l for ls in res.values() for l in ls if l.get("t") == "end"]
        known = {}
        for ls in res.values():
            for l in ls:
                if l.get("t") == "known":
                    known[l["id"]] = l["what"]
        states = 0
        if ends:
            if self.p["kind"] in props.RUST:
                fs = glob.glob(os.path.join(self.tmp, "*s[0-9]*", "states"))
                states = int(subprocess.run([next(c for c in cmds if c)[0], "--count-states"] + fs, stdout=subprocess.PIPE, text=True).stdout or 0)
            else:
                s = set()
                for f in glob.glob(os.path.join(self.tmp, "*s[0-9]*", "states")):
                    s.update(open(f).read().split())
                states = len(s)
        extra = {}
        for e in ends:
            for k, v in e["extra"].items():
                extra[k] = max(extra.get(k, 0), v) if k.startswith("max_") else extra.get(k, 0) + v
        caps = sorted({re.sub(r"at case \d+", "at some case", c) for e in ends for c in e["caps"]})
        samples = [s for e in ends for s in e["samples"]][:5]
        ran = sum(e["extra"].get("cases", 0) for e in ends)
        total = sum(max([l["cases_total"] for (j, _), ls in res.items() for l in ls if j == k and l.get("t") == "end"] or [0]) for k in range(len(cmds)))
        cov = {
            "states": states,
            "transitions": sum(e["trans"] for e in ends),
            "traces_validated_against_impl": sum(e["traces"] for e in ends),
            "samples": samples or ["(no case completed)"],
            "cases_enumerated": total,
            "cases_run": ran,
            "exhaustive": bool(ends) and not caps and not self.missing and not self.plain and not viol and not errors and ran == total,
            "bounds": self.p["bounds"],
            "caps_hit": caps + self.missing + (["schedules not controlled: the tree does not build against the std facade"] if self.plain else []),
        }
        for k, v in extra.items():
            if k != "cases":
                cov[k] = v
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": "model_checking", "coverage": cov, "assumptions": self.p["assumptions"],
              "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        shutil.rmtree(self.tmp, ignore_errors=True)
        print("%s (%s): %d cases, %d states, %d transitions, %d executions compared, %.1f s" % (
            self.pid, self.tier, ran, states, cov["transitions"], cov["traces_validated_against_impl"], time.time() - self.t0))
        for c in caps:
            print("cap: " + c)
        listed = known_findings()
        for k in sorted(known):
            if (self.pid, k) in listed:
                print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, k, known[k][:300]))
            else:
                viol.append((None, "finding " + k, known[k]))
        if viol:
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            for case, desc, msg in viol[:3]:
                name = "%s-%s.json" % (self.pid, hashlib.sha256((desc + msg).encode()).hexdigest()[:10])
                p = os.path.join(ROOT, "replays", name)
                with open(p, "w") as f:
                    json.dump({"property": self.pid, "tier": self.tier, "program": case[0] if case else None, "case": case[1] if case else None, "description": desc, "message": msg,
                               "how": "python3 run.py replay " + p}, f, indent=1, ensure_ascii=False)
                print("case: " + desc[:1500])
                print("what: " + msg[:1500])
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            sys.exit(1)
        if errors:
            die("; ".join(errors))
        sys.exit(0)


def known_findings():
    out = set()
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"open: property=(\S+) id=(\S+)", l)
            if m:
                out.add((m.group(1), m.group(2)))
    return out


def setup():
    ok = True
    for k in sorted({k for p in props.PROPS.values() for k in [p["kind"]] + p.get("also", [])}):
        if k in props.RUST:
            ok &= build_rust(k) is not None
        if k == "vsched":
            ok &= build_rust("vplain") is not None
    needs = {x for p in props.PROPS.values() for x in p.get("needs", [])}
    if "cli" in needs:
        ok &= build_cli() is not None
    if "py" in needs:
        ok &= build_py() is not None
    sys.exit(0 if ok else 2)


def replay(path):
    r = json.load(open(path))
    run = Run(r["property"], r["tier"])
    cmd = run.commands()[r.get("program") or 0]
    print(run.describe(cmd, r["case"]))
    m = run.confirm(cmd, r["case"])
    shutil.rmtree(run.tmp, ignore_errors=True)
    print("what: %s" % m if m else "the case passes now")
    sys.exit(1 if m else 0)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        setup()
    elif a[:1] == ["replay"]:
        replay(a[1])
    elif a[:1] == ["check"] and a[1] in props.PROPS:
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        Run(a[1], tier).main()
    else:
        print(__doc__)
        sys.exit(2)
