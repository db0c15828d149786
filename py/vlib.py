"""Common parts of the Python drivers: enumeration of cases, sharding, reporting."""
import argparse, hashlib, json, os, resource, shutil, subprocess, sys, threading, time


class Fail(Exception):
    """The property does not hold in the current case."""


class Driver:
    def __init__(self):
        a = argparse.ArgumentParser()
        a.add_argument("pid")
        for o in ("aux", "cli", "pymod", "scratch", "mark", "states-out"):
            a.add_argument("--" + o)
        a.add_argument("--shard", default="0/1")
        a.add_argument("--tier", default="quick")
        a.add_argument("--case-secs", type=float, default=40)
        a.add_argument("--deadline", type=float, default=240)
        a.add_argument("--rss-mb", type=int, default=3000)
        a.add_argument("--only", type=int)
        a.add_argument("--describe", action="store_true")
        self.a = a.parse_args()
        self.pid, self.cli, self.pymod = self.a.pid, self.a.cli, self.a.pymod
        self.thorough = self.a.tier == "thorough"
        self.shard, self.nshards = map(int, self.a.shard.split("/"))
        self.dir = self.a.scratch
        self.t0 = time.time()
        self.i = 0
        self.ran = self.viols = self.traces = self.trans = 0
        self.states = set()
        self.extra, self.caps, self.samples = {}, [], []
        self.stopped = False
        self.threads = 2
        self.started = None
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            os.makedirs(self.dir)
        self.markf = open(self.a.mark, "wb", buffering=0) if self.a.mark else None
        threading.Thread(target=self._watch, daemon=True).start()

    def out(self, **k):
        sys.stdout.write(json.dumps(k) + "\n")
        sys.stdout.flush()

    def _watch(self):
        while True:
            time.sleep(0.5)
            s = self.started
            if s and time.time() - s[1] > self.a.case_secs:
                self.out(t="hang", case=s[0], msg="the case did not finish within %g s" % self.a.case_secs)
                os._exit(3)

    def state(self, *parts):
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            h.update(p if isinstance(p, bytes) else repr(p).encode("utf-8", "surrogatepass"))
            h.update(b"\x00")
        self.states.add(h.hexdigest())

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def mine(self, i):
        return i == self.a.only if self.a.only is not None else i % self.nshards == self.shard

    def case(self, desc, fn, *args):
        """Run one case; desc is a string or a function giving one."""
        i = self.i
        self.i += 1
        if self.stopped or not self.mine(i):
            return
        text = lambda: desc() if callable(desc) else desc
        if self.a.describe:
            self.out(t="desc", case=i, desc=text())
            return
        if self.a.only is None and time.time() - self.t0 > self.a.deadline:
            self.caps.append("time budget of %g s used up at case %d" % (self.a.deadline, i))
            self.stopped = True
            return
        if self.markf:
            self.markf.seek(0)
            self.markf.write(i.to_bytes(8, "little"))
        self.started = (i, time.time())
        self.threads = (2, 1, 8, 3)[(i // 8) % 4]
        try:
            fn(*args)
            if len(self.samples) < 2 and self.ran % 50 == 3:
                self.samples.append(text())
        except Fail as e:
            self.viols += 1
            self.out(t="viol", case=i, key=str(e)[:80], desc=text(), msg=str(e))
            if self.viols >= 3:
                self.stopped = True
        finally:
            self.started = None
            self.ran += 1

    def end(self):
        if self.a.states_out:
            with open(self.a.states_out, "w") as f:
                f.write("\n".join(sorted(self.states)) + "\n")
        self.extra["cases"] = self.ran
        self.out(t="end", cases_total=self.i, traces=self.traces, trans=self.trans, states=len(self.states), states_capped=False,
                 extra=self.extra, caps=self.caps, samples=self.samples, wall=time.time() - self.t0)
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
        sys.stdout.flush()
        os._exit(0)

    # --- the command-line program ---
    def run(self, *args, secs=60):
        """Run the program; returns (exit code, standard error). A signal or an endless run is a failure."""
        self.trans += 1
        e = {"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0", "RAYON_NUM_THREADS": str(self.threads)}
        try:
            r = subprocess.run([self.cli] + [str(a) for a in args], cwd=self.dir, env=e, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=secs)
        except subprocess.TimeoutExpired:
            raise Fail("%s does not end within %d s" % (" ".join(map(str, args))[:400], secs))
        if r.returncode < 0:
            raise Fail("%s is killed by signal %d" % (" ".join(map(str, args))[:400], -r.returncode))
        return r.returncode, r.stderr.decode("utf-8", "replace")

    def ok(self, *args):
        rc, err = self.run(*args)
        if rc != 0:
            raise Fail("`%s` fails with exit code %d: %s" % (" ".join(map(str, args))[:600], rc, err.strip()[-400:]))

    def path(self, name):
        return os.path.join(self.dir, name)

    def put(self, name, data):
        with open(self.path(name), "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        return name

    def get(self, name):
        try:
            with open(self.path(name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def rm(self, *names):
        for n in names:
            try:
                os.unlink(self.path(n))
            except FileNotFoundError:
                pass
