"""C21: training files are read as exactly the samples they contain."""
import base64, itertools, json, math, unicodedata
from collections import Counter
from fractions import Fraction
from vlib import Fail

WHOLE = "(?s)^.*$"
PROPS = [None, "0", "0.1", "0.2", "0.25", "0.3", "0.4", "0.5", "0.6", "0.7", "0.75", "0.8", "0.9", "0.99", "1", "1.0"]


def cut(n, prop):
    """floor(n * proportion), or None where rounding in the product decides."""
    if prop is None:
        return n
    k = math.floor(n * float(prop))
    return k if k == math.floor(n * Fraction(prop)) else None


def samples(content, prop=None):
    """The samples of a file; None when the number depends on rounding."""
    all_ = [s for s in content.decode("utf-8").split("\0") if s]
    k = cut(len(all_), prop)
    return None if k is None else all_[:k]


def process(s, procs):
    for p in procs:
        s = s.replace("\r\n", "\n") if p == "crlf" else unicodedata.normalize(p.upper(), s)
    return s


def strings(alpha, lo, hi):
    for n in range(lo, hi + 1):
        for t in itertools.product(alpha, repeat=n):
            yield b"".join(t)


def spec(name, path, prop):
    return "%s:%s" % (name, path) + (":" + prop if prop is not None else "")


def train(specs):
    return [x for s in specs for x in ("--train", s)]


def b64(b):
    return base64.b64encode(b).decode().rstrip("=")


def load_vocab(data):
    v = {}
    for t in json.loads(data)["vocab"]:
        b = base64.b64decode(t["value"] + "==") if t.get("encoded") else t["value"].encode()
        if b in v:
            raise Fail("the output holds the token %r twice" % b)
        v[b] = t["score"]
    return v


def tokenizer(procs, extra=()):
    js = [{"type": "crlf"} if p == "crlf" else {"type": "unicode", "form": p} for p in procs]
    v = []
    for b in range(256):
        t = {"value": chr(b), "score": -5.0 - b / 1000, "keep": True}
        if b > 127:
            t = {"value": b64(bytes([b])), "score": -5.0 - b / 1000, "encoded": True, "keep": True}
        v.append(t)
    for s in extra:
        v.append({"value": s, "score": -6.0 - len(v) / 100})
    return json.dumps({"version": "2.0", "special_tokens": [], "processors": js, "vocab": v})


class C21:
    def __init__(self, d):
        self.d = d

    # --- what the commands say about the samples they used ---
    def mined(self, specs, want, what, refs=0):
        """mine: the idioms are the samples, the most frequent first."""
        d = self.d
        d.rm("out.json")
        d.ok("mine", "-n", 1000000, "-o", "out.json", "-p", WHOLE, *train(specs))
        got = json.loads(d.get("out.json"))
        d.traces += 1
        if len(set(got)) != len(got):
            raise Fail("%s: a sample is listed twice: %s" % (what, got[:20]))
        if set(got) != set(want):
            miss, more = sorted(set(want) - set(got))[:5], sorted(set(got) - set(want))[:5]
            raise Fail("%s: samples not used: %r; used but not to be: %r" % (what, miss, more))
        cs = [want[s] for s in got]
        for i in range(1, len(cs)):
            if cs[i] > cs[i - 1]:
                raise Fail("%s: sample %r (to be used %d times) is counted before %r (to be used %d times)" % (
                    what, got[i - 1], cs[i - 1], got[i], cs[i]))

    def generated(self, specs, want, procs, what):
        """generate with every substring inserted: token counts from the scores."""
        d = self.d
        ps = [process(s, procs) for s in want]
        ps = [p for p in ps if p]
        subs = {p[i:j] for p in ps for i in range(len(p)) for j in range(i + 1, len(p) + 1)}
        exp = {x.encode(): sum(1 for p in ps if x in p) * len(x.encode()) for x in subs if len(x.encode()) > 1}
        top = max([sum(1 for p in ps if x in p) for x in subs] or [1])
        for b in range(255):
            exp[bytes([b])] = top
        d.rm("out.json")
        d.ok("generate", "-v", 1000000, "-o", "out.json", "--insert-probability", "1", "--max-token-length", 100000,
             *[x for p in procs for x in ("--processor", p)], *train(specs))
        got = load_vocab(d.get("out.json"))
        got.pop(b"\xff", None)
        d.traces += 1
        if set(got) != set(exp):
            raise Fail("%s: tokens missing: %r; tokens too many: %r" % (what, sorted(set(exp) - set(got))[:5], sorted(set(got) - set(exp))[:5]))
        for t in exp:
            r = exp[t] / exp[b"\0"]
            g = math.exp(got[t] - got[b"\0"])
            if abs(r - g) > 1e-6 * r:
                raise Fail("%s: token %r has %.6g times the weight of a byte, %.6g by the samples (highest count %d)" % (what, t, g, r, top))

    def merged(self, specs, want, procs, what):
        """merge of every pair of bytes, in the order of frequency."""
        d = self.d
        d.put("in.json", tokenizer(procs))
        d.put("allow", "(?s).*")
        c = Counter()
        for s in want:
            b = process(s, procs).encode()
            c.update(b[i:i + 2] for i in range(len(b) - 1))
        d.rm("out.json")
        d.ok("merge", "-i", "in.json", "-o", "out.json", "--allow", "allow", "--num-merges", 100000, "--step", 100000,
             "--max-token-length", 2, "--scale-factor", "1.5", *train(specs))
        got = list(load_vocab(d.get("out.json")))
        d.traces += 1
        if set(got[:256]) != {bytes([b]) for b in range(256)}:
            raise Fail(what + ": the bytes are not the first tokens any more")
        new = got[256:]
        if set(new) != set(c):
            raise Fail("%s: pairs not merged: %r; merged but not in the samples: %r" % (what, sorted(set(c) - set(new))[:5], sorted(set(new) - set(c))[:5]))
        for a, b in zip(new, new[1:]):
            if c[b] > c[a]:
                raise Fail("%s: pair %r (%d times) was merged before %r (%d times)" % (what, a, c[a], b, c[b]))

    def pruned(self, specs, want, procs, what):
        """prune: same scores as from one plain file, byte scores in the order of their counts."""
        d = self.d
        extra = ["ab", "bab", "qq", "qr"]
        ps = [process(s, procs) for s in want]
        ps = [p for p in ps if p]
        d.put("in.json", tokenizer(procs, extra))
        d.put("plain.json", tokenizer([], extra))
        d.put("plain", "\0".join(ps))
        opts = ["-v", 257, "--dropout", "0", "--shrink-factor", "0.5", "--em-subiters", 1]
        d.rm("out.json", "out2.json")
        d.ok("prune", "-i", "in.json", "-o", "out.json", *opts, *train(specs))
        d.ok("prune", "-i", "plain.json", "-o", "out2.json", *opts, *train(["p:plain"]))
        a, b = load_vocab(d.get("out.json")), load_vocab(d.get("out2.json"))
        d.traces += 2
        if set(a) != set(b):
            raise Fail("%s: tokens %r only from the source, %r only from the plain file with the same samples" % (what, sorted(set(a) - set(b))[:5], sorted(set(b) - set(a))[:5]))
        for t in a:
            if abs(a[t] - b[t]) > 1e-6 * max(1, abs(a[t])):
                raise Fail("%s: token %r has score %r, %r from the plain file with the same samples" % (what, t, a[t], b[t]))
        c = Counter(x for p in ps for x in p.encode())
        if not any(e in p for e in extra for p in ps):
            for x, y in itertools.combinations(sorted(c), 2):
                if c[x] != c[y] and (c[x] < c[y]) != (a[bytes([x])] < a[bytes([y])]):
                    raise Fail("%s: byte %d occurs %d times and byte %d %d times, but their scores are %r and %r" % (
                        what, x, c[x], y, c[y], a[bytes([x])], a[bytes([y])]))

    def check(self, cmd, files, procs=(), names=None):
        """files: list of (content, proportion), one source each."""
        want = []
        specs = []
        for i, (c, p) in enumerate(files):
            s = samples(c, p)
            if s is None:
                self.d.count("skipped_rounding")
                return
            want += s
            self.d.put("f%d" % i, c)
            specs.append(spec((names or "abcdefgh")[i % len(names or "abcdefgh")], "f%d" % i, p))
        what = "%s of %s" % (cmd, "; ".join("%r%s" % (c if len(c) < 300 else c[:300], "" if p is None else " proportion " + p) for c, p in files)) + (
            " with processors " + ",".join(procs) if procs else "")
        self.d.state(cmd, files, procs)
        if cmd == "mine":
            self.mined(specs, Counter(want), what)
        elif cmd == "generate":
            self.generated(specs, want, procs, what)
        elif cmd == "merge":
            self.merged(specs, want, procs, what)
        else:
            self.pruned(specs, want, procs, what)

    def batch(self, contents, props):
        """Many files in one command: every file has letters of its own and is listed twice; a source with odd counts in between."""
        d = self.d
        specs, want = [], Counter()
        ref = []
        for k in range(1, 14, 2):
            ref += ["ref%d" % k] * k
            want["ref%d" % k] = k
        d.put("ref", "\0".join(ref))
        specs.append("ref:ref")
        desc = []
        for i, (c, p) in enumerate(zip(contents, props)):
            if isinstance(c, bytes):
                c = c.replace(b"x", chr(0x4E00 + 2 * i).encode()).replace(b"y", chr(0x4E01 + 2 * i).encode())
            s = samples(c, p)
            if s is None:
                d.count("skipped_rounding")
                continue
            d.put("b%d" % i, c)
            specs += [spec("s%d" % i, "b%d" % i, p)]
            specs.insert(0, spec("s%d" % i, "b%d" % i, p))
            desc.append((c[:200], p))
            d.state("batch", c, p)
            for x in s:
                want[x] += 2
        self.mined(specs, want, "mine of %d files (%r ...), each listed twice" % (len(desc), desc[:3]))

    def error(self, cmd, bad, content, where, good):
        d = self.d
        d.put("good", "ab\0ba\0")
        if content is not None:
            d.put("bad", content)
        if bad == "dir":
            import os
            os.makedirs(d.path("somedir"), exist_ok=True)
        b = {"dir": "x:somedir", "missing": "x:nothere", "content": "x:bad", "content0": "x:bad:0"}.get(bad, bad)
        g = ["g:good"] * good
        specs = g[:where] + [b] + g[where:]
        self.command(cmd, specs, True, "%s with the source %r%s among %d good ones" % (cmd, b, "" if content is None else " holding %r" % content, good))

    def command(self, cmd, specs, fails, what):
        d = self.d
        d.rm("out.json")
        inp = tokenizer([], ["ab"])
        d.put("in.json", inp)
        d.put("allow", ".*")
        args = {"mine": ["-n", 10, "-p", WHOLE], "generate": ["-v", 300],
                "merge": ["-i", "in.json", "--allow", "allow", "--num-merges", 1],
                "prune": ["-i", "in.json", "-v", 256]}[cmd]
        rc, err = d.run(cmd, "-o", "out.json", *args, *train(specs))
        out = d.get("out.json")
        d.traces += 1
        d.state(cmd, specs, what)
        if fails and rc == 0:
            raise Fail(what + ": the command succeeds")
        if fails and out is not None:
            raise Fail("%s: the command fails but leaves an output file of %d bytes" % (what, len(out)))
        if not fails and (rc != 0 or out is None):
            raise Fail("%s: the command fails: %s" % (what, err[-300:]))
        if d.get("in.json") != inp.encode():
            raise Fail(what + ": the input tokenizer file has changed")


def utf8_ok(b):
    try:
        b.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def main(d):
    t = C21(d)
    T = d.thorough
    # every content against every proportion, in batches
    files = list(strings([b"\0", b"x", b"y"], 0, 7 if T else 5))
    step = 80
    for p in PROPS:
        for k in range(0, len(files), step):
            part = files[k:k + step]
            d.case("contents %d.. with proportion %s" % (k, p), t.batch, part, [p] * len(part))
    # numbers of samples against proportions
    grid = ["%g" % (k / 20) for k in range(21)] + ["%g" % (k / 7) for k in range(1, 7)] + ["0.01", "0.001", "0.333", "0.999", "5e-1", ".5", "1e0", "0.0"]
    for n in list(range(0, 42 if not T else 140)) + [100, 255, 256, 257, 1000]:
        for pre, post in ((b"", b""), (b"\0", b"\0"), (b"\0\0", b"")):
            if T or n % 3 == len(pre) or n < 12:
                cs = [pre + b"\0".join(b"f%d_%d" % (i, j) for j in range(n)) + post for i in range(len(grid))]
                d.case("%d samples, proportions %s, %r before and %r after" % (n, ",".join(grid), pre, post), t.batch, cs, grid)
    # separators and multi-byte characters across power-of-two offsets
    for k in range(6, 18 if not T else 22):
        cs = []
        for delta in range(-3, 3):
            for i, mid in enumerate((b"\0", "é".encode(), "\0€\0".encode(), "\U0001F600".encode(), b"\0\0z")):
                u = b"%d_%d_" % (delta, i)
                cs.append(u + b"w" * (2 ** k + delta - len(u)) + mid + u + b"t\0" + u + b"l")
        d.case("separators and multi-byte characters around offset %d" % 2 ** k, t.batch, cs, [None] * len(cs))
    # files alone
    for c in strings([b"\0", b"a", b"b"], 0, 5 if T else 4):
        for cmd in ("mine", "generate", "merge", "prune"):
            for p in (None, "0.5") if len(c) >= 2 else (None,):
                if len(c) < 4 or T or cmd != "mine":
                    d.case("%s of %r proportion %s" % (cmd, c, p), t.check, cmd, [(c, p)])
    for c in strings([b"\0", "é".encode(), b"\n", b" "], 1, 4 if T else 3):
        for cmd in ("mine", "generate", "merge"):
            d.case("%s of %r" % (cmd, c), t.check, cmd, [(c, None)])
    # several sources
    pool = [(b"", None), (b"\0", None), (b"a", None), (b"a\0b", None), (b"\0b\0\0b\0ab", None), (b"ba\0c\0a", "0.67"), (b"c\0c\0ab", "0.34"), (b"abc", "0.9")]
    for n in (2, 3):
        for fs in itertools.product(pool, repeat=n):
            cmds = ("mine", "generate", "merge", "prune") if n == 2 else (("mine", "generate", "merge", "prune")[(pool.index(fs[0]) + 3 * pool.index(fs[1]) + pool.index(fs[2])) % 4],)
            for cmd in ("mine", "generate", "merge", "prune") if T else cmds:
                d.case("%s of %r" % (cmd, fs), t.check, cmd, list(fs), (), "abc" if (pool.index(fs[0]) + pool.index(fs[1])) % 2 else "aaa")
    for n in (8,):
        d.case("eight sources", t.check, "mine", [(b"a%d\0b\0c" % i, None) for i in range(n)])
    for n in (17, 33, 64, 65, 129, 257, 300, 1030, 1100):
        for cmd in ("mine", "generate") if n > 70 else ("mine", "generate", "merge", "prune"):
            d.case("%s of %d sources" % (cmd, n), t.check, cmd, [(b"c%s\0b\0%s" % (b"ab"[i % 2: i % 2 + 1], b"abc" * (i % 3)), ("0.5" if i % 7 == 3 else None)) for i in range(n)])
    # processors
    P = ["crlf", "nfc", "nfd", "nfkc", "nfkd"]
    texts = ["a\r\nb", "\u00e9", "e\u0301x", "\ufb01", "\u212b", "\r\n", "\r\r\n\n", "a\rb", "\uac00\r\n", "\u1e9b\u0323", "plain"]
    for n in range(0, 4 if T else 3):
        for pl in itertools.product(P, repeat=n):
            for cmd in ("generate", "merge", "prune"):
                d.case("%s with processors %s" % (cmd, ",".join(pl)), t.check, cmd, [("\0".join(texts).encode(), None)], pl)
                if T or n <= 1:
                    d.case("%s with processors %s, two sources" % (cmd, ",".join(pl)), t.check, cmd,
                           [("\0".join(texts[:5]).encode(), None), ("\0".join(texts[4:]).encode(), "0.7")], pl)
                    for i, x in enumerate(texts):
                        d.case("%s of %r with processors %s" % (cmd, x, ",".join(pl)), t.check, cmd, [(x.encode(), None)], pl)
    # errors
    cmds = ("mine", "generate", "merge", "prune")
    for cmd in cmds:
        for bad in ("good", "", "a:good:1:2", "a:good:1:", "a:good:x", "a:good:", "a:good:0.5x", "missing", "dir", "x::1"):
            for good in (0, 1, 2):
                for where in range(good + 1):
                    d.case("%s with bad source %r at %d of %d" % (cmd, bad, where, good), t.error, cmd, bad, None, where, good)
    pieces = [b"\0", b"a", b"\xc3", b"\xa9", b"\xff", b"\xed\xa0\x80", b"\xf0\x9f\x98"]
    seen = set()
    for c in list(strings(pieces, 1, 4 if T else 3)) + [b"\xc0\x80", b"a\0\xc0\xaf", b"\xf4\x90\x80\x80", b"ok\0" * 50 + b"\x80", b"\x80\0" + b"ok\0" * 50, b"w" * 65535 + b"\xc3", b"w" * 8191 + b"\xe2\x82"]:
        if c in seen:
            continue
        seen.add(c)
        if utf8_ok(c):
            d.case("mine of %r" % c, t.check, "mine", [(c, None)])
        else:
            for i, cmd in enumerate(cmds):
                if T or (len(seen) + i) % 4 == 0 or len(c) < 3:
                    d.case("%s of the invalid %r" % (cmd, c[-40:]), t.error, cmd, "content", c, 0, 0)
                if T or (len(seen) + i) % 4 == 1:
                    d.case("%s of the invalid %r with proportion 0" % (cmd, c[-40:]), t.error, cmd, "content0", c, 0, 0)
                if T or (len(seen) + i) % 4 == 2:
                    d.case("%s of the invalid %r after a good source" % (cmd, c[-40:]), t.error, cmd, "content", c, 1, 1)
