"""C22: every chain of training commands yields a usable tokenizer."""
import json, sys
from c21 import b64, process, tokenizer
from vlib import Fail
import base64

UTF8 = [b for b in range(256) if b not in (0xC0, 0xC1) and b < 0xF5]
CORPORA = {
    "c0": "",
    "c1": "abab\0ba\0abba",
    "c2": "the cat\0the hat\0a cat at the mat\0\r\ncat\r\n",
    "c3": "é\u0301 é ça\0ﬁ ﬁn\0<s>tag</s>\0日本 日本語",
    "c4": "x",
}
TEXTS = ["", "a", "ab", "the cat sat", "\x00", "\r\n a\r\n", "é", "e\u0301", "日本語", "\U0001F600", "ﬁ", "".join(map(chr, range(0x100))),
         "".join(map(chr, range(0x7F0, 0x810))), "\uffff\U0010FFFF", "q" * 300]


def parse(data, what):
    try:
        j = json.loads(data)
        toks = [(base64.b64decode(t["value"] + "==") if t.get("encoded") else t["value"].encode("utf-8", "surrogatepass"), float(t["score"]), bool(t.get("keep"))) for t in j["vocab"]]
        return j["special_tokens"], j["processors"], toks
    except (ValueError, KeyError, TypeError) as e:
        raise Fail("%s: the output file is not a tokenizer: %r" % (what, e))


class C22:
    def __init__(self, d):
        self.d = d
        sys.path.insert(0, d.pymod)
        import tokengeex
        self.tg = tokengeex

    def procs(self, js):
        return [p["type"] if p["type"] == "crlf" else p["form"] for p in js]

    def judge(self, data, what, before=None, special=None, procs=None, keep=()):
        """The file written by a command that succeeds."""
        d = self.d
        if data is None:
            raise Fail(what + ": no output file")
        sp, pr, toks = parse(data, what)
        if before:
            special, procs = before[0], self.procs(before[1])
            keep = [t for t, _, k in before[2] if k]
        if sp != special:
            raise Fail("%s: special tokens %r, expected %r" % (what, sp, special))
        if self.procs(pr) != procs:
            raise Fail("%s: processors %r, expected %r" % (what, self.procs(pr), procs))
        vals = [t for t, _, _ in toks]
        have = set(vals)
        if len(have) != len(vals):
            raise Fail("%s: duplicate token %r" % (what, next(v for v in vals if vals.count(v) > 1)))
        marked = {t for t, _, k in toks if k}
        for k in keep:
            if k not in have:
                raise Fail("%s: token %r is marked to be kept and is gone" % (what, k))
            if k not in marked:
                raise Fail("%s: token %r has lost its keep mark" % (what, k))
        for b in UTF8:
            if bytes([b]) not in have:
                raise Fail("%s: byte %d is not in the vocabulary any more" % (what, b))
        try:
            t = self.tg.Tokenizer.from_str(data.decode())
        except Exception as e:
            raise Fail("%s: the output does not load: %s" % (what, e))
        for x in TEXTS + sp:
            try:
                ids = t.encode_ordinary(x, 0.0)
                got = t.decode(ids, True)
            except Exception as e:
                raise Fail("%s: %r cannot be encoded: %s" % (what, x, e))
            if got != process(x, procs):
                raise Fail("%s: %r comes back as %r" % (what, x, got))
        if sp:
            text = "".join(s + "x" for s in sp if s)
            got = t.decode(t.encode(text, 0.0), True)
            if got != text:
                raise Fail("%s: %r comes back as %r" % (what, text, got))
        d.traces += 1
        return sp, pr, toks

    def key(self, st):
        sp, pr, toks = st
        return repr((sp, self.procs(pr), sorted((t, round(s, 5), k) for t, s, k in toks)))

    def corpora(self):
        for n, c in CORPORA.items():
            self.d.put(n, c)
        self.d.put("any", "(?s).*")
        self.d.put("words", "^ ?[a-z]+$")
        self.d.put("badre", "(")
        self.d.put("bad", b"ok\0\xff")
        self.d.put("added", json.dumps(["the ", "日本", "qqq", "ab"]))
        self.d.put("sugg", json.dumps(["cat", "at", "zz"]))

    def ops(self, n, toks):
        """The commands tried on a vocabulary of n tokens."""
        sc = sorted(s for _, s, _ in toks)
        lo = "%r" % (sc[len(sc) // 3] + 1e-9)
        yield "filter", ["--min-score", lo], []
        yield "filter", ["-v", max(n - 2, 0), "--min-score", "0"], []
        yield "filter", ["--min-score", "0", "--force", "false"], []
        for c in ("c1", "c2"):
            yield "merge", ["--allow", "any", "--num-merges", 3, "--step", 2], [c]
        yield "merge", ["--allow", "words", "--num-merges", 40, "--step", 50, "--max-token-length", 6], ["c2", "c1"]
        yield "merge", ["--allow", "any", "--num-merges", 2, "--step", 1, "--scale-factor", "0.5"], ["c3"]
        yield "prune", ["-v", n - 1, "--dropout", "0", "--em-subiters", 0], ["c1"]
        yield "prune", ["-v", max(n - 4, 0), "--dropout", "0", "--em-subiters", 1], ["c2"]
        yield "prune", ["-v", 0, "--dropout", "0", "--em-subiters", 2, "--shrink-factor", "0.5"], ["c1", "c3"]
        yield "prune", ["-v", 258], ["c3"]
        if self.d.thorough:
            yield "prune", ["-v", n - 2, "--dropout", "0"], ["c0", "c4"]
            yield "merge", ["--allow", "any"], ["c4", "c0"]
            yield "filter", [], []

    def bad(self):
        """Commands that have to fail."""
        for tr in ("x:nothere", "x", "x:bad"):
            yield "merge", ["--allow", "any"], ["--train", tr]
            yield "prune", ["-v", 256], ["--train", tr]
        yield "merge", ["--allow", "badre"], ["--train", "c:c1"]
        yield "merge", ["--allow", "nothere"], ["--train", "c:c1"]

    def step(self, data, st, cmd, args, tr, chain, inplace=False):
        d = self.d
        what = chain + " | " + " ".join(map(str, [cmd] + args + tr)) + (" in place" if inplace else "")
        d.put("in.json", data)
        d.rm("out.json")
        out = "in.json" if inplace else "out.json"
        rc, err = d.run(cmd, "-i", "in.json", "-o", out, *args, *[x for t in tr for x in ("--train", t + ":" + t)])
        if rc != 0:
            raise Fail("%s: fails with exit code %d: %s" % (what, rc, err.strip()[-300:]))
        if not inplace and d.get("in.json") != data:
            raise Fail(what + ": the input file has changed")
        new = d.get(out)
        return new, self.judge(new, what, before=st), what

    def failing(self, data, chain):
        d = self.d
        for cmd, args, rest in self.bad():
            for out in ("out.json", "in.json"):
                what = chain + " | " + " ".join(map(str, [cmd, "-o", out] + args + rest))
                d.put("in.json", data)
                d.rm("out.json")
                rc, err = d.run(cmd, "-i", "in.json", "-o", out, *args, *rest)
                if rc == 0:
                    raise Fail(what + ": succeeds")
                if d.get("in.json") != data:
                    raise Fail(what + ": fails and changes its input file")
                d.traces += 1
        for cmd, args in (("filter", []), ("prune", ["-v", 256, "--train", "c:c1"]), ("merge", ["--allow", "any", "--train", "c:c1"])):
            d.put("in.json", data)
            rc, err = d.run(cmd, "-i", "in.json", "-o", "nodir/out.json", *args)
            if rc == 0:
                raise Fail("%s | %s into a missing directory: succeeds" % (chain, cmd))
            if d.get("in.json") != data:
                raise Fail("%s | %s into a missing directory: fails and changes its input file" % (chain, cmd))

    def init(self, g):
        """Run generate; returns the file, its contents and the command."""
        d = self.d
        self.corpora()
        args, tr, special, procs, added = g
        d.rm("out.json")
        a = list(args) + [x for s in special for x in ("--special", s)] + [x for s in procs for x in ("--processor", s)]
        if added:
            a += ["--added", "added", "--suggested", "sugg"]
        what = "generate " + " ".join(map(str, a + list(tr)))
        rc, err = d.run("generate", "-o", "out.json", *a, *[x for t in tr for x in ("--train", t + ":" + t)])
        if rc != 0:
            raise Fail("%s: fails with exit code %d: %s" % (what, rc, err.strip()[-300:]))
        data = d.get("out.json")
        uniq = list(dict.fromkeys(special))
        st = self.judge(data, what, special=uniq, procs=list(procs), keep=[x.encode() for x in (["the ", "日本", "qqq", "ab"] if added else [])])
        return data, st, what

    def explore(self, g, k, depth):
        """All chains of the given length that start with operation k (None: just generate)."""
        data, st, what = self.init(g)
        d = self.d
        d.state(self.key(st))
        if k is None:
            self.failing(data, what)
            for cmd, args, tr in self.ops(len(st[2]), st[2]):
                self.step(data, st, cmd, args, tr, what, inplace=True)
            return
        seen = {self.key(st)}
        front = [(data, st, what)]
        for level in range(depth):
            nxt = []
            for data, st, what in front:
                for i, (cmd, args, tr) in enumerate(self.ops(len(st[2]), st[2])):
                    if level == 0 and i != k:
                        continue
                    new, st2, w2 = self.step(data, st, cmd, args, tr, what)
                    key = self.key(st2)
                    d.state(key)
                    if key not in seen:
                        seen.add(key)
                        nxt.append((new, st2, w2))
                    else:
                        d.count("revisited")
            front = nxt
        d.extra["max_depth"] = depth


def main(d):
    t = C22(d)
    g1 = ["--insert-probability", "1"]
    inits = [
        (["-v", 300] + g1, ("c1", "c2"), (), (), False),
        (["-v", 266] + g1, ("c2",), ("<s>", "</s>", "<s>"), ("crlf",), False),
        (["-v", 290] + g1, ("c3", "c2"), ("ab", "a", "日"), ("nfc",), True),
        (["-v", 280] + g1 + ["--allow", "words"], ("c2", "c1"), (" ",), ("crlf", "nfkd"), True),
        (["-v", 0], (), ("b", "</s>"), ("nfd", "crlf", "nfd"), False),
        (["-v", 320, "--max-token-length", 3], ("c2", "c3"), ("x",), (), True),
        (["-v", 259, "--split", "words"] + g1, ("c2",), (), ("nfkc",), False),
    ]
    n = 14 if d.thorough else 11
    for g in inits:
        d.case("%r: generate, failing commands, in place" % (g,), t.explore, g, None, 0)
    for g in inits:
        for k in range(n):
            d.case("%r: all chains that go on with command %d" % (g, k), t.explore, g, k, 4 if d.thorough else 3)
