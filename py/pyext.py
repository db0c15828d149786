"""C23: the built Python extension against a reference tokenizer."""
import copy, itertools, json, os, pickle, subprocess, sys
from c21 import b64, process
from vlib import Driver, Fail

NOPATH = "no segmentation"


class Ref:
    """What the tokenizer documents."""

    def __init__(self, vocab, special=(), procs=()):
        self.vocab, self.special, self.procs = vocab, list(dict.fromkeys(special)), list(procs)
        self.ids = {t: i for i, (t, _, _) in enumerate(vocab)}
        self.longest = max([len(t) for t in self.ids] or [0])

    def clone(self):
        return Ref(self.vocab, self.special, self.procs)

    def add(self, toks):
        for t in toks:
            if t not in self.special:
                self.special.append(t)

    def json(self):
        v = []
        for t, s, k in self.vocab:
            try:
                e = {"value": t.decode(), "score": s}
            except UnicodeDecodeError:
                e = {"value": b64(t), "score": s, "encoded": True}
            if k:
                e["keep"] = True
            v.append(e)
        p = [{"type": "crlf"} if x == "crlf" else {"type": "unicode", "form": x} for x in self.procs]
        return json.dumps({"version": "2.0", "special_tokens": self.special, "processors": p, "vocab": v})

    def key(self):
        return (self.vocab, tuple(self.special), tuple(self.procs))

    def best(self, b, whole=True):
        """The best segmentation: ids, None where two are equally good, NOPATH."""
        n = len(b)
        dp = [None] * (n + 1)
        dp[0] = (0.0, (), True)
        for i in range(n):
            if dp[i] is None:
                continue
            for j in range(i + 1, min(n, i + (self.longest if whole else 1)) + 1):
                k = self.ids.get(b[i:j])
                if k is None:
                    continue
                s = dp[i][0] + self.vocab[k][1]
                o = dp[j]
                if o is None or s > o[0] + 1e-9:
                    dp[j] = (s, dp[i][1] + (k,), dp[i][2])
                elif s > o[0] - 1e-9:
                    dp[j] = (max(s, o[0]), o[1], False)
        if dp[n] is None:
            return NOPATH
        return list(dp[n][1]) if dp[n][2] else None

    def ordinary(self, text, whole=True):
        for p in self.procs:
            text = process(text, [p])
        return self.best(text.encode(), whole)

    def encode(self, text, whole=True):
        out, i, start = [], 0, 0
        parts = []
        while i < len(text):
            s = next((s for s in self.special if s and text.startswith(s, i)), None)
            if s is None:
                i += 1
                continue
            if i > start:
                parts.append(text[start:i])
            parts.append([len(self.vocab) + self.special.index(s)])
            i += len(s)
            start = i
        if start < len(text):
            parts.append(text[start:])
        tie = False
        for p in parts:
            r = self.ordinary(p, whole) if isinstance(p, str) else p
            if r == NOPATH:
                return NOPATH
            tie |= r is None
            out += r or []
        return None if tie else out

    def decode(self, ids, inc):
        out, run = "", b""
        for i in ids:
            if i < len(self.vocab):
                run += self.vocab[i][0]
                continue
            if i >= len(self.vocab) + len(self.special):
                return NOPATH
            out += run.decode("utf-8", "replace")
            run = b""
            if inc:
                out += self.special[i - len(self.vocab)]
        return out + run.decode("utf-8", "replace")


def same(what, got, want):
    if got != want or type(got) is not type(want):
        raise Fail("%s is %r, expected %r" % (what, got, want))


class C23:
    def __init__(self, d):
        self.d = d
        sys.path.insert(0, d.pymod)
        import tokengeex
        self.tg = tokengeex
        self.T = tokengeex.Tokenizer
        self.E = tokengeex.TokenGeeXError

    def call(self, what, f, *a):
        """The value, or the exception raised. Panics of the extension are failures."""
        self.d.trans += 1
        try:
            return f(*a)
        except Exception as e:
            return e
        except BaseException as e:
            if type(e).__name__ == "PanicException":
                raise Fail("%s panics: %s" % (what, e))
            raise

    def raises(self, what, kind, f, *a):
        r = self.call(what, f, *a)
        if not isinstance(r, kind):
            raise Fail("%s gives %r instead of raising %s" % (what, r, kind.__name__))

    def eq(self, what, want, f, *a):
        """The result is `want`; None accepts any list, NOPATH wants the error type."""
        what = "%s(%s)" % (what, ", ".join(repr(x)[:200] for x in a))
        if want == NOPATH and isinstance(want, str):
            self.raises(what, self.E, f, *a)
            return
        r = self.call(what, f, *a)
        if isinstance(r, Exception):
            raise Fail("%s raises %r, expected %r" % (what, r, want))
        self.d.traces += 1
        same(what, r, want)

    def enc(self, name, f, want, text, dropout=0.0):
        if want is None:
            self.d.count("ties_skipped")
        else:
            self.eq(name, want, f, text, dropout)

    def texts(self, r):
        sp = [s for s in r.special if s]
        return ["", "a", "ab", "abab", "b\r\na", "é", "e\u0301ab", "日a", "\x00", "aaaaabbbab"] + [s + "a" for s in sp[-2:]] + ["".join(sp) + "b" + "".join(sp)]

    def tables(self, t, r):
        n, m = len(r.vocab), len(r.special)
        self.eq("vocab_size", n + m, t.vocab_size)
        self.eq("base_vocab_size", n, t.base_vocab_size)
        self.eq("special_vocab_size", m, t.special_vocab_size)
        self.eq("special_tokens", r.special, t.special_tokens)
        for i in sorted({0, 1, n // 2, n - 1, n, n + 1, n + m - 1, n + m, n + m + 1, 2 ** 31, 2 ** 32 - 1} | set(range(max(n - 3, 0), n + m + 2))):
            if i < 0:
                continue
            b, s = i < n, n <= i < n + m
            self.eq("is_base", b, t.is_base, i)
            self.eq("is_special", s, t.is_special, i)
            self.eq("id_to_base_token", (r.vocab[i][0], r.vocab[i][1]) if b else None, t.id_to_base_token, i)
            self.eq("id_to_special_token", r.special[i - n] if s else None, t.id_to_special_token, i)
            self.eq("id_to_token", r.vocab[i][0] if b else r.special[i - n].encode() if s else None, t.id_to_token, i)
        for x in [b"", b"a", b"ab", b"zz", b"\xff", "é".encode(), b"a\x00"] + [v[0] for v in r.vocab[-3:]] + [s.encode() for s in r.special[-4:]]:
            try:
                u = x.decode()
            except UnicodeDecodeError:
                u = None
            bi = r.ids.get(x)
            si = n + r.special.index(u) if u in r.special else None
            self.eq("base_token_to_id", bi, t.base_token_to_id, x)
            self.eq("token_to_id", bi if bi is not None else si, t.token_to_id, x)
            if u is not None:
                self.eq("special_token_to_id", si, t.special_token_to_id, u)

    def observe(self, t, r, texts=None):
        n, m = len(r.vocab), len(r.special)
        self.tables(t, r)
        texts = texts or self.texts(r)
        full = all(bytes([b]) in r.ids for x in texts for b in x.encode())
        exp, expo = [], []
        for x in texts:
            e, o = r.encode(x), r.ordinary(x)
            exp.append(e)
            expo.append(o)
            self.enc("encode", t.encode, e, x)
            self.enc("encode_ordinary", t.encode_ordinary, o, x)
            self.enc("encode", t.encode, r.encode(x, False), x, 1.0)
            self.enc("encode_ordinary", t.encode_ordinary, r.ordinary(x, False), x, 1.0)
            for ids in (e, o):
                if isinstance(ids, list):
                    for inc in (True, False):
                        self.eq("decode", r.decode(ids, inc), t.decode, ids, inc)
            b = x.encode()
            self.eq("common_prefix_search", sorted(r.ids[b[:k]] for k in range(1, len(b) + 1) if b[:k] in r.ids), lambda y: sorted(t.common_prefix_search(y)), x)
        for name, f, w in (("encode_batch", t.encode_batch, exp), ("encode_ordinary_batch", t.encode_ordinary_batch, expo)):
            good = [(x, e) for x, e in zip(texts, w) if isinstance(e, list)]
            self.eq(name, [e for _, e in good], f, [x for x, _ in good], 0.0)
            if NOPATH in w:
                self.eq(name, NOPATH, f, [x for x, e in zip(texts, w)], 0.0)
            self.eq(name, [], f, [], 0.0)
        lists = [[], [n + m], [n - 1, n, n - 1], list(range(n, n + m)), [2 ** 32 - 1], [0, 2 ** 32 - 1, 0], list(range(max(0, n - 3), n + m))]
        lists = [l for l in lists if all(i >= 0 for i in l)]
        for inc in (True, False):
            w = [r.decode(l, inc) for l in lists]
            for l, x in zip(lists, w):
                self.eq("decode", x, t.decode, l, inc)
            self.eq("decode_batch", [x for x in w if x is not NOPATH], t.decode_batch, [l for l, x in zip(lists, w) if x is not NOPATH], inc)
            if NOPATH in w:
                self.eq("decode_batch", NOPATH, t.decode_batch, lists, inc)
        # arguments by the names the stub file gives them
        x, e = next(((x, e) for x, e in zip(texts, exp) if isinstance(e, list)), ("", []))
        for name, f, k, w in (("encode", t.encode, dict(text=x, dropout=0.0), e), ("encode_batch", t.encode_batch, dict(texts=[x, ""], dropout=0.0), [e, []]),
                              ("decode", t.decode, dict(ids=e, include_special_tokens=False), r.decode(e, False)), ("decode", t.decode, dict(ids=e, include_special_tokens=True), r.decode(e, True)),
                              ("decode_batch", t.decode_batch, dict(ids=[e], include_special_tokens=True), [r.decode(e, True)]), ("is_base", t.is_base, dict(id=0), n > 0),
                              ("is_special", t.is_special, dict(id=n), m > 0), ("id_to_token", t.id_to_token, dict(id=n + m), None), ("token_to_id", t.token_to_id, dict(token=b"\x01\x02"), None),
                              ("base_token_to_id", t.base_token_to_id, dict(token=b"\x01\x02"), None), ("special_token_to_id", t.special_token_to_id, dict(token="none"), None),
                              ("encode_ordinary", t.encode_ordinary, dict(text="", dropout=0.0), []), ("encode_ordinary_batch", t.encode_ordinary_batch, dict(texts=["", ""], dropout=0.0), [[], []]),
                              ("id_to_base_token", t.id_to_base_token, dict(id=n + m), None), ("id_to_special_token", t.id_to_special_token, dict(id=n + m), None),
                              ("add_special_tokens", t.add_special_tokens, dict(tokens=[]), None), ("common_prefix_search", t.common_prefix_search, dict(text=""), []),
                              ("save", t.save, dict(filepath=self.d.path("named.json")), None)):
            if w is NOPATH:
                continue
            g = self.call(name, lambda: f(**k))
            if g != w or type(g) is not type(w):
                raise Fail("%s(**%r) is %r, expected %r" % (name, k, g, w))
        for name, f, k in (("from_file", self.T.from_file, dict(filepath=self.d.path("named.json"))), ("from_str", self.T.from_str, dict(s=t.to_string()))):
            u = self.call(name, lambda: f(**k))
            if u is NOPATH or u.vocab_size() != n + m:
                raise Fail("%s(**%r) does not give the tokenizer back" % (name, list(k)))
        same("to_string", json.loads(t.to_string()), json.loads(r.json()))
        self.d.state(r.key(), texts)

    # --- steps of a history: each takes and returns (tokenizer, reference) ---
    def steps(self):
        d, T = self.d, self.T
        f = d.path("t.json")

        def add(*toks):
            def g(t, r):
                self.eq("add_special_tokens", None, t.add_special_tokens, list(toks))
                r.add(toks)
                return t, r
            return g

        def via(conv):
            def g(t, r):
                n = self.call("conversion", conv, t)
                if isinstance(n, Exception):
                    raise Fail("conversion raises %r" % n)
                if n is t or type(n) is not T:
                    raise Fail("conversion gives %r" % n)
                return n, r
            return g

        def fork(conv):
            # a copy is independent: changes of either are not seen in the other
            def g(t, r):
                n, _ = via(conv)(t, r)
                o = r.clone()
                n.add_special_tokens(["<fork>"])
                o.add(["<fork>"])
                self.tables(t, r)
                self.tables(n, o)
                t.add_special_tokens(["<left>"])
                self.tables(n, o)
                return n, o
            return g

        def saved(t):
            t.save(f)
            return T.from_file(f)

        def bad(t, r):
            self.eq("encode", r.encode("\x00\x07~"), t.encode, "\x00\x07~", 0.0)
            self.raises("from_str", self.E, T.from_str, "{}")
            self.raises("Tokenizer", self.E, T, "{}")
            self.raises("save into a missing directory", Exception, t.save, d.path("no/t.json"))
            self.raises("save to a directory", Exception, t.save, d.dir)
            self.raises("save to a full device", Exception, t.save, "/dev/full")
            self.raises("__setstate__ of rubbish", Exception, t.__setstate__, b"{")
            self.raises("__setstate__ of rubbish", Exception, t.__setstate__, "x")
            self.raises("__setstate__ of rubbish", Exception, t.__setstate__, b'{"version":"2.0","vocab":[{"value":"q"}]}')
            self.raises("encode of a lone surrogate", Exception, t.encode, "\ud800", 0.0)
            self.raises("decode of a negative id", Exception, t.decode, [-1], True)
            self.raises("decode of an id past 32 bits", Exception, t.decode, [2 ** 32], True)
            return t, r

        def state(t, r):
            o = Ref([(b"q", -1.0, False)], ["a", "zz"], ["crlf"])
            other = T.from_str(o.json())
            self.observe(other, o, ["q", "aqzz"])
            s = t.__getstate__()
            if not isinstance(s, bytes):
                raise Fail("__getstate__ gives %r" % s)
            self.eq("__setstate__", None, other.__setstate__, s)
            return other, r

        def become(t, r):
            # a tokenizer in use takes on the state of another one
            o = Ref([(b"a", -1.0, True), (b"b", -2.0, True), (b"ab", -2.5, False), (b"\n", -3.0, False)], ["<s>", "b"], ["crlf"])
            self.eq("__setstate__", None, t.__setstate__, T.from_str(o.json()).__getstate__())
            return t, o

        return [
            ("add <s>", add("<s>")), ("add <s>, a, <s>", add("<s>", "a", "<s>")), ("add ab, é", add("ab", "é")), ("add ''", add("")), ("add nothing", add()),
            ("save and load", via(saved)), ("to_string and from_str", via(lambda t: T.from_str(t.to_string()))),
            ("pickle 2", via(lambda t: pickle.loads(pickle.dumps(t, 2)))), ("pickle 5", via(lambda t: pickle.loads(pickle.dumps(t, 5)))),
            ("copy", via(copy.copy)), ("deepcopy", via(copy.deepcopy)), ("getstate and setstate", state), ("setstate of another", become), ("failing calls", bad),
            ("copy, then both change", fork(copy.copy)), ("deepcopy, then both change", fork(copy.deepcopy)),
        ]

    def start(self, r):
        js = r.json()
        t = self.call("from_str", self.T.from_str, js)
        if isinstance(t, Exception):
            raise Fail("from_str raises %r" % t)
        return t

    def history(self, r, seq, watch=False):
        """The steps, looked at in the end only or (watch) also before and
        between them: what is computed when first asked for must not go stale."""
        steps = self.steps()
        r = r.clone()
        t = self.start(r)
        self.d.count("histories")
        done = []
        try:
            for k in seq:
                if watch:
                    self.observe(t, r, self.texts(r)[1::2])
                done.append(steps[k][0])
                t, r = steps[k][1](t, r)
            done.append("observation")
            self.observe(t, r)
        except Fail as e:
            raise Fail("after %s%s: %s" % ("; ".join(done), " (looked at between them)" if watch else "", e))

    def inputs(self, r, texts):
        t = self.start(r)
        self.observe(t, r, texts)

    def idlists(self, r, lists):
        t = self.start(r)
        for inc in (True, False):
            w = [r.decode(l, inc) for l in lists]
            for l, x in zip(lists, w):
                self.eq("decode", x, t.decode, l, inc)
            good = [(l, x) for l, x in zip(lists, w) if x is not NOPATH]
            self.eq("decode_batch", [x for _, x in good], t.decode_batch, [l for l, _ in good], inc)

    def badfile(self, content, kind):
        f = self.d.path("bad.json")
        if content is None:
            f = {"missing": self.d.path("nothere"), "directory": self.d.dir, "below a file": self.d.path("t") + "/x", "empty name": ""}[kind]
            self.d.put("t", b"")
        else:
            self.d.put("bad.json", content)
        self.raises("from_file (%s)" % kind, self.E, self.T.from_file, f)
        if content is not None:
            try:
                s = content.decode()
            except UnicodeDecodeError:
                return
            self.raises("from_str (%s)" % kind, self.E, self.T.from_str, s)
            self.raises("Tokenizer (%s)" % kind, self.E, self.T, s)
        self.d.state("bad", kind, content)

    def process(self, r):
        """Pickled here, used in another process."""
        t = self.start(r)
        self.d.put("p", pickle.dumps(t))
        ts = self.texts(r)
        code = "import sys,pickle,json; sys.path.insert(0,%r); t=pickle.load(open('p','rb')); print(json.dumps([[t.encode(x,0.0) for x in json.load(sys.stdin)], t.to_string()]))" % self.d.pymod
        ts = [x for x in ts if isinstance(r.encode(x), list)]
        p = subprocess.run([sys.executable, "-c", code], cwd=self.d.dir, input=json.dumps(ts), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        if p.returncode:
            raise Fail("unpickling in another process fails: " + p.stderr[-300:])
        enc, s = json.loads(p.stdout)
        same("encodings in the other process", enc, [r.encode(x) for x in ts])
        same("to_string in the other process", json.loads(s), json.loads(r.json()))
        self.d.traces += 1

    def threads(self, r, n):
        """The same tokenizer used by several Python threads at once."""
        import threading
        t, errs = self.start(r), []
        ts = [x * k for k in (1, 7, 40) for x in self.texts(r) if isinstance(r.encode(x * k), list)]
        w = [r.encode(x) for x in ts]

        def work(k):
            try:
                for _ in range(3):
                    self.eq("encode_batch", w, t.encode_batch, ts, 0.0)
                    for x, e in list(zip(ts, w))[k::2]:
                        self.eq("encode", e, t.encode, x, 0.0)
            except Fail as e:
                errs.append(e)
        th = [threading.Thread(target=work, args=(k,)) for k in range(n)]
        [x.start() for x in th]
        [x.join() for x in th]
        if errs:
            raise errs[0]


def bytesvocab(lo=0, hi=256, keep=True):
    return [(bytes([b]), round(-4.0 - b * 0.00731, 5), keep) for b in range(lo, hi)]


def refs():
    multi = [(b"ab", -5.17, False), (b"aba", -6.31, False), (b"bab", -6.43, True), ("é".encode(), -5.77, False), ("日".encode(), -6.01, False), (b"aaaa", -8.9, False), (b"\xa9a", -5.5, False), (b"\r\n", -3.3, False)]
    full = tuple(bytesvocab() + multi)
    part = tuple([(b"a", -1.0, False), (b"b", -1.37, True), (b"ab", -2.11, False), (b"aab", -2.9, False), (b"\xff\xfe", -3.1, False)])
    rev = tuple(multi[::-1] + bytesvocab()[::-1])
    return [
        Ref(full), Ref(full, ["<s>", "ab", "a"], ["crlf"]), Ref(part), Ref(part, ["", "é", "b"], ["nfc"]), Ref(rev, ["日", "<s>"], ["nfkc", "crlf"]),
        Ref((), ["x"]), Ref(()), Ref(full, ["a" * 300, "aa"], ["nfd"]),
    ]


def main(d):
    c = C23(d)
    T = d.thorough
    n = len(c.steps())
    R = refs()
    names = [s[0] for s in c.steps()]
    for i, r in enumerate(R):
        d.case("tokenizer %d as constructed" % i, c.history, r, ())
        d.case("tokenizer %d in another process" % i, c.process, r)
        d.case("tokenizer %d on 1-4 Python threads" % i, lambda r=r: [c.threads(r, k) for k in (1, 2, 4)])
    deep = 3 if T else 2
    for depth in range(1, deep + 2):
        for i, r in enumerate(R):
            if depth > deep and i not in ((1, 3) if not T else (3,)):
                continue
            for seq in itertools.product(range(n), repeat=depth):
                d.case(lambda: "tokenizer %d after %s" % (i, "; ".join(names[k] for k in seq)), lambda r=r, seq=seq: [c.history(r, seq, w) for w in (False, True)])
    alpha = ["a", "b", "é", "<s>", "\r\n", "日", "x"]
    for k in range(1, (6 if T else 5)):
        for t in itertools.product(alpha, repeat=k - 1):
            ts = ["".join(t) + a for a in alpha]
            for i, r in enumerate(R[:5]):
                d.case(lambda: "tokenizer %d on %r" % (i, ts), c.inputs, r, ts)
    for i, r in enumerate(R):
        nb = len(r.vocab)
        ids = sorted({x for x in (0, nb - 8, nb - 2, nb - 1, nb, nb + 1, nb + len(r.special), 2 ** 32 - 1, 195, 169) if 0 <= x})
        for k in range(1, 5 if T else 4):
            for t in itertools.product(ids, repeat=k - 1):
                d.case(lambda: "tokenizer %d decoding %r + one more" % (i, t), c.idlists, r, [list(t) + [x] for x in ids])
    for kind in ("missing", "directory", "below a file", "empty name"):
        d.case("loading: " + kind, c.badfile, None, kind)
    good = Ref((( b"a", -1.0, True), (b"\xff", -2.0, False)), ["<s>"], ["crlf", "nfc"]).json().encode()
    for i in range(len(good)):
        d.case("loading the first %d bytes of a file" % i, c.badfile, good[:i], "prefix of %d bytes" % i)
    for k, x in (("version", b'"2.0"'), ("processor", b'"crlf"'), ("form", b'"nfc"'), ("score", b'-1.0'), ("field", b'"special_tokens"'), ("value", b'"value"')):
        for y in (b'"bogus"', b'null', b'[]', b'\xff'):
            if x in good and not (k == "value" and y == b"x"):
                d.case("loading with %s replaced by %r" % (k, y), c.badfile, good.replace(x, y, 1), "%s replaced by %r" % (k, y))


if __name__ == "__main__":
    d = Driver()
    main(d)
    d.end()
