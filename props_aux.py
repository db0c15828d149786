"""Reference data made by programs that have nothing to do with the repository."""
import itertools
import unicodedata as U

FORMS = ("NFC", "NFD", "NFKC", "NFKD")

# canonical and compatibility decompositions, composition exclusions, singletons,
# blocked and reordered marks, Hangul syllables and their parts
PIECES = [0x61, 0x41, 0x301, 0x327, 0x323, 0x308, 0x345, 0x31B, 0xE9, 0x1E69, 0x1EA5, 0x212B, 0x340, 0x344, 0x390, 0x3B9, 0x958, 0x93C, 0x9C7, 0x9BE,
          0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0xD7A3, 0xFB01, 0xFF76, 0xFF9E, 0x3099, 0x2126, 0x1D15E, 0x2460, 0xBD, 0xA0, 0x200D, 0x0F71, 0x0F72, 0x0FB2, 0x0D]
MARKS = [0x301, 0x327, 0x338, 0x345, 0x3099, 0x5B0, 0x1161, 0x11A8, 0x61]


def nf(s):
    return [U.normalize(f, s) for f in FORMS]


def unicode_table(path):
    hx = lambda s: s.encode().hex()
    with open(path, "w") as f:
        start = None
        for c in range(0x110001):
            ok = c < 0x110000 and not 0xD800 <= c < 0xE000 and U.category(chr(c)) != "Cn"
            if ok and start is None:
                start = c
            if not ok and start is not None:
                f.write("R %x %x\n" % (start, c - 1))
                start = None
        def put(s):
            r = nf(s)
            if any(x != s for x in r):
                f.write("D %s %s\n" % (hx(s), " ".join(hx(x) for x in r)))
        decomposable = []
        for c in range(0x110000):
            if 0xD800 <= c < 0xE000:
                continue
            s = chr(c)
            if U.category(s) == "Cn":
                continue
            put(s)
            if U.normalize("NFKD", s) != s and not 0xAC00 <= c < 0xD7A4 or U.combining(s):
                decomposable.append(s)
        f.write("S\n")
        out = lambda s: f.write("D %s %s\n" % (hx(s), " ".join(hx(x) for x in nf(s))))
        for s in decomposable:
            for m in MARKS:
                m = chr(m)
                out(s + m)
                out(m + s)
                out(U.normalize("NFD", s) + m)
                out("a" + s + m)
        for c in list(range(0xAC00, 0xD7A4, 7)) + [0xAC00, 0xD7A3]:
            for m in (0x1161, 0x11A7, 0x11A8, 0x11C2, 0x11C3, 0x301, 0xAC00):
                out(chr(c) + chr(m))
                out(U.normalize("NFD", chr(c)) + chr(m))
        for n in (2, 3):
            for t in itertools.product(PIECES, repeat=n):
                out("".join(map(chr, t)))
        # long runs of marks
        f.write("L\n")
        bases = ["", "a", "\u00e9", "\u1ea5", "\uac00", "\ufb01", "\u304b"]
        marks = ["\u0301", "\u0323", "\u0301\u0323", "\u0323\u0301\u0327", "\u0338", "\u3099", "\u0344", "\u0345\u0301"]
        long = [127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097]
        for b in bases:
            for m in marks:
                for n in list(range(1, 73)) + (long if b in ("a", "\u1ea5") and m in marks[:3] else []):
                    out(b + (m * n)[:n])
        # texts that repeat with a period: each unit starts with a starter that
        # composes with nothing before it
        f.write("U\n")
        for s in ["e\u0301", "\u1100\u1161\u11a8", "\u00e9\u0323", "a\u0301\u0323\u0327", "\u1e9b\u0323", "\ufb01", "\ud4db", "\u304b\u3099", "\uff76\uff9e"]:
            out(s)
