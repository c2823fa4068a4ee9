"""Patterns and queries to try: generators, directed by what a property is about.

A pattern is built as a tree, so that strings it matches can be sampled from it;
only its text is given to the library and to the specification.

  ("set", bytes of the text, frozenset)   ("seq", [x])   ("alt", [x])
  ("grp", x)  ("non", x)  brackets        ("rep", x, text, least, most)
  ("bol",)  ("eol",)                      ("str", text, bytes)  an escape of several characters
"""
import itertools
import re

ALL = frozenset(range(256))
DIGIT = frozenset(b"0123456789")
WORD = frozenset(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
SPACE = frozenset(b"\t\n\f\r ")
ANY = ALL - {10}
META = b"\\^$.|?*+()[]{}"


def lit(c):
    """c: one character"""
    b = c if isinstance(c, int) else ord(c)
    return ("set", b"\\" + bytes([b]) if b in META else bytes([b]), frozenset([b]))


def cls(text, chars):
    return ("set", text.encode("latin1"), frozenset(chars))


def seq(*xs):
    return xs[0] if len(xs) == 1 else ("seq", list(xs))


def word(s):
    return seq(*[lit(c) for c in s])


def alt(*xs):
    return ("alt", list(xs))


def grp(x):
    return ("grp", x)


def non(x):
    return ("non", x)


def rep(x, text):
    t = text.rstrip("+?") if text[0] == "{" else text[0]
    lo, hi = {"*": (0, None), "+": (1, None), "?": (0, 1)}.get(t, (None, None))
    if t[0] == "{":
        body = t[1:-1]
        if "," in body:
            lo = int(body.split(",")[0])
            hi = int(body.split(",")[1]) if body.split(",")[1] else None
        else:
            lo = hi = int(body)
    return ("rep", x, text, lo, hi)


BOL = ("bol",)
EOL = ("eol",)


def text(x):
    k = x[0]
    if k == "set" or k == "str":
        return x[1]
    if k == "seq":
        return b"".join(text(non(y)) if y[0] == "alt" else text(y) for y in x[1])
    if k == "alt":
        return b"|".join(text(y) for y in x[1])
    if k == "grp":
        return b"(" + text(x[1]) + b")"
    if k == "non":
        return b"(?:" + text(x[1]) + b")"
    if k == "bol":
        return b"^"
    if k == "eol":
        return b"$"
    y = x[1]
    t = text(y)
    if y[0] in ("seq", "alt", "rep", "bol", "eol", "str"):
        t = b"(?:" + t + b")"
    return t + x[2].encode()


def groups(x):
    k = x[0]
    if k in ("seq", "alt"):
        return sum(groups(y) for y in x[1])
    if k == "grp":
        return 1 + groups(x[1])
    if k in ("non", "rep"):
        return groups(x[1])
    return 0


def size(x):
    k = x[0]
    if k in ("seq", "alt"):
        return 1 + sum(size(y) for y in x[1])
    if k in ("grp", "non", "rep"):
        return 1 + size(x[1])
    return 1


def rep_depth(x):
    k = x[0]
    if k in ("seq", "alt"):
        return max(rep_depth(y) for y in x[1])
    if k in ("grp", "non"):
        return rep_depth(x[1])
    if k == "rep":
        return rep_depth(x[1]) + (1 if x[4] is None or x[4] > 1 else 0)
    return 0


def alphabet(x, out=None):
    """a few characters that tell the parts of x apart"""
    out = set() if out is None else out
    k = x[0]
    if k in ("seq", "alt"):
        for y in x[1]:
            alphabet(y, out)
    elif k in ("grp", "non", "rep"):
        alphabet(x[1], out)
    elif k == "set":
        if len(x[2]) <= 3:
            out.update(x[2])
        else:
            s = sorted(x[2])
            out.update([s[0], s[len(s) // 2], s[-1]])
    elif k == "str":
        out.update(x[2])
    else:
        out.add(10)
    return out


def sample(x, rng, far=2, among=None):
    """a string x can match, most of its characters among some"""
    k = x[0]
    if k == "set":
        s = sorted(x[2])
        if len(s) > 3:
            pref = [c for c in (among or b"abc019_ \n") if c in x[2]]
            if pref and rng.random() < 0.85:
                return bytes([rng.choice(pref)])
        return bytes([rng.choice(s)]) if s else b""
    if k == "str":
        return x[2]
    if k == "seq":
        return b"".join(sample(y, rng, far, among) for y in x[1])
    if k == "alt":
        return sample(rng.choice(x[1]), rng, far, among)
    if k in ("grp", "non"):
        return sample(x[1], rng, far, among)
    if k == "rep":
        hi = x[3] + far if x[4] is None else min(x[4], x[3] + far) if rng.random() < 0.7 else x[4]
        n = rng.randint(x[3], max(x[3], hi))
        return b"".join(sample(x[1], rng, far if n < 3 else 1, among) for _ in range(n))
    if k == "eol":
        return rng.choice([b"", b"\n"])
    return b""


def effort(x, q):
    """how many ways there are for a backtracking matcher to go through x from all
    positions of q, when nothing that follows ever matches"""
    n = len(q)
    memo = {}

    def ways(x, i):     # {end: number of ways}, total work
        key = id(x), i
        if key in memo:
            return memo[key]
        k = x[0]
        work, out = 1, {}
        if k == "set":
            if i < n and q[i] in x[2]:
                out = {i + 1: 1}
        elif k == "str":
            if q.startswith(x[2], i):
                out = {i + len(x[2]): 1}
        elif k == "bol":
            out = {i: 1}
        elif k == "eol":
            out = {i: 1} if i == n else {i + 1: 1} if q[i] == 10 else {}
        elif k in ("grp", "non"):
            out, work = ways(x[1], i)
        elif k == "seq":
            out = {i: 1}
            for y in x[1]:
                out, more = through(y, out)
                work += more
        elif k == "alt":
            for y in x[1]:
                o, more = ways(y, i)
                work += more
                for j, c in o.items():
                    out[j] = out.get(j, 0) + c
        else:
            now, it = {i: 1}, 0
            while now:
                if it >= x[3]:
                    for j, c in now.items():
                        out[j] = out.get(j, 0) + c
                if it == x[4]:
                    break
                nxt = {}
                for a, c in now.items():
                    o, more = ways(x[1], a)
                    work += c * more
                    for j, d in o.items():
                        if j > a or it < x[3]:
                            nxt[j] = nxt.get(j, 0) + c * d
                now, it = nxt, it + 1
                if work > 10 ** 9:
                    break
        memo[key] = out, work
        return out, work

    def through(y, starts):
        out, work = {}, 0
        for i, c in starts.items():
            o, more = ways(y, i)
            work += c * more
            for j, d in o.items():
                out[j] = out.get(j, 0) + c * d
        return out, work

    return sum(w + sum(o.values()) for o, w in (ways(x, i) for i in range(n + 1)))


AFFORDABLE = 1500
NAMED = {c: s for c, s in zip(b"dwsnaefrt", ("D", "W", "S", {10}, {7}, {27}, {12}, {13}, {9}))}


def parse(p):
    """a tree for a pattern, good enough for effort(); the meaning of patterns is the
    specification's, not this one"""
    sets = {"D": DIGIT, "W": WORD, "S": SPACE}

    def escape(c):
        if c in NAMED:
            s = NAMED[c]
            return frozenset(sets[s] if isinstance(s, str) else s)
        if c in b"DWSN":
            return ALL - (sets[chr(c)] if c != 78 else {10})
        return frozenset([c])

    def atom(i):
        c = p[i]
        if c == 40:
            j = i + 3 if p[i + 1:i + 3] == b"?:" else i + 1
            x, j = branches(j)
            return non(x), j + 1
        if c == 91:
            neg = p[i + 1] == 94
            i += 2 if neg else 1
            s = set()
            while p[i] != 93:
                if p[i] == 92:
                    s |= escape(p[i + 1])
                    i += 2
                elif p[i + 1] == 45 and p[i + 2] != 93:
                    s |= set(range(p[i], p[i + 2] + 1))
                    i += 3
                else:
                    s.add(p[i])
                    i += 1
            return ("set", b"", frozenset(ALL - s if neg else s)), i + 1
        if c == 92:
            d = p[i + 1]
            if d in b"xo" and p[i + 2:i + 3] == b"{":
                e = p.index(b"}", i)
                body = p[i + 3:e].decode()
                return ("str", b"", bytes.fromhex(body) if d == 120 else
                        bytes(int(body[k:k + 3], 8) % 256 for k in range(0, len(body), 3))), e + 1
            m = re.compile(rb"x([0-9a-fA-F]{1,2})|([0-7]{3})").match(p, i + 1)
            if m:
                return ("set", b"", frozenset([int(m[1], 16) if m[1] else int(m[2], 8) % 256])), m.end()
            return ("set", b"", escape(d)), i + 2
        if c == 46:
            return ("set", b"", frozenset(ANY)), i + 1
        return ("set", b"", frozenset([c])), i + 1

    def branch(i):
        xs, first = [], True
        while i < len(p) and p[i] not in b"|)":
            if first and p[i] == 94:
                x, i = BOL, i + 1
            elif p[i] == 36 and (i + 1 == len(p) or p[i + 1] in b"|)"):
                x, i = EOL, i + 1
            else:
                x, i = atom(i)
            m = QUANTIFIER.match(p, i)
            while m and m.end() > i:
                x, i = rep(x, m[0].decode()), m.end()
                m = QUANTIFIER.match(p, i)
            xs.append(x)
            first = False
        return ("seq", xs), i

    def branches(i):
        x, i = branch(i)
        xs = [x]
        while i < len(p) and p[i] == 124:
            x, i = branch(i + 1)
            xs.append(x)
        return alt(*xs) if len(xs) > 1 else xs[0], i

    return branches(0)[0]


QUANTIFIER = re.compile(rb"(?:[*+?]|\{\d+(?:,\d*)?\})[+?]?")


def affordable(p, qs):
    """the queries the specification can answer for p in reasonable time"""
    if len(re.findall(rb"[*+?{]", p)) < 2:
        return qs
    try:
        x = parse(p)
    except (IndexError, ValueError):
        return qs
    return [q for q in qs if len(q) < 3 or effort(x, q) <= AFFORDABLE]




def mutate(s, chars, rng):
    k = rng.randrange(6)
    i = rng.randrange(len(s) + 1)
    if k == 0 and s:
        i = rng.randrange(len(s))
        return s[:i] + s[i + 1:]
    if k == 1:
        return s[:i] + bytes([rng.choice(chars)]) + s[i:]
    if k == 2 and s:
        i = rng.randrange(len(s))
        return s[:i] + bytes([rng.choice(chars)]) + s[i + 1:]
    if k == 3:
        return bytes([rng.choice(chars)]) + s
    if k == 4:
        return s + bytes([rng.choice(chars)])
    return s[:i]


def exhaustive(chars, most):
    """all strings over chars up to a length such that there are at most `most`"""
    chars = sorted(chars)
    out, n = [b""], 0
    while chars:
        n += 1
        if len(out) + len(chars) ** n > most or n > 8:
            break
        out += [bytes(t) for t in itertools.product(chars, repeat=n)]
    return out


def queries(x, rng, all_most=130, samples=30, longest=14, chars=None, far=2):
    """queries for x: all short ones, samples of what it matches, near misses"""
    among = chars
    chars = sorted(set(chars) if chars else alphabet(x)) or [97]
    few = sorted(rng.sample(chars, 4)) if len(chars) > 4 else chars
    out = exhaustive(few, all_most)
    cap = longest
    tries = 0
    extra = []
    while len(extra) < samples and tries < samples * 4:
        tries += 1
        s = sample(x, rng, far, among)
        k = rng.random()
        if k < 0.35:
            s = mutate(s, chars, rng)
            if rng.random() < 0.4:
                s = mutate(s, chars, rng)
        elif k < 0.5:
            s = s + sample(x, rng, far, among)
        elif k < 0.6:
            s = bytes([rng.choice(chars)]) + s + bytes([rng.choice(chars)])
        if len(s) <= cap:
            extra.append(s)
    return list(dict.fromkeys(out + extra))


# --- random patterns ----------------------------------------------------------------
ATOMS_ABC = [lit("a"), lit("b"), lit("c"), lit("a"), lit("b"), cls("[ab]", b"ab"), cls("[^a]", ALL - set(b"a")),
             cls(".", ANY), cls("[a-c]", b"abc"), cls("[bc]", b"bc")]
ATOMS_CLASS = [lit("a"), lit("1"), lit("_"), lit(" "), cls("\\d", DIGIT), cls("\\D", ALL - DIGIT), cls("\\w", WORD),
               cls("\\W", ALL - WORD), cls("\\s", SPACE), cls("\\S", ALL - SPACE), cls("[a\\d]", DIGIT | {97}),
               cls("[^\\s1]", ALL - SPACE - {49}), cls("[0-9a-f]", DIGIT | set(b"abcdef")), cls(".", ANY), lit("."),
               lit("-"), lit("+")]
QUANT = ["*", "+", "?", "*", "+", "?", "{2}", "{1,2}", "{2,}", "{0,2}", "{1,3}", "{3}", "{0,}", "{1,}"] * 2 + ["{1,1}", "{2,2}", "{0,1}", "{0,0}", "{0}", "{1}", "{2,4}"]


def policy(q, rng, lazy=0.25, poss=0.15):
    if "{" in q and "," not in q:
        return q
    k = rng.random()
    return q + ("?" if k < lazy else "+" if k < lazy + poss else "")


class Gen:
    def __init__(self, rng, atoms=None, quant=None, depth=3, weights=None, capture=0.55, width=3,
                 anchors=0.0, lazy=0.25, poss=0.15, max_size=16, max_groups=9):
        self.rng = rng
        self.atoms = atoms or ATOMS_ABC
        self.quant = quant or QUANT
        self.depth = depth
        self.w = weights or {"atom": 3, "seq": 4, "alt": 3, "grp": 1.5, "rep": 4}
        self.capture = capture
        self.width = width
        self.anchors = anchors
        self.lazy = lazy
        self.poss = poss
        self.max_size = max_size
        self.max_groups = max_groups

    def gen(self, d):
        r = self.rng
        if d == 0:
            return r.choice(self.atoms)
        k = r.choices(list(self.w), list(self.w.values()))[0]
        if k == "atom":
            return r.choice(self.atoms)
        if k == "seq":
            xs = [self.delimited(self.gen(d - 1)) for _ in range(r.randint(2, self.width))]
            return ("seq", self.anchored(xs))
        if k == "alt":
            x = alt(*[self.branch(self.gen(d - 1)) for _ in range(r.randint(2, self.width))])
            return grp(x) if r.random() < self.capture else non(x)
        if k == "grp":
            x = self.gen(d - 1)
            return grp(x) if r.random() < 0.8 else non(x)
        x = self.gen(d - 1)
        if x[0] in ("seq", "rep") and r.random() < self.capture:
            x = grp(x)
        return rep(x, policy(r.choice(self.quant), r, self.lazy, self.poss))

    def branch(self, x):
        if self.anchors and self.rng.random() < self.anchors:
            return ("seq", self.anchored([self.delimited(x)], True))
        return x

    def anchored(self, xs, must=False):
        r = self.rng
        if self.anchors and (must or r.random() < self.anchors):
            k = r.random()
            if k < 0.5:
                return [BOL] + xs
            if k < 0.8:
                return xs + [EOL]
            return [BOL] + xs + [EOL]
        return xs

    @staticmethod
    def delimited(x):
        # anchors are only anchors at the beginning or the end of a branch
        if x[0] == "seq" and any(y[0] in ("bol", "eol") for y in x[1]):
            return non(x)
        if x[0] == "alt":
            return non(x)
        return x

    def pattern(self):
        while True:
            x = self.gen(self.depth)
            if self.rng.random() < 0.3:
                x = seq(self.delimited(x), self.delimited(self.gen(1)))
            if self.anchors and self.rng.random() < self.anchors:
                x = ("seq", self.anchored([self.delimited(x)], True))
            if 2 <= size(x) <= self.max_size and groups(x) <= self.max_groups and len(text(x)) < 60:
                return x

    def many(self, n):
        out = {}
        tries = 0
        while len(out) < n and tries < 50 * n:
            tries += 1
            x = self.pattern()
            out.setdefault(text(x), x)
        return list(out.values())


class Text:
    """a pattern given as text, with the strings to begin from"""

    def __init__(self, t, seeds=(), chars=b"ab", all_most=130):
        self.t = t if isinstance(t, bytes) else t.encode("latin1")
        self.seeds = [s if isinstance(s, bytes) else s.encode("latin1") for s in seeds]
        self.chars = sorted(set(chars))
        self.all_most = all_most

    def queries(self, rng, samples=20, longest=24):
        out = exhaustive(self.chars[:4], self.all_most) + self.seeds
        for _ in range(samples):
            if self.seeds:
                s = rng.choice(self.seeds)
                for _ in range(rng.randint(1, 2)):
                    s = mutate(s, self.chars, rng)
                if len(s) <= longest:
                    out.append(s)
        return list(dict.fromkeys(out))
