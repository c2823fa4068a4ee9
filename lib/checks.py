"""What is explored for every property."""
import itertools
import re

import vf
from corpus import (ALL, ANY, ATOMS_ABC, ATOMS_CLASS, BOL, DIGIT, EOL, META, QUANT, SPACE, WORD, Gen, Text, alphabet,
                    alt, cls, exhaustive, groups, grp, lit, mutate, non, policy, queries, rep, sample, seq, size, text,
                    word)
from runner import CheckError, Run, shown

ABC = b"abc"
FIRSTS = dict(size=3, length=3)


def Q(qs):
    return ["Q " + vf.hexed(q) for q in qs]


def G(qs):
    return ["G " + vf.hexed(q) for q in qs]


def S(script, qs):
    return ("S %d %s %d %s" % (len(qs), " ".join(vf.hexed(q) for q in qs), len(script),
                               " ".join("%s %d %d" % o for o in script)))


def programs(run, trees, job=Q, chars=ABC, **kw):
    return [(text(x), job(queries(x, run.rng, chars=chars, **kw))) for x in trees]


def texts(run, items, job=Q, **kw):
    return [(t.t, job(t.queries(run.rng, **kw))) for t in items]


def unique(progs):
    seen = {}
    for p in progs:
        seen.setdefault(p[0], p)
    return list(seen.values())


def engine(run, kinds=("chars",)):
    """the backtracking machine computes the meaning of patterns, and ends"""
    for kind in kinds:
        letters = {97, 98} if kind != "anchors" else {97, 10}
        for deviating in (False, True):
            run.model("MC_Engine", ["CursorInQuery", "MarksAreValid", "RightResult", "CleanStart"], ["Ends"],
                      Size=run.scale(3, 4) if kind != "overlap" else 3, Length=3,
                      Deviating=deviating, Alphabet=letters, AtomKind=kind)


def api(run):
    run.model("MC_Api", ["Confined", "RejectedIsEmpty", "Bounded"], ["Progress", "EndIsFinal", "Isolated"],
              view="View", Length=run.scale(3, 4))


def token_api(run):
    run.model("MC_Token", ["TokensInInput", "MaximalMunch", "Terminates"], ["NoGaps", "EndIsFinal", "Isolated"],
              view="View", Length=run.scale(3, 4))


def spec_programs(run, n, kind="chars"):
    """patterns enumerated by the specification, all short queries"""
    chars = {"chars": b"ab", "anchors": b"a\n", "classes": b"a*5]"}[kind]
    # repetitions of repetitions have exponentially many ways to match
    qs = {n: exhaustive(chars, most) for n, most in ((1, 127), (2, 63), (3, 31))}
    return [(p, Q(qs[min(3, max(1, sum(map(p.count, (b"*", b"+", b"{")))))])) for p in run.spec_patterns(run.scale(4, 5) if kind == "chars" else run.scale(3, 4), kind, n)]


def witnesses(run):
    return [(p, Q(qs + exhaustive(ABC, 121))) for p, qs in run.witnesses()]


def wide(r, chars=b"abcdefghijklmnopqrstuvwxyz"):
    """trees with many branches, parts, groups, levels or members"""
    out = []
    for n in (3, 4, 5, 6, 7, 8, 9, 10, 12, 17, 24):
        cs = r.sample(list(chars), n)
        ls = [lit(c) for c in cs]
        two = [seq(lit(c), lit(d)) if r.random() < .6 else lit(c) for c, d in zip(cs, cs[1:] + cs[:1])]
        out += [alt(*two), grp(alt(*ls)), seq(lit("-"), grp(alt(*two)), lit("-")), seq(*ls),
                rep(non(alt(*ls)), policy(r.choice(QUANT[:6]), r)), rep(grp(seq(*ls)), r.choice(["?", "{2}", "+"])),
                seq(*[rep(x, r.choice(["?", "*", "+?"])) if r.random() < .3 else x for x in ls]),
                cls("[" + bytes(cs).decode() + "]", cs), rep(cls("[^" + bytes(cs).decode() + "]", ALL - set(cs)), "+")]
        if n <= 12:
            out += [seq(*[grp(x) for x in ls]), alt(*[grp(x) for x in two]),
                    seq(*[rep(grp(x), r.choice(["", "?", "*"]) or "{1}") for x in ls]),
                    seq(*[non(alt(x, lit("-"))) for x in ls])]
        x = lit(cs[0])
        for c in cs[1:]:
            k = r.random()
            y = seq(Gen.delimited(x), lit(c)) if k < .4 else seq(lit(c), Gen.delimited(x)) if k < .7 else alt(lit(c), x)
            x = grp(y) if r.random() < .5 else non(y)
        out.append(x)
    return out


def positional(r):
    """alternations and sequences where one part is unlike the others, at every position"""
    out = []
    for n in (2, 3, 4, 5):
        for j in range(n):
            ls = [lit(c) for c in "bcdef"[:n]]
            for odd in (rep(ls[j], "*"), rep(ls[j], "?"), seq(ls[j], lit("a")), lit("a"), seq(rep(lit("a"), "?"), ls[j]), rep(lit("a"), "{0,2}"),
                        cls("[^b-f]", ALL - set(b"bcdef")), grp(seq(ls[j], lit("g")))):
                for kind in (alt, seq):
                    xs = ls[:j] + [odd] + ls[j + 1:]
                    out.append(kind(*[Gen.delimited(x) if kind is seq else x for x in xs]))
    return out


def wide_repetitions(r, n):
    """repeated alternations and sequences of many parts, then what can be taken for one of them"""
    out = []
    while len(out) < n:
        k = r.choice([4, 5, 6, 6, 7, 8, 9, 10, 13, 17])
        cs = r.sample(b"abcdefghijklmnopqrstuvw", k)
        j = r.randrange(k) if r.random() < .6 else r.choice([0, k - 1, 1])
        q = policy(r.choice(["*", "+", "{2,}", "{1,3}", "?"]), r, .3, 0)
        z = lit(cs[j])
        kind = r.randrange(6)
        if kind < 3:                    # the first, the last or any other branch is what follows
            xs = [lit(c) if r.random() < .8 else seq(lit(c), lit(r.choice(cs))) for c in cs]
            body = rep(non(alt(*xs)) if r.random() < .6 else grp(alt(*xs)), q)
            out.append(seq(body, z) if kind else seq(body, z, lit(r.choice(cs))))
        elif kind == 3:                 # what follows are many parts that can be empty
            xs = [rep(lit(c), r.choice(["?", "*", "{0,2}"])) for c in cs]
            xs[j] = rep(lit(cs[j]), r.choice(["?", "+", "*"]))
            out.append(seq(rep(z, q), *xs[:j], *([xs[j]] + xs[j + 1:] if r.random() < .5 else [z])))
        elif kind == 4:                 # what follows is one of many branches
            out.append(seq(rep(z, q), r.choice([non, grp])(alt(*[lit(c) for c in cs])), lit(r.choice(cs))))
        else:                           # the parts of what is repeated
            out.append(seq(rep(non(seq(*[rep(lit(c), "?") for c in cs])), q), z))
    return out


def positional_repetitions(r, n):
    """the optimizer needs every part: something repeated, next to them"""
    out = []
    for x in r.sample(positional(r), n):
        y = non(x) if r.random() < .5 else grp(x)
        k = r.randrange(5)
        q = policy(r.choice(["*", "+", "?", "{2,}", "{1,2}"]), r, .3, 0)
        if k < 2:
            out.append(seq(rep(lit("a"), q), y, lit("a") if r.random() < .5 else lit("b")))
        elif k == 2:
            out.append(seq(rep(y, q), lit("a") if r.random() < .6 else lit("g")))
        elif k == 3:
            out.append(seq(rep(cls("[a-c]", b"abc"), q), y, lit("g")))
        else:
            out.append(seq(rep(lit("a"), q), Gen.delimited(rep(y, r.choice(["?", "*", "+"]))), lit("a")))
    return out


def wide_programs(run, n, job=Q):
    out = []
    for x in run.rng.sample(wide(run.rng), n):
        chars = bytes(sorted(alphabet(x))[:12] + [45])
        some = [sample(x, run.rng) for _ in range(14)]
        qs = some + [mutate(q, chars, run.rng) for q in some] + [some[0] + some[1], b"", b"-" + some[2] + b"-"] + exhaustive(chars[:3], 13)
        out.append((text(x), job(dict.fromkeys(qs))))
    return out


# --- everything, everywhere ------------------------------------------------------------
IP = r"(?:(?:25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9])\.){3}(?:25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9])"
REALISTIC = [
    (r"[\w.\-]+@[\w\-]+\.[\w.]+", ["me@b.io", "to: a.b-c@d-e.co.uk, x@y.z", "@a.b", "a@b", "a@.b c@d.e"]),
    (r"([\w.]+)@([\w\-]+)(?:\.(\w+))+", ["me@b.io", "a.b@c.d.ef g@h.i", "a@b"]),
    (r"[\w]+:\/\/[^\/\s?#]+[^\s?#]+(?:\?[^\s#]*)?(?:#[^\s]*)?", ["see http://a.bc/d?e=f#g now", "ftp://x.y", "a://b", "a:/b", "x://yz?# t://uv#w"]),
    (r"(\w+):\/\/([^\/:\s]+)(?::(\d+))?(\/[^?#\s]*)?", ["http://a.b:80/c", "https://x", "s3://b/k p://h:1", "p:/h"]),
    (IP, ["10.20.30.40", "ip 192.168.010.255;", "256.100.100.100", "25.25.25", "10.20.30.299"]),
    (r"(\d{4})-(\d{2})-(\d{2})", ["2024-01-31", "on 1999-12-01/2000-01-01", "199-12-01", "12024-01-311"]),
    (r"(\d{1,2}):(\d{2})(?::(\d{2}))?\s?(am|pm)?", ["9:05", "12:34:56 pm", "1:2", "at 10:00am, 11:30 pm"]),
    (r'"(?:[^"\\]|\\.)*"'.replace('"', "'"), ["'a b'", "x 'it\\'s' y ''", "'open", "'a\\\\'b'"]),
    (r"'([^']*)'", ["'a' 'b'", "''", "'"]),
    (r"<(\w+)(?:\s+(\w+)=([^\s>]+))*\s*\/?>", ["<a>", "<a b=c d=e/>", "x<y z=1 >w", "<a b>", "<>"]),
    (r"<([a-z]+)>[^<]*<\/[a-z]+>", ["<a>b</a>", "<a></b> <c>d</c>", "<a>b<"]),
    (r"^(\w+)\s*=\s*(.*)$", ["k=v", "a = b c\nd=", "= x", "k\n=v", "x =y\r\nz= w"]),
    (r"^([^:\n]+):\s*(.*)$", ["Host: a.b", "A:1\nB:2\n", ": x", "A:\nB"]),
    (r"^\s*#.*$", ["# a", "  #b\n#c", "a # b", "#\n"]),
    (r"^\s*(?:#.*)?$", ["", "# a", "  \n x\n", "a\n#b"]),
    (r"[+\-]?\d+(?:\.\d+)?(?:[eE][+\-]?\d+)?", ["1", "-2.50e+10", "3.", "x4.5e6y", "1e", "+.5"]),
    (r"[+\-]?(?:\d+\.?\d*|\.\d+)", ["1.", ".5", "-12.75", ".", "1.2.3"]),
    (r"#(?:[0-9a-fA-F]{6}|[0-9a-fA-F]{3})", ["#fff", "#00ff7F;", "#12", "#abcd", "#abcdeg"]),
    (r"([^,\n]*)(?:,([^,\n]*))*", ["a,b,c", ",", "a,,b\nc", ""]),
    (r"(?:([^,]+),)*([^,]+)", ["a,b,c", "a", "a,,b"]),
    (r"\/\*[^*]*\*+(?:[^\/*][^*]*\*+)*\/", ["/* a */", "x/**/y", "/* * / **/ z */", "/*"]),
    (r"\/\/[^\n]*|\/\*.*?\*\/", ["// a\nb", "/* c */ d */", "a / b"]),
    (r"(if|else|while|for|return)|([a-zA-Z_]\w*)|(\d+)|(\s+)|([+\-*\/=<>!]+)", ["if", "iffy x1 = 22", "else return_", "for(a<=b)", "while9"]),
    (r"(?:foo|foobar|bar)(?:baz)?", ["foo", "foobar", "foobarbaz", "foobaz bar", "fobar"]),
    (r"(get|set|is)([A-Z]\w*)", ["getX", "isSet setIs", "get", "gets getS"]),
    (r"(\w+)\s(\w+)", ["ab cd", "a b c d", "a\nb", " a"]),
    (r"\s+$", ["a  ", " \n", "a\t\n b ", "a"]),
    (r"^\s+|\s+$", ["  a  ", "\ta\n", "a b", " \n "]),
    (r"(?:\d{1,3})(?:,\d{3})*(?:\.\d{2})?", ["1", "1,234.50", "12,34", "1234,567", "1,234,567"]),
    (r"\$\{(\w+)\}|\$(\w+)", ["${a}", "$b ${c", "$$d", "${}"]),
    (r"%[\-+ 0#]*\d*(?:\.\d+)?[dfsxc%]", ["%d", "%-5.2f %%", "% s%", "%5"]),
    (r"\((\d{3})\)\s?(\d{3})-(\d{4})", ["(123) 456-7890", "(123)456-7890", "(12)345-6789"]),
    (r"\[(\w+)\]\s(.+?):\s(\d+)$", ["[ab] c d: 12", "[x] y: z: 3", "[a]b: 1"]),
    (r"(a+)(b+)?(c+)?d", ["abcd", "aad", "aaccd", "abcabd", "abbbc"]),
    (r"(?:(\w)(\d))+", ["a1", "a1b2c3", "ab12", "1122"]),
    (r"((?:[a-z]+\.)*)([a-z]+)", ["a.b.c", "abc", ".a", "a..b"]),
    (r"(?:0|[1-9]\d*)", ["0", "10", "007", "x90"]),
    (r"\\(?:[nrt\\]|x[0-9a-f]{2}|[0-7]{1,3})", ["\\n", "\\x4f\\07", "\\\\", "\\x4", "\\8"]),
    (r"[A-Z][a-z]+(?:\s[A-Z][a-z]+)*", ["Ab", "Ab Cd ef", "AB Cd", "a Bc De"]),
    (r".*\.(?:png|jpe?g|gif)$", ["a.png", "b.jpg\nc.jpeg", ".gif ", "a.jpeeg", "x.png.gif"]),
    (r"(?:a|b|ab)(?:c|bcd)(?:d*)", ["abcd", "acd", "abbcd", "bcdd"]),
    (r"^(?:(?:\d+|\*)(?:\s|$)){3}$", ["1 2 3", "* * *", "1 2", "1 2 3 4", "* 5 *\n"]),
    ("[^ -~]+", ["a\x80\xffb", "\n\t", "abc", "\x00\x01"]),
    ("[\xc3][\x80-\xbf]|[a-z]", ["\xc3\xa9", "e\xc3", "\xc3e\xc3\x80"]),
    (r"(\r\n|\r|\n)", ["a\r\nb\rc\nd", "\n\r", "\r\r\n"]),
    (r"^.*\r\n$", ["a\r\n", "b\r\nc\r\n", "\n"]),
    (r"\N+\n?", ["ab\ncd", "\n\n", "\r\n"]),
    (r"(?:[^\\\n]|\\.)+", ["a\\nb", "a\\\nb", "\\"]),
]
ODD_ATOMS = [lit("a"), lit("b"), lit("a"), cls("\\r", {13}), cls("\\n", {10}), cls("\\t", {9}), cls("\\f", {12}), cls("\\e", {27}), cls("\\a", {7}),
             cls("\\x00", {0}), cls("\\x7F", {127}), cls("\\xfe", {254}), cls("\\200", {128}), cls("\\377", {255}), cls("\\061", {49}), cls("\\x41", {65}),
             ("str", b"\\x{6162}", b"ab"), ("str", b"\\x{00ff41}", b"\x00\xffA"), ("str", b"\\o{141062}", b"a2"), ("str", b"\\o{012}", b"\n"), cls("[\\x80-\\xff]"[:0] + "[\x80-\xff]", set(range(128, 256))),
             cls("\\N", ANY), cls(".", ANY), cls("[^\\r\\n]", ALL - {10, 13}), cls("\\s", SPACE), cls("\\S", ALL - SPACE), cls("\\w", WORD), cls("\\W", ALL - WORD), cls("\\d", DIGIT),
             cls("\\D", ALL - DIGIT), lit("."), lit("*"), lit("$"), lit("^"), lit("("), lit("|"), lit("{"), lit("\\"), lit("]"), lit("-"), lit("/"), lit(" "), lit("~"), lit("\x7f"),
             cls("[^\x80-\xff]", set(range(128))), cls("[+\\-.]", b"+-."), cls("[a-zA-Z]", set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")), cls("[^b]", ALL - {98}),
             cls("[^\\w\\s]", ALL - WORD - SPACE), cls("\xe9", {0xe9}), cls("[\xe0-\xef]", set(range(0xe0, 0xf0)))]


def lengthened(x, r, among=None, longest=160):
    """long strings x can match, with the ones it cannot match close by"""
    out = []
    chars = sorted(alphabet(x)) or [97]
    for far in (8, 17, 35, 70):
        s = sample(x, r, far, among)
        while 0 < len(s) < far and r.random() < .8:
            s += sample(x, r, far, among) if r.random() < .7 else bytes([r.choice(chars)])
        s = s[:longest]
        if len(s) > 14:
            out += [s, s[:-1], mutate(s, chars, r), s + bytes([r.choice(chars)]), bytes([r.choice(chars)]) + s]
    return out


def breadth(run, n, job=Q):
    """a little of everything, for every property: a change may need anything to be seen"""
    r = run.rng
    out = []
    for p, seeds in (REALISTIC if run.thorough else r.sample(REALISTIC, min(len(REALISTIC), n // 4))):
        seeds = [s.encode("latin1") for s in seeds]
        chars = sorted(set(b"".join(seeds)))
        qs = [b""] + seeds + [a + b + c for a in seeds[:2] for b in (b"", b" ", b"\n", b"\r\n") for c in seeds[1:3]]
        for _ in range(30):
            s = r.choice(seeds)
            for _ in range(r.randint(1, 3)):
                s = mutate(s, chars, r)
            qs.append(s)
        qs += [b" ".join(r.choice(seeds) for _ in range(8)), b"\n".join(r.choice(seeds) for _ in range(6))]
        out.append((p.encode("latin1"), job(dict.fromkeys(qs))))
    for x in Gen(r, atoms=ODD_ATOMS, anchors=.12, depth=3, width=4, max_size=20).many(n // 4):
        chars = sorted(alphabet(x)) or [97]
        few = [c for c in chars if r.random() < .6][:6] or [97]
        qs = queries(x, r, all_most=25, samples=30, chars=bytes(few + [13, 10]), far=3, longest=24)
        out.append((text(x), job(dict.fromkeys(qs + lengthened(x, r)))))
    deep = Gen(r, anchors=.08, depth=5, width=6, max_size=40, max_groups=20, weights={"atom": 2, "seq": 4, "alt": 4, "grp": 2, "rep": 3})
    trees = {}
    for _ in range(40 * n):
        x = deep.gen(5)
        if len(trees) >= n // 4:
            break
        if 14 <= size(x) <= 60 and len(text(x)) < 140 and groups(x) <= 20:
            trees.setdefault(text(x), x)
    for x in trees.values():
        qs = queries(x, r, all_most=40, samples=40, chars=b"abc", longest=40)
        out.append((text(x), job(qs)))
    for x in Gen(r, atoms=ATOMS_ABC + ATOMS_CLASS[4:12], depth=3, width=3).many(n // 8):
        out.append((text(x), job(dict.fromkeys(lengthened(x, r) + queries(x, r, chars=b"ab1 ", all_most=21, samples=6)))))
    return out + wide_programs(run, max(4, n // 10), job)


# --- C01 -----------------------------------------------------------------------------
def c01(run):
    engine(run)
    r = run.rng
    progs = witnesses(run)
    progs += spec_programs(run, run.scale(150, 1500))
    progs += programs(run, Gen(r).many(run.scale(260, 2600)))
    progs += programs(run, Gen(r, depth=4, max_size=24).many(run.scale(80, 900)), all_most=60)
    progs += programs(run, Gen(r, atoms=ATOMS_CLASS).many(run.scale(60, 700)), chars=b"a1_ .-\n")
    progs += programs(run, Gen(r, anchors=0.25).many(run.scale(40, 500)), chars=b"ab\n")
    progs += wide_programs(run, run.scale(24, 100))
    progs += breadth(run, run.scale(140, 1200))
    run.regexes(unique(progs))
    # as users build
    run.regexes(unique(breadth(run, run.scale(40, 400))), opt="-O2")


# --- C02 -----------------------------------------------------------------------------
OPERANDS = [lit("a"), cls("[ab]", b"ab"), cls(".", ANY), grp(lit("a")), grp(word("ab")), grp(alt(lit("a"), lit("b"))),
            non(alt(word("ab"), lit("a"))), non(alt(lit("a"), word("ab"))), ("str", b"\\x{6162}", b"ab"),
            non(seq(lit("a"), rep(lit("b"), "?"))), grp(seq(rep(lit("a"), "?"), lit("b"))), cls("[^a]", ALL - {97}),
            grp(rep(lit("a"), "{1,2}")), non(rep(lit("a"), "?")), lit("+"), cls("\\d", DIGIT)]
BOUNDS = ["*", "+", "?", "{1}", "{2}", "{3}", "{0,}", "{1,}", "{2,}", "{0,1}", "{0,2}", "{1,2}", "{1,3}", "{2,4}",
          "{0,3}", "{1,1}", "{2,2}", "{5}", "{4,6}", "{0}", "{0,0}", "{02}", "{00,1}", "{01,003}", "{003,}"]
WIDE = ["{10}", "{11}", "{10,}", "{9,11}", "{0,10}", "{12,15}", "{1,12}", "{20}", "{31}", "{32,34}", "{63,65}", "{100}", "{99,101}", "{10,100}"]
FOLLOWS = [None, lit("a"), lit("b"), lit("c"), word("ab"), rep(lit("a"), "?"), alt(lit("a"), lit("c")),
           grp(cls("[ab]", b"ab")), rep(lit("b"), "*"), cls(".", ANY), seq(rep(lit("a"), "*"), lit("c")),
           grp(alt(word("ab"), lit("b")))]


def repetition_queries(run, x, follow, lo, hi):
    r = run.rng
    out = []
    ks = sorted({max(0, k) for k in (0, 1, 2, lo - 1, lo, lo + 1, (hi or lo + 2) - 1, hi or lo + 2, (hi or lo + 2) + 1,
                                     (hi or lo + 2) + 3)})
    tails = [b""] + ([sample(follow, r, among=ABC) for _ in range(2)] if follow else [b"a", b"c"])
    for k in ks:
        for tail in tails:
            for _ in range(2 if k < 5 else 1):
                one = [sample(x, r, among=ABC) for _ in range(2)]
                s = b"".join(one[i % 2] if r.random() < .6 else one[0] for i in range(k))
                out.append(s + tail)
                if r.random() < .3:
                    out.append(b"b" + s + tail + b"a")
    return out


# numbers N stands for; queries unit^(N + k) tail
LARGE = [("a{%0}", b"a", b"", (-1, 0, 1, 2), 1), ("^a{%0}$", b"a", b"", (-1, 0, 1), 0), ("^a{%0,}b", b"a", b"b", (-1, 0, 1, 3), 0), ("^a{%0,}?b", b"a", b"b", (-1, 0, 2), 0),
         ("^a{2,%0}b", b"a", b"b", (-1, 0, 1), 0), ("^a{2,%0}", b"a", b"b", (0, 1, 3), 0), ("^a{0,%0}+b", b"a", b"b", (0, 1), 0), ("^a{%0,%1}b", b"a", b"b", (-1, 0, 1, 2), 0),
         ("^a{%0,%1}?b", b"a", b"b", (-1, 0, 1, 2), 0), ("^a{%0,%2}+b", b"a", b"b", (-1, 0, 2, 3), 0), ("^(?:ab){%0}c", b"ab", b"c", (-1, 0, 1), 0), ("^(ab){%0,}c", b"ab", b"c", (-1, 0, 1), 0),
         ("^(a|b){%0,%1}?c", b"a", b"c", (-1, 0, 1, 2), 0), ("^([ab]){%0}$", b"b", b"", (-1, 0, 1), 0), ("^a{%0,}+b", b"a", b"b", (-1, 0), 0)]
NUMBERS = [19, 99, 100, 127, 128, 254, 255, 256, 257, 300, 512, 999, 1000, 1024, 4096, 9999, 10000, 32767, 32768, 65534, 65535, 65536, 65537, 100000]


# repetitions of something empty, as often as the bounds ask for
EMPTY_LARGE = [("^(?:a?){%0}b", b"a", b"b", (-3, -1, 0, 1), 0), ("^(?:a?){%0}+b", b"a", b"b", (-3, -1, 0, 1), 0), ("^(?:a?){%0,}b", b"a", b"b", (-2, 0, 2), 0), ("^(?:a?){%0,}+b", b"a", b"b", (-2, 0, 2), 0),
               ("^(?:a?){%0,}?b", b"a", b"b", (-2, 0, 2), 0), ("^(?:a*){%0}+b", b"a", b"b", (-1, 0, 1), 0), ("^(?:a*){%0,%2}b", b"a", b"b", (-1, 0, 1), 0), ("^(?:a*){2,%0}?b", b"a", b"b", (0, 1), 0),
               ("^(?:(?:a{0,1}){%0,}+)b", b"a", b"b", (-1, 0), 0), ("^(a?){%0,%1}+b", b"a", b"b", (-1, 0, 1, 2), 0), ("^(?:a|b?){%0}c", b"a", b"c", (-1, 0), 0), ("^(?:a??){%0,}+b", b"a", b"b", (-1, 0), 0)]


def form(n, large):
    """the pattern and queries of a line above"""
    p, unit, tail, deltas, every = large
    parts, post = [], p
    while "%" in post:
        t, post = post.split("%", 1)
        parts.append({"t": list(t.encode()), "d": int(post[0])})
        post = post[1:]
    t = p
    for d in "012":
        t = t.replace("%" + d, str(n + int(d)))
    return (t.encode(), [f"L {n + d} {unit.hex()} {tail.hex() or '-'} {every}" for d in deltas if n < 20000 or p[0] == "^" or d >= 0],
            {"parts": parts, "post": list(post.encode()), "n": n})


def large_bounds(run):
    r = run.rng
    programs = []
    chosen = NUMBERS if run.thorough else [99, 128, 255, 256, 1000, 65535, 65536, 100000]
    for n in chosen:
        few = LARGE if run.thorough else r.sample(LARGE, 7) if n in (255, 256, 1000, 65536) else r.sample(LARGE, 4)
        programs += [form(n, x) for x in few]
    # without upper bound
    for q in ("*", "+", "{0,}", "{1,}", "{2,}", "{3,}"):
        for policy_ in ("", "?", "+"):
            for x, unit in (("a", b"a"), ("[ab]", b"ab"), ("(a)", b"a"), ("(?:ab)", b"ab"), ("(a|b)", b"ba"), (".", b"a1")):
                if run.thorough or x == "a" or r.random() < .25:
                    programs.append((("^" + x + q + policy_ + "c").encode(), [f"L {n} {unit.hex()} {t} 0" for n in (260, 1030, 66000) for t in ("63", "64")]))
                    programs.append(((x + q + policy_).encode(), [f"L {n} {unit.hex()} {t} 0" for n in (300, 70000) for t in ("-", "63")]))
    # repetitions given back, or added late
    late = [(x + q + f, unit) for x, unit in (("a", b"a"), ("[ab]", b"b"), ("(a)", b"a"), ("(?:ab)", b"ab"), ("(?:a|b)", b"b"), (".", b"b"))
            for q in ("*", "+", "{2,}") for f in ("%", "%%", "(?:%|c)", "(%)", "%?%")]
    for p, unit in late if run.thorough else r.sample(late, 14):
        last = unit.decode() if "(?:ab)" in p else unit.decode()[-1]
        ns = (126, 127, 128, 129, 254, 255, 256, 257, 258, 32768, 65534, 65535, 65536, 65537, 65538, 70000, 131073)
        for n in ns if run.thorough else r.sample(ns[:9], 3) + [65535, 65536, 65537, 65538]:
            programs.append((p.replace("%", last).encode(), [f"L {n // len(unit) + d} {unit.hex()} {t} 0" for d in (0, 1) for t in ("-", "63")]))
    merged = {}
    for x in programs:
        if len(x) == 2:
            merged.setdefault(x[0], (x[0], []))[1].extend(x[1])
    run.longs([x for x in programs if len(x) > 2] + list(merged.values()))


def c02(run):
    engine(run, ("chars", "overlap"))
    r = run.rng
    progs = witnesses(run)
    combos = [(x, q, p, f) for x in OPERANDS for q in BOUNDS for p in ("", "?", "+") for f in FOLLOWS]
    r.shuffle(combos)
    chosen, pairs = [], set()
    for x, q, p, f in combos:   # every operand with every quantifier, every quantifier with everything that follows
        i = id(x), q, p
        j = q, p, id(f)
        if i not in pairs or j not in pairs:
            pairs.update((i, j))
            chosen.append((x, q, p, f))
    n = run.scale(420, len(combos))
    chosen = (chosen + combos)[:n] if len(chosen) > n else chosen + combos[:n - len(chosen)]
    chosen = chosen[:n]
    for x, q, p, f in chosen:
        # {n}+ and {n}? are {n}
        y = rep(x, q + p)
        whole = y if f is None else seq(y, non(f) if f[0] == "alt" else f)
        qs = repetition_queries(run, x, f, y[3], y[4]) + exhaustive(ABC, 121)
        progs.append((text(whole), Q(dict.fromkeys(qs))))
    for x, q, f in itertools.product(OPERANDS[:5] + OPERANDS[8:9], WIDE, FOLLOWS[:4] + FOLLOWS[7:8]):
        if not run.thorough and r.random() > (.05 if q in ("{100}", "{99,101}", "{10,100}") else .2):
            continue
        y = rep(x, policy(q, r))
        whole = y if f is None else seq(y, f)
        progs.append((text(whole), Q(dict.fromkeys(repetition_queries(run, x, f, y[3], y[4])))))
    progs += programs(run, Gen(r, weights={"atom": 2, "seq": 4, "alt": 1.5, "grp": 1, "rep": 8},
                               quant=BOUNDS).many(run.scale(160, 1800)))
    progs += breadth(run, run.scale(70, 600))
    run.regexes(unique(progs))
    large_bounds(run)


# --- C03 -----------------------------------------------------------------------------
C03_FIXED = ["(a)|b", "((a)|b)*", "((a)|(b))*", "(?:(a)|(b))*", "(?:(a)|(b)|(c))+", "(a)?b", "(a)?(b)?(c)?", "(a*)(a*)",
             "(a*?)(a*)", "(a|ab)(c|bcd)", "(a|ab)(bc|c)?", "((a)b)?a", "((a)b|a)c", "(?:(a)b|a)c", "(?:(a)b)?a", "(a)*c|b",
             "(?:(a)c)*?(b)", "(?:(a)|b)*c", "(a(b)?)+", "(a(b)?)*c", "((a)(b))*", "(?:(a)(b)?)+?c", "(a)+?(ab)?",
             "(?:(a)|(b))*?c", "((a|b)c?)+", "(?:(a)b|(a)c|(a)a)", "(((a)b)c)?", "((a)*b)*", "(a)b|(a)c", "(?:(a))*b|a(.)",
             "(a){2}", "(a){2}(b)?", "(.)(.)", "(.)*", "(.)*?c", "(?:(.)(.))*c", "(a?)*", "(a?)+b", "(a*)*b", "()" [:0] or "(a)(b)?(a)",
             "(a)*+(b)", "(?:(a)|(b))*+", "(?:(a)|(b))++c", "(a)?+(a)", "(?:(a)(b))?+(a)", "((a)|(b)){2}", "((a)|(b)){2,}?c",
             "(a(b(c)?)?)?", "(?:(a)(?:(b)|(c)))+", "((?:(a)|b)+)c", "(?:(a+)b)+c", "((a)+b)+", "(?:a(b)|(c))*a"]


def c03(run):
    engine(run)
    api(run)
    r = run.rng
    progs = witnesses(run)
    progs += [(p.encode(), Q(exhaustive(ABC, 400))) for p in C03_FIXED]
    w = {"atom": 2, "seq": 4, "alt": 4, "grp": 4, "rep": 4}
    progs += programs(run, Gen(r, capture=0.95, weights=w, depth=3, max_size=20).many(run.scale(320, 3000)))
    progs += programs(run, Gen(r, capture=0.95, weights=w, depth=4, max_size=30, width=2).many(run.scale(80, 900)),
                      all_most=60)
    progs += spec_programs(run, run.scale(60, 600))
    progs += wide_programs(run, run.scale(30, 100))
    progs += breadth(run, run.scale(90, 700))
    run.regexes(unique(progs), full=False)


# --- C04 -----------------------------------------------------------------------------
def c04(run):
    api(run)
    engine(run)
    r = run.rng
    progs = witnesses(run)
    trees = Gen(r, capture=0.9).many(run.scale(200, 2000))
    late = [seq(Gen.delimited(x), lit("c")) for x in Gen(r, capture=0.9, atoms=ATOMS_ABC[:2] + ATOMS_ABC[5:6]).many(run.scale(160, 1500))]
    progs += programs(run, trees) + programs(run, late, samples=50)
    progs += breadth(run, run.scale(80, 700))
    run.regexes(unique(progs), full=True)


# --- C05 -----------------------------------------------------------------------------
NULLABLE = ["a*", "a*?", "a?", "(a)*", "(?:a|b)*", "a*|b", "b|a*", "(?:a?b?)*", "a{0,2}", "(a*)b?", "[ab]?", "a??", "a*+",
            "^", "$", "^a*", "a*$", "(^)?a", "(?:^|b)a*", "a|$", "(?:a*)*", "(?:a|$)+", "b*?c?", ".*", ".*?", "[^a]*", "(.)?",
            "a+", "ab", "a|ab", "ab|a", "(a)(b)?", "a+?", "aa", "aba", "a.a", "(a|b)(c)?", "\\d*", "\\w+", "\\s*a"]


def c05(run):
    api(run)
    r = run.rng
    qs = exhaustive(b"ab\n", 121) + exhaustive(ABC, 121)
    progs = [(p.encode(), Q(dict.fromkeys(qs))) for p in NULLABLE]
    w = {"atom": 3, "seq": 3, "alt": 3, "grp": 1.5, "rep": 5}
    progs += programs(run, Gen(r, weights=w, quant=["*", "?", "*", "{0,2}", "+", "{2}", "{0,}"]).many(run.scale(240, 2400)),
                      longest=20)
    progs += programs(run, Gen(r, anchors=0.4, atoms=ATOMS_ABC[:2] + [cls("[a\n]", b"a\n"), cls(".", ANY)]).many(run.scale(60, 600)),
                      chars=b"ab\n", longest=20)
    progs += breadth(run, run.scale(80, 700))
    progs = unique(progs)
    scripts = run.scripts(run.scale(400, 4000), 14, False)
    with_scripts = []
    for i, (p, jobs) in enumerate(progs):
        mine = []
        for s in r.sample(scripts, 6 if i < len(NULLABLE) else 2):
            some = [bytes.fromhex(j[2:].replace("-", "")) for j in r.sample(jobs, 2)]
            mine.append(S(s, some + [some[0] + some[1]]))
        with_scripts.append((p, jobs + mine))
    progs = wide_programs(run, run.scale(16, 100))
    run.regexes(with_scripts + [p for p in progs if p[0] not in {x[0] for x in with_scripts}], full=True, known="ignore")
    # many matches
    many = [(p, unit, tail) for p, unit, tail in (
        ("a*", b"ab", b""), ("a?", b"ab", b"c"), ("a", b"aab", b""), ("(a)|(b)", b"abc", b""), ("b*", b"a", b""), ("^", b"a\n", b""), ("$", b"a\n", b"a"), ("^a", b"a\nb\n", b""),
        ("a+?", b"aa", b"b"), ("(a)(b)?", b"aab", b""), ("ab|a", b"aba", b"b"), (".", b"a\n", b""), ("a{2}", b"aab", b""), ("[^a]*", b"ab", b""), ("\\w+", b"ab1 ", b""), ("(?:a|b)c?", b"abc", b""),
        ("a$", b"a\n", b"ab"), ("a??", b"ab", b""), ("(a*)(b*)", b"ab", b"c"), ("a*+", b"aab", b""))]
    jobs = {}
    for p, unit, tail in many:
        jobs[p.encode()] = [f"L {n} {unit.hex()} {tail.hex() or '-'} 1" for n in (40, 128, 300, run.scale(5000, 30000))]
    run.longs(list(jobs.items()))


# --- C06 -----------------------------------------------------------------------------
def c06(run):
    engine(run, ("anchors",))
    r = run.rng
    fixed = ["a", "ab", "a$", "$", "^a", "^", "^$", "a\\n", "a*", "a+?", "[ab]", "[^a]", "[^a]+", ".", "..", ".*", "\\d", "\\D", "\\w",
             "\\W", "\\s", "\\S", "\\x61", "\\x{6162}", "\\x{616263}", "\\141", "\\o{141142}", "(a)(b)?", "(?:ab)*", "(?:ab|abc)", "abc|ab",
             "a{2}", "a{1,3}b", "a(?:$|b)", "(^a|b$)", "(?:^|a)b", "\\n", "\\N", "[^\\n]", "[^\\d]$", "(a|$)+", "\\.", "a?$", "^a*$",
             "a[^b]", "ab[^c]", "[^a][^b]", "(?:[^a])*", "(?:a[^a])+?$", "a++a", "a*?$", "(.)$", "^.$", "[a-c]{2,}", "a\\x{62}"]
    chars = b"ab\n"
    qs = exhaustive(chars, 121)
    progs = [(p.encode(), G(qs + [b"abc", b"abab", b"aab", b"aaa\n", b"0", b"a0", b" ", b"A", b"\x00", b"a\x00", b"\xff"]))
             for p in fixed]
    progs += programs(run, Gen(r, anchors=0.3, atoms=ATOMS_ABC + [cls("[^b]", ALL - {98}), ("str", b"\\x{6162}", b"ab")]).many(
        run.scale(200, 2000)), job=G, chars=b"abc\n", all_most=90)
    progs += programs(run, Gen(r, atoms=ATOMS_CLASS, anchors=0.2).many(run.scale(60, 700)), job=G, chars=b"a1_ -\n", all_most=60)
    progs += breadth(run, run.scale(90, 700), job=G)
    run.regexes(unique(progs), known="ignore")
    # what is undefined may go unnoticed without optimization
    run.regexes(unique(breadth(run, run.scale(40, 400), job=G)), known="ignore", opt="-O2")
    toks = tokenizers(run, run.scale(16, 150))
    run.tokenizers([(d, G(qs)) for d, qs in toks])
    literals(run, [(p.encode(), LITERALS) for p in LITERAL_PATTERNS])
    literal_tokens(run, [(d, LITERALS + r.sample(qs, 6)) for d, qs in toks[:20]])


# --- C07 -----------------------------------------------------------------------------
def class_texts(run, n):
    """(text, characters)"""
    r = run.rng
    out = [(".", ANY), ("\\d", DIGIT), ("\\D", ALL - DIGIT), ("\\w", WORD), ("\\W", ALL - WORD), ("\\s", SPACE),
           ("\\S", ALL - SPACE), ("\\n", {10}), ("\\N", ALL - {10}), ("\\a", {7}), ("\\e", {27}), ("\\f", {12}), ("\\r", {13}),
           ("\\t", {9})]
    out += [(t, None) for t in
            ["[a]", "[^a]", "[ab]", "[^ab]", "[a-z]", "[^a-z]", "[a-zA-Z]", "[^a-zA-Z0-9]", "[0-9a-f]", "[\\d]", "[^\\d]", "[\\D]",
             "[^\\D]", "[\\w]", "[^\\w]", "[\\W]", "[^\\W]", "[\\s]", "[^\\s]", "[\\S]", "[^\\S]", "[\\n]", "[^\\n]", "[\\N]", "[^\\N]", "[\\d\\s]", "[^\\d\\s]",
             "[\\w-]", "[^\\w.]", "[.]", "[^.]", "[+*?]", "[^+*?]", "[a-]", "[^a-]", "[-a]", "[\\]]", "[^\\]]", "[\\[]", "[\\\\]", "[^\\\\]", "[\\^]",
             "[\\-a]", "[a\\-z]", "[$]", "[^$]", "[ -~]", "[^ -~]", "[!-/]", "[:-@]", "[a-a]", "[^a-a]", "[a-cx-z]", "[^a-cx-z]", "[a-ce]",
             "[ea-c]", "[\\t\\r]", "[^\\t\\r]", "[\\.\\-\\+]", "[A-Z_]", "[,-.]", "[0-9.]", "[^0-9.]", "[\x01-\x1f]", "[^\x01-\x1f]", "[a^]", "[}]", "[^}]",
             "[)]", "[^)]", "[a-f0-9A-F_]", "[^a-f0-9A-F_]", "[\\da-f]", "[^\\da-f]", "[\\w\\s]", "[^\\w\\s]", "[\\W\\d]", "[^\\W\\d]", "[\\S\\n]", "[^\\S\\n]",
             "[\\D5]", "[^\\D5]", "[\\e\\a]", "[\\f-]", "[\x7f]", "[^\x7f]", "[z]", "[\x80]", "[^\x80]", "[\x80-\xff]",
             "[^\x80-\xff]", "[\xc0-\xdf]", "[^\xa0-\xbf]", "[a-z\xe0-\xf6]", "[^a-z\xe0-\xf6]", "[\xe9a]", "[\xff]", "[^\xff]", "[\\d\xb2\xb3]", "[\\w\xaa-\xff]", "[^\\s\xa0]",
             "[\x90-\x9f0-9]", "[\xfe-\xff]", "[\x80-\x81]", "[aA]", "[^aA]", "[=]", "[;#@]", "[^;#@&%]", "['\"]", "[/]",
             "[(]", "[^(]", "[()]", "[^()]", "[|]", "[a|b]", "[^|]", "[{]", "[{}]", "[^{}]", "[[]", "[^[]", "[[(]", "[a{2}]", "[(-+]", "[!-)]", "[{-~]", "[z-|]",
             "[^(-+]", "[a|]", "[(a)]", "[?:]", "[(?:]", "[{,}]", "[\\(\\)]", "[\\{(]", "[([{|})]", "[^([{|})]"]]
    plain = [c for c in range(33, 127) if c not in b"]\\^-"]
    for _ in range(n):
        t = "[" + ("^" if r.random() < .5 else "")
        for _ in range(r.randint(1, 5) if r.random() < .8 else r.randint(6, 16)):
            k = r.random()
            if k < .06:
                t += "%c-%c" % tuple(sorted(r.sample(range(128, 256), 2)))
            elif k < .1:
                t += chr(r.randrange(128, 256))
            elif k < .4:
                a, b = sorted(r.sample(plain, 2))
                t += chr(a) + "-" + chr(b)
            elif k < .6:
                t += chr(r.choice(plain))
            elif k < .85:
                t += r.choice(["\\d", "\\w", "\\s", "\\n", "\\D", "\\W", "\\S", "\\t"])
            else:
                t += "\\" + r.choice("]^-\\[.")
        out.append((t + "]", None))
    return out


def c07(run):
    run.model("MC_Chars", ["HexForms", "OctalForms", "Escaped", "Literal", "Classes"])
    r = run.rng
    every = [bytes([c]) for c in range(256)]
    progs = []
    for t, _ in class_texts(run, run.scale(60, 600)):
        b = t.encode("latin1")
        shuffled = [bytes(r.sample(range(256), 64)) for _ in range(4)]
        progs.append((b, Q([b""] + every)))
        progs.append((b + r.choice([b"+", b"*", b"{2}", b"{1,3}", b"+?a", b"*+", b"?"]), Q(shuffled)))
        progs.append((r.choice([b"a", b"(", b"(?:b|", b"a*", b"."]) , []) if False else
                     (b"a" + b + b"b", Q([b"a" + c + b"b" for c in every])))
        k = r.randrange(6)
        if k == 0:
            progs.append((b"(" + b + b")(" + b + b")?", Q([c + d for c in every[::3] for d in (b"a", b"0", b" ")])))
        elif k == 1:
            progs.append((b"(?:" + b + b"|a)b", Q([c + b"b" for c in every])))
        elif k == 2:
            progs.append((b"(?:" + b + b")+b", Q([c + b"ab" for c in every[::2]] + shuffled)))
        elif k == 3:
            progs.append((b"^" + b + b"$", Q(every + [c + b"\n" for c in every[::5]])))
        elif k == 4:
            progs.append((b + b"?b", Q([c + b"b" for c in every])))
        else:
            progs.append((b"(?:a" + b + b")*?b", Q([b"a" + c + b"b" for c in every])))
    # literals: every character that is not an operator
    for c in range(1, 256):
        if c in META or c in b"\"":
            continue
        progs.append((bytes([c]), Q(every if run.thorough else [bytes([d]) for d in
                      sorted({c, c ^ 1, c ^ 32, c ^ 128, 0, 10, 97, 255, (c + 1) % 256})])))
    run.regexes(unique(progs), known="violation")


# --- C08 -----------------------------------------------------------------------------
H_ATOMS = [lit("a"), lit("b"), cls("[ab]", b"ab"), cls("[bc]", b"bc"), cls("[^a]", ALL - {97}), cls(".", ANY), lit("c"),
           cls("[^ab]", ALL - set(b"ab")), cls("[a-c]", b"abc")]
C_ATOMS = [cls("\\d", DIGIT), cls("\\w", WORD), cls("\\D", ALL - DIGIT), cls("\\W", ALL - WORD), cls("\\s", SPACE), lit("a"), lit("1"),
           cls("[0-4]", b"01234"), cls("[^0-4]", ALL - set(b"01234")), lit("_"), cls("[a1]", b"a1"), cls("\\S", ALL - SPACE)]


def heuristic_tree(run, atoms):
    r = run.rng

    def repeated():
        k = r.random()
        a = r.choice(atoms)
        if k < .5:
            return a
        if k < .65:
            return grp(a)
        if k < .8:
            return non(seq(a, r.choice(atoms)))
        if k < .9:
            return grp(alt(a, r.choice(atoms)))
        return non(alt(a, seq(r.choice(atoms), r.choice(atoms))))

    def follower():
        k = r.random()
        a = r.choice(atoms)
        if k < .3:
            return [a]
        if k < .4:
            return [rep(a, r.choice(["?", "*", "{0,1}", "??", "*?"])), r.choice(atoms)]
        if k < .5:
            return [grp(alt(a, seq(r.choice(atoms), r.choice(atoms))))]
        if k < .6:
            return [non(alt(a, r.choice(atoms)))]
        if k < .68:
            return [grp(seq(rep(a, "?"), r.choice(atoms)))]
        if k < .76:
            return [rep(grp(a), r.choice(["+", "{2}", "{1,2}", "?", "*"]))]
        if k < .84:
            return [rep(a, r.choice(["+", "+?", "{2,}"])), r.choice(atoms)]
        if k < .9:
            return []
        return [a, r.choice(atoms)]

    def unit():
        q = r.choice(["*", "+", "?", "{2,}", "{1,2}", "{0,2}", "{1,}", "{0,}", "*", "+"]) + r.choice(["", "", "?"])
        return [rep(repeated(), q)] + follower()

    xs = unit() + (unit() if r.random() < .4 else [])
    if r.random() < .25:
        xs = [r.choice(atoms)] + xs
    x = seq(*xs)
    k = r.random()
    if k < .15:
        x = seq(grp(x), *follower())
    elif k < .25:
        x = seq(non(alt(x, seq(*unit()))), *follower())
    elif k < .33:
        x = seq(rep(grp(x), r.choice(["?", "+", "*", "{2}"])), *follower())
    elif k < .4:
        x = alt(x, seq(*unit()))
    return x


def c08(run):
    run.model("MC_Heuristics", ["SameMatches", "SameAttributes"], ["Finishes"],
              Size=4, Length=run.scale(4, 5), Deviating=True)
    run.model("MC_First", ["FirstIsRight", "NullableIsRight", "SizeIsRight"], Size=3, Length=4, Exactly=True)
    run.model("MC_First", ["FirstIsRight", "NullableIsRight", "SizeIsRight"], Size=3, Length=4, Exactly=False)
    trees = {}
    while len(trees) < run.scale(420, 4500):
        x = heuristic_tree(run, H_ATOMS)
        if len(text(x)) < 60:
            trees[text(x)] = x
    progs = programs(run, trees.values(), chars=ABC, all_most=130, samples=30)
    more = {}
    while len(more) < run.scale(140, 1500):
        x = heuristic_tree(run, C_ATOMS)
        if len(text(x)) < 60:
            more[text(x)] = x
    progs += programs(run, more.values(), chars=b"a1_ 7", all_most=90, samples=40)
    progs += spec_programs(run, run.scale(100, 1800))
    anchored = Gen(run.rng, anchors=.5, atoms=[lit("a"), lit("b"), cls("\\s", SPACE), cls(".", ANY), cls("[^a]", ALL - {97}), lit("\n")],
                   weights={"atom": 3, "seq": 5, "alt": 2, "grp": 1, "rep": 6}).many(run.scale(60, 600))
    progs += programs(run, anchored, chars=b"ab\n")
    # every class, then the characters around its edges
    for t, chars in BASIC:
        near = [c for c in edges(chars, run.rng, 4) if c]
        for c in near if run.thorough else run.rng.sample(near, min(5, len(near))):
            some = [x for x in (sorted(chars)[0], sorted(chars)[-1], run.rng.choice(sorted(chars)))]
            q = run.rng.choice(["*", "+", "{2,}", "*?", "{1,3}", "?"])
            d = bytes([c])
            qs = [d, d * 2, d * 3, b"a"] + [bytes([x]) * k + d + e for x in some for k in (1, 2, 3) for e in (b"", d, bytes([x]))]
            progs.append((t.encode("latin1") + q.encode() + char_text(c), Q(dict.fromkeys(qs))))
    progs += programs(run, positional_repetitions(run.rng, run.scale(110, 320)), chars=b"abcg", all_most=85, samples=40)
    progs += wide_programs(run, run.scale(20, 100))
    for x in wide_repetitions(run.rng, run.scale(60, 600)):
        chars = bytes(sorted(alphabet(x)))
        some = [sample(x, run.rng) for _ in range(25)]
        qs = some + [mutate(q, chars, run.rng) for q in some] + [q[:-1] for q in some[:8]] + [q + q[-1:] for q in some[:8]] + [bytes([c]) * k for c in chars for k in (1, 2, 3)]
        progs.append((text(x), Q(dict.fromkeys(qs))))
    progs += breadth(run, run.scale(70, 700))
    run.regexes(unique(progs), known="ignore")


# --- C09 -----------------------------------------------------------------------------
E_ATOMS = [lit(c) for c in "ab.*+?|()[]{}^$\\-/,:= "] + [cls("[a*]", b"a*"), cls("[^a\\]]", ALL - set(b"a]")), cls("[\\\\^a]", b"\\^a"),
           cls("[+\\-]", b"+-"), cls("\\d", DIGIT), cls("\\W", ALL - WORD), cls("\\n", b"\n"), lit("\n"), lit("\t"),
           ("set", b"\\x2a", frozenset(b"*")), ("set", b"\\x0a", frozenset(b"\n")), ("str", b"\\x{2b61}", b"+a"), ("str", b"\\o{050141}", b"(a"),
           ("set", b"\\x7f", frozenset([127])), ("set", b"\\x80", frozenset([128])), ("set", b"\\xff", frozenset([255])), cls(".", ANY),
           cls("[\\d.]", DIGIT | {46}), cls("[^.]", ALL - {46}), ("set", b"\\134", frozenset(b"\\"))]


def c09(run):
    run.model("MC_Parse", ["SameTree", "WellFormed", "Numbering"], Size=4, Printing=False, AtomKind="classes")
    run.model("MC_Heuristics", ["SameMatches", "SameAttributes"], ["Finishes"], Size=4, Length=3, Deviating=True)
    r = run.rng
    trees = []
    trees += Gen(r, atoms=E_ATOMS, anchors=.15).many(run.scale(150, 1500))
    trees += Gen(r, anchors=.2).many(run.scale(90, 900))
    trees += Gen(r, depth=4, max_size=24).many(run.scale(40, 500))
    items = {}
    for x in trees:
        chars = sorted(alphabet(x))
        items[text(x)] = (queries(x, r, chars=bytes(chars[:6]) if len(chars) > 6 else bytes(chars) or b"a", all_most=60, samples=30), 0)
    for p, jobs in breadth(run, run.scale(90, 700)):
        items[p] = ([bytes.fromhex(j[2:].replace("-", "")) for j in run.affordable(p, jobs)][:40], 0)
    for x in wide(r):
        some = [sample(x, r) for _ in range(6)]
        items[text(x)] = (some + [mutate(q, sorted(alphabet(x)), r) for q in some], 0)
    for c in range(1, 256):
        if c in META or c == 34:
            t = b"\\" + bytes([c])
        else:
            t = bytes([c])
        items.setdefault(t + b"+a" if c != 97 else b"a+b", ([bytes([c]) * 2 + b"a", b"a", bytes([c]), b"aab"], 0))
    # repetitions of a class, then something the class does not contain
    disjoint = [(cls("\\d", DIGIT), "a"), (cls("\\s", SPACE), "1"), (cls("[a-c]", b"abc"), "d"), (cls("\\w", WORD), "-"),
                (cls("[^x]", ALL - {120}), "x"), (cls("\\D", ALL - DIGIT), "5"), (cls("[0-4]", b"01234"), "5"), (cls("\\W", ALL - WORD), "a"),
                (cls("[ab]", b"ab"), "c"), (cls(".", ANY), "\n"), (cls("\\S", ALL - SPACE), " "), (cls("[^\\d]", ALL - DIGIT), "0")]
    for c, f in disjoint:
        for q in ["*", "+", "{2,}", "{1,3}", "*?", "+?", "{0,}"]:
            for wrap in (0, 1, 2):
                y = seq(rep(c, q), lit(f)) if wrap == 0 else grp(seq(rep(c, q), lit(f))) if wrap == 1 else \
                    seq(lit("z"), rep(c, q), lit(f), lit("z"))
                items[text(y)] = (queries(y, r, all_most=40, samples=20), 1)
    items[b"\\d+\\s+123"] = ([b"1 123", b"12  123", b"1123", b"1 12"], 1)
    for q in ("{19}", "{90}", "{29,39}", "{9,}", "{0,9}", "{99}", "{109,190}", "{8,18}?", "{45,67}", "{123}", "{10,}", "{100,}+", "{0,80}", "{7}"):
        lo = int(re.match(r"\{(\d+)", q)[1])
        for x in (seq(rep(lit("a"), q), lit("b")), seq(rep(grp(word("ab")), q), lit("c")), rep(cls("\\d", DIGIT), q)):
            one = b"a" if x[0] == "seq" and x[1][0][1][0] == "set" else b"ab" if x[0] == "seq" else b"7"
            items[text(x)] = ([one * k + t for k in (lo - 1, lo, lo + 1) if k > 0 for t in (b"", b"b", b"c")], 0)
    items[b"\\d+A"] = ([b"12A", b"A1A", b"AA"], 1)
    pats = list(items)
    build = vf.Build(run.work, vf.REGEX_HEADER, vf.regex_items(dict(enumerate(pats))))
    run.compile_failures(build, dict(enumerate(pats)), dict(enumerate(pats)))
    static = {x["r"]: x for x in vf.run_static(build.binary)}
    if len(static) + len(build.failures) != len(pats):
        raise CheckError("expressions are missing")
    records, second = [], []
    for i, p in enumerate(pats):
        if i in build.failures:
            continue
        e = bytes(static[i]["x"])
        qs, poss = items[p]
        records.append({"kind": "text", "p": list(p), "x": list(e), "poss": poss, "qs": [list(q) for q in qs[:25]]})
        if 0 not in e:
            second.append((p, Q(qs), e))
    run.programs += len(records)
    run.statics(records, lambda x: {"pattern": shown(x["p"]), "expression": shown(x["x"])})
    # what the specification cannot read the compiler need not
    bad = {v["pattern"] for v in run.violations if v["kind"] == "malformed"}
    run.regexes([s for s in second if shown(s[0]) not in bad], known="ignore")


# --- C10 -----------------------------------------------------------------------------
BASIC = [(".", ANY), ("\\d", DIGIT), ("\\D", ALL - DIGIT), ("\\w", WORD), ("\\W", ALL - WORD), ("\\s", SPACE), ("\\S", ALL - SPACE), ("\\n", {10}), ("\\N", ALL - {10}),
         ("\\a", {7}), ("\\e", {27}), ("\\f", {12}), ("\\r", {13}), ("\\t", {9}), ("[b-y]", set(range(98, 122))), ("[^b-y]", ALL - set(range(98, 122))), ("[\\d_]", DIGIT | {95}),
         ("[^\\d_]", ALL - DIGIT - {95}), ("[^\\s]", ALL - SPACE), ("[\\W]", ALL - WORD), ("[ac-e]", set(b"acde")), ("[^ac-e]", ALL - set(b"acde")), ("[\x80-\xbf]", set(range(128, 192))),
         ("[\\s\\d]", SPACE | DIGIT), ("[^\\w-]", ALL - WORD - {45}), ("[\\S]", ALL - SPACE), ("\\.", {46}), ("\\x41", {65}), ("\\o{301}", {193}), ("[^.]", ALL - {46})]


def edges(chars, r, extra):
    """characters at the edges of a set, on both sides"""
    out = {c for c in range(256) if (c in chars) != ((c + 1) % 256 in chars) or (c in chars) != ((c - 1) % 256 in chars)}
    return sorted(out | {0, 127, 128, 255} | set(r.sample(range(256), extra)))


def char_text(c):
    return b"\\x%02x" % c


def c10(run):
    run.model("MC_First", ["FirstIsRight", "NullableIsRight", "SizeIsRight"], Size=3, Length=4, Exactly=True)
    run.model("MC_First", ["FirstIsRight", "NullableIsRight", "SizeIsRight"], Size=3, Length=4, Exactly=False)
    r = run.rng
    fixed = ["a", "b", "ab", "ba", "[ab]", "[^a]", "[^ab]", ".", "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\n", "\\N", "a|b", "b|c", "a?b", "a*b",
             "(a)|b", "(?:a|b)?c", "a?b?c", "(a?)(b?)c", "a*", "a?", "^a", "a$", "$", "(?:^a|b)", "[a-f]", "[g-z]", "[0-9]+a", "x{0,2}y", "(?:ab|cd)*e",
             "\\x61", "\\x{6162}", "\\141", "(?:a|b|c|d)", "[^a-f]", "_", "1", " ", "a{2}", "(?:a?){2}b", "(?:a?|b)c", "((a)?b)?c", "a+?b", "a++b", "[\\d_]",
             "[^\\w]", "[^\\s]", "\\.", "A", "(?:a*)*b", "(?:(?:a|b)*c|d)", "x*$", "[\\w.]", "-",
             "a{0}b", "a{0,0}b", "(a){0}b", "(?:a{0})?b", "(?:a{0}|b)c", "a{0,0}?b", "a{0,0}+b", "(a{0})b{0}c", "(?:ab){0}c"]
    pats = [p.encode() for p in fixed]
    pats += [text(x) for x in Gen(r, depth=3, weights={"atom": 3, "seq": 4, "alt": 4, "grp": 1.5, "rep": 4}, anchors=.1,
                                  quant=["*", "?", "*", "+", "{2}", "{0,2}", "{1,3}", "{0}"]).many(run.scale(90, 500))]
    pats += [text(x) for x in Gen(r, depth=2, atoms=ATOMS_CLASS, quant=["*", "?", "+", "{2}"]).many(run.scale(50, 300))]
    odd = [text(x) for x in positional(r)]
    odd = [p for x in odd for p in (x, b"(?:" + x + b")a")]
    odd = r.sample(odd, run.scale(160, len(odd)))
    pats += odd + [text(x) for x in r.sample(wide(r), 30)]
    pats += [p for p, _ in breadth(run, run.scale(90, 600)) if len(p) < 70]
    pats = list(dict.fromkeys(pats))
    n = len(pats)
    single = [pats.index(x) for x in (b"a", b"b", b"ab", b"[ab]", b"[a-f]", b"[^ab]")] 
    near = {pats.index(p): [r.choice(single)] for p in odd if p in pats}
    combos = [(i, i) for i in range(n)] + [(i, j) for i in range(len(fixed)) for j in range(i)]
    combos += [(i, j) for i, js in near.items() for j in set(js + [0]) if i != j]
    # every class with the characters around its edges
    for t, chars in BASIC:
        t = t.encode("latin1")
        if t not in pats:
            pats.append(t)
        for c in edges(chars, r, 4) if not run.thorough else range(1, 256):
            if c:
                d = char_text(c)
                if d not in pats:
                    pats.append(d)
                combos.append((pats.index(t), pats.index(d)))
        for u, _ in r.sample(BASIC, 8):
            u = u.encode("latin1")
            if u in pats:
                combos.append((pats.index(t), pats.index(u)))
    combos = list(dict.fromkeys(combos))
    want = run.scale(4200, 36000)
    seen = set(combos)
    while len(combos) < want:
        i, j = r.randrange(n), r.randrange(n)
        if i != j and (i, j) not in seen:
            seen.add((i, j))
            combos.append((i, j))
    items = []
    by = {}
    for i, j in combos:
        by.setdefault(i, []).append(j)
    for i, js in by.items():
        for k in range(0, len(js), 40):
            part = js[k:k + 40]
            ns = f"n{i}_{k}"
            decl = (f"namespace {ns} {{ using A = e_regex::regex<{vf.literal(pats[i])}>;\n"
                    + "\n".join(f"using B{j} = e_regex::regex<{vf.literal(pats[j])}>;" for j in part) + " }")
            stmt = "\n".join(f"pairs().push_back({{{i}, {j}, {ns}::A::template is_independent<{ns}::B{j}>(), "
                             f"{ns}::B{j}::template is_independent<{ns}::A>(), "
                             f"{ns}::A::is_independent({ns}::B{j} {{}})}});" for j in part)
            items.append((f"{i}_{k}", (decl, stmt)))
    build = vf.Build(run.work, vf.REGEX_HEADER, items)
    named = {k: pats[int(k.split("_")[0])] for k, _ in items}
    run.compile_failures(build, named, named)
    facts = vf.run_static(build.binary)
    run.programs += len(facts)
    run.statics([{"kind": "pair", "p": list(pats[f["a"]]), "x": list(pats[f["b"]]), "answers": [f["ab"], f["ba"], f["v"]]}
                 for f in facts],
                lambda x: {"pattern": shown(x["p"]), "other": shown(x["x"]), "answers": x["answers"]})


# --- C11, C12, C13 -------------------------------------------------------------------
TOKENIZERS = [
    [("t", 0, b"[a-z]+"), ("t", 1, b"\\d+"), ("s", b"\\s")],
    [("t", 0, b"[a-z]+"), ("t", 1, b"ab"), ("t", 2, b"abc"), ("s", b"\\s")],
    [("t", 1, b"ab"), ("t", 0, b"[a-z]+"), ("s", b"\\s+")],
    [("t", 0, b"a|ab"), ("t", 1, b"abc|b"), ("s", b" | -")],
    [("t", 0, b"ab|a"), ("t", 1, b"b*"), ("s", b" "), ("s", b"  ")],
    [("s", b" "), ("t", 0, b"a"), ("s", b"-|- -"), ("t", 1, b"ab?"), ("t", 2, b"a?b")],
    [("t", 0, b"a*"), ("t", 1, b"b"), ("s", b"-*")],
    [("t", 2, b"(a)|(b)|(c)"), ("t", 1, b"bc"), ("s", b"[- ]")],
    [("t", 0, b"a+?"), ("t", 1, b"aa"), ("s", b"b")],
    [("t", 0, b"a"), ("s", b"a"), ("s", b"b")],
    [("t", 0, b"aa|a"), ("t", 3, b"ba|b"), ("t", 2, b"a|b|aba"), ("s", b" |a ")],
    [("t", 0, b"\\w+"), ("t", 1, b"[a-z]\\d"), ("t", 2, b"-?\\d+"), ("s", b"\\s+|-")],
    [("t", 0, b"(?:ab)+"), ("t", 1, b"a(b)?"), ("s", b" "), ("s", b" b")],
    [("t", 0, b"a"), ("t", 1, b"b"), ("t", 2, b"c"), ("t", 3, b"ab"), ("t", 4, b"abc"), ("t", 5, b"bc"), ("t", 6, b"abca"),
     ("s", b"-"), ("s", b"--"), ("s", b" ")],
    [("t", 0, b"[^ -]+"), ("s", b"[ -]+")],
    [("t", 5, b"a|b"), ("t", 0, b"[ab]"), ("s", b" ")],
    [("t", 0, b"ab\\b" [:2]), ("t", 1, b"a[^b]?"), ("s", b" ?-")],
    [("t", 0, b"a.c"), ("t", 1, b"a"), ("s", b"\\n")],
    [("t", 0, b"a|b|c"), ("t", 1, b"a\\n"), ("s", b"\\n+")],
    [("t", 1, b"a\\nb|a"), ("t", 0, b"b"), ("s", b"\\n")],
]
LONG_TOKENS = [
    ([("t", 0, b"[a-z]+"), ("t", 1, b"\\d+"), ("s", b"\\s")], [(b"ab 1 ", b""), (b"a", b" 1"), (b"1", b""), (b"a ", b"1")]),
    ([("t", 0, b"a|ab"), ("t", 1, b"b*"), ("s", b" +")], [(b"ab a  ", b"b"), (b"b", b""), (b" ", b"a"), (b"b ", b"b")]),
    ([("t", 0, b"a*"), ("t", 1, b"(?:ab)+"), ("s", b"-?")], [(b"ab", b"-"), (b"ab-", b"a"), (b"a", b"-a")]),
    ([("t", 3, b"a+"), ("t", 2, b"a+b?"), ("t", 1, b"[ab]*c"), ("s", b"-+"), ("s", b"--a?")], [(b"a", b"b"), (b"ab", b"c"), (b"a-", b""), (b"ab--", b"")]),
    ([("t", 0, b"(?:aa)+"), ("t", 1, b"a{3,}"), ("s", b" ")], [(b"aa", b""), (b"aa", b"a"), (b"aa ", b""), (b"aaa ", b"a")]),
    ([("s", b" *"), ("t", 0, b"\\w"), ("t", 1, b"\\W+")], [(b"a", b""), (b"a ", b"-"), (b"-", b"a")]),
    ([("t", 0, b"[^ ]*"), ("s", b"[ ]*")], [(b"a-", b" "), (b"a ", b""), (b" ", b"a")])]
T_ATOMS = [lit("a"), lit("b"), lit("c"), lit("a"), lit("b"), cls("[ab]", b"ab"), cls("[a-c]", b"abc"), lit("-"), cls("[^ ]", ALL - {32})]
S_PATTERNS = [b" ", b"\\s", b" +", b"-", b" -", b"- | -", b"\\s+", b"-?", b" *-", b"c", b" |  ", b"\\n", b"-{2}", b" a"]


def tokenizers(run, n):
    """(definitions, inputs)"""
    r = run.rng
    out = []
    fixed = TOKENIZERS
    g = Gen(r, atoms=T_ATOMS, depth=2, capture=.3, weights={"atom": 3, "seq": 4, "alt": 4, "grp": 1, "rep": 3}, max_size=9)
    made = []
    while len(made) < n:
        k = r.randint(1, 5) if r.random() < .9 else r.randint(6, 14)
        defs = [("t", r.randrange(10) if r.random() < .3 else i % 10, text(g.pattern())) for i in range(k)]
        defs += [("s", r.choice(S_PATTERNS)) for _ in range(r.randint(1, 3) if r.random() < .9 else 6)]
        if len({d[-1] for d in defs}) < len(defs):
            continue
        r.shuffle(defs)
        made.append(defs)
    for defs in fixed + made:
        chars = set()
        for d in defs:
            chars |= set(d[-1]) & set(b"abc- 01\n")
            if b"\\n" in d[-1]:
                chars.add(10)
            if b"\\s" in d[-1]:
                chars.add(32)
            if b"\\d" in d[-1] or b"\\w" in d[-1]:
                chars.add(49)
        chars |= {97}
        few = sorted(chars)
        if len(few) > 4:
            few = sorted(r.sample(few, 4))
        qs = exhaustive(few, 400)
        seps = [c for c in chars if c in b" -\n"] or [32]
        toks = [c for c in chars if c not in b" -\n"]
        for _ in range(60):
            s = b""
            for _ in range(r.randint(1, 4)):
                s += bytes(r.choice(toks) for _ in range(r.randint(1, 4)))
                s += bytes(r.choice(seps) for _ in range(r.choice([1, 1, 1, 2])))
            if r.random() < .6:
                s = s[:-1]
            if r.random() < .3:
                s = bytes([r.choice(seps)]) + s
            if r.random() < .3:
                s = mutate(s, sorted(chars), r)
            qs.append(s[:16])
        out.append((defs, list(dict.fromkeys(qs))))
    return out


REAL_TOKENIZERS = [
    ([("t", 0, r"[a-zA-Z_]\w*"), ("t", 1, r"\d+"), ("t", 2, r"if|else|while"), ("t", 3, r"[+\-*\/=<>!]=?"), ("t", 4, r"[(){};]"), ("s", r"\s+"), ("s", r"\/\/[^\n]*\n")],
     [b"if", b"x1", b"=", b"==", b"22", b"(", b")", b"{", b"while", b"whiley", b"+", b"// c\n", b" ", b"\n", b"_", b";", b"$"]),
    ([("t", 2, r"true|false|null"), ("t", 1, r"-?\d+(?:\.\d+)?"), ("t", 0, r"'[^']*'"), ("t", 3, r"[\[\]{}:,]"), ("s", r"[ \n]")],
     [b"'a b'", b"''", b"'", b"-1", b"2.50", b"true", b"nul", b"null", b"[", b"]", b"{", b":", b",", b" ", b"\n", b"3."]),
    ([("t", 0, r"\w+"), ("t", 1, r"\d{4}-\d{2}"), ("t", 2, r"\w+@\w+"), ("t", 3, r"0x[0-9a-f]+"), ("s", r"[ ,.]"), ("s", r"\t")],
     [b"ab", b"2024-01", b"2024", b"-", b"a@b", b"@", b"0x1f", b"0x", b" ", b",", b".", b"\t", b"1"]),
    ([("t", 0, r"(\d+)([a-z]?)"), ("t", 1, r"[a-z]+"), ("t", 2, r"\+\+?"), ("t", 3, r"\+=|="), ("t", 4, r"<<?=?"), ("s", r" ")],
     [b"1", b"12a", b"ab", b"+", b"++", b"+=", b"=", b"<", b"<<", b"<<=", b"<=", b" ", b"  ", b"a1"]),
    ([("t", 0, r"\x{00ff}"), ("t", 1, r"\x00+"), ("t", 2, "[\x80-\xbf]+"), ("t", 3, r"\xff"), ("s", r"\n|\r\n"), ("s", "\xe9")],
     [b"\x00\xff", b"\x00", b"\x80", b"\xbf\x81", b"\xff", b"\n", b"\r\n", b"\xe9", b"\r", b"\xff\x00"]),
    ([("t", 9, r"[^\n]+"), ("t", 8, r"#.*"), ("t", 7, r"^a$"), ("s", r"\n")], [b"a", b"# b", b"\n", b"c d", b"#", b"\n\n", b"\r"]),
    ([("t", i % 10, w) for i, w in enumerate("select from where and or not in into insert is".split())] + [("t", 3, r"[a-z]\w*"), ("t", 5, r"\*"), ("s", r"\s"), ("s", r";")],
     [b"select", b"selects", b"from", b"where", b"in", b"into", b"insert", b"is", b"isnt", b"*", b"and", b"a1", b" ", b"\n", b";", b"no", b"1"]),
    ([("t", 0, r"a"), ("t", 1, r"ab"), ("t", 2, r"abc"), ("t", 3, r"abcd"), ("t", 4, r"abcde"), ("t", 5, r"[a-e]"), ("t", 6, r"(?:abc)+"), ("s", r"-"), ("s", r"-e"), ("s", r"-+>")],
     [b"a", b"ab", b"abc", b"abcd", b"abcde", b"abcabc", b"e", b"-", b"-e", b"->", b"--->", b"b", b"f"]),
]


def real_tokenizers(run, n):
    r = run.rng
    out = []
    for defs, parts in REAL_TOKENIZERS:
        defs = [d[:-1] + (d[-1].encode("latin1"),) for d in defs]
        if r.random() < .5:
            r.shuffle(defs)
        chars = sorted(set(b"".join(parts)))
        qs = [b""] + parts + [a + b for a in parts for b in parts]
        for k in list(range(2, 9)) * n + [20, 40]:
            q = b"".join(r.choice(parts) for _ in range(k))
            qs.append(q)
            if r.random() < .3:
                qs.append(mutate(q, chars, r))
        out.append((defs, list(dict.fromkeys(qs))))
    # many definitions, types in any order
    for k in (12, 20, 30):
        words = sorted({bytes(r.choice(b"abc") for _ in range(r.randint(1, 4))) for _ in range(k)})
        defs = [("t", r.randrange(10), w + (b"+" if r.random() < .2 else b"")) for w in words] + [("s", s) for s in r.sample(S_PATTERNS, 4)]
        r.shuffle(defs)
        if len({d[-1] for d in defs}) < len(defs):
            continue
        qs = [b"", b" "] + words
        for _ in range(60 * n // 6):
            qs.append(b"".join(r.choice(words) + r.choice([b"", b" ", b"-", b"c", b" -", b"\n"]) for _ in range(r.randint(1, 6)))[:40])
        out.append((defs, list(dict.fromkeys(qs))))
    return out


def tokenization(run, n, scripts=0, length=16):
    token_api(run)
    r = run.rng
    histories = run.scripts(run.scale(400, 4000), length, True) if scripts else []
    progs = []
    for defs, qs in tokenizers(run, n) + real_tokenizers(run, run.scale(12, 60)):
        jobs = Q(qs)
        for s in r.sample(histories, scripts) if scripts else []:
            longer = [q for q in qs if len(q) >= 3] or qs
            three = [r.choice(longer) for _ in range(3)]
            if r.random() < .3:
                three[1] = three[0]
            jobs.append(S(s, three))
        progs.append((defs, jobs))
    run.tokenizers(progs)
    some = r.sample(LONG_TOKENS, run.scale(6, len(LONG_TOKENS)))
    run.longs([], [(d, [f"L {n} {u.hex()} {t.hex() or '-'} 1" for u, t in qs for n in (50, 300, 2000)]) for d, qs in some])


def c11(run):
    tokenization(run, run.scale(110, 1000))


def c12(run):
    tokenization(run, run.scale(110, 1000))


def c13(run):
    tokenization(run, run.scale(60, 500), scripts=run.scale(16, 40))


# --- C14 -----------------------------------------------------------------------------
CONSTANT_HEADER = '#include "constant_under_test.hpp"\n#include "regex_under_test.hpp"\n#include "tokenizer_under_test.hpp"' \
    .replace('#include "tokenizer_under_test.hpp"', '')


def array(q):
    return (f"std::array<char, {len(q)}>" + (" {" + ", ".join(f"static_cast<char>({c})" for c in q) + "}" if q else " {}"))


def history(i, k, q, which, what, is_literal):
    """C++: what matcher (R) or tokenizer (T) i shows for q, an array without null or a literal"""
    if is_literal:
        return (f"constexpr char q{i}_{k}[] = {vf.literal(q)};\n"
                f"constexpr auto h{i}_{k} = literal_{what}<{which}{i}>(q{i}_{k});\n")
    return (f"constexpr auto q{i}_{k} = {array(q)};\n"
            f"constexpr auto h{i}_{k} = constant_{what}<{which}{i}>(q{i}_{k});\n")


def observed_literal(i, k, q, which, what):
    """C++: the same for a string literal, at run time: declaration and statement"""
    return (f"const char q{i}_{k}[] = {vf.literal(q)};\n",
            f"literal_facts().push_back({{{i}, {{q{i}_{k}, {len(q)}}}, [] {{ return listed(literal_{what}<{which}{i}>(q{i}_{k})); }}}});\n")


def recorded(i, k, q):
    return f"constants().push_back({{{i}, {{std::data(q{i}_{k}), {len(q)}}}, h{i}_{k}.data.data(), h{i}_{k}.n}});\n"


def literals(run, programs):
    """programs: (pattern, queries); string literals given to matchers at run time"""
    items = []
    for i, (p, qs) in enumerate(programs):
        decl = f"using R{i} = e_regex::regex<{vf.literal(p)}>;\nnamespace {{\n"
        stmt = f"under_test<R{i}, false>::add({i});\n"
        for k, q in enumerate(qs):
            d, e = observed_literal(i, k, q, "R", "matches")
            decl += d
            stmt += e
        items.append((i, (decl + "}", stmt)))
    build = vf.Build(run.work, CONSTANT_HEADER, items)
    pats = {i: p[0] for i, p in enumerate(programs)}
    run.compile_failures(build, pats, pats)
    facts = vf.run_static(build.binary)
    n_groups = {x["r"]: x["groups"] for x in facts if "r" in x}
    made = {}
    for x in facts:
        if "c" in x:
            made.setdefault(x["c"], []).append({"q": x["q"], "d": 0, "o": chunked(x["o"], 4 + 2 * n_groups[x["c"]])})
    run.programs += len(made)
    run.judge([{"r": i, "p": list(pats[i]), "t": t} for i, t in made.items()], [], known="ignore", texts=pats)


def literal_tokens(run, programs):
    items = []
    for i, (defs, qs) in enumerate(programs):
        (key, (decl, stmt)), = vf.tokenizer_items({i: defs})
        decl += "\nnamespace {\n"
        for k, q in enumerate(qs):
            d, e = observed_literal(i, k, q, "T", "tokens")
            decl += d
            stmt += e
        items.append((i, (decl + "}", stmt)))
    build = vf.Build(run.work, '#include "constant_under_test.hpp"\n#include "tokenizer_under_test.hpp"', items)
    names = {i: run.described(d) for i, (d, _) in enumerate(programs)}
    run.compile_failures(build, names, names)
    made = {}
    for x in vf.run_static(build.binary):
        if "c" in x:
            made.setdefault(x["c"], []).append({"q": x["q"], "d": 0, "o": chunked(x["o"], 9)})
    run.programs += len(made)
    run.judge_tokens([{"r": i, "defs": run.definitions(programs[i][0]), "t": t} for i, t in made.items()])


LITERALS = [b"", b"a", b"ab", b"a\n", b"\n", b"a\0b", b"\0", b"ab\0", b"\0ab", b"a\0\0b\0", b"aab b", b"aaa", b"b\0a\0", b"ab" * 20, b"a" * 40 + b"\0" + b"ab", b"\0\n\0"]
LITERAL_PATTERNS = ["a", "ab", "a*", "a+b", ".", ".*", "$", "^", "a$", "^a", "[^a]", "[^a]+$", "(a)|(b)", "\\x00", "a\\x{00}b", "[^b]*b", "(.)(.)", "a|.", "(?:a|[^a])*", "\\s", "\\W", "b$|a", "a?b?$", ".$", "(.*)$",
                    "a{2,}", "^.{3}"]


def chunked(flat, n):
    if len(flat) == 1 and flat[0] < 0:
        return [flat]
    if len(flat) % n:
        raise CheckError("observations made during compilation are incomplete")
    return [flat[i:i + n] for i in range(0, len(flat), n)]


def c14(run):
    api(run)
    token_api(run)
    r = run.rng
    trees = Gen(r, max_size=14).many(run.scale(90, 900)) + \
        Gen(r, anchors=.4, atoms=ATOMS_ABC[:6] + [lit("\n")]).many(run.scale(40, 400)) + \
        Gen(r, atoms=ATOMS_CLASS).many(run.scale(40, 400)) + \
        Gen(r, atoms=E_ATOMS).many(run.scale(20, 200))
    items = {}
    for x in trees:
        chars = sorted(alphabet(x))
        if len(chars) > 4:
            chars = r.sample(chars, 4)
        qs = queries(x, r, chars=bytes(chars) or b"a", all_most=25, samples=16, longest=10)
        items[text(x)] = [b""] + r.sample(qs, min(len(qs), 14))
    for p in NULLABLE + C03_FIXED[:20]:
        items[p.encode()] = r.sample(exhaustive(b"abc\n", 90), 12) + [b"", b"a"]
    for x in r.sample(wide(r), run.scale(24, 100)):
        items[text(x)] = [sample(x, r) for _ in range(6)]
    for p, jobs in breadth(run, run.scale(48, 500)):
        qs = [bytes.fromhex(j[2:].replace("-", "")) for j in run.affordable(p, jobs)]
        items[p] = r.sample(qs, min(len(qs), 10))
    # long queries
    for p, unit, tail, ns in (("a+b", b"a", b"b", (15, 16, 31, 32, 33, 63, 64, 70, 127, 130, 255, 256, 300)), ("(?:ab)*(c)?", b"ab", b"c", (20, 33, 65, 129)),
                              ("(.)*", b"ab\xe9", b"", (12, 40, 90)), ("[^b]*?b", b"a", b"b", (40, 140, 260)), ("(a)(b)?", b"ab", b"a", (9, 20, 40)),
                              ("^a*$", b"a\n", b"a", (5, 18)), ("a{33,70}", b"a", b"", (32, 33, 64, 71, 104)), ("(?:(a)|(b))+", b"abb", b"", (30, 90))):
        items[p.encode()] = [unit * n + tail for n in ns]
    for t, _ in class_texts(run, 0)[::3]:
        b = t.encode("latin1")
        some = bytes(r.sample(range(256), 24))
        items[b + b"+"] = [some, bytes([200, 97, 0, 10, 48])]
        items[b] = [bytes(r.sample(range(256), 24))]
    pats = list(items)
    build_items = []
    for i, p in enumerate(pats):
        qs = list(dict.fromkeys(items[p]))
        decl = f"using R{i} = e_regex::regex<{vf.literal(p)}>;\n"
        stmt = f"under_test<R{i}, false>::add({i});\n"
        for k, q in enumerate(qs):
            decl += history(i, k, q, "R", "matches", k % 3 == 0)
            stmt += recorded(i, k, q)
        build_items.append((i, (decl, stmt)))
    build = vf.Build(run.work, CONSTANT_HEADER, build_items)
    run.log("built", len(pats))
    run.compile_failures(build, dict(enumerate(pats)), dict(enumerate(pats)))
    ids = [i for i in range(len(pats)) if i not in build.failures]
    running = vf.run_jobs(run.work, build.binary, [(f"R {i}", Q(dict.fromkeys(items[pats[i]]))) for i in ids])
    made = {}
    facts = vf.run_static(build.binary)
    n_groups = {x["r"]: x["groups"] for x in facts if "r" in x}
    for x in facts:
        if "c" in x:
            made.setdefault(x["c"], []).append({"q": x["q"], "d": 0, "o": chunked(x["o"], 4 + 2 * n_groups[x["c"]])})
    records = []
    for rec in running:
        i = rec["r"]
        if len(made[i]) != len(rec["t"]):
            raise CheckError("observations made during compilation are missing")
        records.append({"r": i, "p": list(pats[i]), "t": rec["t"] + made[i]})
    run.programs += len(records)
    run.judge(records, [], known="ignore", texts=dict(enumerate(pats)))

    toks = tokenizers(run, run.scale(12, 150))
    long = [b"a" * n + b for n in (15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257) for b in (b"", b"b", b"b ")]
    toks += [([("t", 0, b"a+"), ("t", 1, b"a{32}b"), ("s", b" ")], long), ([("t", 1, b"(?:a|b)+b"), ("t", 0, b"(a)+"), ("t", 2, b"a{64,130}"), ("s", b"\\n")], long),
             ([("t", 0, b"a"), ("s", b" "), ("s", b" {2,200}")], [b"a" + b" " * n + b"a a" for n in (1, 2, 15, 16, 31, 32, 33, 64, 127, 128, 129, 199, 200, 201)]),
             ([("t", 0, b"a+"), ("t", 1, b"a+b"), ("s", b" ")], [b" ".join([b"a" * i for i in (n, 1, n)]) for n in (8, 16, 32, 40, 64, 70)])]
    build_items, queries_of = [], {}
    for i, (defs, qs) in enumerate(toks):
        (key, (decl, stmt)), = vf.tokenizer_items({i: defs})
        stmt += "\n"
        decl += "\n"
        some = [b""] + (r.sample(qs, min(len(qs), 14)) if len(qs[-1]) < 17 else qs)
        queries_of[i] = list(dict.fromkeys(some))
        for k, q in enumerate(queries_of[i]):
            decl += history(i, k, q, "T", "tokens", k % 3 == 0)
            stmt += recorded(i, k, q)
        build_items.append((i, (decl, stmt)))
    build = vf.Build(run.work, '#include "constant_under_test.hpp"\n#include "tokenizer_under_test.hpp"', build_items)
    names = {i: run.described(d) for i, (d, _) in enumerate(toks)}
    run.compile_failures(build, names, names)
    ids = [i for i in range(len(toks)) if i not in build.failures]
    running = vf.run_jobs(run.work, build.binary, [(f"T {i}", Q(queries_of[i])) for i in ids])
    made = {}
    for x in vf.run_static(build.binary):
        if "c" in x:
            made.setdefault(x["c"], []).append({"q": x["q"], "d": 0, "o": chunked(x["o"], 9)})
    for rec in running:
        rec["t"] += made[rec["r"]]
        rec["defs"] = run.definitions(toks[rec["r"]][0])
    run.programs += len(running)
    run.judge_tokens(running)


# --- C15 -----------------------------------------------------------------------------
ANCHORED = ["^", "$", "^$", "^a", "a$", "^a$", "^a|b", "a|^b", "a$|b", "a|b$", "^a|^b", "a$|b$", "(^a)", "(a$)", "(^a)b", "a(b$)", "(^a|b)c", "a(b|c$)",
            "(?:^a)b", "a(?:b$)", "(?:^|a)b", "a(?:b|$)", "(?:^)a", "a(?:$)", "(^)(a)", "(a)($)", "(?:^a)+", "(?:a$)+", "(?:a$)*b", "(?:^a\\n)+", "^a*", "a*$",
            "^(?:a|b)*$", "^.*$", "^.*", ".*$", "^[^a]", "[^a]$", "^\\n", "\\n$", "a\\n^" [:3], "(?:^a|^b)\\n?", "^(a)(b)?$", "(?:^|b)(?:a|$)", "\\^a", "a\\$", "a^",
            "a^b", "$a", "a$b", "(a^)", "($a)", "[$]", "[\\^]a", "a|^", "a|$", "(?:$|a)b", "(?:a|^)b", "^a{2}$", "(?:^a){2}", "(?:^a?$)*", "a+?$", "a*?$", "a++$",
            "^a?b", "(?:^a)?b", "a(?:b$)?", "(a$)?b", "((^a))", "((a)$)", "(?:(?:^a)|b)", "^\\s", "\\s$", ".$", "^.", "(?:.$)+", "(?:^.)+", "(?:^.\\n)+", "\\$$", "^\\^",
            "(?:^$)+", "(^|\\n)a", "a(\\n|$)", "a$|^b|c", "(?:^a|b$|c)+", "^(?:^a)", "(?:a$)$", "a\\n$", "^\\na"]


def c15(run):
    engine(run, ("anchors",))
    r = run.rng
    qs = exhaustive(b"ab\n", 364) + exhaustive(b"a\n$^", 85)
    progs = [(p.encode(), Q(dict.fromkeys(qs))) for p in ANCHORED]
    atoms = [lit("a"), lit("b"), cls("[a\n]", b"a\n"), cls(".", ANY), lit("\n"), cls("[^a]", ALL - {97}), cls("\\n", b"\n"), cls("\\s", SPACE)]
    progs += programs(run, Gen(r, anchors=0.6, atoms=atoms).many(run.scale(300, 3000)), chars=b"ab\n", all_most=130)
    progs += spec_programs(run, run.scale(80, 800), "anchors")
    progs += breadth(run, run.scale(90, 700))
    run.regexes(unique(progs), known="ignore")


# --- C16 -----------------------------------------------------------------------------
def c16(run):
    api(run)
    r = run.rng
    trees = Gen(r, capture=.8, max_groups=3).many(run.scale(90, 900)) + Gen(r, capture=.6, anchors=.3).many(run.scale(30, 300)) + \
        [x for x in Gen(r, capture=1, max_groups=9, max_size=26, depth=4).many(run.scale(80, 600)) if groups(x) > 3][:run.scale(30, 300)]
    scripts = run.scripts(run.scale(800, 6000), 18, False)
    progs = []
    base = programs(run, trees, chars=b"abc", all_most=45, samples=25)
    base += [(p.encode(), Q(exhaustive(b"ab\n", 121))) for p in NULLABLE + C03_FIXED]
    base += [(p.encode(), Q([b"abcdefghijkl", b"aaaaaaaaaaaa", b"ab", b"abcdef", b"abcdefghijklabcdefghijkl", b"k", b""])) for p in C17_FIXED]
    base += breadth(run, run.scale(50, 500))
    for p, jobs in unique(base):
        qs = [bytes.fromhex(j[2:].replace("-", "")) for j in jobs]
        longer = [q for q in qs if len(q) > 2] or qs
        mine = [S(s, [r.choice(longer), r.choice(qs), r.choice(longer)]) for s in r.sample(scripts, 6)]
        threads = ["P " + vf.hexed(q) for q in r.sample(qs, 3)]
        progs.append((p, jobs + mine + threads))
    run.regexes(progs, full=True, known="ignore", opt="-O1" if run.thorough else "-O0")
    literals(run, [(p, [q for q in LITERALS if len(q) < 9] + r.sample(exhaustive(b"ab\0", 120), 10)) for p, _ in r.sample(progs, run.scale(40, 300))])


# --- C17 -----------------------------------------------------------------------------
C17_FIXED = ["(a)(b)(c)(d)(e)(f)(g)(h)(i)(j)(k)(l)", "((((((((((((a))))))))))))", "((a)(b))((c)(d))", "(a)|(b)|(c)|(d)|(e)|(f)|(g)|(h)|(i)|(j)|(k)",
             "((a)|(b))((c)|(d))", "(?:(a)|(b(c)))(d)", "(?:a(?:b(c)))(d)(?:(e))", "(a)*(b)+(c)?(d){2}(e)", "((a)*|(b)+)(c)", "(?:(?:(a)))(b)", "a(b)c(d)e",
             "(a(b(c)(d))e(f))", "(a)[(b)]" [:3] + "(b)", "\\((a)\\)(b)", "(\\(a\\))(b)", "(a|(b)|c(d))(e)", "(?:(a)|b)(?:(c)|d)(?:(e)|f)(g)", "((a)|((b)|((c)|(d))))",
             "(?:(a)(?:(b)(?:(c)(?:(d)))))", "((a)){2}(b)", "(?:(a)){2}(b)", "(a){0,1}(b){0,1}", "(a)+?(b)*?(c)??", "(a)++(b)*+(c)?+", "^(a)|(b)$", "(?:a)(b)", "(a)(?:b)(c)",
             "(a)((b)(c)|(d)(e))(f)", "((((a)b)c)d)(e)", "(a)\\)(b)", "[)](a)(b)", "((a)(b)(c)(d)(e)(f)(g)(h)(i)(j)(k)(l))"]


def c17(run):
    run.model("MC_Parse", ["SameTree", "WellFormed", "Numbering"], Size=run.scale(4, 5), Printing=False, AtomKind="chars")
    r = run.rng
    w = {"atom": 2, "seq": 5, "alt": 4, "grp": 5, "rep": 3}
    trees = Gen(r, capture=1, weights=w, max_groups=20, depth=3, max_size=24).many(run.scale(220, 2200))
    trees += [x for x in Gen(r, capture=1, weights=w, max_groups=30, depth=5, max_size=60, width=3).many(run.scale(120, 1200)) if groups(x) > 5]
    # many groups, each with its own character
    letters = b"abcdefghijklmnop"
    own = []
    for _ in range(run.scale(60, 600)):
        def build(cs):
            if len(cs) == 1:
                x = lit(cs[0])
                return grp(x) if r.random() < .8 else x
            k = r.randint(1, len(cs) - 1)
            a, b = build(cs[:k]), build(cs[k:])
            z = r.random()
            x = seq(Gen.delimited(a), Gen.delimited(b)) if z < .7 else alt(a, b)
            if x[0] == "alt":
                return grp(x) if r.random() < .7 else non(x)
            z = r.random()
            if z < .3:
                return grp(x)
            if z < .4:
                return rep(grp(x), r.choice(["?", "*", "+", "{1,2}"]))
            return non(x) if z < .5 else x
        own.append(build(list(letters[:r.randint(4, 16)])))
    progs = [(p.encode(), Q([b"abcdefghijkl", b"a", b"b", b"ab", b"bc", b"abc", b"abcdef", b"acd", b"bd", b"abcdefg", b"aabbcdde", b"(a)b", b"abde", b")ab", b"a)b",
                             b"ce", b"k", b"j", b"d", b"g", b"aceg", b"bdfg", b"abcdf", b"aef", b""])) for p in C17_FIXED]
    progs += programs(run, trees, chars=ABC, all_most=45, samples=25)
    progs += [(text(x), Q([sample(x, r) for _ in range(12)])) for x in own]
    progs += wide_programs(run, run.scale(40, 100)) + breadth(run, run.scale(60, 500))
    progs = unique(progs)
    run.regexes(progs, full=True, known="ignore")
    # over a hundred groups, and, for the numbers alone, more than a byte can count
    many, more = [], []
    for n in (r.choice([126, 127, 128, 129, 130]),):
        letters = [r.choice("abc") for _ in range(n)]
        q = "".join(letters).encode()
        each = "".join(f"({c})" for c in letters)
        for p in (each, f"(?:{each}){{1,2}}b", f"(?:{each})+", f"((?:{each}|c)(b)?)"):
            many.append((p.encode(), Q([q, q + b"b", q + q + b"b", q + b"c"])))
    run.regexes(many, known="ignore")
    for n in (256, 257, 300) if run.thorough else (r.choice([256, 257, 258]),):
        each = "".join(f"({r.choice('abc')})" for _ in range(n))
        more += [each.encode(), f"(?:{each}){{1,2}}b".encode(), f"(?:{each})+".encode()]
    # the numbers themselves
    pats = dict(enumerate(more + [p[0] for p in many + progs[:run.scale(300, 1200)]]))
    build = vf.Build(run.work, vf.REGEX_HEADER,
                     [(i, (f"using R{i} = e_regex::regex<{vf.literal(p)}>;", f"numbers_under_test<R{i}>::add({i});"))
                      for i, p in pats.items()])
    if build.failures:
        raise vf.CheckError("does not compile: " + str(list(build.failures.items())[0])[:800])
    static = [x for x in vf.run_static(build.binary) if "r" in x]
    run.statics([{"kind": "count", "p": list(pats[x["r"]]), "groups": [x["groups"], x["rgroups"]]} for x in static],
                lambda x: {"pattern": shown(x["p"]), "groups": x["groups"]})


# --- C18 -----------------------------------------------------------------------------
def c18(run):
    run.model("MC_Chars", ["HexForms", "OctalForms", "Escaped", "Literal", "Classes"])
    r = run.rng
    progs = []

    def forms(c):
        out = [b"\\x%02x" % c, b"\\x%02X" % c, b"\\x{%02x}" % c, b"\\%03o" % c, b"\\o{%03o}" % c]
        if c < 16:
            out.append(b"\\x%x" % c)
        return out
    # every value in every form, eight characters a pattern
    values = list(range(256))
    for k in range(6):
        r.shuffle(values)
        for i in range(0, 256, 8):
            part = values[i:i + 8]
            t = b""
            for j, c in enumerate(part):
                f = forms(c)
                piece = f[k] if k < len(f) else f[0]
                # a short form must not be followed by a digit of the next one
                t += piece
            good = bytes(part)
            qs = [good, b"a" + good + b"z", good[:-1]]
            for j in range(8):
                for d in (1, 16, 32, 128):
                    qs.append(good[:j] + bytes([part[j] ^ d]) + good[j + 1:])
            progs.append((t, Q(dict.fromkeys(qs))))
    # sequences in braces
    for _ in range(run.scale(40, 300)):
        n = r.randint(2, 6) if r.random() < .85 else r.randint(7, 24)
        s = bytes(r.randrange(256) for _ in range(n))
        hx = s.hex()
        hx = "".join(c.upper() if r.random() < .5 else c for c in hx).encode()
        for t in (b"\\x{" + hx + b"}", b"\\o{" + b"".join(b"%03o" % c for c in s) + b"}"):
            qs = [s, s + s, b"a" + s, s[1:], s[:-1], s[::-1]] + [mutate(s, s, r) for _ in range(6)]
            progs.append((t, Q(dict.fromkeys(qs))))
            q = r.choice(["+", "*", "?", "{2}", "{1,2}?", "+?"])
            progs.append((t + q.encode() + b"a", Q(dict.fromkeys([s + b"a", s * 2 + b"a", s[:-1] + b"a", b"a", s + s[:1] + b"a"]))))
            progs.append((b"(" + t + b"|" + s[:1].hex().join(["\\x", ""]).encode() + b")" + b"a",
                          Q(dict.fromkeys([s + b"a", s[:1] + b"a", s[:-1] + b"a", b"a"]))))
            progs.append((b"a" + t + b"b|" + t, Q(dict.fromkeys([b"a" + s + b"b", b"a" + s, s, s[:-1]]))))
    # escaped operators and control characters, alone and in context
    named = {b"n": 10, b"a": 7, b"e": 27, b"f": 12, b"r": 13, b"t": 9}
    every = [bytes([c]) for c in range(256)]
    for c in list(META) + [45, 47, 64, 35, 34, 44, 58, 61]:
        e = b"\\" + bytes([c])
        ch = bytes([c])
        progs.append((e, Q(every)))
        for t in (e + b"+", b"a" + e + b"b", b"(" + e + b")*a", e + e, b"(?:a|" + e + b")b", e + b"{2}", b"[" + e + b"a]+" if c not in b"([|{" or True else e,
                  e + b"?a", b"^" + e + b"$", e + b"*?a"):
            progs.append((t, Q(dict.fromkeys([ch, ch * 2, ch * 3, b"a" + ch + b"b", ch + b"a", ch * 2 + b"a", ch + b"b", b"a", b"ab", b"\\" + ch, b"\\", b"a\\b", b"",
                                              b"aa", ch + b"\n"]))))
    for e, c in named.items():
        progs.append((b"\\" + e, Q(every)))
        ch = bytes([c])
        for t in (b"\\" + e + b"+", b"a\\" + e + b"b", b"(\\" + e + b")*a", b"(?:a|\\" + e + b")b", b"[\\" + e + b"a]+", b"[^\\" + e + b"]"):
            progs.append((t, Q(dict.fromkeys([ch, ch * 2, b"a" + ch + b"b", ch + b"a", ch + b"b", b"a", b"ab", e, b"\\" + e, e + b"b", b"a" + e + b"b"]))))
    # numeric characters in context
    for _ in range(run.scale(120, 1200)):
        c = r.randrange(256)
        d = r.randrange(256)
        f, g = r.choice(forms(c)), r.choice(forms(d))
        if len(f) == 3 and f[1:2] == b"x":
            f = b"\\x0" + f[2:]
        C, D = bytes([c]), bytes([d])
        t = r.choice([f + b"+", f + b"{2}" + g, b"(" + f + b")(" + g + b")", b"(?:" + f + b"|" + g + b")+", f + b"*" + g, b"(" + f + g + b")+",
                      f + b"?" + g, b"a" + f + b"a" if True else f, f + b"1" if f[:2] != b"\\x" or len(f) == 4 else f + b"z"])
        progs.append((t, Q(dict.fromkeys([C, D, C + D, C * 2, C * 2 + D, C + D + C + D, D + C, b"a" + C + b"a", C + b"1", C + b"z", b"a", b"", bytes([c ^ 1]),
                                          bytes([c ^ 32]) + D]))))
    run.regexes(unique(progs), known="violation")


# --- C19 -----------------------------------------------------------------------------
EMPTY_LOOPS = ["(?:a*)*", "(?:a*)+", "(?:a?)*", "(?:a?)+", "(?:a*?)*", "(?:a*)*?", "(?:a??)+?", "(a*)*", "(a*)+", "(?:(?:a*)*)*", "(?:(?:a?)?)*", "(?:a*b*)*",
               "(?:a*|b*)*", "(?:a|b*)*", "(?:|a)" [:0] or "(?:a?|b)*", "(?:^)*", "(?:$)*", "(?:^|$)*", "(?:^a*)*", "(?:a*$)*", "(?:a*){2,}", "(?:a?){3}", "(?:a?){2,4}", "(?:a*){0,5}",
               "(?:a*)*b", "(?:a*)*?b", "(?:a?)*?b", "(?:a?)+?b", "(?:a*)+b", "(?:(?:a*)+)+b", "(?:a*)*+b", "(?:a*)++b", "(?:a?){2,}b", "(?:a?){2,}?b", "(?:a{0,2})*b",
               "((a*)*)*", "((a?)(b?))*", "(?:(a)|b?)*", "(?:a*c?)*b", "(?:(?:a|b)*c*)*", "(?:a{0}b?)*" [:0] or "(?:b??)*a", "(?:[ab]*)*c", "(?:.*)*", "(?:.*)*a", "(?:.*?)*a",
               "(?:(?:.?)*)+b", "(?:a+)+b", "(?:a+)*b", "(?:a+?)+?b", "(?:a|a)*b", "(?:a|a?)+b", "(?:(?:a|b)?)*c", "(?:a*)?*" [:0] or "(?:a*)?b", "(?:(?:^a?)*)*b", "(?:a?$?)*" [:0] or "(?:a?|$)*"]
LONG = [("a*", b"a", b"", 1), ("a+", b"a", b"b", 1), ("a*b", b"a", b"b", 0), ("a+b", b"a", b"b", 0), ("a*?b", b"a", b"b", 0), ("a*+b", b"a", b"b", 0), (".*", b"ab", b"", 1),
        (".*?c", b"ab", b"c", 0), ("[ab]*c", b"ab", b"c", 0), ("[^c]*c", b"ab", b"c", 0), ("(?:ab)*", b"ab", b"", 1), ("(ab)*", b"ab", b"c", 1), ("(?:a|b)*", b"ab", b"", 1), ("(a|b)*c", b"ab", b"c", 0),
        ("(?:a|b)+?c", b"ab", b"c", 0), ("(?:a?)*", b"a", b"", 1), ("(?:a*)*b", b"a", b"b", 0), ("a", b"a", b"", 1), ("ab", b"ab", b"", 1), ("a?", b"a", b"b", 1), ("a|b", b"ab", b"", 1),
        ("(a)(b)", b"ab", b"", 1), ("a??", b"a", b"", 1), ("b", b"a", b"", 1), ("b", b"a", b"b", 1), ("^a", b"a\n", b"", 1), ("a$", b"a\n", b"", 1), ("^", b"a\n", b"", 1), ("$", b"ab", b"", 1), ("a{2,}", b"a", b"", 1),
        ("a{2}", b"aa", b"", 1), ("(?:a{2})*", b"aa", b"", 1), ("(?:a(b)?)*", b"aba", b"", 1), ("(?:(a)|(b))*", b"ab", b"", 1), ("\\w+\\s", b"a1", b" ", 0), ("(?:\\w+\\s)*", b"ab ", b"", 1), ("\\d*x", b"1", b"x", 0),
        ("(?:a*b)*", b"aab", b"", 1), ("(?:a+b?)+?c", b"aab", b"c", 0), ("(?:(?:ab)+c)*", b"ababc", b"", 1), ("a{0,}b{0,}", b"a", b"b", 1), ("(.)*", b"ab", b"", 1), ("(?:.)*+", b"ab", b"", 1), ("a*a", b"a", b"", 0),
        ("(?:ab)*ab", b"ab", b"", 0), ("[ab]+b", b"ab", b"", 0), ("(?:a|b)*b", b"ab", b"", 0), ("(a)*?$", b"a", b"", 0), ("(?:a\\n)*$", b"a\n", b"", 0), ("c?", b"ab", b"", 1), ("x*", b"ab", b"", 1)]


def c19(run):
    engine(run, ("chars", "anchors") if run.thorough else ("chars",))
    token_api(run)
    r = run.rng
    progs = [(p.encode(), Q(exhaustive(b"ab\n" if "$" in p or "^" in p else ABC, 130) + [b"aaaaaac", b"aaaaab", b"ababac", b"bbbbbb"])) for p in EMPTY_LOOPS]
    w = {"atom": 2, "seq": 3, "alt": 3, "grp": 1, "rep": 8}
    progs += programs(run, Gen(r, weights=w, depth=4, quant=["*", "?", "*", "{0,2}", "+", "{2}", "{0,}", "{2,}"], anchors=.1, max_size=18).many(run.scale(280, 2800)),
                      all_most=90, samples=20, longest=10)
    progs += breadth(run, run.scale(90, 700))
    run.regexes(unique(progs), known="ignore")
    n = 100000
    jobs = {}
    for p, unit, tail, every in LONG:
        jobs.setdefault(p.encode(), []).append(f"L {n} {unit.hex()} {tail.hex() or '-'} {every}")
    n = 10000   # every token searches the rest of the input
    run.tokenizers([(defs, Q(qs)) for defs, qs in tokenizers(run, run.scale(30, 300)) + real_tokenizers(run, run.scale(4, 20))])
    toks = [([("t", 0, b"[a-z]+"), ("t", 1, b"\\d+"), ("s", b"\\s")], [f"L {n // 4} {b'ab 1 '.hex()} - 1", f"L {n // 4} {b'ab 1 '.hex()} {b'ab ?'.hex()} 1", f"L {n} 61 - 1", f"L {n} 20 61 1"]),
            ([("t", 0, b"a|ab"), ("t", 1, b"b*"), ("s", b" +")], [f"L {n // 4} {b'ab a  '.hex()} 62 1", f"L {n} 62 - 1"]),
            ([("t", 0, b"a*"), ("t", 1, b"(?:ab)+"), ("s", b"-?")], [f"L {n} 6162 2d 1", f"L {n} 612d 61 1"])]
    empties = [form(k, x) for k in ([100, 256, 65536, 70000] if run.thorough else [r.choice([100, 255, 256, 1000]), 65537 + r.randrange(9000)]) for x in EMPTY_LARGE]
    run.longs(list(jobs.items()) + empties, toks)


# --- C20 -----------------------------------------------------------------------------
def redundant(x, r):
    """the same with brackets that change nothing"""
    k = x[0]
    if k == "seq":
        y = ("seq", [redundant(z, r) for z in x[1]])
    elif k == "alt":
        y = ("alt", [redundant(z, r) for z in x[1]])
    elif k in ("grp", "non"):
        y = (k, redundant(x[1], r))
    elif k == "rep":
        y = ("rep", redundant(x[1], r)) + x[2:]
    else:
        y = x
    if y[0] in ("bol", "eol"):
        return y
    if r.random() < .3 and not (y[0] == "seq" and any(z[0] in ("bol", "eol") for z in y[1])):
        return non(y)
    return y


C20_FIXED = ["ab|c", "a|bc", "ab*", "(?:ab)*", "a|b*", "(?:a|b)*", "a|b|c", "a(?:b|c)d", "ab|cd|ef", "a(b|c(d|e(f|g)))h", "((((((a))))))", "(?:(?:(?:(?:a|b))))", "a[b|c]" [:0] or "a[bc]|d", "[ab]+c|d",
             "\\|a|b", "a\\|b", "\\(a\\)", "(\\(a|b\\))", "[)]a|b", "(a[)]b)", "(?:[)]|a)b", "a\\(b|c", "\\[a\\]", "\\[a]" [:0] or "\\{2\\}", "a\\{2\\}", "a\\*b", "a\\\\b", "\\\\(a)", "\\\\\\(a", "(\\))|b", "(?:\\)|b)a", "[\\]]a|b",
             "[\\]a]+b", "([\\]\\)])+a", "a{2}b|c{2}", "(?:ab){2}c", "ab{2}c", "a(b){2}c", "[ab]{2}c", "\\d{2}a", "\\x61{2}b", "\\x{6162}{2}c", "\\x{6162}*c", "a\\x{6263}+", "\\141{2}b", "(a|b){2}", "a?b?c?", "a*b+c?", "a**" [:0] or "a*",
             "(a*)*", "(?:a*)?b", "(a?){2}b", "^ab|c$", "^(?:ab|c)$", "(^a|b)$", "a|", "|a"][:-2] + ["a-b", "a,b", "a:b", "a=b", "a!b", "(?:a)", "(?:a)(?:b)", "(a)(?:b)(c)", "(a(?:b(c)))", "a}b" [:0] or "a,", "{" [:0] or "a-",
             "a{1}{2}" [:0] or "a{1}", "(?:(?:a|b)|c)|d", "(?:a|(?:b|c))d", "a(?:|b)" [:0] or "a(?:b)", "(?:ab|a)(?:bc|c)", "x(?:a|b)(?:c|d)y|z", "[a]b[c]", "[a-c][d-f]|g", "a[^b]c|d", "[^ab][^cd]|e",
             "([)])", "(a[)]b)c", "(?:[)]|a)b", "(a[(]b)c", "[(]a|b", "([(]|a)b", "[|]|a", "([|]a|b)c", "a[|]b|c", "([^()]*)\\)", "\\(([^)]*)\\)", "[{]a", "[{]{2}a", "([{}])+a",
             "(?:[[(|]|a)+b", "[([{|})]+a", "((a|[|)])b)c", "(a(b[(]c)[)]d)", "(?:a|([)(|])|b)c", "[(](a|b)[)]", "[(]([^)|]|[|])[)]"]


def nested(r, depth, chars):
    """brackets to a depth"""
    x = lit(r.choice(chars))
    for _ in range(depth):
        k = r.randrange(6)
        if k == 0:
            x = grp(x)
        elif k == 1:
            x = non(alt(x, lit(r.choice(chars))))
        elif k == 2:
            x = grp(seq(lit(r.choice(chars)), Gen.delimited(x)))
        elif k == 3:
            x = rep(non(x), r.choice(["?", "{1,2}", "{1}"]))
        elif k == 4:
            x = non(seq(Gen.delimited(x), lit(r.choice(chars))))
        else:
            x = grp(alt(word("ab"), x))
    return x


def c20(run):
    run.model("MC_Parse", ["SameTree", "WellFormed", "Numbering"], Size=run.scale(4, 5), Printing=False, AtomKind="chars")
    run.model("MC_Parse", ["SameTree", "WellFormed", "Numbering"], Size=4, Printing=False, AtomKind="anchors")
    run.model("MC_Parse", ["SameTree", "WellFormed", "Numbering"], Size=4, Printing=False, AtomKind="classes")
    r = run.rng
    progs = witnesses(run)
    progs += spec_programs(run, run.scale(140, 1800))
    progs += spec_programs(run, run.scale(50, 700), "classes")
    progs += spec_programs(run, run.scale(40, 500), "anchors")
    fixed_chars = {}
    for p in C20_FIXED:
        chars = [c for c in dict.fromkeys(p.encode()) if c not in b"?^$"][:9]
        some = exhaustive(sorted(r.sample(chars, min(3, len(chars)))) or [97], 120)
        for _ in range(150):
            some.append(bytes(r.choice(chars + [97, 98]) for _ in range(r.randint(1, 6))))
        progs.append((p.encode(), Q(dict.fromkeys(some))))
    trees = Gen(r, atoms=ATOMS_ABC + [lit(")"), lit("("), lit("|"), lit("]"), lit("*"), cls("[)]", b")"), cls("[\\]]", b"]"), lit("\\"), lit("{")], depth=4,
                max_size=26).many(run.scale(130, 1300))
    progs += [(text(x), Q(queries(x, r, chars=bytes(sorted(alphabet(x))[:5]), all_most=40, samples=30))) for x in trees]
    for x in Gen(r, anchors=.1).many(run.scale(60, 600)):
        qs = queries(x, r, chars=b"abc", all_most=130, samples=20)
        progs.append((text(redundant(x, r)), Q(qs)))
    for depth in list(range(3, 12)) * run.scale(3, 30) + [15, 20, 30]:
        x = nested(r, depth, b"ab")
        progs.append((text(x), Q(dict.fromkeys(exhaustive(b"ab", 63) + [sample(x, r) for _ in range(12)]))))
    progs += wide_programs(run, run.scale(60, 120))
    # long ones
    for n in (20, 40, 80):
        s = bytes(r.choice(b"abc") for _ in range(n))
        progs.append((s, Q([s, s[:-1], b"a" + s, s + b"a", s[1:], s * 2])))
        w = [bytes(r.choice(b"ab") for _ in range(r.randint(1, 5))) for _ in range(n // 3)]
        progs.append((b"|".join(w) , Q(exhaustive(b"ab", 127))))
    progs += breadth(run, run.scale(90, 800))
    run.regexes(unique(progs))


# --- C21 -----------------------------------------------------------------------------
def c21(run):
    engine(run, ("overlap",))
    r = run.rng
    progs = witnesses(run)
    words = [b"a", b"b", b"ab", b"ba", b"aa", b"abc", b"c", b"bc", b"ac", b"aab", b"abab", b"cab", b"aba"]
    for _ in range(run.scale(200, 2000)):
        n = r.randint(2, 8)
        branches = []
        for w in r.sample(words, n):
            x = word(w.decode())
            k = r.random()
            if k < .15:
                x = grp(x)
            elif k < .25:
                x = seq(grp(lit(chr(w[0]))), *[lit(c) for c in w[1:]])
            elif k < .35:
                x = seq(x if x[0] != "seq" else non(x), rep(lit("b"), r.choice(["?", "*", "??", "+"])))
            elif k < .4:
                x = rep(x, r.choice(["?", "*", "+", "{2}"]))
            branches.append(x)
        x = alt(*branches)
        k = r.random()
        tail = r.choice([None, lit("c"), lit("b"), word("ab"), rep(lit("a"), "*"), alt(lit("a"), word("bc")), rep(lit("b"), "?"), EOL, grp(alt(lit("b"), lit("c")))])
        if k < .5:
            x = grp(x) if r.random() < .6 else non(x)
            if r.random() < .3:
                x = rep(x, r.choice(["?", "??", "{2}", "+", "*?"]))
            x = seq(x, *([non(tail) if tail[0] == "alt" else tail] if tail else []))
        elif k < .7:
            x = seq(lit("a"), grp(x), *([non(tail) if tail[0] == "alt" else tail] if tail else []))
        if tail is EOL and x[0] == "seq" and k >= .7:
            continue
        progs.append((text(x), Q(queries(x, r, chars=ABC if tail is not EOL else b"ab\n", all_most=130, samples=40))))
    progs += programs(run, Gen(r, weights={"atom": 2, "seq": 4, "alt": 9, "grp": 1.5, "rep": 2}, width=5, max_size=26).many(run.scale(200, 2000)))
    # many branches
    for n in (10, 16, 26):
        cs = list(range(97, 97 + n))
        r.shuffle(cs)
        x = alt(*[seq(lit("a"), lit(c)) if i % 3 == 0 else lit(c) for i, c in enumerate(cs)])
        for y in (x, grp(x), seq(grp(x), lit("z")), rep(grp(x), "+")):
            progs.append((text(y), Q([bytes([c]) for c in cs] + [b"a" + bytes([c]) for c in cs] + [bytes([c]) + b"z" for c in cs] + [b"", b"aaz", b"0"])))
    progs += breadth(run, run.scale(80, 700))
    run.regexes(unique(progs))


# --- C22 -----------------------------------------------------------------------------
ALPHABETS = ["structure", "inner", "brackets", "braces", "anchors", "hex", "octal", "escapes"]
# patterns as they are written, to be damaged
WRITTEN = [r"(\d+)-(\d+)-(\d+)", r"a(a*)", r"[a-z]+\s\d{2,4}", r"(?:ab|cd)*e?", r"^(a|b)+$", r"\x41\x{4243}[^0-9]", r"\o{101102}\101|z", r"((a)|(b(c))){2}", r"[\d\-]+(?:\.[0-9]+)?",
           r"\(a\)\[b\]\{c\}", r".*?x|y{3}z{1,}", r"(?:(?:a|b)+?c)++", r"[^\s]+@\w+\.(?:com|org)", r"'[^']*'", r"\+?[1-9][0-9]*", r"0[xX][0-9a-fA-F]{1,8}", r"(\w+)\s*=\s*(\w+)"]


def damaged(p, r):
    """p with something added, left out, doubled or exchanged"""
    k = r.randrange(len(p) + 1)
    z = r.randrange(5)
    special = b"()[]|*+?{}\\^$-a:0,x"
    if z == 0:
        return p[:k] + bytes([r.choice(special)]) + p[k:]
    if z == 1:
        return p[:k] + p[k + 1:]
    if z == 2:
        return p[:k] + p[k:k + 1] + p[k:]
    if z == 3:
        return p[:k] + bytes([r.choice(special)]) + p[k + 1:]
    return p[:k]


def c22(run):
    r = run.rng
    texts_ = {}
    for a in ALPHABETS:
        run.model("MC_Legal", ["LegalIsValid", "IllegalIsInvalid", "Composed"], ["IllegalForever"],
                  Length=run.scale(5, 7), Alphabet=a, Printing=False)
        n = 4 if a in ("structure", "brackets", "anchors") else 3
        found = {"legal": set(), "illegal": set()}
        for t, v in run.legal_texts(a, n):
            if v in found:
                found[v].add(t)
        for v, most in (("illegal", run.scale(130, 2500)), ("legal", run.scale(30, 600))):
            all_ = sorted(found[v], key=lambda t: (len(t), t))
            short = [t for t in all_ if len(t) < 3]
            rest = all_[len(short):]
            for t in short + r.sample(rest, min(len(rest), max(0, most - len(short)))):
                texts_[t] = v
    run.model("MC_Parse", ["Accepted"], Size=run.scale(3, 4), Printing=False, AtomKind="chars")
    run.model("MC_Parse", ["Accepted"], Size=3, Printing=False, AtomKind="anchors")
    run.model("MC_Parse", ["Accepted"], Size=3, Printing=False, AtomKind="classes")
    # numbers in braces: what surrounds the digits, everywhere
    more = set()
    around = [c for x in (48, 56, 58, 65, 71, 97, 103) for c in (x - 1, x)] + list(b" -+_\\({x")
    for c in sorted(set(around)) if not run.thorough else range(1, 256):
        for pre, post in ((b"", b"1"), (b"1", b""), (b"41", b"1"), (b"414", b""), (b"4142", b"0")):
            more.add(b"\\x{" + pre + bytes([c]) + post + b"}")
        for pre, post in ((b"", b"01"), (b"1", b"1"), (b"10", b""), (b"101", b"02"), (b"10110", b"")):
            more.add(b"\\o{" + pre + bytes([c]) + post + b"}")
    # ranges
    for _ in range(run.scale(40, 400)):
        a, b = r.choice([(r.randrange(1, 256), r.randrange(1, 256)), (r.randrange(97, 123), r.randrange(97, 123)), (r.randrange(48, 58), r.randrange(48, 58))])
        if not {a, b} & set(b"\\]^-["):
            more.add(r.choice([b"[%c-%c]", b"[^%c-%c]", b"x[_%c-%c]+", b"([%c-%c.])", b"[a-c%c-%c]", b"[%c-%cA-Z]"]) % (a, b))
    trees = [text(x) for x in Gen(r, capture=.5, anchors=.1).many(run.scale(60, 600))]
    for p in [w.encode() for w in WRITTEN] * run.scale(14, 150) + trees * run.scale(2, 4):
        q = damaged(p, r)
        more.add(q if r.random() < .8 else damaged(q, r))
    more |= {w.encode() for w in WRITTEN} | set(trees)
    more = sorted(t for t in more if t)
    for t, v in zip(more, run.verdicts(more)):
        if v != "unspecified":
            texts_[t] = v
    records, sources = [], []
    for t, v in texts_.items():
        records.append([{"kind": "compiles", "p": list(t)}, 1])
        sources.append(f"using R = e_regex::regex<{vf.literal(t)}>;\nbool f(std::string_view q) {{ return R::match(q).is_accepted(); }}\n")
    # groups that exist and groups that don't
    captures = [p.encode() for p in C17_FIXED] + [text(x) for x in Gen(r, capture=.8, max_groups=8, max_size=20, depth=3).many(run.scale(25, 250))] + [b"a", b"[a-b]*", b"(?:a|b)"]
    for p in r.sample(captures, min(len(captures), run.scale(45, 400))):
        g = sum(1 for k in range(len(p)) if p[k:k + 1] == b"(" and p[k + 1:k + 2] != b"?" and p[k - 1:k] not in (b"\\", b"["))
        use = f"using R = e_regex::regex<{vf.literal(p)}>;\nauto f(std::string_view q) {{ auto r = R::match(q); "
        for n in sorted({0, g, g + 1, g + 2, r.choice([g + 3, 40, 255, 256, 65536])}):
            forms = [f"return r.template get<{n}>(); }}\n", f"return std::get<{n}>(r); }}\n"]
            records.append([{"kind": "reads", "p": list(p), "n": n}, len(forms)])
            sources += [use + x for x in forms]
        for n in sorted({1, 2, g, g + 1, g + 2} - {0}):
            names = ", ".join(f"v{k}" for k in range(n))
            forms = [f"auto [{names}] = r; return v0; }}\n", f"const auto& [{names}] = r; return v0; }}\n"]
            records.append([{"kind": "splits", "p": list(p), "n": n}, len(forms)])
            sources += [use + x for x in forms]
    # every token has a type of the same enumeration
    for _ in range(run.scale(24, 120)):
        k = r.randint(1, 5)
        kinds = [0] * k
        if r.random() < .6:
            kinds[r.randrange(k)] = 1
        if r.random() < .3:
            kinds = [r.randrange(3) for _ in range(k)]
        defs = [f"e_regex::token {{e{t}::k, {vf.literal(w)}}}" for t, w in zip(kinds, [b"a", b"bc", b"[0-9]+", b"(x|y)", b"z*"])]
        seps = ["e_regex::separator {\" \"}", "e_regex::separator {\"-+\"}"][:r.randint(1, 2)]
        both = defs + seps
        r.shuffle(both)
        kinds = [int(d.split("e_regex::token {e")[1][0]) for d in both if "token" in d]
        records.append([{"kind": "types", "types": kinds}, 1])
        sources.append("enum class e0 { k }; enum class e1 { k }; enum class e2 : char { k };\n#include \"tokenizer.hpp\"\n"
                       f"using T = e_regex::tokenization::tokenizer<{', '.join(both)}>;\n"
                       "int f(std::string_view q) { int n = 0; for (auto t: T {}(q)) { n += static_cast<int>(t.value.size()); } return n; }\n")
    yes = vf.accepted(run.work, sources)
    run.programs += len(sources)
    run.log("compiled", len(sources), "of which taken", sum(yes))
    out = []
    for rec, n in records:
        out.append({**rec, "yes": [int(x) for x in yes[:n]]})
        yes = yes[n:]
    run.statics(out, lambda x: {**{k: v for k, v in x.items() if k not in ("kind", "p")}, "what": x["kind"],
                                **({"pattern": shown(x["p"])} if "p" in x else {})})


CHECKS = {f"C{n:02d}": globals()[f"c{n:02d}"] for n in range(1, 23)}
