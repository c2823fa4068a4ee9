"""One check: models, corpora, traces, verdict, evidence."""
import json
import os
import random
import sys
import time

import corpus
import vf
from vf import CheckError, Tlc

BATCH = 1200      # regexes built and run at a time
KNOWN = os.path.join(vf.VERIF, "known_findings.json")


def shown(b):
    return "".join(chr(c) if 32 <= c < 127 and c != 92 else "\\x%02x" % c for c in b)


def corrupt(module, rec, rng):
    """a copy of an accepted record in which one thing is different, with one case only"""
    r = json.loads(json.dumps(rec))
    if module == "StaticTrace":
        if r["kind"] == "count":
            r["groups"][rng.randrange(len(r["groups"]))] += 1
        elif r["kind"] == "pair":
            k = rng.randrange(len(r["answers"]))
            r["answers"][k] = 1 - r["answers"][k]
        elif "yes" in r:
            r["yes"][rng.randrange(len(r["yes"]))] ^= 1
        else:
            r["x"] = r["x"] + list(b"()"[rng.randrange(2):][:1])
        return r
    if not r["t"]:
        return None
    c = rng.choice(r["t"])
    r["t"] = [c]
    if module == "LongTrace":
        o = c["o"][0]
        if len(o) < 4:
            return None
        if c["count"] == 0:
            c["count"] = 1
            return r
        o[rng.choice([2, 3]) if o[0 if "defs" in r else 1] == 1 else 0 if "defs" in r else 1] += 1
        return r
    if "e" in c:                        # a history: an object after one of the operations
        k = rng.randrange(len(c["e"]))
        objects = [o for o in c["e"][k][2:5] if len(o) > 3]
        if len(c["e"][k]) != 5 or not objects:
            return None
        c["e"] = c["e"][:k + 1]
        o = rng.choice(objects)
        accepted = 0 if module == "TokenTrace" else 1
    else:
        k = rng.randrange(len(c["o"]))
        c["o"] = c["o"][:k + 1]
        o = c["o"][k]
        accepted = 0 if module == "TokenTrace" else 1
    if len(o) < 4:
        return None
    if o[accepted] == 1 and rng.random() < .7:
        o[rng.choice([2, 3])] += 1
    else:
        o[accepted] = 1 - o[accepted]
    return r


class Run:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.rng = random.Random(f"{prop}/{seed}")
        self.work = vf.Work(prop)
        self.started = time.time()
        self.models = []
        self.rejected = {}        # records changed on purpose, by trace specification
        self.states = self.transitions = self.traces = self.events = 0
        self.programs = 0
        self.samples = []
        self.violations = []
        self.deviations = {}          # known finding: pattern -> query
        self.assumptions = []
        with open(KNOWN) as f:
            self.known = json.load(f)

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print(f"[{time.time() - self.started:6.1f}]", *a, file=sys.stderr, flush=True)

    # --- the specification alone -----------------------------------------------
    def model(self, module, invariants=(), properties=(), view=None, **constants):
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
        if constants:
            cfg += "CONSTANTS " + " ".join(f"{k}={self.tla(v)}" for k, v in constants.items()) + "\n"
        if invariants:
            cfg += "INVARIANTS " + " ".join(invariants) + "\n"
        if properties:
            cfg += "PROPERTIES " + " ".join(properties) + "\n"
        if view:
            cfg += f"VIEW {view}\n"
        t = Tlc(module, cfg, timeout=3000 if self.thorough else 400,
                heap="20g" if self.thorough else "6g").require()
        if t.distinct < 2:
            raise CheckError(f"{module} explored nothing")
        self.models.append({"module": module, "constants": {k: str(v) for k, v in constants.items()},
                            "distinct_states": t.distinct, "states_generated": t.generated,
                            "depth": t.depth, "invariants": list(invariants),
                            "properties": list(properties), "wall_s": round(t.wall, 1)})
        self.states += t.distinct
        self.transitions += t.generated
        self.log("model", module, constants, t.distinct)

    @staticmethod
    def tla(v):
        if isinstance(v, bool):
            return "TRUE" if v else "FALSE"
        if isinstance(v, str):
            return f'"{v}"'
        if isinstance(v, (set, frozenset, list)):
            return "{" + ",".join(map(Run.tla, v)) + "}"
        return str(v)

    # --- behaviours generated from the specification ------------------------------
    def spec_patterns(self, size, kind, n):
        t = Tlc("MC_Parse", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS SameTree WellFormed Numbering\n"
                f'CONSTANTS Size={size} Printing=TRUE AtomKind="{kind}"\n', workers=1, timeout=600).require()
        self.models.append({"module": "MC_Parse", "constants": {"Size": size, "AtomKind": kind},
                            "distinct_states": t.distinct, "states_generated": t.generated,
                            "invariants": ["SameTree", "WellFormed", "Numbering"], "wall_s": round(t.wall, 1)})
        self.states += t.distinct
        self.transitions += t.generated
        out = sorted({bytes(json.loads(x)) for x in t.lines("PATTERN")})
        return out if len(out) <= n else self.rng.sample(out, n)

    def legal_texts(self, alphabet, length):
        """(text, verdict) of all the texts over an alphabet"""
        t = Tlc("MC_Legal", f'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Length={length} Alphabet="{alphabet}" Printing=TRUE\n',
                workers=1, timeout=600).require()
        return [(bytes(a), v) for a, v in map(json.loads, t.lines("TEXT"))]

    def verdicts(self, texts):
        """what Legal says of each"""
        path = self.work.path("texts.ndjson")
        vf.write_ndjson(path, [{"p": list(t)} for t in texts])
        t = Tlc("Texts", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", {"TRACE": path}, timeout=600).require()
        os.unlink(path)
        out = dict(json.loads(x) for x in t.lines("VERDICT"))
        return [out[i + 1] for i in range(len(texts))]

    def scripts(self, n, length, tokens):
        per = 40
        traces = -(-n // per)
        t = Tlc("Scripts", f"SPECIFICATION Spec\nCONSTANTS Length={length} Tokens={self.tla(tokens)}\n"
                "CHECK_DEADLOCK FALSE\n", workers=1, timeout=600,
                args=["-simulate", f"num={traces}", "-depth", str((length + 1) * per + 1), "-seed", str(self.seed)])
        out = [[tuple(o) for o in json.loads(x)] for x in t.lines("SCRIPT")]
        if len(out) < n // 2:
            raise CheckError("no histories generated: " + t.out[-1000:])
        self.log("histories", len(out))
        return out[:n]

    # --- traces ---------------------------------------------------------------------
    def validate(self, module, records, invariants=(), properties=(), expected=None, name=None):
        """Check records against a trace specification; returns its reports"""
        reports = []
        for k in range(0, len(records), 2000):
            part = records[k:k + 2000]
            path = self.work.path("trace.ndjson")
            vf.write_ndjson(path, part)
            cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
            if invariants:
                cfg += "INVARIANTS " + " ".join(invariants) + "\n"
            if properties:
                cfg += "PROPERTIES " + " ".join(properties) + "\n"
            t = Tlc(module, cfg, {"TRACE": path}, timeout=3000 if self.thorough else 700,
                    heap="16g", stack="1g")
            t.require()
            os.unlink(path)
            found = t.reports()
            if expected:
                want = sum(map(expected, part)) + len(part)
                gone = any(not x["known"] for x in found)
                if t.distinct > want or (t.distinct < want and not gone):
                    raise CheckError(f"{module}: {t.distinct} states for {want - len(part)} events")
            unknown = t.lines("UNKNOWN")
            if unknown:
                raise CheckError(f"{module}: no verdict for {unknown[:3]}")
            self.states += t.distinct
            self.transitions += t.generated
            by_id = {r["r"]: r for r in part if "r" in r}
            for x in found:
                x["rec"] = by_id.get(x.get("r")) if "r" in x else part[x["i"] - 1]
            reports += found
        self.log(module, len(records), "records", len(reports), "reports")
        self.bound(module, records, reports)
        return reports

    def bound(self, module, records, reports):
        """What was accepted must not be accepted when anything in it is changed"""
        if module in self.rejected or not records:
            return
        seen = {id(x["rec"]) for x in reports}
        good = [r for r in records if id(r) not in seen]
        rng = random.Random(f"{self.prop}/{module}")     # leaves the corpora as they are
        changed = []
        for r in rng.sample(good, min(len(good), 40)):
            c = corrupt(module, r, rng)
            if c:
                changed.append({**c, "r": len(changed)})
            if len(changed) == 12:
                break
        if not changed:
            return
        path = self.work.path("changed.ndjson")
        vf.write_ndjson(path, changed)
        t = Tlc(module, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", {"TRACE": path}, heap="6g", stack="1g").require()
        os.unlink(path)
        found = {x["r"] if "r" in x else x["i"] - 1 for x in t.reports()}
        if len(found) != len(changed):
            left = [c for c in changed if c["r"] not in found][0]
            raise CheckError(f"{module} accepts what was not observed: {json.dumps(left)[:500]}")
        self.rejected[module] = len(changed)
        self.log(module, len(changed), "changed records rejected")

    def add_sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, **v):
        self.violations.append(v)

    def deviation(self, pattern, query, kind):
        self.deviations.setdefault(pattern, (query, kind))

    # --- regexes ----------------------------------------------------------------------
    def regexes(self, programs, full=False, known="finding", opt="-O0", extra=(), replay=None, compiled="regex"):
        """programs: list of (pattern, job lines) or (pattern, job lines, text compiled).
        known: what the known deviation is here: "finding", or "ignore" where the
        property compares the library with itself"""
        for k in range(0, len(programs), BATCH):
            part = [(p[0], self.affordable(p[0], p[1])) + tuple(p[2:]) for p in programs[k:k + BATCH]]
            pats = {i: (p[2] if len(p) > 2 else p[0]) for i, p in enumerate(part)}
            build = vf.Build(self.work, vf.REGEX_HEADER, vf.regex_items(pats, full), opt=opt, extra=extra)
            self.log("built", len(pats))
            self.compile_failures(build, {i: part[i][0] for i in pats}, pats)
            groups = [(f"R {i}", part[i][1]) for i in pats if i not in build.failures]
            records = vf.run_jobs(self.work, build.binary, groups)
            if len(records) != len(groups):
                raise CheckError("the driver left regexes out")
            plain, scripts = [], []
            for r in records:
                r["p"] = list(part[r["r"]][0])
                s = [c for c in r["t"] if "e" in c]
                q = [c for c in r["t"] if "o" in c]
                if s:
                    scripts.append({"r": r["r"], "p": r["p"], "t": s})
                if q:
                    plain.append({"r": r["r"], "p": r["p"], "t": q})
            self.programs += len(records)
            self.judge(plain, scripts, known, pats)
            vf.shutil.rmtree(build.dir, ignore_errors=True)

    @staticmethod
    def affordable(pattern, jobs):
        simple = [j for j in jobs if j[0] in "QGP"]
        ok = set(corpus.affordable(pattern, [bytes.fromhex(j[2:].replace("-", "")) for j in simple]))
        return [j for j in jobs if j[0] not in "QGP" or bytes.fromhex(j[2:].replace("-", "")) in ok]

    def compile_failures(self, build, patterns, texts):
        for i, e in build.failures.items():
            if "Killed" in e or "did not finish" in e:
                raise CheckError(f"the compiler did not finish: {shown(texts[i])}")
            self.violation(kind="does not compile", pattern=shown(patterns[i]), text=shown(texts[i]),
                           error=[x for x in e.splitlines() if "error" in x][:3])

    def judge(self, plain, scripts, known="finding", texts=None):
        if plain:
            self.traces += sum(len(r["t"]) for r in plain)
            self.events += sum(len(c["o"]) for r in plain for c in r["t"])
            for r in plain[:: max(1, len(plain) // 3)][:3]:
                c = r["t"][len(r["t"]) // 2]
                self.add_sample({"pattern": shown(r["p"]), "query": shown(c["q"]), "observed": c["o"][:3]})
            for x in self.validate("RegexTrace", plain, ["Confined", "RejectedIsEmpty"],
                                   expected=lambda r: sum(len(c["o"]) for c in r["t"])):
                r, c = x["rec"], x["rec"]["t"][x["c"] - 1]
                if x["known"]:
                    if known == "finding":
                        self.deviation(bytes(r["p"]), bytes(c["q"]), x["kind"])
                    elif known == "violation":
                        self.violation(kind=x["kind"], pattern=shown(r["p"]), query=shown(c["q"]),
                                       expected=x["expected"], got=x["got"], event=x["e"])
                    continue
                v = dict(kind=x["kind"], pattern=shown(r["p"]), query=shown(c["q"]),
                         expected=x["expected"], got=x["got"], event=x["e"])
                if c["d"]:
                    v["accessors"] = c["d"]
                if texts is not None and texts[r["r"]] != bytes(r["p"]):
                    v["compiled"] = shown(texts[r["r"]])
                self.violation(**v)
        if scripts:
            self.traces += sum(len(r["t"]) for r in scripts)
            self.events += sum(len(c["e"]) for r in scripts for c in r["t"])
            c = scripts[0]["t"][0]
            self.add_sample({"pattern": shown(scripts[0]["p"]), "queries": [shown(q) for q in c["qs"]],
                             "operations": ["%c %d %d" % tuple(e[0][:3]) for e in c["e"] if len(e[0]) == 5]})
            for x in self.validate("ScriptTrace", scripts, ["Confined", "RejectedIsEmpty"],
                                   ["Progress", "EndIsFinal", "Isolated"],
                                   expected=lambda r: sum(len(c["e"]) + 1 for c in r["t"])):
                r, c = x["rec"], x["rec"]["t"][x["c"] - 1]
                self.violation(kind=x["kind"], pattern=shown(r["p"]), queries=[shown(q) for q in c["qs"]],
                               operations=["%c %d %d" % tuple(e[0][:3]) for e in c["e"][:x["e"]] if len(e[0]) == 5],
                               expected=x["expected"], got=x["got"])

    def longs(self, programs, tokenizers=()):
        """programs: (pattern, L lines) or (pattern, L lines, form); tokenizers: (definitions, L lines)"""
        pats = {i: p[0] for i, p in enumerate(programs)}
        records = []
        if pats:
            build = vf.Build(self.work, vf.REGEX_HEADER, vf.regex_items(pats, True), opt="-O1")
            self.compile_failures(build, pats, pats)
            records = vf.run_jobs(self.work, build.binary,
                                  [(f"R {i}", programs[i][1]) for i in pats if i not in build.failures])
            for r in records:
                r["p"] = list(pats[r["r"]])
                if len(programs[r["r"]]) > 2:
                    r["form"] = programs[r["r"]][2]
        defs = {1000 + i: t[0] for i, t in enumerate(tokenizers)}
        if defs:
            build = vf.Build(self.work, vf.TOKENIZER_HEADER, vf.tokenizer_items(defs), opt="-O1")
            self.compile_failures(build, {i: self.described(d) for i, d in defs.items()},
                                  {i: self.described(d) for i, d in defs.items()})
            more = vf.run_jobs(self.work, build.binary,
                               [(f"T {i}", tokenizers[i - 1000][1]) for i in defs if i not in build.failures])
            for r in more:
                r["p"] = []
                r["defs"] = self.definitions(defs[r["r"]])
            records += more
        self.programs += len(records)
        self.traces += sum(len(r["t"]) for r in records)
        c = records[0]["t"][0] if records and records[0]["t"] else None
        if c:
            self.add_sample({"pattern": shown(records[0]["p"]), "query": f"{shown(c['unit'])} x {c['n']} + {shown(c['tail'])}",
                             "observed": c["o"]})
        for x in self.validate("LongTrace", records, expected=lambda r: len(r["t"])):
            r, c = x["rec"], x["rec"]["t"][x["c"] - 1]
            self.violation(kind=x["kind"], pattern=shown(r["p"]), definitions=[shown(d["p"]) for d in r.get("defs", [])],
                           query=f"{shown(c['unit'])} x {c['n']} + {shown(c['tail'])}",
                           expected=x["expected"], got=[c["count"], c["o"]])

    # --- tokenizers -----------------------------------------------------------------------
    @staticmethod
    def definitions(defs):
        return [{"sep": 0, "type": vf.KINDS[d[1]], "p": list(d[2])} if d[0] == "t"
                else {"sep": 1, "type": -1, "p": list(d[1])} for d in defs]

    @staticmethod
    def described(defs):
        return b"  ".join((b"%d:" % d[1] + d[2]) if d[0] == "t" else b"sep:" + d[1] for d in defs)

    def tokenizers(self, programs):
        """programs: list of (definitions, job lines)"""
        defs = {i: p[0] for i, p in enumerate(programs)}
        build = vf.Build(self.work, vf.TOKENIZER_HEADER, vf.tokenizer_items(defs))
        self.log("built", len(defs))
        names = {i: self.described(d) for i, d in defs.items()}
        self.compile_failures(build, names, names)
        groups = [(f"T {i}", programs[i][1]) for i in defs if i not in build.failures]
        records = vf.run_jobs(self.work, build.binary, groups)
        if len(records) != len(groups):
            raise CheckError("the driver left tokenizers out")
        for r in records:
            r["defs"] = self.definitions(defs[r["r"]])
        self.programs += len(records)
        self.judge_tokens(records)
        vf.shutil.rmtree(build.dir, ignore_errors=True)

    def judge_tokens(self, records):
        self.traces += sum(len(r["t"]) for r in records)
        self.events += sum(len(c.get("e", c.get("o"))) for r in records for c in r["t"])
        for r in records[:: max(1, len(records) // 3)][:3]:
            c = r["t"][len(r["t"]) // 2]
            self.add_sample({"definitions": [shown(d["p"]) for d in r["defs"]],
                             **({"input": shown(c["q"]), "observed": c["o"][:4]} if "o" in c else
                                {"inputs": [shown(q) for q in c["qs"]],
                                 "operations": ["%c %d %d" % tuple(e[0][:3]) for e in c["e"] if len(e[0]) == 4]})})
        for x in self.validate("TokenTrace", records, ["TokensInInput", "MaximalMunch"], ["NoGaps"],
                               expected=lambda r: sum(len(c.get("e", c.get("o"))) + 1 for c in r["t"])):
            r, c = x["rec"], x["rec"]["t"][x["c"] - 1]
            v = dict(kind=x["kind"], definitions=[("sep " if d["sep"] else f"{d['type']} ") + shown(d["p"]) for d in r["defs"]],
                     expected=x["expected"], got=x["got"], event=x["e"])
            if "o" in c:
                v["input"] = shown(c["q"])
            else:
                v["inputs"] = [shown(q) for q in c["qs"]]
                v["operations"] = ["%c %d %d" % tuple(e[0][:3]) for e in c["e"][:x["e"]] if len(e[0]) == 4]
            self.violation(**v)

    # --- facts known during compilation -------------------------------------------------------
    def statics(self, records, describe):
        """records for StaticTrace"""
        if not records:
            raise CheckError("nothing to check")
        self.traces += len(records)
        for r in records[:: max(1, len(records) // 3)][:3]:
            self.add_sample(describe(r))
        for x in self.validate("StaticTrace", records, expected=lambda r: 1):
            self.violation(kind=x["kind"], **describe(x["rec"]))

    # --- verdict -----------------------------------------------------------------------------------
    def witnesses(self):
        """(pattern, queries) of the known findings of this property"""
        out = []
        for f in self.known["findings"]:
            if self.prop in f["properties"]:
                out += [(w["pattern"].encode(), [q.encode() for q in w["queries"]]) for w in f["witnesses"]]
        return out

    def finish(self):
        known = [f for f in self.known["findings"] if self.prop in f["properties"]]
        if self.deviations and not known:
            for p, (q, k) in self.deviations.items():
                self.violation(kind=k, pattern=shown(p), query=shown(q))
        evidence = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces, "trace_events": self.events,
                "programs_compiled": self.programs, "models": self.models,
                "changed_records_rejected": self.rejected, "samples": self.samples,
                "deviations_known": len(self.deviations)},
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.started, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(vf.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(vf.VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        self.work.close()
        if self.deviations and known:
            f = known[0]
            p, (q, k) = sorted(self.deviations.items(), key=lambda x: (len(x[0]), x[0]))[0]
            print(f"KNOWN-FINDING: property={self.prop} {f['id']}: {f['summary']} "
                  f"[{len(self.deviations)} patterns, e.g. {shown(p)} on {shown(q)}]")
        if not self.violations:
            print(f"OK property={self.prop} states={self.states} traces={self.traces} "
                  f"programs={self.programs} wall={evidence['wall_s']}s")
            return 0
        os.makedirs(os.path.join(vf.VERIF, "replays"), exist_ok=True)
        path = os.path.join(vf.VERIF, "replays", self.prop + ".json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                       "violations": self.violations[:200]}, f, indent=1)
        for v in self.violations[:5]:
            print("  " + json.dumps(v)[:600])
        print(f"VIOLATION property={self.prop} replay={path}")
        return 1
