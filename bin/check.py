#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   or   check.py --setup

Decides one property with the TLA+ specifications in /verif/spec:
 1. builds the drivers in /verif/harness against /repo's working tree;
 2. explores the specification exhaustively within small constants (TLC) and
    checks its invariants and step properties;
 3. records executions of the real contracts (random drivers, behaviours of
    the specification, fixed scenarios) and has TLC validate every step of
    every recorded trace against the specification.
Exit 0: held on everything explored; 1: VIOLATION line; 2: tool error.
"""
import concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
import suites as SU
SPEC, HARN, BUILD = ROOT + "/spec", ROOT + "/harness", ROOT + "/build"
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
CMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()

class ToolError(Exception):
    pass

def env():
    e = dict(os.environ)
    e.update(PATH="/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TARGET_DIR=HARN + "/target", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    return e

def sh(cmd, timeout, cwd=ROOT, extra=None):
    e = env()
    e.update(extra or {})
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                              timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired as x:
        raise ToolError(f"timeout after {timeout}s: {' '.join(cmd[:6])}")

def build(pkgs):
    os.makedirs(BUILD + "/java", exist_ok=True)
    src, cls = SPEC + "/java/BigInt.java", BUILD + "/java/BigInt.class"
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        r = sh(["javac", "-cp", TLAJAR, "-d", BUILD + "/java", src], 120)
        if r.returncode:
            raise ToolError("javac: " + r.stdout[-2000:])
    cmd = ["cargo", "build", "--offline"]
    for p in sorted(set(pkgs)):
        cmd += ["-p", p]
    r = sh(cmd, 1700, cwd=HARN)
    if r.returncode:
        raise ToolError("build failed:\n" + r.stdout[-4000:])

def tlc(module, cfg, extra, timeout, workers, tag, args=(), mem="3g"):
    meta = f"{BUILD}/meta/{tag}"
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(2, workers)}", "-Xss256m", f"-Xmx{mem}",
           f"-Djava.io.tmpdir={meta}", "-cp", f"{BUILD}/java:{TLAJAR}:{CMJAR}", "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfg, *args, module]
    try:
        r = sh(cmd, timeout, cwd=SPEC, extra=extra)
        return r.stdout, r.returncode
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def lines(out, tag):
    """the JSON payloads TLC printed with this tag"""
    for ln in out.splitlines():
        if ln.startswith('"' + tag + " "):
            try:
                yield json.loads(json.loads(ln)[len(tag) + 1:])
            except ValueError:
                raise ToolError("unparsable TLC line: " + ln[:300])

def mkey(m):
    """names one exploration among those of a suite"""
    return "-".join([str(m["depth"]), m.get("emit", "no")] + [str(v) for _, v in sorted(m.get("env", {}).items())])

WALK = 6
def counts(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = f"{BUILD}/run/{prop}"
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.viol, self.foreign, self.known = [], [], []
        self.cov = dict(states=0, transitions=0, traces=0, steps=0, accepted=0, refused=0, panics=0)
        self.byop, self.mc, self.samples, self.notes = {}, [], [], []
        self.exhaustive = True

    # ---- specification -> TLC exhaustive ----
    def model(self, suite, m):
        """one exhaustive (or bounded) exploration; returns emitted behaviours"""
        tag = f"{self.prop}-{m['module']}-{mkey(m)}"
        extra = dict(DEPTH=str(m["depth"]), EMIT=m.get("emit", "no"), **{k: str(v) for k, v in m.get("env", {}).items()})
        args = []
        if m.get("emit") == "walk":
            args = ["-simulate", f"num={m['num']}", "-depth", str(m["depth"] + 2), "-seed", str(self.seed)]
        out, rc = tlc(m["module"] + ".tla", m.get("cfg", "MC.cfg"), extra, m.get("timeout", 600), m.get("workers", 4), tag, args, m.get("mem", "4g"))
        fails = re.findall(r"(STEPFAIL|INVFAIL) (\{.*)", out)
        if fails:
            raise ToolError("specification violates its own property: " + fails[0][0] + fails[0][1][:1500])
        if rc != 0:
            raise ToolError(f"TLC {m['module']} rc={rc}: " + out[-3000:])
        g, d = counts(out)
        em = list(lines(out, "EMIT")) if m.get("emit") else []
        if m.get("emit") == "walk":
            mm = re.search(r"(\d+) states checked", out) or re.search(r"generated: (\d+)", out)
            g, d = (int(mm.group(1)) if mm else 0), len(em)
        dep = re.search(r"depth of the complete state graph search is (\d+)", out)
        return dict(module=m["module"], mode=m.get("emit", "no"), depth_bound=m["depth"], generated=g, distinct=d,
                    search_depth=int(dep.group(1)) if dep else None, env=m.get("env", {})), em

    def behaviours(self, em, limit):
        """turn emitted states into op sequences covering transitions; one that comes to a state known
        already goes on from there at random (the code might not be where the specification is)"""
        key = lambda o: json.dumps(o, sort_keys=True)
        full = {key([x["cfg"], x["h"]]) for x in em}
        at = {x["id"]: x for x in em if "id" in x}
        seqs = []
        for x in em:
            seqs.append((x["cfg"], list(x["h"]) + sorted(x["no"], key=key), None))
            for y in sorted(x["yes"], key=key):
                p = list(x["h"]) + [y["op"]]
                if key([x["cfg"], p]) not in full:
                    seqs.append((x["cfg"], p, y["to"]))
        rnd = random.Random(self.seed)
        total = len(seqs)
        if len(seqs) > limit:
            seqs = rnd.sample(seqs, limit)
        def on(p, to):
            x = at.get(to)
            for _ in range(WALK):
                if not x or not x["yes"]:
                    break
                y = rnd.choice(sorted(x["yes"], key=key))
                p, x = p + [y["op"]], at.get(y["to"])
            no = sorted(x["no"], key=key) if x else []
            return p + rnd.sample(no, min(len(no), 10))
        seqs = [(c, on(p, to) if to is not None else p) for c, p, to in seqs]
        return seqs, total

    # ---- traces of the real code ----
    def record(self, suite, mode, name, **kw):
        s = SU.SUITES[suite]
        out = f"{self.dir}/{name}.ndjson"
        cmd = [f"{HARN}/target/debug/{s['pkg']}", mode, "--suite", suite, "--out", out]
        for k, v in kw.items():
            cmd += ["--" + k, str(v)]
        r = sh(cmd, 600)
        if r.returncode:
            raise ToolError(f"driver {suite} rc={r.returncode}: " + r.stdout[-2000:])
        return out

    def validate(self, suite, path, tag, workers=4, count=True):
        """TLC validates the traces in path; returns mismatches"""
        s = SU.SUITES[suite]
        n = sum(1 for _ in open(path))
        if n == 0:
            return []
        out, rc = tlc(s["trace"] + ".tla", "Trace.cfg", dict(TRACE=path), 800, workers, f"{self.prop}-{tag}", mem="5g")
        mism = list(lines(out, "MISMATCH"))
        if rc != 0:
            raise ToolError(f"TLC {s['trace']} rc={rc}: " + "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing", "Semantic", "Loading", "Lint")))[-3500:])
        g, d = counts(out)
        bad = {m["idx"]: m for m in mism}
        expect = 0
        with open(path) as f:
            for i, ln in enumerate(f, 1):
                t = json.loads(ln)
                last = bad[i]["step"] if i in bad else len(t["steps"])
                expect += 2 + (last if t["init"]["ok"] or i in bad else 0) - (0)
                if count:
                    self.cov["traces"] += 1
                    for st in t["steps"][:last]:
                        k = suite + "." + str(st["op"].get("o", "?"))
                        a = self.byop.setdefault(k, [0, 0])
                        a[0 if st["ok"] else 1] += 1
                        self.cov["steps"] += 1
                        self.cov["accepted" if st["ok"] else "refused"] += 1
                        self.cov["panics"] += bool(st.get("panic"))
                    if len(self.samples) < 3 and t["steps"]:
                        self.samples.append(dict(suite=suite, trace=t["id"], cfg=t["cfg"],
                            ops=[dict(op=x["op"], ok=x["ok"]) for x in t["steps"][:8]]))
        if count:
            self.cov["states"] += d
            self.cov["transitions"] += max(0, d - n)
        if d != expect:
            raise ToolError(f"{suite}: TLC consumed {d} trace states, expected {expect}: trace validation incomplete")
        for m in mism:
            m["suite"], m["file"] = suite, path
        return mism

    def judge(self, mism):
        for m in mism:
            m["past"] = self.past(m)
            props = SU.attribute(m["suite"], m)
            (self.viol if self.prop in props else self.foreign).append((m, sorted(props)))

    def past(self, m):
        """what was done before the deviation: names of accepted operations and of the messages in them"""
        with open(m["file"]) as f:
            t = json.loads(next(l for i, l in enumerate(f, 1) if i == m["idx"]))
        m["world"] = t["cfg"]
        out = set()
        for x in t["steps"][:max(m["step"] - 1, 0)]:
            if x["ok"]:
                out |= {x["op"].get("o")} | SU.kinds(x["op"])
        return out

    def save(self, m):
        """writes a replay file for a mismatch"""
        with open(m["file"]) as f:
            for i, ln in enumerate(f, 1):
                if i == m["idx"]:
                    t = json.loads(ln)
                    break
        d = f"{BUILD}/replays"
        os.makedirs(d, exist_ok=True)
        ops = [x["op"] for x in t["steps"][:max(m["step"], 0)]]
        p = f"{d}/{self.prop}-{m['suite']}-{hashlib.sha1(json.dumps([t['cfg'], ops]).encode()).hexdigest()[:10]}.json"
        json.dump(dict(property=self.prop, suite=m["suite"], id=t["id"], cfg=t["cfg"], ops=ops,
                       mismatch={k: m[k] for k in ("kind", "step", "op", "fields", "exp", "got")}), open(p, "w"), indent=1)
        return p

    def go(self):
        P = SU.PROPS[self.prop]
        quick = self.tier == "quick"
        jobs = []
        build([SU.SUITES[x[0]]["pkg"] for x in P["suites"]])
        self.notes.append(f"build {time.time()-T0:.1f}s")
        with cf.ThreadPoolExecutor(max_workers=4) as ex:
            futs, once = [], set()
            for suite, focus, *frac in P["suites"]:
                s = SU.SUITES[suite]
                k = {**s[self.tier], **s.get("foci", {}).get(focus, {}).get(self.tier, {})}
                shards = k.get("shards", 1)
                if frac and quick:
                    shards = max(1, int(shards * frac[0] + .5))
                per = max(1, int(k["traces"] * (frac[0] if frac and quick else 1)) // shards)
                for j in range(shards):
                    futs.append(ex.submit(self.t_random, suite, focus, j, per, k["len"], shards))
                for m in k.get("models", s.get("mc_" + self.tier, s.get("mc_quick", []))):
                    if "props" in m and self.prop not in m["props"]:
                        continue
                    if (m["module"], mkey(m)) in once:
                        continue
                    once.add((m["module"], mkey(m)))
                    futs.append(ex.submit(self.t_model, suite, m))
                if s.get("scenarios"):
                    futs.append(ex.submit(self.t_scen, suite))
            for f in futs:
                f.result()
        self.findings()

    def t_random(self, suite, focus, j, per, ln, shards):
        p = self.record(suite, "gen", f"{suite}-{focus}-r{j}", seed=self.seed, base=j * per, traces=per, len=ln, focus=focus or "x", threads=4)
        self.judge(self.validate(suite, p, f"{suite}-{focus}-r{j}", workers=4))

    def t_scen(self, suite):
        src = ROOT + "/scenarios/" + suite + ".ndjson"
        p = self.record(suite, "replay", f"{suite}-scen", **{"in": src})
        self.judge(self.validate(suite, p, f"{suite}-scen"))

    def t_model(self, suite, m):
        info, em = self.model(suite, m)
        self.cov["states"] += info["distinct"]
        self.cov["transitions"] += info["generated"]
        if em:
            seqs, total = self.behaviours(em, m.get("replay", 2000))
            f = f"{self.dir}/{suite}-{m['module']}-{mkey(m)}.ops"
            with open(f, "w") as o:
                for i, (c, ops) in enumerate(seqs):
                    o.write(json.dumps(dict(id=f"m{i}", cfg=c, ops=ops)) + "\n")
            p = self.record(suite, "replay", f"{suite}-{m['module']}-{mkey(m)}", **{"in": f})
            self.judge(self.validate(suite, p, f"{suite}-{m['module']}-{mkey(m)}-m"))
            info.update(behaviours=total, replayed=len(seqs))
        self.mc.append(info)

    def findings(self):
        """known findings: each is a fixed history; reported, never suppressing others"""
        kf = json.load(open(ROOT + "/known_findings.json"))
        ks = [k for k in kf["findings"] if k["property"] == self.prop]
        for k in ks:
            f = f"{self.dir}/kf-{k['id']}.ops"
            with open(f, "w") as o:
                o.write(json.dumps(dict(id=k["id"], cfg=k["cfg"], ops=k["ops"])) + "\n")
            p = self.record(k["suite"], "replay", f"kf-{k['id']}", **{"in": f})
            mism = self.validate(k["suite"], p, f"kf-{k['id']}", count=False)
            for m in mism:
                sig = dict(kind=m["kind"], step=m["step"], fields=sorted(m["fields"]))
                if sig == k["signature"]:
                    self.known.append(k)
                    print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
                else:
                    self.judge([m])

    def evidence(self, level):
        cov = dict(self.cov)
        cov["traces_validated_against_impl"] = cov.pop("traces")
        cov["trace_steps_validated"] = cov.pop("steps")
        cov["steps_accepted_by_code"] = cov.pop("accepted")
        cov["steps_refused_by_code"] = cov.pop("refused")
        cov["panics_observed"] = cov.pop("panics")
        cov["models"] = self.mc
        cov["operations_accepted_refused"] = {k: v for k, v in sorted(self.byop.items())}
        cov["samples"] = self.samples
        cov["deviations_attributed_to_other_properties"] = len(self.foreign)
        cov["known_findings_reproduced"] = [k["id"] for k in self.known]
        e = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                 assumptions=SU.ASSUMPTIONS, wall_s=round(time.time() - T0, 2), violations=len(self.viol))
        os.makedirs(ROOT + "/evidence", exist_ok=True)
        json.dump(e, open(f"{ROOT}/evidence/{self.prop}.json", "w"), indent=1)

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build([s["pkg"] for s in SU.SUITES.values()])
        return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    r = Run(prop, tier, seed)
    r.go()
    r.evidence("model_checking")
    for m, ps in r.foreign[:5]:
        print(f"note: deviation in {m['suite']} attributed to {','.join(ps) or 'none'}: op={json.dumps(m['op'])[:200]} why={m['exp'].get('why','')} fields={m['fields']}")
    if r.viol:
        paths = []
        for m, ps in r.viol[:5]:
            p = r.save(m)
            paths.append(p)
            print(f"  {m['suite']} {m['trace']} step {m['step']} {m['kind']} op={json.dumps(m['op'])[:300]} fields={m['fields']}")
            print(f"    specified: {json.dumps(m['exp'])[:700]}\n    observed:  {json.dumps(m['got'])[:700]}")
        print(f"VIOLATION property={prop} replay={paths[0]}")
        return 1
    print(f"OK {prop} {tier}: {r.cov['traces']} traces, {r.cov['steps']} steps validated, {r.cov['states']} states, {time.time()-T0:.1f}s")
    return 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print("TOOL ERROR:", e)
        sys.exit(2)
