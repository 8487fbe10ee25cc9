#!/usr/bin/env python3
"""mutate.py WORKDIR N SEED suite...  : mutation campaign, to find what the checks miss.

Runs in a private mount namespace in which copies under WORKDIR lie over /repo and /verif, so that neither the
real trees nor anything running on them is touched.  For every suite up to N mutants of the sources it
specifies are drawn; each that compiles is run through a short and, if that sees nothing, the quick tier's
amount of traces.  Survivors are written to WORKDIR/survivors.txt for review (many are equivalent)."""
import json, os, random, re, subprocess, sys, time, glob
SRC = {
 "swap": ["contracts/external/cw-token-swap/src"],
 "single": ["contracts/proposal/dao-proposal-single/src", "packages/dao-voting/src/status.rs", "packages/dao-voting/src/threshold.rs", "packages/dao-voting/src/voting.rs", "packages/dao-voting/src/veto.rs", "packages/dao-hooks/src", "packages/cw-hooks/src", "packages/dao-voting/src/proposal.rs"],
 "multi": ["contracts/proposal/dao-proposal-multiple/src", "packages/dao-voting/src/multiple_choice.rs", "packages/dao-voting/src/veto.rs", "packages/dao-voting/src/voting.rs"],
 "cond": ["contracts/proposal/dao-proposal-condorcet/src"],
 "core": ["contracts/dao-dao-core/src", "packages/cw-paginate-storage/src"],
 "prepro": ["contracts/pre-propose/*/src", "packages/dao-pre-propose-base/src", "packages/dao-voting/src/deposit.rs", "packages/dao-voting/src/pre_propose.rs"],
 "stake": ["contracts/voting/dao-voting-cw20-staked/src", "contracts/staking/cw20-stake/src", "contracts/voting/dao-voting-token-staked/src", "packages/dao-voting/src/threshold.rs"],
 "nft": ["contracts/voting/dao-voting-cw721-staked/src", "contracts/voting/dao-voting-onft-staked/src", "packages/cw721-controllers/src"],
 "group": ["contracts/voting/dao-voting-cw4/src", "contracts/voting/dao-voting-cw721-roles/src", "contracts/external/cw721-roles/src"],
 "stream": ["contracts/staking/cw20-stake-external-rewards/src", "contracts/staking/cw20-stake-reward-distributor/src"],
 "rewards": ["contracts/distribution/dao-rewards-distributor/src"],
 "fund": ["contracts/distribution/cw-fund-distributor/src"],
 "vest": ["contracts/external/cw-vesting/src", "packages/cw-stake-tracker/src", "packages/cw-wormhole/src"],
 "factory": ["contracts/external/cw-payroll-factory/src", "contracts/external/cw-admin-factory/src"],
 "issuer": ["contracts/external/cw-tokenfactory-issuer/src"],
}
RULES = [
 (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
 (r"checked_add\(", "checked_sub("), (r"checked_sub\(", "checked_add("), (r" \+= ", " -= "), (r" -= ", " += "),
 (r"(?<=[\w)]) \+ (?=[\w(])", " - "), (r"(?<=[\w)]) - (?=[\w(])", " + "), (r"saturating_sub\(", "saturating_add("),
 (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"Ascending", "Descending"), (r"Bound::exclusive", "Bound::inclusive"), (r"\.max\(", ".min("), (r"\.min\(", ".max("),
 (r"\bif !", "if "), (r"\bif (?!let\b|!)(.+) \{$", r"if true || (\1) {"), (r"\bif (?!let\b)(.+) \{$", r"if false && (\1) {"),
 (r"^(\s*)(?!let |return |//|\})(\S.*\?;)$", r"\1// \2"), (r"^(\s*)(\w+\.(?:save|remove|update)\(.*\)\??;)$", r"\1// \2"),
 (r"env\.block\.height", "(env.block.height + 1)"), (r"\.unwrap_or_default\(\)", ".unwrap()"), (r"\bSome\((\w+)\) =>", r"Some(\1) if false =>"),
 (r"\b1\b", "2"), (r"\b0\b", "1"), (r"\.take\(", ".skip(1).take("), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_zero\(\)", ".is_one()"),
 (r"\.add_submessages?\(\w+\)", ""), (r"\.add_messages?\(\w+\)", ""), (r"floor", "ceil"), (r"\.clone\(\)\)\)$", ".clone()))"),
 (r"info\.sender != ", "false && info.sender != "),
]
SKIP = ("tests", "test_", "error.rs", "msg.rs", "lib.rs", "/bin/", "suite", "testing", "migrate")

def files(suite, root):
    out = []
    for g in SRC[suite]:
        for p in glob.glob(f"{root}/{g}"):
            if p.endswith(".rs"):
                out.append(p)
            else:
                for d, _, fs in os.walk(p):
                    out += [d + "/" + f for f in fs if f.endswith(".rs")]
    return sorted(f for f in out if not any(s in f[len(root):] for s in SKIP))

def mutants(f):
    L = open(f).read().split("\n")
    stop = len(L)
    fn = ""
    for i, l in enumerate(L[:stop]):
        if re.match(r"\s*#\[cfg\(test\)\]", l):
            break
        m = re.search(r"\bfn (\w+)", l)
        if m:
            fn = m.group(1)
        s = l.strip()
        if not s or s.startswith(("//", "use ", "#[", "#!", "pub const CONTRACT", "const CONTRACT", "pub(crate) const CONTRACT")) or fn in ("migrate",) or "set_contract_version" in s or "debug_assert" in s or "add_attribute" in s or "Event::new" in s:
            continue
        for k, (a, b) in enumerate(RULES):
            for m in re.finditer(a, l):
                n = l[:m.start()] + m.expand(b) + l[m.end():] if "\\" in b else l[:m.start()] + b + l[m.end():]
                if n != l:
                    yield (f, i, l, n, fn)

def main():
    wd, n, seed, *suites = sys.argv[1:]
    if os.environ.get("MUT_NS") != "1":
        os.makedirs(wd, exist_ok=True)
        for a in ("repo", "verif"):
            subprocess.run(["rsync", "-a", "--delete", f"/{a}/", f"{wd}/{a}/"] if subprocess.run(["which", "rsync"], capture_output=True).returncode == 0
                           else ["bash", "-c", f"[ -d {wd}/{a} ] || cp -a /{a} {wd}/{a}"], check=True)
        os.execvpe("unshare", ["unshare", "-Urm", "bash", "-c", f"mount --bind {wd}/repo /repo && mount --bind {wd}/verif /verif && exec python3 /verif/tools/mutate.py " + " ".join(sys.argv[1:])], dict(os.environ, MUT_NS="1"))
    sys.path.insert(0, "/verif/bin")
    import check as C, suites as SU
    rnd = random.Random(int(seed))
    done = {}
    log = open(f"{wd}/all.txt", "a")
    surv = open(f"{wd}/survivors.txt", "a")
    ops = {}
    for suite in suites:
        ms = [m for f in files(suite, "/repo") for m in mutants(f)]
        rnd.shuffle(ms)
        print(suite, len(ms), "mutants", flush=True)
        props = [p for p, v in SU.PROPS.items() if any(x[0] == suite for x in v["suites"])]
        foc = sorted({x[1] for p in props for x in SU.PROPS[p]["suites"] if x[0] == suite})
        r = C.Run(props[0], "quick", 1)
        r.dir = f"{wd}/run"
        os.makedirs(r.dir, exist_ok=True)
        pkg = SU.SUITES[suite]["pkg"]
        C.build([pkg])
        reps = []
        for m in SU.SUITES[suite]["mc_quick"]:
            info, em = r.model(suite, m)
            seqs, _ = r.behaviours(em, 500)
            f = f"{wd}/{suite}-{C.mkey(m)}.ops"
            with open(f, "w") as o:
                for i, (c, q) in enumerate(seqs):
                    o.write(json.dumps(dict(id=f"m{i}", cfg=c, ops=q)) + "\n")
            reps.append(f)
        stat = dict(killed=0, survived=0, invalid=0)
        for (f, i, l, nl, fn) in ms:
            if stat["killed"] + stat["survived"] >= int(n):
                break
            L = open(f).read().split("\n")
            assert L[i] == l
            L[i] = nl
            open(f, "w").write("\n".join(L))
            t0 = time.time()
            res, mism = None, []
            try:
                try:
                    C.build([pkg])
                except C.ToolError as e:
                    res = "invalid"
                if not res:
                    res = "survived"
                    try:
                        for stage in (1, 2):
                            T = []
                            for j, fo in enumerate(foc):
                                T.append(r.record(suite, "gen", f"g{j}", seed=stage, base=0, traces=(60 if stage == 1 else SU.SUITES[suite]["quick"]["traces"]) // 1 if stage == 1 else 400, len=SU.SUITES[suite]["quick"]["len"], focus=fo or "x", threads=8))
                            if stage == 2:
                                T += [r.record(suite, "replay", f"p{j}", **{"in": x}) for j, x in enumerate(reps)]
                            allp = r.dir + "/all.ndjson"
                            with open(allp, "w") as o:
                                for t in T:
                                    o.write(open(t).read())
                            mism = r.validate(suite, allp, "mut", workers=4, count=False)
                            if mism:
                                res = "killed"
                                break
                    except C.ToolError as e:
                        res = "killed"
                        mism = []
                        log.write("TOOL " + str(e)[:300] + "\n")
            finally:
                L[i] = l
                open(f, "w").write("\n".join(L))
            stat[res] += 1
            ps = {}
            for m in mism:
                for p in SU.attribute(suite, m):
                    ps[p] = ps.get(p, 0) + 1
            rec = f"{suite} {res} {time.time()-t0:.0f}s {f[6:]}:{i+1} [{fn}] {l.strip()}  ==>  {nl.strip()}  {ps}\n"
            log.write(rec); log.flush()
            if res == "survived":
                surv.write(rec); surv.flush()
        print(suite, stat, flush=True)
if __name__ == "__main__":
    main()
