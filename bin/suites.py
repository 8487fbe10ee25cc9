"""Suites (specification + driver) and the attribution of deviations to properties."""
import json
ASSUMPTIONS = [
    "cw-multi-test 0.20 stands in for the chain: message dispatch, rollback, bank, block clock",
    "specification constants in exhaustive models are small; recorded traces use full-size values",
]
def mc(module, depth, emit="no", **kw):
    return dict(module=module, depth=depth, emit=emit, **kw)
SUITES = {
    "swap": dict(pkg="swap", trace="SwapTrace",
        quick=dict(traces=800, len=14, shards=2), thorough=dict(traces=8000, len=20, shards=8),
        mc_quick=[mc("SwapMC", 9, "bfs", replay=3000)]),
    "single": dict(pkg="gov", trace="GovSingleTrace",
        quick=dict(traces=600, len=40, shards=3), thorough=dict(traces=16000, len=60, shards=16),
        mc_quick=[mc("GovSingleMC", 5, "bfs", replay=700, env=dict(KIND="votes"), props={"C05", "C06", "C07"}),
                  mc("GovSingleMC", 3, "bfs", replay=500, env=dict(KIND="life"), props={"C08", "C09", "C10", "C17"})],
        mc_thorough=[mc("GovSingleMC", 6, "bfs", replay=20000, env=dict(KIND="votes"), props={"C05", "C06", "C07"}),
                  mc("GovSingleMC", 12, env=dict(KIND="votes"), props={"C05", "C06"}, timeout=800),
                  mc("GovSingleMC", 5, "bfs", replay=15000, env=dict(KIND="life"), props={"C08", "C09", "C10", "C17"}),
                  mc("GovSingleMC", 7, env=dict(KIND="life"), props={"C08", "C09", "C10"}, timeout=800)]),
    "multi": dict(pkg="gov", trace="GovMultiTrace",
        quick=dict(traces=600, len=40, shards=3), thorough=dict(traces=16000, len=60, shards=16),
        mc_quick=[mc("GovMultiMC", 5, "bfs", replay=700, env=dict(KIND="votes"), props={"C11", "C12"}),
                  mc("GovMultiMC", 3, "bfs", replay=500, env=dict(KIND="life"), props={"C12"})],
        mc_thorough=[mc("GovMultiMC", 6, "bfs", replay=20000, env=dict(KIND="votes"), props={"C11", "C12"}),
                  mc("GovMultiMC", 12, env=dict(KIND="votes"), props={"C11"}, timeout=800),
                  mc("GovMultiMC", 5, "bfs", replay=15000, env=dict(KIND="life"), props={"C09", "C10", "C12", "C17"}),
                  mc("GovMultiMC", 7, env=dict(KIND="life"), props={"C09", "C10", "C12"}, timeout=800)]),
    "points": dict(pkg="gov", trace="PointsTrace",
        quick=dict(traces=400, len=60, shards=1), thorough=dict(traces=24000, len=100, shards=16),
        mc_quick=[mc("PointsMC", 0, "bfs", replay=400, env=dict(KIND="single", MOST=3), props={"C05", "C06"}),
                  mc("PointsMC", 0, "bfs", replay=400, env=dict(KIND="multi", MOST=3), props={"C11"})],
        mc_thorough=[mc("PointsMC", 0, "bfs", replay=1000, env=dict(KIND="single", MOST=7), props={"C05", "C06"}),
                  mc("PointsMC", 0, "bfs", replay=1000, env=dict(KIND="multi", MOST=6), props={"C11"})]),
    "cond": dict(pkg="gov", trace="CondorcetTrace",
        quick=dict(traces=700, len=40, shards=3), thorough=dict(traces=16000, len=60, shards=16),
        mc_quick=[mc("CondorcetMC", 4, "bfs", replay=1500, env=dict(KIND="votes")),
                  mc("CondorcetMC", 4, "bfs", replay=1000, env=dict(KIND="life"))],
        mc_thorough=[mc("CondorcetMC", 7, "bfs", replay=20000, env=dict(KIND="votes"), timeout=800),
                  mc("CondorcetMC", 8, "bfs", replay=20000, env=dict(KIND="life"), timeout=800)]),
    "core": dict(pkg="daocore", trace="DaoCoreTrace",
        quick=dict(traces=900, len=40, shards=2), thorough=dict(traces=24000, len=60, shards=16),
        mc_quick=[mc("DaoCoreMC", 4, "bfs", replay=1500, env=dict(KIND="power"), props={"C01", "C02"}),
                  mc("DaoCoreMC", 3, "bfs", replay=1500, env=dict(KIND="mods"), props={"C03"}),
                  mc("DaoCoreMC", 3, "bfs", replay=2000, env=dict(KIND="reg"), props={"C04"})],
        mc_thorough=[mc("DaoCoreMC", 9, "bfs", replay=20000, env=dict(KIND="power"), props={"C01", "C02"}),
                  mc("DaoCoreMC", 6, "bfs", replay=20000, env=dict(KIND="mods"), props={"C03"}, timeout=800),
                  mc("DaoCoreMC", 6, "bfs", replay=20000, env=dict(KIND="reg"), props={"C04"}, timeout=800)]),
    "prepro": dict(pkg="prepro", trace="PreProTrace",
        quick=dict(traces=800, len=45, shards=2), thorough=dict(traces=24000, len=60, shards=16),
        mc_quick=[mc("PreProMC", 3, "bfs", replay=1500, env=dict(KIND="deposit"), props={"C14"}),
                  mc("PreProMC", 4, "bfs", replay=1200, env=dict(KIND="policy"), props={"C15"}),
                  mc("PreProMC", 4, "bfs", replay=1500, env=dict(KIND="approval"), props={"C16"})],
        mc_thorough=[mc("PreProMC", 4, "bfs", replay=15000, env=dict(KIND="deposit"), props={"C14"}),
                  mc("PreProMC", 6, env=dict(KIND="deposit"), props={"C14"}, timeout=800),
                  mc("PreProMC", 7, "bfs", replay=15000, env=dict(KIND="policy"), props={"C15"}),
                  mc("PreProMC", 5, "bfs", replay=15000, env=dict(KIND="approval"), props={"C16"}),
                  mc("PreProMC", 7, env=dict(KIND="approval"), props={"C14", "C16"}, timeout=800)]),
    "stake": dict(pkg="vote", trace="StakeTrace",
        quick=dict(traces=1200, len=50, shards=2), thorough=dict(traces=24000, len=70, shards=16),
        mc_quick=[mc("StakeMC", 3, "bfs", replay=1500, env=dict(KIND="power"), props={"C19"}),
                  mc("StakeMC", 4, "bfs", replay=1500, env=dict(KIND="claims"), props={"C21"}),
                  mc("StakeMC", 3, "bfs", replay=1500, env=dict(KIND="active"), props={"C22"}),
                  mc("StakeMC", 4, "bfs", replay=1500, env=dict(KIND="shares"), props={"C23"})],
        mc_thorough=[mc("StakeMC", 4, "bfs", replay=15000, env=dict(KIND="power"), props={"C19"}),
                  mc("StakeMC", 6, env=dict(KIND="power"), props={"C19"}, timeout=800),
                  mc("StakeMC", 6, "bfs", replay=15000, env=dict(KIND="claims"), props={"C21"}),
                  mc("StakeMC", 8, env=dict(KIND="claims"), props={"C21"}, timeout=800),
                  mc("StakeMC", 5, "bfs", replay=15000, env=dict(KIND="active"), props={"C22"}, timeout=800),
                  mc("StakeMC", 6, "bfs", replay=15000, env=dict(KIND="shares"), props={"C23"}),
                  mc("StakeMC", 8, env=dict(KIND="shares"), props={"C23"}, timeout=800)]),
}
SUITES["nft"] = dict(pkg="vote", trace="NftTrace",
    quick=dict(traces=1000, len=50, shards=2), thorough=dict(traces=24000, len=70, shards=16),
    mc_quick=[mc("NftMC", 4, "bfs", replay=1500, env=dict(KIND="power"), props={"C20"}),
              mc("NftMC", 6, "bfs", replay=1500, env=dict(KIND="onft"), props={"C20"}),
              mc("NftMC", 5, "bfs", replay=1500, env=dict(KIND="claims"), props={"C21"}),
              mc("NftMC", 4, "bfs", replay=1500, env=dict(KIND="active"), props={"C22"})],
    mc_thorough=[mc("NftMC", 5, "bfs", replay=15000, env=dict(KIND="power"), props={"C20"}),
              mc("NftMC", 7, env=dict(KIND="power"), props={"C20"}, timeout=800),
              mc("NftMC", 10, "bfs", replay=15000, env=dict(KIND="onft"), props={"C20"}, timeout=800),
              mc("NftMC", 7, "bfs", replay=15000, env=dict(KIND="claims"), props={"C21"}, timeout=800),
              mc("NftMC", 6, "bfs", replay=15000, env=dict(KIND="active"), props={"C22"}, timeout=800)])
SUITES["group"] = dict(pkg="vote", trace="GroupTrace",
    quick=dict(traces=900, len=50, shards=2), thorough=dict(traces=24000, len=70, shards=16),
    mc_quick=[mc("GroupMC", 4, "bfs", replay=2000, env=dict(KIND="cw4"), props={"C18"}),
              mc("GroupMC", 3, "bfs", replay=2000, env=dict(KIND="roles"), props={"C34"})],
    mc_thorough=[mc("GroupMC", 7, "bfs", replay=20000, env=dict(KIND="cw4"), props={"C18"}, timeout=800),
              mc("GroupMC", 4, "bfs", replay=20000, env=dict(KIND="roles"), props={"C34"}, timeout=800),
              mc("GroupMC", 6, env=dict(KIND="roles"), props={"C34"}, timeout=800)])
SUITES["stream"] = dict(pkg="reward", trace="StreamTrace",
    quick=dict(traces=1200, len=50, shards=2), thorough=dict(traces=24000, len=70, shards=16),
    mc_quick=[mc("StreamMC", 4, "bfs", replay=1500, env=dict(KIND="ext")),
              mc("StreamMC", 4, "bfs", replay=1500, env=dict(KIND="dist"))],
    mc_thorough=[mc("StreamMC", 5, "bfs", replay=20000, env=dict(KIND="ext"), timeout=800),
              mc("StreamMC", 6, env=dict(KIND="ext"), timeout=800),
              mc("StreamMC", 5, "bfs", replay=20000, env=dict(KIND="dist"), timeout=800)])
SUITES["rewards"] = dict(pkg="reward", trace="RewardsTrace",
    quick=dict(traces=800, len=60, shards=2), thorough=dict(traces=24000, len=70, shards=16),
    mc_quick=[mc("RewardsMC", 5, "bfs", replay=1500, env=dict(KIND="time")),
              mc("RewardsMC", 6, "bfs", replay=1000, env=dict(KIND="many"))],
    mc_thorough=[mc("RewardsMC", 6, "bfs", replay=20000, env=dict(KIND="time"), timeout=800),
              mc("RewardsMC", 7, env=dict(KIND="time"), timeout=800),
              mc("RewardsMC", 7, "bfs", replay=20000, env=dict(KIND="many"), timeout=800)])
SUITES["fund"] = dict(pkg="reward", trace="FundTrace",
    quick=dict(traces=1000, len=40, shards=2), thorough=dict(traces=24000, len=60, shards=16),
    mc_quick=[mc("FundMC", 5, "bfs", replay=1500)],
    mc_thorough=[mc("FundMC", 6, "bfs", replay=20000, timeout=800), mc("FundMC", 8, timeout=800)])
SUITES["vest"] = dict(pkg="misc", trace="VestTrace", scenarios=True,
    quick=dict(traces=700, len=55, shards=2), thorough=dict(traces=20000, len=70, shards=16),
    mc_quick=[mc("VestMC", 4, "bfs", replay=1500, env=dict(KIND="plain"), props={"C28", "C29"}),
              mc("VestMC", 4, "bfs", replay=1500, env=dict(KIND="stake"), props={"C30"})],
    mc_thorough=[mc("VestMC", 5, "bfs", replay=15000, env=dict(KIND="plain"), props={"C28", "C29"}, timeout=800),
              mc("VestMC", 5, "bfs", replay=15000, env=dict(KIND="stake"), props={"C29", "C30"}, timeout=800),
              mc("VestMC", 7, env=dict(KIND="plain"), props={"C28", "C29"}, timeout=800),
              mc("VestMC", 7, env=dict(KIND="stake"), props={"C30"}, timeout=800)])
SUITES["factory"] = dict(pkg="misc", trace="FactoryTrace",
    quick=dict(traces=700, len=40, shards=2), thorough=dict(traces=16000, len=60, shards=16),
    mc_quick=[mc("FactoryMC", 3, "bfs", replay=2000)],
    mc_thorough=[mc("FactoryMC", 4, "bfs", replay=20000, timeout=800), mc("FactoryMC", 6, timeout=800)])
SUITES["issuer"] = dict(pkg="misc", trace="IssuerTrace",
    quick=dict(traces=900, len=50, shards=2), thorough=dict(traces=24000, len=60, shards=16),
    mc_quick=[mc("IssuerMC", 5, "bfs", replay=1500, env=dict(KIND="new")),
              mc("IssuerMC", 6, "bfs", replay=1000, env=dict(KIND="old"))],
    mc_thorough=[mc("IssuerMC", 6, "bfs", replay=15000, env=dict(KIND="new"), timeout=800),
              mc("IssuerMC", 8, env=dict(KIND="new"), timeout=800),
              mc("IssuerMC", 8, "bfs", replay=15000, env=dict(KIND="old"), timeout=800)])
# foundings: many worlds, few steps
for k_, n_ in (("stake", 3000), ("nft", 2000), ("group", 1600), ("core", 1600)):
    SUITES[k_]["foci"] = dict(found=dict(quick=dict(traces=n_, len=5), thorough=dict(traces=25 * n_, len=6)))
    M_ = dict(stake="StakeMC", nft="NftMC", group="GroupMC", core="DaoCoreMC")[k_]
    SUITES[k_]["mc_quick"].append(mc(M_, 1, "found", replay=1800, env=dict(KIND="found"), props={"C36"}))
    SUITES[k_]["mc_thorough"].append(mc(M_, 1, "found", replay=20000, env=dict(KIND="found"), props={"C36"}))
# the same contracts brought up to date while in use
for k_ in ("stake", "nft", "group", "rewards"):
    SUITES[k_].setdefault("foci", {})["renew"] = dict(quick=dict(traces=250, len=45, shards=1, models=[]), thorough=dict(traces=6000, len=60, shards=8, models=[]))
# older versions migrated to the present code
SUITES["coreup"] = dict(pkg="daocore", trace="DaoCoreUpTrace",
    quick=dict(traces=500, len=40, shards=1), thorough=dict(traces=16000, len=60, shards=8))
SUITES["singleup"] = dict(pkg="gov", trace="GovSingleUpTrace",
    quick=dict(traces=700, len=50, shards=2), thorough=dict(traces=16000, len=70, shards=8))
SUITES["stakeup"] = dict(pkg="vote", trace="StakeUpTrace",
    quick=dict(traces=500, len=50, shards=1), thorough=dict(traces=16000, len=70, shards=8),
    mc_quick=[mc("StakeUpMC", 5)], mc_thorough=[mc("StakeUpMC", 7, timeout=800)])
SUITES["streamup"] = dict(pkg="reward", trace="StreamUpTrace",
    quick=dict(traces=600, len=50, shards=1), thorough=dict(traces=16000, len=70, shards=8))
SUITES["preproup"] = dict(pkg="prepro", trace="PreProUpTrace",
    quick=dict(traces=400, len=45, shards=1), thorough=dict(traces=12000, len=60, shards=8),
    mc_quick=[mc("PreProUpMC", 3, "bfs", replay=800, env=dict(KIND="deposit")), mc("PreProUpMC", 4, "bfs", replay=800, env=dict(KIND="approval"))],
    mc_thorough=[mc("PreProUpMC", 5, "bfs", replay=15000, env=dict(KIND="deposit"), timeout=800), mc("PreProUpMC", 7, "bfs", replay=10000, env=dict(KIND="approval"), timeout=800)])
def always(*ps):
    return lambda m: set(ps)

def subdiff(m):
    """fields that differ, with the names of differing record components"""
    out = {}
    for f in m["fields"]:
        a, b = m["exp"].get(f), m["got"].get(f)
        if isinstance(a, dict) and isinstance(b, dict):
            out[f] = {k for k in set(a) | set(b) if a.get(k) != b.get(k)}
        else:
            out[f] = set()
    return out

def a_gov(votes, out, life):
    """proposal modules: votes = ballot properties, out = outcome properties, life = lifecycle properties"""
    TERMS = {"id", "title", "by", "start", "min", "exp", "th", "total", "msgs", "revote", "veto", "choices", "quorum", "snap", "close"}
    def f(m):
        o, op, p = m["op"].get("o"), m["op"], set()
        if m["kind"] == "ok":
            p |= {"vote": votes | life | out, "rationale": votes, "exec": out | life | {"C09"},
                  "close": out | life | {"C09"}, "veto": {"C09"} | life, "cfg": {"C10"}, "hook": {"C17", "C10"},
                  "policy": {"C10", "C17", "C15"}, "propose": {"C15", "C10"} | life, "migrate": {"C10"}, "init": {"C10"} | life}.get(o, life)
            if o == "propose" and m["exp"].get("why") == "inactive":
                p = p | {"C22"}
            if o == "propose" and op.get("av"):
                p = p | votes
            if "cfg" in m["past"] and o in ("vote", "exec", "close", "veto"):
                p = p | {"C10"}
            if "setfail" in m["past"] and o in ("vote", "exec", "close", "veto", "propose"):
                p = p | {"C17"}
            return set(p)
        if m["kind"] == "inv":
            return votes | out | life | {"C09", "C10"}
        for k, d in subdiff(m).items():
            if k == "obs_error":
                p |= {"C04"} | life
            elif k[0] == "p" and k[1:].isdigit():
                if d & TERMS or not d:
                    p |= {"C10"}
                if d & {"title", "msgs", "choices", "by", "start", "total", "snap"}:
                    p |= life | out | votes
                if d & {"yes", "no", "ab", "votes"}:
                    p |= votes | out
                if d & {"status", "tl"}:
                    p |= out | life
                    if o in ("veto", "exec", "close", "adv") or "timelock" in (m["exp"][k].get("status"), (m["got"].get(k) or {}).get("status") if isinstance(m["got"].get(k), dict) else ""):
                        p |= {"C09"}
                    if "tl" in d and "status" not in d:
                        p = p - out | {"C09"}
                    if "cfg" in m["past"]:
                        p |= {"C10"}
            elif k[0] == "b" and k[1:].isdigit():
                p |= votes
            elif k in ("cfg",):
                p |= {"C10"}
            elif k in ("phooks", "vhooks", "logs", "ord"):
                p |= {"C17"} | ({"C10"} if k in ("phooks", "vhooks") and o in ("hook", "cfg", "policy", "adv") else set())
                if k == "logs" and o in ("exec", "close", "veto"):
                    p |= life
            elif k == "policy":
                p |= {"C15", "C17"} | ({"C10"} if o in ("policy", "cfg", "adv") else set())
            elif k == "bal":
                p |= life | ({"C09"} if o in ("veto", "exec") else set())
            else:
                p |= life | {"C04"}
        return p
    return f
def kinds(op):
    """kinds of DAO messages inside an operation"""
    out = set()
    def go(x):
        if isinstance(x, dict):
            if "k" in x and isinstance(x["k"], str):
                out.add(x["k"])
            for v in x.values():
                go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)
    go(op)
    return out

def a_core(m):
    K = {"C02": {"pause", "unpause", "nominate", "accept", "withdraw"}, "C03": {"pm", "vm"},
         "C04": {"set_item", "rm_item", "subs", "c20", "c721", "cfg", "receive", "receive_nft"}, "C01": {"hook", "admin", "pay", "fail"}}
    F = {"C02": {"admin", "nom", "paused"}, "C03": {"mods", "act", "active", "total", "vm", "power", "adm", "walk_mods", "walk_act", "dump"},
         "C04": {"items", "subs", "c20", "c721", "bals", "get", "cfg", "uri", "page", "dump", "walk_items", "walk_subs", "walk_c20", "walk_c721", "walk_bals"},
         "C01": {"bal"}}
    op, p = m["op"], set()
    if m["kind"] == "inv":
        return {"C01", "C02", "C03", "C04"}
    if m["kind"] == "ok":
        ks = kinds(op)
        p = {c for c, s in K.items() if ks & s}
        if op.get("o") in ("send20", "sendnft", "xfer20", "page"):
            p |= {"C04"}
        if op.get("o") == "init":
            p |= {"C03", "C04"}
        if m["exp"].get("why") == "paused" or (m["exp"].get("ok") == "y" and "paused" in json.dumps(m["got"])):
            p |= {"C02"}
        return p | {"C01"}
    fs = set(m["fields"])
    p = {c for c, s in F.items() if fs & s}
    return p or {"C01", "C04"}
def founding(f):
    """the founding itself, what it made, and what a founding alone decides"""
    def g(m):
        p = f(m)
        if m["op"].get("o") == "init" or (m["kind"] == "obs" and set(m["fields"]) & {"made", "daoq", "id"}):
            p = set(p) | {"C36"}
        return p
    return g
def a_prepro(m):
    op, o, p = m["op"], m["op"].get("o"), set()
    if m["kind"] == "inv":
        fs = set(m["fields"])
        return ({"C14"} if fs & {"held", "total", "settled", "unsettled"} else set()) | ({"C15"} if fs & {"policy"} else set()) | ({"C16"} if fs & {"once", "approved", "mine"} else set()) or {"C14", "C15", "C16"}
    if m["kind"] == "ok":
        r = {"propose": {"C14", "C15", "C16"}, "dprop": {"C15"}, "aprop": {"C16"}, "cfg": {"C14", "C15"}, "pol": {"C15"}, "withdraw": {"C14"},
             "hook": {"C15", "C16"}, "done": {"C14"}, "noop": {"C15"}, "approve": {"C16"}, "reject": {"C14", "C16"}, "approver": {"C16"}, "reset": {"C16"},
             "init": {"C14", "C15"}}.get(o, {"C14", "C16"})
        w = m["exp"].get("why")
        if o == "propose" and w == "policy":
            return {"C15"}
        if o == "propose" and w in ("deposit", "allowance", "funds"):
            return {"C14"}
        return set(r)
    for k, d in subdiff(m).items():
        if k.startswith(("bal_", "allow_")) or k == "dep":
            p |= {"C14"}
        elif k in ("can", "pol", "who"):
            p |= {"C15"}
        elif k in ("mpol", "next"):
            p |= {"C14", "C15", "C16"}
        elif k[0] == "d" and k[1:].isdigit():
            p |= {"C14"} | ({"C16"} if o in ("approve", "exec") else set())
        elif k[0] == "p" and k[1:].isdigit():
            p |= {"C15", "C16"} if d & {"by", "title", "msgs", "desc"} or not d else {"C14"}
        elif k[0] == "a" and k[1:].isdigit():
            p |= {"C16"} | ({"C14"} if "dep" in d else set())
        elif k in ("hooks", "log", "ord"):
            p |= {"C15", "C16"}
        else:
            p |= {"C16"}
    return p
def told(f):
    """deviations of who is told what by a voting module"""
    def g(m):
        p = f(m)
        if m["op"].get("o") == "hook" or (m["kind"] == "obs" and set(m["fields"]) & {"hooks", "log", "ord", "cbox"}) or (m["kind"] == "inv" and "told" in m["fields"]):
            p = set(p) | {"C17"}
        return p
    return g
def a_group(m):
    return {"C18" if m["world"].get("kind") == "cw4" else "C34"}
def a_stake(m):
    o, p = m["op"].get("o"), set()
    if m["kind"] == "inv":
        I = {"backed": {"C19", "C21", "C23"}, "solvent": {"C23"}, "worth": {"C23"}, "durok": {"C21"}, "pctok": {"C22"}, "many": {"C21"}}
    elif m["kind"] == "ok":
        w = m["exp"].get("why")
        if w == "nothing" and o == "claim":
            return {"C21"}
        return {"stake": {"C19", "C23"}, "fund": {"C23"}, "junk": {"C19", "C23"}, "recv": {"C19", "C23"}, "unstake": {"C21"} if w == "claims" else {"C19", "C21", "C23"}, "burst": {"C19", "C21"},
                "claim": {"C21"}, "dur": {"C21"}, "thr": {"C22"}, "hook": {"C19"}, "own": {"C19", "C21", "C23"}, "init": {"C19", "C21", "C22"}}.get(o, {"C19"})
    else:
        I = {"power": {"C19", "C23"}, "total": {"C19", "C23"}, "at": {"C19"}, "page": {"C19"}, "stakers": {"C19", "C23"}, "wal": {"C19", "C23"} | ({"C21"} if o in ("claim", "unstake", "burst") else set()), "act": {"C22"}, "active": {"C22"},
             "dur": {"C21"}, "claims": {"C21"}, "hooks": {"C19"}, "log": {"C19"}, "ord": {"C19"}, "value": {"C23"}, "tvalue": {"C23"}, "own": {"C23", "C19"}}
    for f in m["fields"]:
        p |= I.get(f, {"C19"})
    return p
def a_nft(m):
    o, p = m["op"].get("o"), set()
    if m["kind"] == "inv":
        I = {"held": {"C20", "C21"}, "durok": {"C21"}, "pctok": {"C22"}, "many": {"C21"}, "claims": {"C21"}, "early": {"C21"}, "thr": {"C22"}}
    elif m["kind"] == "ok":
        w = m["exp"].get("why")
        if o == "unstake":
            return {"C21"} if w == "claims" else {"C20", "C21"}
        return {"claim": {"C21"}, "dur": {"C21"}, "thr": {"C22"}, "bulk": {"C20", "C21"}, "init": {"C20", "C21", "C22"}}.get(o, {"C20"})
    else:
        I = {"act": {"C22"}, "active": {"C22"}, "dur": {"C21"}, "claims": {"C21"}, "own": {"C20"} | ({"C21"} if o in ("claim", "unstake") else set())}
    for f in m["fields"]:
        p |= I.get(f, {"C20"})
    return p
def a_vest(m):
    o, p = m["op"].get("o"), set()
    if m["kind"] == "inv":
        return {"C28", "C29", "C30"}
    if m["kind"] == "ok":
        return {"fund": {"C28"}, "give": {"C28"}, "dist": {"C28", "C29", "C30"}, "cancel": {"C29", "C30"}, "wd": {"C29", "C30"}, "init": {"C28"}, "und": {"C29", "C30"},
                "offer": {"C29"}, "accept": {"C29"}, "renounce": {"C29"}}.get(o, {"C30"})
    I = {"vested": {"C28"}, "total": {"C28"}, "dur": {"C28"}, "dist": {"C28", "C29", "C30"}, "own": {"C29"}, "stake": {"C30"}, "chain": {"C30"}, "waddr": {"C29", "C30"}}
    W = {"cancel": {"C29", "C30"}, "wd": {"C29"}, "dist": {"C28", "C29"}, "fund": {"C28"}, "give": {"C28"}, "init": {"C28"}, "reg": {"C29", "C30"}}.get(o, {"C30"})
    for f in m["fields"]:
        p |= I.get(f, W)
    return p
def a_points(m):
    p = {"C05", "C06"} if m["world"]["single"] else {"C11"}
    if m["kind"] != "ok" and "timelock" in (m["exp"].get("st"), m["got"].get("st")):
        p |= {"C09"}
    return p | ({"C09"} if "tl" in m["fields"] else set())
ATTR = {
    "points": a_points,
    "fund": always("C27"),
    **{k: always("C35") for k in ("coreup", "singleup", "stakeup", "streamup", "preproup")},
    "vest": a_vest,
    "factory": always("C31"),
    "issuer": always("C33"),
    "group": told(founding(a_group)),
    "stream": always("C24"),
    "rewards": always("C25", "C26"),
    "nft": told(founding(a_nft)),
    "stake": told(founding(a_stake)),
    "prepro": a_prepro,
    "core": founding(a_core),
    "swap": always("C32"),
    "single": a_gov({"C07"}, {"C05", "C06"}, {"C08"}),
    "multi": a_gov({"C12"}, {"C11"}, {"C12"}),
    "cond": always("C13"),
}
PROPS = {
    "C01": dict(suites=[("core", "power")]),
    "C02": dict(suites=[("core", "admin")]),
    "C03": dict(suites=[("core", "modules")]),
    "C04": dict(suites=[("core", "reg")]),
    "C05": dict(suites=[("single", "votes"), ("points", "single")]),
    "C06": dict(suites=[("single", "votes"), ("points", "single")]),
    "C07": dict(suites=[("single", "")]),
    "C08": dict(suites=[("single", "")]),
    "C09": dict(suites=[("single", "veto", .6), ("multi", "veto", .6), ("points", "both", .5)]),
    "C10": dict(suites=[("single", "cfg", .6), ("multi", "cfg", .6)]),
    "C11": dict(suites=[("multi", "votes"), ("points", "multi")]),
    "C12": dict(suites=[("multi", "")]),
    "C13": dict(suites=[("cond", "")]),
    "C14": dict(suites=[("prepro", "deposit")]),
    "C15": dict(suites=[("prepro", "policy")]),
    "C16": dict(suites=[("prepro", "approval")]),
    "C17": dict(suites=[("single", "hooks", .5), ("multi", "hooks", .5), ("stake", "hooks", .25), ("nft", "hooks", .25), ("group", "hooks", .4)]),
    "C18": dict(suites=[("group", "cw4"), ("group", "found", .3)]),
    "C19": dict(suites=[("stake", "power")]),
    "C20": dict(suites=[("nft", "power")]),
    "C21": dict(suites=[("stake", "claims", .6), ("nft", "claims", .6)]),
    "C22": dict(suites=[("stake", "active", .5), ("nft", "active", .5), ("single", "votes", .3), ("multi", "votes", .3), ("stake", "found", .25), ("nft", "found", .25)]),
    "C23": dict(suites=[("stake", "shares")]),
    "C24": dict(suites=[("stream", "")]),
    "C25": dict(suites=[("rewards", "")]),
    "C26": dict(suites=[("rewards", "")]),
    "C27": dict(suites=[("fund", "")]),
    "C28": dict(suites=[("vest", "plain")]),
    "C29": dict(suites=[("vest", "")]),
    "C30": dict(suites=[("vest", "stake")]),
    "C31": dict(suites=[("factory", "")]),
    "C32": dict(suites=[("swap", "")]),
    "C33": dict(suites=[("issuer", "")]),
    "C34": dict(suites=[("group", "roles")]),
    "C35": dict(suites=[(k, "") for k in ("coreup", "singleup", "stakeup", "streamup", "preproup")]),
}
PROPS["C35"]["suites"] += [(k, "renew") for k in ("stake", "nft", "group", "rewards")]
PROPS["C36"] = dict(suites=[("stake", "found"), ("nft", "found"), ("group", "found"), ("core", "found")])
def attribute(suite, m):
    p = ATTR[suite](m)
    # what goes wrong once a module was brought up to date
    return p if "renew" not in m.get("past", ()) and m["op"].get("o") != "renew" else set(p) | {"C35"}
NOT_CLAIMED = {}
