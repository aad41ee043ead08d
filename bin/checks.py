"""What each check runs. A pipe is: scenarios from specifications -> execution on the real code -> validation by TLC."""
import concurrent.futures as cf, json, os, sys, time
from vlib import *

T0 = time.time()


def mark(what):
    if os.environ.get("VERIF_TIMES"):
        print("%6.1f s  %s" % (time.time() - T0, what), file=sys.stderr)


QUICK, THOROUGH = "quick", "thorough"


class Gen:
    """A source of scenarios: a specification that prints them, exhaustively or along random behaviours."""

    def __init__(self, module, cfg=None, num=None, depth=None, env=None, thorough=1, seeds=1):
        self.module, self.cfg, self.num, self.depth, self.env, self.thorough, self.seeds = module, cfg, num, depth, env or {}, thorough, seeds

    def emit(self, tier, out):
        n = 0
        scale = self.thorough if tier == THOROUGH else 1
        base = int(SEED) if SEED.isdigit() else 1
        if self.num:
            n += generate(self.module, self.cfg, dict(self.env, SEED=SEED, DEPTH=self.depth, TIER=tier), self.num * scale, self.depth + 1, base, out=out)
        else:
            # a table: other random numbers for every repetition
            for k in range(scale):
                n += generate(self.module, self.cfg, dict(self.env, SEED=SEED if k == 0 else "%s.%d" % (SEED, k), TIER=tier), out=out)
        return n


class Pipe:
    def __init__(self, name, binary, kind, gens, trace, race=False, parts=6, timeout=400, per_scenario=60, args=(), env=None, execenv=None, jobs=1):
        self.name, self.binary, self.kind, self.gens, self.trace = name, binary, kind, gens, trace
        self.race, self.parts, self.timeout, self.per_scenario, self.args, self.env = race, parts, timeout, per_scenario, args, env or {}
        self.execenv = execenv or {}
        self.jobs = jobs

    def scenarios(self, tier, path):
        open(path, "w").close()
        with cf.ThreadPoolExecutor(len(self.gens)) as ex:
            parts = [path + ".g%d" % i for i in range(len(self.gens))]
            list(ex.map(lambda gp: gp[0].emit(tier, gp[1]), zip(self.gens, parts)))
        with open(path, "a") as f:
            for p in parts:
                f.write(open(p).read())
                os.remove(p)

    def go(self, prop, tier, scen=None):
        d = scratch()
        b = gobuild(self.binary, self.race)
        mark(self.name + " built")
        path = os.path.join(d, self.name + ".scen")
        if scen is None:
            self.scenarios(tier, path)
        else:
            open(path, "w").write("".join(json.dumps(s) + "\n" for s in scen))
        trace = os.path.join(d, self.name + ".trace")
        mark(self.name + " generated")
        execute(b, self.kind, path, trace, timeout=self.timeout * (1 if tier == "quick" else 15), args=self.args() if callable(self.args) else self.args, per_scenario=self.per_scenario, env=self.execenv, jobs=self.jobs)
        mark(self.name + " executed")
        v = validate(self.trace, trace, prop, env=dict(self.env, TIER=tier), parts=self.parts, timeout=800 if tier == "quick" else 8000)
        mark(self.name + " validated")
        lines = open(path).read().splitlines()
        if os.path.exists(path + ".cut") and not v.rejected:
            raise Broken("executing %s scenarios took more than %d s" % (self.name, self.timeout))
        out = []
        for x in v.rejected:
            i = x.get("id", 0)
            out.append((self.name, json.loads(lines[i - 1]) if 0 < i <= len(lines) else None, x))
        known = [(self.name, json.loads(lines[x["id"] - 1]) if 0 < x.get("id", 0) <= len(lines) else None, x) for x in v.known]
        return v, out, known, lines, trace


class Check:
    pipes = []
    models = []
    assume = []
    thorough_models = []

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.listed = []
        self.violations, self.known, self.vals, self.mc, self.samples = [], [], [], [], []

    def run(self):
        models = list(self.models) + (list(self.thorough_models) if self.tier == THOROUGH else [])
        with cf.ThreadPoolExecutor(3) as mcx, cf.ThreadPoolExecutor(2) as px:
            futs = [mcx.submit(self.model, m) for m in models]
            pf = [px.submit(p.go, self.prop, self.tier) for p in self.pipes]
            for p, f in zip(self.pipes, pf):
                v, bad, known, lines, trace = f.result()
                self.vals.append((p, v, len(lines)))
                self.violations += bad
                self.known += known
                self.sample(p, lines, trace)
            for f in futs:
                self.mc.append(f.result())
        self.settle()

    def model(self, m):
        mod, cfg, timeout = (m + (None, None))[:3] if isinstance(m, tuple) else (m, None, None)
        r = model_check(mod, cfg, env={"TIER": self.tier, "SEED": SEED}, timeout=timeout or 600)
        mark("model %s %s" % (mod, cfg))
        return (cfg or mod, r)

    def sample(self, p, lines, trace):
        if lines:
            # a scenario and what happened in it
            k = len(lines) // 2
            evs = []
            for l in open(trace):
                e = json.loads(l)
                if e.get("op") == "reset":
                    if evs:
                        break
                    if e.get("id") == k + 1:
                        evs = [e]
                elif evs:
                    evs.append(e)
                if len(evs) >= 6:
                    break
            self.samples.append({"pipe": p.name, "scenario": lines[k][:1500], "events": json.dumps(evs)[:2500]})

    def coverage(self):
        return {"states": sum(r.distinct for _, r in self.mc) + sum(v.states for _, v, _ in self.vals),
                "transitions": sum(r.generated for _, r in self.mc) + sum(v.events for _, v, _ in self.vals),
                "traces_validated_against_impl": sum(v.scenarios for _, v, _ in self.vals),
                "events_validated": sum(v.events for _, v, _ in self.vals),
                "models": [{"config": n, "distinct_states": r.distinct, "states_generated": r.generated} for n, r in self.mc],
                "pipes": [{"name": p.name, "scenarios": n, "events_by_kind": v.kinds, "rejected": len(v.rejected)} for p, v, n in self.vals],
                "samples": self.samples}

    def assumptions(self):
        return list(self.assume)

    def known_lines(self):
        return self.listed

    def settle(self):
        """What TLC recognised as a finding (verdict KNOWN) is one only if the committed list has it."""
        have = {(k["property"], k["finding"]): k["what"] for k in json.load(open(os.path.join(VERIF, "known-findings.json")))["findings"]}
        n = {}
        for name, scen, x in self.known:
            what = have.get((self.prop, x.get("finding")))
            if what is None:
                self.violations.append((name, scen, x))
            else:
                n[what] = n.get(what, 0) + 1
        self.listed = ["%s (%d recorded steps)" % (w, k) for w, k in sorted(n.items())]

    def replay(self, rec):
        for p in self.pipes:
            if p.name == rec["pipe"]:
                v, bad, known, _, _ = p.go(self.prop, self.tier, [rec["scenario"]])
                self.known = known
                self.settle()
                return [x for _, _, x in bad + self.violations]
        raise Broken("no such pipe")


def check(models, pipes, assume=(), thorough_models=()):
    return type("C", (Check,), dict(models=list(models), pipes=list(pipes), assume=list(assume), thorough_models=list(thorough_models)))


RACE = {"GORACE": "halt_on_error=1 exitcode=66"}
CURVE = Pipe("curve", "./hcrypto", "curve", [Gen("GenCurveTable", thorough=4), Gen("GenCurve", num=100, depth=40, thorough=20)], "TraceCurve")
CURVE_SHARED = Pipe("curve-shared", "./hcrypto", "curve", [Gen("GenCurveShared", thorough=4), Gen("GenCurve", num=60, depth=40, thorough=10)], "TraceCurve", parts=3, race=True, execenv=RACE)
COMMIT = Pipe("commit", "./hcrypto", "commit", [Gen("GenCommitTable", thorough=4), Gen("GenCommit", num=80, depth=30, thorough=20)], "TraceCommit")
COMMIT_SHARED = Pipe("commit-shared", "./hcrypto", "commit", [Gen("GenCommitShared", thorough=4), Gen("GenCommit", num=60, depth=30, thorough=10)], "TraceCommit", parts=3, race=True, execenv=RACE)

HONEST = Pipe("honest", "./hcrypto", "proof", [Gen("GenHonest", thorough=6)], "TraceProof")
NONCES = Pipe("nonces", "./hcrypto", "proof", [Gen("GenNonces", thorough=8)], "TraceProof")
WRONG = Pipe("wrong", "./hcrypto", "proof", [Gen("GenWrong", thorough=12)], "TraceProof")
FORGE = Pipe("forge", "./hcrypto", "proof", [Gen("GenForge", thorough=8)], "TraceProof")
PROOF_SHARED = Pipe("proof-shared", "./hcrypto", "proof", [Gen("GenProofShared", thorough=4)], "TraceProof", parts=3, race=True, execenv=RACE)
STREAM = Pipe("stream", "./hcrypto", "wire", [Gen("GenStream", thorough=4), Gen("GenStreamWalk", num=40, depth=30, thorough=20)], "TraceWire")
MALFORMED = Pipe("malformed", "./hcrypto", "wire", [Gen("GenMalformed", thorough=8)], "TraceWire")

OPEN = Pipe("rounds", "./hsync", "sync", [Gen("GenRounds", thorough=6)], "TraceRounds", jobs=3, per_scenario=30)
CLOSED = Pipe("rounds-all", "./hsync", "sync", [Gen("GenRoundsAll", thorough=10)], "TraceRounds", jobs=2, per_scenario=30)
CONNECT = Pipe("connect", "./hsync", "sync", [Gen("GenConnect", thorough=6)], "TraceConnect", race=True, execenv=RACE, jobs=3, per_scenario=30)
CONNECTING = ["MCConnect"]
CONNECTING_BIG = [("MCConnect", "MCConnect4.cfg"), ("MCConnect", "MCConnect5.cfg", 800)]
ROUNDS = ["MCRounds", ("MCRounds", "MCRoundsCut.cfg"), ("MCRounds", "MCRoundsAll.cfg")]
ROUNDS_BIG = [("MCRounds", "MCRoundsBig.cfg", 800)]

RESHARE = Pipe("reshare", "./harith", "arith", [Gen("GenReshare", thorough=6)], "TraceArith", jobs=4)
DKEY = Pipe("dkey", "./harith", "arith", [Gen("GenDKey", thorough=10)], "TraceArith", jobs=4)
FIXED = Pipe("fixed", "./harith", "arith", [Gen("GenFixed", thorough=4)], "TraceArith", jobs=4)
SECRECY = Pipe("secrecy", "./harith", "arith", [Gen("GenSecrecy", thorough=6)], "TraceArith", jobs=4)
DEALER = Pipe("dealer", "./harith", "arith", [Gen("GenDealer", thorough=3)], "TraceArith", jobs=4)
QUORUM = Pipe("quorum", "./harith", "arith", [Gen("GenQuorum", thorough=6)], "TraceArith", jobs=4)
LINEAR = Pipe("linear", "./harith", "arith", [Gen("GenLin", thorough=6)], "TraceArith", jobs=4)
MULT = Pipe("mult", "./harith", "arith", [Gen("GenMult", thorough=6)], "TraceArith", jobs=4)
MASKS = Pipe("masks", "./harith", "arith", [Gen("GenMasks", thorough=6)], "TraceArith", jobs=4)
HIDE = Pipe("hide", "./harith", "arith", [Gen("GenHide", thorough=8)], "TraceArith", jobs=4)
BLAME = Pipe("blame", "./harith", "arith", [Gen("GenBlame", thorough=6)], "TraceArith", jobs=4)
DH = Pipe("dh", "./harith", "arith", [Gen("GenDH", thorough=6)], "TraceArith", jobs=4)


def programs():
    """The two programs of the tree, and the signer with the hook that tells what it reads (if the hook fits)."""
    mod = "gitlab.com/alephledger/threshold-ecdsa/cmd/"
    hook = gobuild(mod + "tecdsa", overlay={"cmd/tecdsa/zz_verif.go": os.path.join(VERIF, "harness", "hcmd", "hook", "parse.go.txt")}, name="signer_hook")
    return ["-gen", gobuild(mod + "gen_keys", name="gen_keys"), "-signer", gobuild(mod + "tecdsa", name="signer")] + (["-parser", hook] if hook else [])


KEYS = Pipe("keys", "./hcmd", "cmd", [Gen("GenKeys", thorough=6)], "TraceKeys", jobs=6, args=programs)
BADKEYS = Pipe("badkeys", "./hcmd", "cmd", [Gen("GenKeysBad", thorough=4)], "TraceKeys", jobs=4, args=programs)
RUNS = Pipe("runs", "./hcmd", "cmd", [Gen("GenRuns", thorough=2)], "TraceKeys", jobs=20, parts=2, per_scenario=240, args=programs)
SIGN = Pipe("sign", "./htecdsa", "tecdsa", [Gen("GenSign", thorough=5)], "TraceSigning", jobs=4)
HISTORY = Pipe("history", "./htecdsa", "tecdsa", [Gen("GenHistory", thorough=8)], "TraceSigning", jobs=4)
SHARES = Pipe("shares", "./htecdsa", "tecdsa", [Gen("GenShares", thorough=8)], "TraceSigning", jobs=4)
INIT = Pipe("init", "./htecdsa", "tecdsa", [Gen("GenInit", thorough=8)], "TraceSigning", jobs=4)
SIGNING = ["MCSigning", ("MCSigning", "MCSigning31.cfg"), ("MCSigning", "MCSigning33.cfg")]
QUEUE = ["MCQueue", ("MCQueue", "MCQueue3.cfg")]
SECRETS = [("MCSecrets", "MCSecrets%s.cfg" % c) for c in ("31", "32", "33", "22")]
SECRETS_BIG = [("MCSecrets", "MCSecrets42.cfg")]
COMREV = ["MCCommitReveal", ("MCCommitReveal", "MCCommitRevealHonest.cfg")]

CHECKS = {
    "A01": check(COMREV, [DKEY]),
    "A02": check(COMREV, [FIXED]),
    "A03": check(["MCSharing"] + SECRETS, [RESHARE], thorough_models=SECRETS_BIG),
    "A04": check(["MCSharing"], [SECRECY]),
    "A05": check(["MCDealing", ("MCDealing", "MCDealing3.cfg")], [DEALER]),
    "A06": check(SECRETS, [QUORUM], thorough_models=SECRETS_BIG),
    "A07": check(SECRETS, [QUORUM], thorough_models=SECRETS_BIG),
    "A08": check(SECRETS, [LINEAR], thorough_models=SECRETS_BIG),
    "A09": check(["MCMta"], [MULT]),
    "A10": check(["MCDHCheck"], [DH]),
    "A11": check(["MCMasking", ("MCMasking", "MCMasking11.cfg")], [MASKS]),
    "A12": check(["MCBlame", ("MCBlame", "MCBlame2.cfg")], [BLAME]),
    "A13": check(["MCMasking", "MCMta"], [HIDE]),
    "C01": check(["MCEC", "MCCurve", "MCSecp"], [CURVE]),
    "C02": check(["MCWire"], [STREAM]),
    "C03": check(["MCWire"], [MALFORMED]),
    "C04": check(["MCCurve", "MCCommit"], [CURVE_SHARED, COMMIT_SHARED, PROOF_SHARED]),
    "C05": check(["MCCommit", "MCSecp"], [COMMIT]),
    "S01": check(ROUNDS, [OPEN, CLOSED], thorough_models=ROUNDS_BIG),
    "S02": check(ROUNDS, [OPEN, CLOSED], thorough_models=ROUNDS_BIG),
    "S03": check(ROUNDS, [OPEN, CLOSED], thorough_models=ROUNDS_BIG),
    "S04": check(ROUNDS, [OPEN, CLOSED], thorough_models=ROUNDS_BIG),
    "S05": check(CONNECTING, [CONNECT], thorough_models=CONNECTING_BIG),
    "K01": check(["MCKeys"], [KEYS]),
    "K02": check(["MCKeys"], [BADKEYS, RUNS]),
    "T01": check(SIGNING, [SIGN]),
    "T02": check(QUEUE, [HISTORY]),
    "T03": check(["MCCommitReveal"], [INIT]),
    "T04": check(SIGNING, [SIGN]),
    "T05": check(["MCSharing", "MCShares"], [SHARES]),
    "Z01": check(["MCProofs"], [HONEST]),
    "Z02": check(["MCProofs"], [WRONG]),
    "Z03": check(["MCProofs"], [FORGE]),
    "Z04": check(["MCProofs"], [NONCES]),
}
