"""Contracts and the transactions that spend them: harness/spend/main.rs is compiled against
/repo's crates and every completed transaction is judged by TraceSpend."""
import json, os, subprocess, hashlib
import vlib
from util_gen import *

KINDS = ["p2pkh", "p2pk", "wrapped", "time", "claim", "refund", "covenant", "separated", "puzzle", "many", "bare"]
FLAGS = [0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3]
ORDER = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141


def key(r):
    k = r.choice([1, 2, ORDER - 1, ORDER - 2, r.getrandbits(200), r.getrandbits(128) << 128]) if r.random() < .1 else r.randrange(1, ORDER)
    return list(max(1, k % ORDER).to_bytes(32, "big"))


def le(n, k):
    return list(n.to_bytes(k, "little"))


def u32(r):
    return r.choice([0, 1, 2**32 - 1, 2**31, r.getrandbits(32), r.getrandbits(32)])


SECRETS = [[], [0], [1], [5], [16], [17], [127], [128], [129], [130], [255], [1, 0], [0, 128]]


def secret(r):
    if r.random() < .5:
        return r.choice(SECRETS)
    return rbytes(r, r.choice([1, 2, 4, 20, 32, 32, 75, 76, 77, 255, 256, 519, 520]))


def an_input(r, kind, lt, small):
    n = {"claim": 2, "refund": 2, "many": r.randrange(1, 6), "bare": r.randrange(1, 4)}.get(kind, 1)
    signers = [0]
    if kind == "refund":
        signers = [1]
    if kind in ("many", "bare"):
        signers = sorted(r.sample(range(n), r.randrange(1, min(n, 4) + 1)))
    flags = [r.choice(FLAGS) for _ in signers]
    if kind in ("covenant", "separated"):
        flags = [r.choice([0x41, 0xc1])]
    i = {"kind": kind, "sks": [key(r) for _ in range(n)], "signers": signers, "flags": flags, "prev": [rbytes(r, 32), le(u32(r), 4)],
         "seq": le(u32(r), 4), "value": le(10**7 + r.randrange(10**9), 8), "until": 0, "age": 0, "unit": "blocks",
         "x": 0, "y": 0, "lo": 0, "hi": 0, "secret": secret(r) if kind in ("claim", "refund") else []}
    if kind == "puzzle":
        while True:
            x, y = rscriptint(r), rscriptint(r)
            if abs(x + y) < 2**31:
                break
        i["x"], i["y"] = x, y
        i["lo"] = max(1 - 2**31, x - r.choice([0, 0, 1, r.randrange(2**30)]))
        i["hi"] = min(2**31 - 1, x + r.choice([1, 1, 2, r.randrange(1, 2**30)]))
        if i["hi"] == x:
            return an_input(r, kind, lt, small)
    if kind == "time":
        base = 500000000 if lt >= 500000000 else 0
        top = min(lt, 2**31 - 1)
        i["until"] = r.choice([base, top, r.randrange(base, top + 1), min(top, base + r.randrange(300))])
        i["unit"] = r.choice(["blocks", "512s"])
        i["age"] = r.choice([0, 1, 16, 17, 127, 128, 255, 256, 32767, 32768, 65535, r.randrange(65536)])
        spare = r.choice([0, 0, 1, r.randrange(65536)])
        q = min(65535, i["age"] + spare) | ((1 << 22) if i["unit"] == "512s" else 0)
        # bits that mean nothing
        q |= r.choice([0, 0, 0x003f0000, 0x7f800000, r.getrandbits(31) & 0x7fbf0000])
        i["seq"] = le(q, 4)
    return i


def a_case(r, kinds):
    lt = r.choice([0, 1, 17, 200, 70000, 499999999, 500000000, 1600000000, 2**31 - 1, 2**31, 2**32 - 1, r.randrange(500000000), r.randrange(500000000, 2**32)])
    small = any(k in ("covenant", "separated") for k in kinds)
    ins = [an_input(r, k, lt, small) for k in kinds]
    outs = []
    for _ in range(r.randrange(0, 3 if small else 5)):
        script = rops(r, r.randrange(0, 4)) if not small else [{"k": "push", "c": 0, "d": rbytes(r, r.randrange(30)), "m": True}]
        outs.append([le(r.randrange(600, 10**6), 8), script])
    if r.random() < .3:
        outs.append([le(0, 8), [{"k": "code", "c": 0x6a, "d": [], "m": False}, {"k": "push", "c": 0, "d": rbytes(r, r.randrange(20)), "m": True}]])
    left = [[{"k": "push", "c": 0, "d": rbytes(r, 20), "m": True}] for _ in range(r.choice([0, 1, 1, 2]))]
    if not outs and not left:
        left = [[{"k": "code", "c": 81, "d": [], "m": False}]]
    order = list(range(len(ins)))
    r.shuffle(order)
    cuts = sorted({r.randrange(len(ins) + 1) for _ in range(r.choice([0, 0, 1, 2]))})
    rounds = []
    for a, b in zip([0] + cuts, cuts + [len(order)]):
        # going back to the builder is going back to before the signatures
        rounds.append({"sign": [[j, r.choice(["dyn", "input", "signatory"])] for j in order[a:b]],
                       "pass": r.choice(["partial", "json"] if b > a else ["builder", "partial", "json"]), "estimate": r.random() < .7})
    return {"dom": "spend", "grind": "", "version": le(r.choice([2, 2, 3, 2**31 - 1, r.randrange(2, 2**31)]) if "time" in kinds else u32(r), 4), "lt": le(lt, 4),
            "fee": le(r.choice([0, 1, 1000, 1024, 1500, r.randrange(5000)]), 8), "ins": ins, "outs": outs, "left": left, "rounds": rounds}


def cases(r, tier):
    cs = []
    for k in KINDS:
        for _ in range(6 if tier == "quick" else 40):
            cs.append(a_case(r, [k]))
    for _ in range(60 if tier == "quick" else 800):
        cs.append(a_case(r, [r.choice(KINDS) for _ in range(r.choice([2, 2, 3, 4, 5]))]))
    # every small secret
    for d in SECRETS:
        c = a_case(r, ["claim"])
        c["ins"][0]["secret"] = d
        cs.append(c)
    # signatures that are rare
    for _ in range(2 if tier == "quick" else 20):
        for kind in ("p2pkh", "wrapped", "covenant", "many"):
            for g in ("flag", "short"):
                cs.append(dict(a_case(r, [kind]), grind=g))
    return cs


def compile_spend(work, be):
    """(binary, "") or (None, the compiler's words)"""
    env = vlib.env_for_cargo()
    cmd = ["cargo", "build", "--offline", "--message-format=json", "--manifest-path", os.path.join(vlib.V, "harness/Cargo.toml")]
    if be == "rust":
        env["CARGO_TARGET_DIR"] = vlib.TARGET + "-rust"
        cmd += ["--no-default-features", "--features", "rust_ecc"]
    r = subprocess.run(cmd, env=env, capture_output=True, text=True)
    if r.returncode:
        raise vlib.ToolError("harness does not build: " + r.stderr[-2000:])
    libs = []
    for l in r.stdout.splitlines():
        d = json.loads(l)
        if d["reason"] == "compiler-artifact":
            n = d["target"]["name"].replace("-", "_")
            if n in ("bitcoin_cash", "bitcoin_cash_ecc", "bch_harness", "serde_json") and "lib" in d["target"]["kind"][0]:
                libs += [x for f in d["filenames"] if f.endswith(".rlib") for x in ("--extern", n + "=" + f)]
    exe = os.path.join(work, "spend-" + be)
    r = subprocess.run(["rustc", "-Alegacy_derive_helpers", "--edition", "2018", "-Cdebuginfo=0", "-L",
                        "dependency=" + os.path.join(env["CARGO_TARGET_DIR"], "debug/deps")] + libs +
                       [os.path.join(vlib.V, "harness/spend/main.rs"), "-o", exe], env=env, capture_output=True, text=True, timeout=600)
    return (exe, "") if r.returncode == 0 else (None, r.stderr[-1500:])


def record(cs, work):
    evs = []
    for be in ("c", "rust"):
        mine = [dict(c, be=be) for c in cs if c["be"] == be]
        if not mine:
            continue
        exe, err = compile_spend(work, be)
        if exe is None:
            evs += [dict(c, out={"k": "nocompile", "msg": err}) for c in mine[:1]]
            continue
        p = vlib.run_harness(exe, mine, work, "spend-" + be)
        evs += [json.loads(l) for l in open(p)]
        os.remove(exe)
    return evs


def replay(e, work):
    return record([e], work)[0]


def c22(rng, tier, work, binary, _):
    cs = cases(rng, tier)
    for i, c in enumerate(cs):
        c["be"] = "rust" if i % 4 == 3 else "c"
    return {"spend": record(cs, work)}
