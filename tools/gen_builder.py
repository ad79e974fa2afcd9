"""Sessions of the transaction builder (C07, C08, C09, C20).  Sizes are computed here only to
aim amounts at the interesting boundaries; what is right is decided by TxBuilder.tla."""
from util_gen import *

M64 = 2**64 - 1
FLAGS = [0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 0x01, 0x02, 0x03, 0x81, 0x82, 0x83]


def le(v, n):
    return list((v & ((1 << 8 * n) - 1)).to_bytes(n, "little"))


def rflag(r):
    return r.choice(FLAGS) if r.random() < .8 else r.randrange(256)


def code(c):
    return {"k": "code", "c": c, "d": [], "m": False}


def push(d, m=True):
    return {"k": "push", "c": 0, "d": list(d), "m": m}


def p2pkh_lock(r):
    return [code(118), code(169), push(rbytes(r, 20)), code(136), code(172)]


def p2sh_lock(r):
    return [code(169), push(rbytes(r, 20)), code(135)]


def out_script(r):
    x = r.random()
    if x < .4:
        return p2pkh_lock(r)
    if x < .6:
        return p2sh_lock(r)
    if x < .75:
        return [code(106), push(rbytes(r, r.choice([0, 1, 5, 40, 80])), r.random() < .5)]
    if x < .8:
        return []
    return rops(r, r.choice([1, 2, 4]))


def redeem(r):
    n = r.choice([0, 1, 3, 6])
    ops = rops(r, n)
    if r.random() < .4:
        for _ in range(r.choice([1, 1, 2])):
            ops.insert(r.randrange(len(ops) + 1), code(171))
    return ops


def signatory(r, stable=False, size=None):
    x = r.random()
    if x < .35:
        return {"kind": "p2pkh", "flags": [rflag(r)], "recipe": [], "ph": [], "p2sh": False, "pk": [r.choice([2, 3])] + rbytes(r, 32)}
    kind = "one" if x < .6 else "multi"
    nf = 1 if kind == "one" else r.choice([0, 1, 2, 3])
    nsig = r.choice([0, 1, 1, 2])
    ph = [rbytes(r, size if size is not None else r.choice([0, 1, 65, 72, 73, 75, 76, 100])) for _ in range(nsig)]
    rec = []
    for _ in range(r.choice([0, 1, 2, 3, 4])):
        t = r.choice(["sig", "sig", "pre", "outs", "nouts", "lock", "op"] + ([] if stable else ["est"]))
        it = {"t": t, "n": 0, "op": code(0)}
        if t == "sig":
            it["n"] = r.choice([1, 1, 2])
        if t == "pre":
            it["n"] = r.choice([1, 1, 2, 3])
        if t == "op":
            it["op"] = rop(r)
        rec.append(it)
    return {"kind": kind, "flags": [rflag(r) for _ in range(nf)], "recipe": rec, "ph": ph, "p2sh": r.random() < .6, "pk": []}


def lock_for(r, sg):
    return p2pkh_lock(r) if sg["kind"] == "p2pkh" and r.random() < .8 else redeem(r)


def sigs_for(r, sg):
    if sg["kind"] == "p2pkh":
        return [rbytes(r, r.choice([64, 70, 71, 72, 72, 8, 73] if r.random() < .2 else [64, 70, 71, 72]))]
    out = []
    for p in sg["ph"]:
        n = len(p)
        out.append(rbytes(r, max(0, n - r.choice([0, 0, 1, 2])) if r.random() < .9 else n + 1))
    if r.random() < .1:
        out = out[:-1]
    return out


def cs(n):
    return 1 if n < 253 else 3 if n < 65536 else 5


def plen(n):
    return n + (1 if n < 76 else 2 if n < 256 else 3)


def approx_size(ins, outs):
    n = 8 + cs(len(ins)) + cs(len(outs))
    for sg, lock in ins:
        ll = len(ser_ops(lock))
        osz = sum(8 + cs(len(ser_ops(o))) + len(ser_ops(o)) for o in outs)
        s = 0
        if sg["kind"] == "p2pkh":
            s = 74 + 34
        for it in sg["recipe"]:
            s += {"sig": lambda: len(ser_op(push(sg["ph"][it["n"] - 1]))) if it["n"] <= len(sg["ph"]) else 0,
                  "pre": lambda: plen(156 + cs(ll) + ll) if it["n"] <= len(sg["flags"]) else 0, "outs": lambda: plen(osz) if osz else 2,
                  "nouts": lambda: 1, "lock": lambda: max(1, plen(ll)), "est": lambda: 5, "op": lambda: len(ser_op(it["op"]))}[it["t"]]()
        if sg["p2sh"]:
            s += max(1, plen(ll))
        n += 40 + cs(s) + s
    for o in outs:
        l = len(ser_ops(o))
        n += 8 + cs(l) + l
    return n


def new(r, fee=None):
    fee = fee if fee is not None else r.choice([1000, 1000, 1, 0, 999, 1001, 5000, 50000])
    if r.random() < .3:
        return {"op": "new", "version": le(1, 4), "lt": le(0, 4), "fee": le(fee, 8)}
    return {"op": "new", "version": rint_bytes(r, 4), "lt": rint_bytes(r, 4), "fee": le(fee, 8)}


def inp(r, sg, lock, value):
    return {"op": "input", "prev": [rbytes(r, 32), rint_bytes(r, 4)], "seq": r.choice([le(2**32 - 1, 4), rint_bytes(r, 4)]),
            "value": le(value, 8), "lock": lock, "sig": sg}


def amount(r):
    x = r.random()
    if x < .6:
        return r.choice([0, 1, 545, 546, 547, 600, 1000, 10000, 100000])
    if x < .85:
        return r.randrange(0, 20000)
    return r.choice([2**32, 2**53, 21 * 10**14, r.getrandbits(60)])


def sign_ev(r, idx, sg, via=None):
    via = via or r.choice(["input", "dyn", "signatory"])
    return {"op": "sign", "idx": idx, "via": via, "sig": sg, "sigs": sigs_for(r, sg)}


def value_session(r):
    """C07: amounts around every boundary"""
    fee = r.choice([1000, 1000, 1000, 0, 1, 500, 5000, 100000])
    ev = [new(r, fee)]
    ins = []
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        sg = signatory(r)
        ins.append((sg, lock_for(r, sg)))
    decl, lefts = [], []
    for _ in range(r.choice([0, 1, 2, 3, 4, 5])):
        s = out_script(r)
        if r.random() < .45:
            decl.append({"op": "output", "value": le(amount(r), 8), "script": s})
        elif r.random() < .3:
            decl.append({"op": "leftover", "script": s})
            lefts.append((546, M64, 0, s))
        else:
            lo = amount(r) if r.random() < .5 else r.choice([0, 546])
            hi = r.choice([M64, M64, lo, lo + 1, lo + 200, amount(r), 0, 1000])
            p = r.choice([0, 0, 0, 1, -1, 2, 2**31 - 1, -2**31])
            if p == -2**31:
                p += 1
            decl.append({"op": "bounded", "lower": le(lo, 8), "upper": le(hi, 8), "prec": p, "script": s})
            lefts.append((lo, min(hi, M64), p, s))
    known = sum(int.from_bytes(bytes(d["value"]), "little") for d in decl if d["op"] == "output")
    target = known
    if lefts:
        base = [d["script"] for d in decl if d["op"] == "output"]
        k = r.randrange(len(lefts) + 1)
        served = sorted(lefts, key=lambda l: l[2])[:k + 1]
        size = approx_size(ins, base + [s[3] for s in served])
        target += size * fee // 1000
        for l in served[:-1]:
            target += min(l[1], r.choice([l[0] + 1, l[0] + 50, 10000])) if l[1] < 10**17 else r.choice([l[0], l[0] + 1, 5000])
        target += r.choice([served[-1][0], min(served[-1][1], 10**6), 0, 700])
        target += r.choice([-2, -1, 0, 0, 1, 1, 2, 100, -100, 10000])
    else:
        target += r.choice([-1, 0, 1, 500, -500])
    if r.random() < .1:
        target = r.choice([0, 2**64 - 1, 2**63, known - 1])
    target = max(0, min(target, len(ins) * M64))
    for k, (sg, lock) in enumerate(ins):
        rest = len(ins) - k - 1
        v = target if rest == 0 else min(M64, r.randrange(0, target + 1))
        v = max(v, target - rest * M64)
        ev.append(inp(r, sg, lock, min(v, M64)))
        target -= v
    pos = r.random()
    if pos < .3:
        ev = ev[:1] + decl + ev[1:]
    else:
        ev = ev + decl
    if r.random() < .15:
        ev.append({"op": "setfee", "fee": le(fee, 8)})
    if r.random() < .3:
        ev.append({"op": "sums"})
    ev.append({"op": "build" if r.random() < .93 else "buildfixed"})
    ev.append({"op": "partial"})
    return {"dom": "builder", "ev": ev}


def overflow_session(r):
    """sums and fees that need more than 64 bits"""
    fee = r.choice([1000, M64, 2**63, 2**60, 10**15])
    ev = [new(r, fee)]
    for _ in range(r.choice([1, 2, 2, 3])):
        sg = signatory(r)
        ev.append(inp(r, sg, lock_for(r, sg), r.choice([M64, M64, 2**63, 1000, M64 - 5])))
    for _ in range(r.choice([0, 1, 2, 3])):
        x = r.random()
        if x < .5:
            ev.append({"op": "output", "value": le(r.choice([M64, 2**63, 2**63 - 1, 1000]), 8), "script": out_script(r)})
        elif x < .7:
            ev.append({"op": "leftover", "script": out_script(r)})
        else:
            ev.append({"op": "bounded", "lower": le(r.choice([0, 546, 2**63]), 8), "upper": le(r.choice([M64, 2**63, 10**6]), 8),
                       "prec": r.choice([0, 1]), "script": out_script(r)})
    ev += [{"op": "sums"}, {"op": "build"}, {"op": "partial"}]
    return {"dom": "builder", "ev": ev}


def leftovers_session(r):
    """three to six leftover outputs of which most or all are served, several at their upper bounds"""
    fee = r.choice([0, 1, 1000, 1000, 3000])
    sg = signatory(r)
    decl = []
    for k in range(r.choice([3, 3, 4, 5, 6])):
        lo = r.choice([0, 0, 545, 546, 1000])
        hi = r.choice([lo + 1, lo + 2, lo + 500, 5000, M64])
        decl.append({"op": "bounded", "lower": le(lo, 8), "upper": le(hi, 8), "prec": r.choice([0, 0, k, -k, 7]), "script": out_script(r)})
    for _ in range(r.choice([0, 1])):
        decl.append({"op": "output", "value": le(r.choice([0, 546]), 8), "script": out_script(r)})
    r.shuffle(decl)
    ev = [new(r, fee), inp(r, sg, lock_for(r, sg), r.choice([10**4, 10**5, 10**6]) + r.randrange(1000))]
    return {"dom": "builder", "ev": ev + decl + [{"op": "build"}, {"op": "partial"}]}


def sign_session(r):
    """C08: signing in some order, repeated attempts, hand-overs"""
    stable = r.random() < .7
    n = r.choice([1, 2, 2, 3, 3, 4])
    sgs = [signatory(r, stable) for _ in range(n)]
    locks = [lock_for(r, s) for s in sgs]
    ev = [new(r)]
    for s, l in zip(sgs, locks):
        ev.append(inp(r, s, l, r.choice([10**5, 10**6, 12345])))
    for _ in range(r.choice([0, 1, 2, 3])):
        if r.random() < .7:
            ev.append({"op": "output", "value": le(r.choice([0, 546, 1000]), 8), "script": out_script(r)})
        else:
            ev.append({"op": "leftover", "script": out_script(r)})
    has_left = any(e["op"] == "leftover" for e in ev)
    ev.append({"op": "build"} if has_left or r.random() < .7 else {"op": "buildfixed"})
    todo = list(range(n))
    r.shuffle(todo)
    orig = list(sgs)
    own = [True] * n          # the builder still has the signatory
    signed = []
    while True:
        x = r.random()
        if x < .12 and signed:
            k = r.choice(signed)
            if own[k] and r.random() < .7:
                ev.append(sign_ev(r, k, orig[k]))
            else:
                ev.append(sign_ev(r, k, signatory(r), "signatory"))
        elif x < .22:
            ev.append({"op": "preimages", "idx": r.randrange(n)})
        elif x < .34:
            ev.append({"op": "partial"})
            if r.random() < .5:
                ev.append({"op": "json"})
            if r.random() < .2:
                ev.append({"op": "txpre", "flags": [rflag(r)]})
            ev.append({"op": "fromtx"})
            ev.append({"op": r.choice(["build", "buildfixed"])})
            own = [False] * n
            # an input whose script is empty counts as unsigned again
            again = [k for k in signed if empties(sgs[k])]
            todo += again
            signed = [k for k in signed if k not in again]
        elif x < .37 and all(own):
            ev.append({"op": "rebuild"})
            if r.random() < .5:
                ev.append({"op": "output", "value": le(1, 8), "script": out_script(r)})
            ev.append({"op": "build"})
            todo, signed, sgs = list(range(n)), [], list(orig)
            r.shuffle(todo)
        elif x < .42 and todo and len(ev) > n + 4:
            break
        elif todo:
            k = todo.pop()
            if not own[k]:
                sg = sgs[k]
                ev.append(sign_ev(r, k, sg, "signatory"))
            elif r.random() < .1:
                sg = signatory(r, stable)       # another signatory for the same input
                if sg["kind"] in ("p2pkh", "one") and not sgs[k]["flags"]:
                    sg = sgs[k]
                ev.append(sign_ev(r, k, sg, "signatory"))
                sgs[k] = sg
            else:
                ev.append(sign_ev(r, k, orig[k]))
            signed.append(k)
        else:
            break
        if len(ev) > 40:
            break
    if not any(e["op"] == "rebuild" for e in ev) or True:
        ev.append({"op": r.choice(["complete", "complete", "partial"])})
        if not todo and r.random() < .4:
            ev.append({"op": "json"})
    return {"dom": "builder", "ev": ev}


def plain_ops(r):
    """a script that its bytes give back"""
    x = r.random()
    if x < .15:
        return []
    if x < .5:
        return [push(rbytes(r, r.choice([8, 71, 72]))), push([2] + rbytes(r, 32))]
    return r.choice([p2pkh_lock, p2sh_lock])(r) if x < .8 else [code(81), push(rbytes(r, r.choice([2, 75, 76, 255, 256]))), code(97)]


def load_session(r):
    """C08: a transaction from elsewhere is taken up, extended and completed"""
    form = r.choice(["struct", "wire", "json"])
    ins = []
    for _ in range(r.choice([0, 1, 2, 3])):
        hint = lambda x: [x] if form != "wire" and r.random() < .6 else []
        ins.append({"prev": [rbytes(r, 32), rint_bytes(r, 4)], "script": plain_ops(r), "seq": r.choice([le(2**32 - 1, 4), rint_bytes(r, 4)]),
                    "lock": hint(plain_ops(r)), "value": hint(le(r.choice([0, 546, 10**6, 2**53]), 8)), "p2sh": hint(r.random() < .5),
                    "flags": hint([rflag(r) & 0xdf for _ in range(r.choice([0, 1, 2]))])})
    outs = [[le(r.choice([0, 546, 1000]), 8), plain_ops(r)] for _ in range(r.choice([0, 1, 2]))]
    ev = [{"op": "load", "form": form, "tx": {"version": rint_bytes(r, 4), "ins": ins, "outs": outs, "lt": rint_bytes(r, 4)}}]
    # preimages need every value and script
    if all(i["lock"] and i["value"] for i in ins) and r.random() < .5:
        ev.append({"op": "txpre", "flags": [rflag(r) for _ in range(r.choice([0, 1, 3]))]})
    if r.random() < .2:
        ev.append({"op": "json"})
    ev.append({"op": "fromtx"})
    sgs = []
    for _ in range(r.choice([0, 1, 1, 2])):
        sg = signatory(r)
        sgs.append(sg)
        ev.append(inp(r, sg, lock_for(r, sg), r.choice([1000, 10**6])))
    for _ in range(r.choice([0, 0, 1, 2])):
        ev.append({"op": "output", "value": le(r.choice([0, 546]), 8), "script": out_script(r)})
    left = r.random() < .4
    if left:
        ev.append({"op": "leftover", "script": out_script(r)})
    if r.random() < .4:
        ev.append({"op": "setfee", "fee": le(r.choice([0, 1, 2000]), 8)})
    ev.append({"op": "sums"})
    ev.append({"op": "build"} if left or r.random() < .3 else {"op": "buildfixed"})
    todo = list(range(len(ins) + len(sgs)))
    r.shuffle(todo)
    for k in todo:
        if r.random() < .4:
            ev.append({"op": "preimages", "idx": k})
        if k >= len(ins):
            ev.append(sign_ev(r, k, sgs[k - len(ins)]))
        elif r.random() < .8:
            # refused when the transaction brought the script along; a signatory of one preimage needs one
            sg = signatory(r)
            while sg["kind"] != "multi" and not (ins[k]["flags"] and ins[k]["flags"][0]):
                sg = signatory(r)
            ev.append(sign_ev(r, k, sg, "signatory"))
    ev.append({"op": r.choice(["complete", "partial"])})
    return {"dom": "builder", "ev": ev}


def empties(sg):
    """could its script be empty?"""
    return sg["kind"] != "p2pkh" and not sg["p2sh"]


def sighash_session(r):
    """C09: every flag on every input position"""
    n = r.choice([1, 2, 3, 4])
    m = r.choice([0, 1, 2, 3, 5])
    ev = [new(r)]
    flagset = [r.choice(FLAGS + [rflag(r)]) for _ in range(r.choice([1, 2, 4, 6]))]
    for _ in range(n):
        sg = {"kind": "multi", "flags": flagset if r.random() < .7 else [rflag(r) for _ in range(r.choice([0, 1, 3]))],
              "recipe": [], "ph": [], "p2sh": r.random() < .5, "pk": []}
        ev.append(inp(r, sg, redeem(r), r.getrandbits(r.choice([10, 33, 50])) + 10**6))
    for _ in range(m):
        ev.append({"op": "output", "value": le(r.randrange(0, 1000), 8), "script": out_script(r)})
    if r.random() < .3:
        ev.append({"op": "leftover", "script": out_script(r)})
        ev.append({"op": "build"})
    else:
        ev.append({"op": r.choice(["build", "buildfixed"])})
    for k in range(n):
        if r.random() < .6:
            ev.append({"op": "preimages", "idx": k})
    ev.append({"op": "partial"})
    ev.append({"op": "txpre", "flags": flagset})
    if r.random() < .3:
        ev.append({"op": "fromtx"})
        ev.append({"op": "buildfixed"})
        for k in range(n):
            ev.append({"op": "preimages", "idx": k})
    return {"dom": "builder", "ev": ev}


def size_session(r, big):
    """C20: estimate against the completed transaction"""
    fee = r.choice([1000, 1, 2500])
    ev = [new(r, fee)]
    sgs = []
    n = big if big else r.choice([0, 1, 2, 3, 6])
    if big:
        # many equal inputs
        while True:
            sg = signatory(r, size=10)
            if sum(len(ser_op(i["op"])) for i in sg["recipe"]) < 100 and len(sg["flags"]) < 3:
                break
        sgs = [sg] * n
        ev.append(dict(inp(r, sg, [code(81)], 20000), op="inputs", n=n))
    else:
        for k in range(n):
            sg = signatory(r, size=r.choice([None, 72, 250, 251, 252, 253, 520]))
            sgs.append(sg)
            ev.append(inp(r, sg, redeem(r), 20000))
    nout = r.choice([0, 1, 2, 3]) if not big or r.random() < .5 else r.choice([251, 252, 253])
    outs = [{"op": "output", "value": le(546, 8), "script": out_script(r) if nout < 10 else [code(97)]} for _ in range(nout)]
    if r.random() < .5:
        ev += outs
    else:
        ev.append({"op": "outputs", "outs": [[o["value"], o["script"]] for o in outs]})
    if r.random() < .7:
        ev.append({"op": "leftover", "script": out_script(r)})
    if r.random() < .3:
        ev.append({"op": "bounded", "lower": le(0, 8), "upper": le(r.choice([1, 10**5]), 8), "prec": r.choice([-1, 1]), "script": out_script(r)})
    ev.append({"op": "build"})
    order = list(range(n))
    r.shuffle(order)
    if big:
        ev.append({"op": "signs", "idxs": order, "via": r.choice(["input", "dyn"]), "sigs": sigs_for(r, sgs[0])})
    elif n and r.random() < .3:
        # presigned: hand over half way, then continue
        h = r.randrange(n + 1)
        for k in order[:h]:
            ev.append(sign_ev(r, k, sgs[k]))
        ev += [{"op": "partial"}, {"op": "fromtx"}]
        ev.append({"op": "build"})
        for k in range(n):
            if k not in order[:h] or empties(sgs[k]):
                ev.append(sign_ev(r, k, sgs[k], "signatory"))
    else:
        for k in order:
            ev.append(sign_ev(r, k, sgs[k]))
    ev.append({"op": "complete"})
    return {"dom": "builder", "ev": ev}


def c07(r, tier):
    n = 2500 if tier == "quick" else 30000
    for _ in range(n):
        yield value_session(r)
    for _ in range(n // 8):
        yield overflow_session(r)
        yield leftovers_session(r)


def c08(r, tier):
    for _ in range(2000 if tier == "quick" else 25000):
        yield sign_session(r)
    for _ in range(400 if tier == "quick" else 5000):
        yield load_session(r)


def c09(r, tier):
    for f in range(256):
        # every flag byte on the first, middle and last of three inputs, with two outputs
        ev = [new(r)]
        for k in range(3):
            sg = {"kind": "multi", "flags": [f], "recipe": [], "ph": [], "p2sh": False, "pk": []}
            ev.append(inp(r, sg, [code(81), code(171), code(82)] if k == 1 else [code(81)], 1000 + k))
        for k in range(2):
            ev.append({"op": "output", "value": le(k, 8), "script": [code(97 + k)]})
        ev += [{"op": "buildfixed"}, {"op": "preimages", "idx": 2}, {"op": "partial"}, {"op": "txpre", "flags": [f]}]
        yield {"dom": "builder", "ev": ev}
    for _ in range(1200 if tier == "quick" else 15000):
        yield sighash_session(r)


def c20(r, tier):
    for _ in range(1500 if tier == "quick" else 15000):
        yield size_session(r, 0)
    for _ in range(150 if tier == "quick" else 1500):
        yield leftovers_session(r)
    for b in ([252, 253] if tier == "quick" else [252, 253, 251, 254, 300]):
        yield size_session(r, b)
