"""What each check runs: design models and generators (TLC), the Go driver, trace validation (TLC)."""
import json
import random
import threading

CHECKS = {}


def check(pid):
    def reg(f):
        CHECKS[pid] = f
        return f
    return reg


def events(trace):
    """number of states of a history trace: one per event and one initial state per history"""
    n = 0
    with open(trace) as f:
        for line in f:
            n += len(json.loads(line)["ev"]) + 1
    return n


@check("C01")
def c01(r):
    drv = r.bg(r.driver)
    mod = r.bg(r.model, "MCSM3Stream", workers=4)
    _, scn = r.generate("SM3Gen", "SM3GenAll", workers=1)
    drv.result()
    lng = r.bg(r.drive, "sm3long")
    t = r.drive("sm3chunks", scn)
    # the lengths 0..330 with the pure TLA+ compression function, everything with the accelerated one
    pure = r.path("pure.ndjson")
    with open(t) as f, open(pure, "w") as g:
        for i, line in enumerate(f):
            if i > 330 or (r.quick and i % 2 == 1 and i > 140):
                continue
            g.write(line)
    a = r.bg(r.judge, "SM3Trace", t, expect=events(t), label="one-shot and chunked")
    b = r.bg(r.judge, "SM3Trace", pure, expect=events(pure), label="pure TLA+ definition", ov=False)
    a.result()
    b.result()
    r.judge("SM3Trace", lng.result(), label="messages over 2^32 bits")
    mod.result()


@check("C02")
def c02(r):
    drv = r.bg(r.driver)
    mod = r.bg(r.model, "MCSM3Stream", workers=4)
    n = 2000 if r.quick else 6000
    _, scn = r.generate("SM3Gen", "SM3GenSim", simulate="num=%d" % n, workers=1, args=["-depth", "20"])
    drv.result()
    t = r.drive("sm3hist", scn)
    r.judge("SM3Trace", t, expect=events(t))
    mod.result()


def in_turn(r, pid, module, heap="3g"):
    """questions asked in turn with others that differ in one argument (TurnsGen); returns what finishes them"""
    g = r.bg(r.generate, "TurnsGen", "Turns" + pid, workers=1)

    def rest():
        t = r.drive("turns", g.result()[1])
        r.judge(module, t, label="questions in turn", workers=3, heap=heap)
    return rest


TURNS = {"sm2sign": "C03", "sm2verify": "C04", "sm2digest": "C07", "sm2enc": "C08", "sm2dec": "C09"}


def sm2(r, what, models=("MCSM2Tiny11",), thorough_models=("MCSM2Tiny13", "MCSM2Tiny23")):
    drv = r.bg(r.driver)
    ms = [r.bg(r.model, "MCSM2Tiny", m, workers=2) for m in models]
    if not r.quick:
        ms += [r.bg(r.model, "MCSM2Tiny", m, workers=2) for m in thorough_models]
    g = []
    if what == "sm2dec":        # ciphertexts by their design
        g.append(r.bg(r.generate, "EncGen", "EncGen1" if r.quick else "EncGen2", workers=1))
        g.append(r.bg(r.generate, "EncGen", "EncGen2s" if r.quick else "EncGen3", workers=2, simulate="num=%d" % (1500 if r.quick else 20000), args=["-depth", "6"]))
    if what == "sm2verify":     # signatures by their design
        g.append(r.bg(r.generate, "SigGen", "SigGen1" if r.quick else "SigGen2", workers=1))
        g.append(r.bg(r.generate, "SigGen", "SigGen2s" if r.quick else "SigGen3", workers=2, simulate="num=%d" % (1500 if r.quick else 20000), args=["-depth", "6"]))
    turns = in_turn(r, TURNS[what], "SM2Trace") if what in TURNS else None
    drv.result()
    t = r.drive(what)
    j = r.bg(r.judge, "SM2Trace", t, label=what)
    tj = r.bg(turns) if turns else None
    if what == "sm2verify":
        pieces(r, "sm2sigdesign", "SM2Trace", g[0].result()[0] + g[1].result()[0], "designed signatures", 4000)
    j.result()
    if what == "sm2dec":
        pieces(r, "sm2decdesign", "SM2Trace", g[0].result()[0] + g[1].result()[0], "designed ciphertexts", 4000)
    if tj:
        tj.result()
    for m in ms:
        m.result()


for pid, what in {"C03": "sm2sign", "C04": "sm2verify", "C05": "sm2der", "C06": "sm2nonce", "C07": "sm2digest",
                  "C08": "sm2enc", "C09": "sm2dec", "C10": "sm2key"}.items():
    CHECKS[pid] = lambda r, what=what: sm2(r, what)


@check("C11")
def c11(r):
    r.drv_bg = r.bg(r.driver)
    r.drv_bg.result()
    tj = r.bg(in_turn(r, "C11", "KeyTrace"))
    t = r.drive("keymarshal")
    r.judge("KeyTrace", t, label="encodings")
    tj.result()


@check("C12")
def c12(r):
    r.driver()
    tj = r.bg(in_turn(r, "C12", "KeyTrace"))
    mat = r.drive("keymat")
    env = {"KEYS": mat}
    if r.quick:
        a = r.bg(r.generate, "KeyGen", "KeyGen1", env=env, workers=4)
        b = r.bg(r.generate, "KeyGen", "KeyGen3", env=env, workers=4, simulate="num=600", args=["-depth", "6"])
        scns = a.result()[0] + b.result()[0]
    else:
        scns = r.generate("KeyGen", "KeyGen2", env=env, workers=8)[0]
        scns += r.generate("KeyGen", "KeyGen3", env=env, workers=8, simulate="num=20000", args=["-depth", "6"])[0]
    seen, out = set(), []
    for s in scns:
        k = (s["fmt"], bytes(s["der"]))
        if k not in seen:
            seen.add(k)
            out.append(s)
    f = r.path("keydocs.json")
    json.dump(out, open(f, "w"))
    t = r.drive("keyparse", f)
    r.judge("KeyTrace", t, label="documents parsed", heap="6g")
    tj.result()


def dump(r, name, scns):
    f = r.path(name)
    json.dump(scns, open(f, "w"))
    return f


def made_and_parsed(r, pre, fam, deep, kinds=(), docs3=400):
    """certificates, requests or revocation lists: created, parsed, altered, their signatures checked"""
    drv = r.bg(r.driver)
    q = r.quick
    # PRE+Gen1: every place of the template alone; PRE+Gen<deep>: random combinations
    g1 = r.bg(r.generate, "CertGen", pre + "Gen1", workers=2)
    gn = r.bg(r.generate, "CertGen", "%sGen%d" % (pre, deep), simulate="num=%d" % (360 if q else 6000), workers=2, args=["-depth", "15"])
    cks = [r.bg(r.generate, "CheckGen", "Check%s%d" % (k, 1 if q else 2), workers=2) for k in kinds]
    drv.result()
    mat = r.drive("keymat")
    env = {"KEYS": mat}
    d1 = r.bg(r.generate, "CertDocGen", pre + "Doc1", env=env, workers=2)
    d3 = r.bg(r.generate, "CertDocGen", pre + "Doc3", env=env, workers=2, simulate="num=%d" % (docs3 if q else 5000), args=["-depth", "8"])
    names = name_strings(r, env) if pre == "Cert" else lambda: []
    js = [r.bg(in_turn(r, {"Csr": "C20", "Crl": "C21"}[pre], "CertTrace"))] if pre != "Cert" else []

    def go(what, scns, label, heap="3g"):
        # judged in pieces of bounded size
        size = 1500 if q else 4000
        for k in range(0, len(scns), size):
            f = dump(r, "%s-%s-%d.json" % (what, label.replace(" ", "-"), k), scns[k:k + size])
            js.append(r.bg(one, what, f, label + (" %d" % (k // size) if len(scns) > size else ""), heap))

    def one(what, f, label, heap):
        t = r.drive(what, f)
        with slots:
            r.judge("CertTrace", t, label=label, heap=heap, workers=4 if q else 8)
    slots = threading.Semaphore(4 if q else 2)
    combos = gn.result()[0]
    go("certmake", g1.result()[0] + combos, fam + " created")
    go("certalter", combos[:70 if q else 1500], fam + " altered", heap="3g" if q else "6g")
    if pre == "Crl":
        # texts that hold a list: every change of one line, some of several (thorough: every pair of changes)
        a1, a2, a5 = [r.generate("ArmourGen", "ArmourGen%d" % k, workers=2, **kw)[0] for k, kw in
                      ((1, {}), (2, {}), (5, {"simulate": "num=%d" % (2 if q else 20), "args": ["-depth", "6"]}))]
        rnd = random.Random(r.seed)
        if q:
            a2 = rnd.sample(a2, 600)
        a5 = rnd.sample(a5, min(len(a5), 200 if q else 4000))
        texts = a1 + a2 + a5
        for k in range(0, len(texts), 1500):
            go("armour", texts[k:k + 1500], "lists in texts from %d" % k)
    for c in cks:
        go("certcheck", c.result()[0], "signatures checked")
    docs, seen = [], set()
    for s in d1.result()[0] + d3.result()[0] + names():
        if (s["fam"], bytes(s["der"])) not in seen:
            seen.add((s["fam"], bytes(s["der"])))
            docs.append(s)
    go("certdocs", docs, fam + " parsed")
    for j in js:
        j.result()


def name_strings(r, env):
    """certificates with every short string (and some longer ones) in the places of names"""
    q = r.quick
    g = [r.bg(r.generate, "CertStrGen", "CertStr2" if q else "CertStr3", env=env, workers=2),
         r.bg(r.generate, "CertStrGen", "CertStr5", env=env, workers=1, simulate="num=%d" % (30 if q else 400), args=["-depth", "7"]),
         r.bg(r.generate, "CertStrGen", "CertStr8", env=env, workers=1, simulate="num=%d" % (15 if q else 400), args=["-depth", "10"]),
         r.bg(r.generate, "CertStrGen", "CertMail2" if q else "CertMail3", env=env, workers=2),
         r.bg(r.generate, "CertStrGen", "CertMail6", env=env, workers=1, simulate="num=%d" % (20 if q else 300), args=["-depth", "8"])]
    return lambda: [s for x in g for s in x.result()[0]]


@check("C18")
def c18(r):
    made_and_parsed(r, "Cert", "certificates", 8)


@check("C19")
def c19(r):
    drv = r.bg(r.driver)
    cks = [(k, r.bg(r.generate, "CheckGen", "Check%s%d" % (k, 1 if r.quick else 2), workers=2)) for k in ("Sig", "From", "Crl")]
    turns = in_turn(r, "C19", "CertTrace")
    drv.result()
    js = [r.bg(turns)]
    for k, c in cks:
        t = r.drive("certcheck", c.result()[1])
        js.append(r.bg(r.judge, "CertTrace", t, label="checks " + k, workers=4, heap="3g" if r.quick else "6g"))
    for j in js:
        j.result()


@check("C20")
def c20(r):
    made_and_parsed(r, "Csr", "requests", 5, ("Csr",))


@check("C21")
def c21(r):
    made_and_parsed(r, "Crl", "revocation lists", 5, ("Crl",))


def pieces(r, what, module, scns, label, size, heap="3g", slots=2, workers=4):
    """drive and judge scenarios in pieces of bounded size"""
    lock = threading.Semaphore(slots)

    def one(k):
        with lock:
            f = dump(r, "%s-%s-%d.json" % (what, label.replace(" ", "-"), k), scns[k:k + size])
            t = r.drive(what, f)
            r.judge(module, t, label=label + (" %d" % (k // size) if len(scns) > size else ""), heap=heap, workers=workers)
    for j in [r.bg(one, k) for k in range(0, len(scns), size)]:
        j.result()


@check("C13")
def c13(r):
    drv = r.bg(r.driver)
    drv.result()
    t = r.drive("p7make")
    r.judge("P7Trace", t, label="messages produced", heap="3g" if r.quick else "6g")


@check("C14")
def c14(r):
    drv = r.bg(r.driver)
    mod = r.bg(r.model, "MCP7", "MCP7" if r.quick else "MCP7b", workers=2 if r.quick else 8)
    g1 = r.bg(r.generate, "P7Gen", "P7Gen1" if r.quick else "P7Gen2", workers=2)
    g3 = r.bg(r.generate, "P7Gen", "P7Gen3", simulate="num=%d" % (700 if r.quick else 12000), workers=2, args=["-depth", "6"])
    turns = in_turn(r, "C14", "P7Trace")
    drv.result()
    a, tj = r.bg(r.drive, "p7alter"), r.bg(turns)
    scns = g1.result()[0] + g3.result()[0]
    aj = r.bg(lambda: r.judge("P7Trace", a.result(), label="altered messages", workers=4, heap="3g" if r.quick else "8g"))
    pieces(r, "p7design", "P7Trace", scns, "designed messages", 1000 if r.quick else 3000)
    aj.result()
    tj.result()
    mod.result()


def designs(r, cfg, n, passwords=False):
    """store designs: every single deviation from the plain store, random combinations of three, with passwords every pair of the
    store's and the reader's (thorough: every pair of deviations)"""
    g1 = r.bg(r.generate, "P12Gen", cfg if r.quick else "P12Gen2", workers=2)
    g3 = r.bg(r.generate, "P12Gen", "P12Gen3", simulate="num=%d" % (n if r.quick else 1500), workers=1 if r.quick else 4, args=["-depth", "6"])
    gp = r.bg(r.generate, "P12Gen", "P12GenPw", workers=1) if r.quick and passwords else None
    return lambda: g1.result()[0] + g3.result()[0] + (gp.result()[0] if gp else [])


def walks(r):
    """sequences of bags with what the model of the walk over them ends with"""
    g = r.bg(r.generate, "P12Bags", "P12Bags2" if r.quick else "P12Bags3", workers=2)
    s = r.bg(r.generate, "P12Bags", "P12Bags6", simulate="num=%d" % (150 if r.quick else 2500), workers=1, args=["-depth", "16"])
    return lambda: g.result()[0] + s.result()[0]


@check("C15")
def c15(r):
    drv = r.bg(r.driver)
    w = walks(r)
    drv.result()
    t = r.drive("p12make")
    a = r.bg(r.judge, "P12Trace", t, label="stores written", heap="4g")
    pieces(r, "p12bags", "P12Trace", w(), "bags", 1000 if r.quick else 3000)
    a.result()


@check("C16")
def c16(r):
    drv = r.bg(r.driver)
    g, w = designs(r, "P12Gen1", 120, True), walks(r)
    turns = in_turn(r, "C16", "P12Trace")
    drv.result()
    uj = r.bg(turns)
    a = r.bg(r.drive, "p12alter")
    aj = r.bg(lambda: r.judge("P12Trace", a.result(), label="altered stores", workers=4, heap="3g" if r.quick else "8g"))
    t = r.drive("p12turns")
    tj = r.bg(r.judge, "P12Trace", t, label="passwords in turn", workers=2, heap="3g")
    pieces(r, "p12design", "P12Trace", g(), "designed stores", 1000 if r.quick else 3000)
    pieces(r, "p12bags", "P12Trace", w(), "bags", 1000 if r.quick else 3000)
    for j in (aj, tj, uj):
        j.result()


@check("C17")
def c17(r):
    drv = r.bg(r.driver)
    g = designs(r, "P12Gen1b", 60)
    turns = in_turn(r, "C16", "P12Trace")
    drv.result()
    uj = r.bg(turns)
    t = r.drive("p12rc2")
    a = r.bg(r.judge, "P12Trace", t, label="RC2", workers=2, heap="3g")
    m = r.drive("p12make")
    b = r.bg(r.judge, "P12Trace", m, label="stores written", workers=4, heap="4g")
    pieces(r, "p12design", "P12Trace", g(), "designed stores", 1000 if r.quick else 3000)
    for j in (a, b, uj):
        j.result()


@check("C26")
def c26(r):
    """what a parsed signed message says of itself"""
    drv = r.bg(r.driver)
    g1 = r.bg(r.generate, "P7AskGen", "P7AskGen1", workers=2)
    # every pair of attributes of one type (thorough: of one or two values each)
    g2 = r.bg(r.generate, "P7AskGen", "P7AskGen2" if r.quick else "P7AskGen3", workers=2)
    gs = r.bg(r.generate, "P7AskGen", "P7AskGenS", workers=2, simulate="num=%d" % (250 if r.quick else 12000), args=["-depth", "20"])
    turns = in_turn(r, "C14", "P7Trace")
    drv.result()
    tj = r.bg(turns)
    pieces(r, "p7ask", "P7Trace", g1.result()[0] + g2.result()[0] + gs.result()[0], "accessors", 500 if r.quick else 3000)
    tj.result()


@check("C27")
def c27(r):
    """what ToPEM makes of a store"""
    drv = r.bg(r.driver)
    gs = [r.bg(r.generate, "P12AttrGen", "P12AttrGen1", workers=1),
          r.bg(r.generate, "P12AttrGen", "P12AttrGenS", workers=2, simulate="num=%d" % (120 if r.quick else 3000), args=["-depth", "16"])]
    if not r.quick:
        gs.append(r.bg(r.generate, "P12AttrGen", "P12AttrGen2", workers=2))
    gd = r.bg(r.generate, "P12Gen", "P12GenPem1" if r.quick else "P12GenPem2", workers=2)
    drv.result()
    every = gs[2].result()[0][::4] if not r.quick else []
    pieces(r, "p12attrs", "P12Trace", gs[0].result()[0] + gs[1].result()[0] + every, "attributes", 500 if r.quick else 3000)
    pieces(r, "p12design", "P12Trace", gd.result()[0], "designed stores", 1000 if r.quick else 3000)


@check("C22")
def c22(r):
    """every parser, on edited documents and small ones"""
    drv = r.bg(r.driver)
    q = r.quick
    g1 = r.bg(r.generate, "EditGen", "EditGen1", workers=2)
    g2 = r.bg(r.generate, "EditGen", "EditGen2", workers=1, simulate="num=%d" % (1500 if q else 40000), args=["-depth", "7"])
    gd = r.bg(r.generate, "DerGen", "DerGen1" if q else "DerGen2", workers=2)
    drv.result()
    # documents of the other properties' generators
    env = {"KEYS": r.drive("keymat")}
    strs = name_strings(r, env)
    gx = [r.bg(r.generate, "CertDocGen", p + "Doc1", env=env, workers=1) for p in ("Cert", "Csr", "Crl")]
    gx += [r.bg(r.generate, "CertDocGen", p + "Doc3", env=env, workers=1, simulate="num=%d" % (100 if q else 3000), args=["-depth", "8"]) for p in ("Cert", "Csr", "Crl")]
    gx.append(r.bg(r.generate, "KeyGen", "KeyGen1" if q else "KeyGen2", env=env, workers=2))

    def designed():
        return [{"case": s.get("fmt", "document") + " " + s["case"], "doc": s["der"]} for s in strs() + [s for g in gx for s in g.result()[0]]]

    def one(label, scns):
        seen, out = set(), []
        for s in scns:
            if s["case"] not in seen:
                seen.add(s["case"])
                out.append(s)
        t = r.drive("parse", dump(r, label.replace(" ", "-") + ".json", out), timeout=850)
        last = json.loads(open(t).read().splitlines()[-1])
        if last["op"] == "count":
            r.parts["driver " + label] = last
        r.judge("ParseTrace", t, label=label, heap="4g" if q else "8g", split=None if q else 12000)
    if q:
        one("documents", g1.result()[0] + gd.result()[0] + g2.result()[0] + designed())
    else:
        one("documents with one edit", g1.result()[0])
        one("documents with two edits", g2.result()[0])
        one("small documents", gd.result()[0])
        one("designed documents", designed())


@check("C23")
def c23(r):
    drv, race = r.bg(r.driver), r.bg(r.driver, True)
    ms = [r.bg(r.model, "MCCalls", "MCCalls_fresh", workers=1)]
    if not r.quick:
        # undisciplined uses of memory, each refuted by a history of the kind the driver replays
        ms += [r.bg(r.model, "MCCalls", "MCCalls_" + d, workers=1, violated=True) for d in ("static", "inplace", "spare", "memo", "reuse", "share")]
        # without callers who change what they were handed, handing it over twice does not show
        ms += [r.bg(r.model, "MCCalls", "MCCalls_sharex", workers=1)]
    walk = r.bg(r.generate, "CallsGen", "CallsWalk", workers=1, simulate="num=%d" % (1 if r.quick else 4), args=["-depth", "1700"])
    first = r.bg(r.generate, "FirstGen", "FirstGen", workers=1)
    rnd = r.bg(r.generate, "CallsGen", "CallsGen", workers=1, simulate="num=%d" % (40 if r.quick else 1500), args=["-depth", "60"])
    lng = None if r.quick else r.bg(r.generate, "CallsGen", "CallsLong", workers=1, simulate="num=200", args=["-depth", "260"])
    race.result()
    few = {"VERIF_FEW": "1"}

    def one(scn, label, race, env=None):
        seen, out = set(), []
        for s in scn:
            k = json.dumps(s["ev"])
            if k not in seen:
                seen.add(k)
                out.append(s)
        t = r.drive("calls", dump(r, label.replace(" ", "-") + ".json", out), race=race, env=env, timeout=800)
        n = 0
        with open(t) as f:
            for line in f:
                e = json.loads(line)
                n += 2 if e["op"] != "history" else len(e["ev"]) + 2
        r.judge("CallsTrace", t, label=label, expect=n)
    a = r.bg(one, walk.result()[0], "all operations in turn, race detector", True, few)

    def cold():
        t = r.drive("cold", first.result()[1], race=True, timeout=800)
        with open(t) as f:
            n = sum(2 if e["op"] != "history" else len(e["ev"]) + 2 for e in map(json.loads, f))
        r.judge("CallsTrace", t, label="first uses at once, race detector", expect=n)
    cd = r.bg(cold)
    drv.result()
    hs = rnd.result()[0]
    b = r.bg(one, hs, "random histories", False)
    if not r.quick:
        b.result()
        one(hs[:300], "random histories, race detector", True, few)
        one(lng.result()[0], "long histories", False)
    a.result()
    b.result()
    cd.result()
    for m in ms:
        m.result()


@check("C24")
def c24(r):
    drv = r.bg(r.driver)
    ms = [r.bg(r.model, "MCGroup", "MCGroup%d" % p, workers=2) for p in ((11,) if r.quick else (7, 11, 13, 17))]
    g = r.bg(r.generate, "CurveGen", "CurveGen1" if r.quick else "CurveGen2", workers=1)
    turns = in_turn(r, "C24", "CurveTrace")
    drv.result()
    tj = r.bg(turns)
    pieces(r, "curve", "CurveTrace", g.result()[0], "operations of the curve", 6000, workers=8)
    tj.result()
    for m in ms:
        m.result()


@check("C25")
def c25(r):
    drv = r.bg(r.driver)
    q = r.quick
    g = r.bg(r.generate, "SM3Gen", "SM3GenSim", simulate="num=%d" % (300 if q else 4000), workers=1, args=["-depth", "20"])
    reg = r.bg(r.generate, "HashGen", "HashGen", simulate="num=%d" % (20 if q else 300), workers=1, args=["-depth", "34"])
    drv.result()
    t = r.drive("hashes", g.result()[1])
    u = r.drive("hashreg", reg.result()[1])
    a = r.bg(r.judge, "HashTrace", t, expect=events(t), label="objects, names")
    b = r.bg(r.judge, "HashTrace", u, expect=events(u), label="registry")
    # the first histories with the pure TLA+ definitions
    few = r.path("few.ndjson")
    with open(t) as f, open(few, "w") as o:
        for k, line in enumerate(f):
            if k % 7 == 0 and (k < 120 or not q):
                o.write(line)
    d = r.bg(r.judge, "HashTrace", few, expect=events(few), label="pure TLA+ definitions", ov=False)
    for x in (a, b, d):
        x.result()
