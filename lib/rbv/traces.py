"""Turns recorded logs into traces and lets TLC decide whether they are behaviours of the specification."""
import json
import time
from concurrent.futures import ThreadPoolExecutor

from . import tlc

BLOCK = 16384
IDLE_MIN, CHAT_MIN, BOUND = 750, 7500, 30000


def sessions(log, torrents, end=None):
    """Session traces of one log.  torrents: {index: Torrent}."""
    S = {}
    lag = [(e["t"] - e["d"], e["t"]) for e in log if e["e"] == "lag"]
    order = []
    for e in log:
        c = e.get("c")
        if c is None:
            continue
        if e["e"] == "open":
            S[c] = {"cid": c, "ep": None, "h": -1, "kind": "probe", "ev": [], "t0": e["t"], "ttx": e["t"], "tuse": e["t"],
                    "piece": -1, "unsol": False, "thx": None, "st": None, "eof": None, "rst": False}
            order.append(c)
            continue
        s = S[c]
        k = e["e"]
        if k == "sess":
            s.update(h=e["h"], kind=e["k"], st=e.get("st"), ep=e.get("ep"))
        elif k == "kind":
            s["kind"] = e["k"]
        elif k == "reveal":
            s["piece"] = e["p"]
        elif k == "tx":
            m = e["m"]
            s["ttx"] = e["t"]
            if m["t"] == "data":
                s["tuse"] = e["t"]
                if m.get("w") == "unsol":
                    s["unsol"] = True
            if m["t"] == "hs":
                s["thx"] = e["t"]
            s["ev"].append(("tx", m, e["t"]))
        elif k == "rx":
            s["ev"].append(("rx", e["m"], e["t"]))
        elif k == "pclose":
            s["ev"].append(("pclose", None, e["t"]))
            s["rst"] = s["rst"] or e["how"] == "rst"
        elif k == "eof":
            s["eof"] = e["t"]
            s["ev"].append(("eof", {"idle": int(1000 * e["idle"]), "useless": int(1000 * (e["t"] - s["tuse"]))}, e["t"]))
    tend = end if end is not None else (log[-1]["t"] if log else 0)
    kill = [e["t"] for e in log if e["e"] in ("kill", "died")]
    out = []
    for c in order:
        s = S[c]
        if not any(k == "rx" for k, _, _ in s["ev"]):
            continue                  # a reachability probe
        t1 = s["eof"] if s["eof"] is not None else tend
        s["late"] = any(a - 0.05 < t1 and b > s["t0"] - 0.15 for a, b in lag) or \
            (s["thx"] is not None and s["thx"] - s["t0"] > 0.65)
        t = torrents.get(s["h"])
        s["n"], s["plen"] = 0, 0
        if t is not None:
            if s["kind"] == "meta":
                s["n"] = (len(t.info) + BLOCK - 1) // BLOCK
                s["plen"] = len(t.info)
            elif 0 <= s["piece"] < t.npieces:
                s["plen"] = t.piece_len(s["piece"])
                s["n"] = (s["plen"] + BLOCK - 1) // BLOCK
            else:
                s["n"], s["plen"] = 1, BLOCK
        killed = bool(kill) and s["eof"] is not None and s["eof"] >= min(kill) - 0.001
        if s["eof"] is None or killed:
            if killed:
                s["ev"] = [x for x in s["ev"] if x[0] != "eof"]
                tend2 = min(kill)
            else:
                tend2 = tend
            if not s["rst"]:
                s["ev"].append(("end", {"useless": int(1000 * (tend2 - s["tuse"]))}, tend2))
        out.append(s)
    return out


def _tx(s, m):
    t = m["t"]
    if t == "hs":
        return {"t": "hs", "ok": bool(m["ok"])}
    if t == "ext":
        return {"t": "ext", "size": (m["size"] + BLOCK - 1) // BLOCK, "ut": m["ut"] & 255 if m["ut"] >= 0 else -1}
    if t == "data":
        return {"t": "data", "ok": bool(m["ok"]), "i": m["o"] if s["kind"] == "meta" else (m["o"] // BLOCK if m["o"] >= 0 else -1)}
    if t in ("unchoke", "choke", "noise", "bad", "frag"):
        return {"t": t}
    raise ValueError(m)


def _rx(s, m, t):
    k = m["t"]
    if k == "hs":
        return {"t": "hs", "wf": bool(m["pstr"]) and int(m["res"], 16) >> 20 & 1 == 1, "own": t is not None and m["hash"] == t.info_hash.hex()}
    if k == "exths":
        ut = m["ut"]
        return {"t": "exths", "wf": isinstance(ut, int) and ut > 0 and m["rest"] == 0}
    if k == "req":
        return {"t": "req", "p": _i(m["p"]), "o": _i(m["o"]), "n": _i(m["n"])}
    if k == "mreq":
        return {"t": "mreq", "p": _i(m["p"]), "x": m["x"], "wf": m["rest"] == 0}
    if k == "interested":
        return {"t": "interested"}
    return {"t": "other"}


def _i(n):
    return n if isinstance(n, int) and 0 <= n < 1 << 31 else -7


def encode(s, torrents):
    t = torrents.get(s["h"])
    ev = []
    for k, m, _ in s["ev"]:
        if k == "tx":
            ev.append({"e": "tx", "m": _tx(s, m)})
        elif k == "rx":
            ev.append({"e": "rx", "m": _rx(s, m, t)})
        elif k == "pclose":
            ev.append({"e": "pclose"})
        else:
            ev.append(dict({"e": k}, **m))
    kind = "meta" if s["kind"] == "meta" else "piece"
    return {"kind": kind, "n": s["n"], "plen": s["plen"], "piece": s["piece"], "late": s["late"], "unsol": s["unsol"], "ev": ev}


UNDECIDED = []                # traces whose search did not end in time


def validate(module, consts, enc, chunk, par, spec="Spec", limit=150, each=40):
    """TLC decides which of the traces are behaviours of the specification -> [(index, position)] of those that are not, TLC's results.
    A search that does not end is repeated trace by trace; what remains undecided is neither accepted nor rejected."""
    bad, results = [], []

    def one(base, size, timeout):
        part = enc[base:base + size]
        r = tlc.run(module, consts(part) if callable(consts) else consts, spec=spec, constraint="Undecided", postcondition="Report", workers=1, timeout=timeout,
                    files={"traces.json": json.dumps(part)}, dfs=True)
        if r.error and ("timeout after" in r.error or "OutOfMemory" in r.out):
            return base, size, None
        if not r.ok:
            raise tlc.ToolError("%s: %s\n%s" % (module, r.error or r.violated, r.out[-3000:]))
        return base, size, r

    def note(base, r):
        results.append(r)
        for p in r.printed:
            bad.append((base + p["tid"] - 1, p["at"]))
    slow = []
    with ThreadPoolExecutor(par) as ex:
        for base, size, r in ex.map(lambda b: one(b, chunk, limit), range(0, len(enc), chunk)):
            if r is None:
                slow += range(base, min(base + size, len(enc)))
            else:
                note(base, r)
    if slow:
        t0 = time.monotonic()
        with ThreadPoolExecutor(7) as ex:
            for base, size, r in ex.map(lambda b: one(b, 1, each) if time.monotonic() - t0 < limit else (b, 1, None), slow):
                if r is None:
                    UNDECIDED.append("%s (%d events)" % (module, len(enc[base]["ev"])))
                else:
                    note(base, r)
    return bad, results


def check_sessions(items, props, chunk=400):
    """items: [(session, torrents)].  -> [(index, position)] of the traces TLC rejects, and the TLC results."""
    return validate("SessionTrace", {"Check": set(props), "Bound": BOUND, "IdleMin": IDLE_MIN, "ChatMin": CHAT_MIN, "IdleMax": 1000000, "ChatMax": 1000000, "MaxParts": 4096},
                    [encode(s, ts) for s, ts in items], chunk, 4)


# ------------------------------------------------------------------------------ torrents
def result_of(s, tr):
    """What became of a session as far as the environment can tell: ok, fail or any."""
    if s["eof"] is None:
        return "any"
    got = [m for k, m, _ in s["ev"] if k == "tx" and m["t"] == "data" and m.get("w") != "unsol"]
    if s["kind"] == "meta":
        want = [(i, True) for i in range((len(tr.info) + BLOCK - 1) // BLOCK)]
    else:
        want = [(o, True) for o in range(0, s["plen"], BLOCK)] if s["piece"] >= 0 else [None]
    have = [(m["o"], bool(m["ok"])) for m in got]
    st = s["st"] or {}
    ab = st.get("abs")
    if have[:len(want)] != want:
        return "fail"
    if s["late"] or (ab and ab["demand"] == "any"):
        return "any"
    if ab:
        return ab["demand"]
    return st.get("res", "ok") if st else "ok"


def torrent_trace(run, h, whole=True, cached=False):
    tr = run.ts[h]
    eps, dead = {}, []

    def idx(ep):
        return eps.setdefault(ep, len(eps) + 1)
    spec = run.P["torrents"][h]
    mine = set()
    for k in range(len(run.P["trackers"])):
        for e in swarm_endpoints(run.P, h, k):
            mine.add(e[0])
            if e[1] != 7001:
                dead.append(e[0])
    S = {s["cid"]: s for s in run.sess}
    ev, gone = [], set()
    # what is seen on disk was written a little earlier, by a session whose close we may not have noticed yet
    log = sorted((e for e in run.log if e["e"] == "disk" and e["h"] == h), key=lambda e: e["t"])
    if log:
        end = max(e["t"] for e in run.log)
        for e in log:
            e["t"] = min(e["t"] + 0.3, end - 1e-6) if not e.get("moved") else e["t"]
            e["moved"] = True
        log = sorted(run.log, key=lambda e: e["t"])
    else:
        log = run.log
    for e in log:
        c = e.get("c")
        if e["e"] == "dprobe" and e["ep"] in mine:
            ev.append({"e": "probe", "ep": idx(e["ep"])})
        elif e["e"] == "open" and c not in S and e["ep"] in mine:
            ev.append({"e": "probe", "ep": idx(e["ep"])})
        elif c in S and S[c]["h"] == h:
            s = S[c]
            if e["e"] == "sess":
                ev.append({"e": "sess", "c": c, "ep": idx(s["ep"]), "k": "meta" if s["kind"] == "meta" else "piece"})
            elif e["e"] == "reveal":
                # a request still in our queue when the client closed, or after we reset: too late to matter
                if s["rst"] or (s["eof"] is not None and e["t"] > s["eof"]) or c in gone:
                    continue
                ev.append({"e": "reveal", "c": c, "p": _i(e["p"])})
            elif e["e"] == "eof" or (e["e"] == "pclose" and e["how"] == "rst"):
                gone.add(c)
                ev.append({"e": "eof", "c": c, "res": result_of(s, tr)})
        elif e["e"] == "disk" and e["h"] == h:
            ev.append({"e": "disk", "p": e["p"], "st": e["st"]})
        elif e["e"] in ("kill", "died"):
            break
    ev.append({"e": "end"})
    return {"np": tr.npieces, "cached": cached, "dead": [idx(d) for d in dead if d in eps], "whole": whole,
            "nep": len(eps) + 1, "ev": ev}


def swarm_endpoints(P, h, k):
    s = P["torrents"][h]
    e = s.get("eps_by_tracker", {}).get(str(k))
    if e is None:
        e = s.get("eps", 12) if k == P.get("main_tracker", 0) else []
    if isinstance(e, int):
        e = [["10.%d.0.%d" % (h + 1, i + 1), 7001] for i in range(e)]
    return [tuple(x) for x in e]


def check_torrents(enc, props, minpeers=11, width=5, chunk=20):
    return validate("SwarmTrace", {"Check": set(props), "MinPeers": minpeers, "W": width}, enc, chunk, 6)


# ------------------------------------------------------------------------------ several runs in one directory
SETTLE = 0.3


def store_trace(run, h):
    """The history of one magnet over all runs."""
    tr = run.ts[h]
    parts = (len(tr.info) + BLOCK - 1) // BLOCK
    mine = {e["c"] for e in run.log if e["e"] == "sess" and e["h"] == h}
    ev, sent, up, tset = [], {}, False, None
    late = []                              # disk events after a kill belong before it

    def settle(now):
        nonlocal tset
        if tset is not None and now >= tset:
            ev.append({"e": "settled"})
            tset = None
    for e in run.log:
        k = e["e"]
        if up:
            settle(e["t"])
        if k == "run":
            ev.append({"e": "start"})
            up, tset, sent = True, None, {}
        elif k == "add" and e["h"] == h:
            ev.append({"e": "add"})
        elif k == "rx" and e["c"] in mine and up:
            if e["m"]["t"] == "mreq":
                ev.append({"e": "ask"})
                tset = None
            elif e["m"]["t"] == "req":
                ev.append({"e": "req"})
                if not any(x["e"] == "req" for x in ev[max(i for i, x in enumerate(ev) if x["e"] == "start"):-1]):
                    tset = e["t"] + SETTLE
        elif k == "tx" and e["c"] in mine and up and e["m"]["t"] == "data":
            n = sent.setdefault(e["c"], [])
            n.append((e["m"]["o"], e["m"]["ok"]))
            if n == [(i, True) for i in range(parts)]:
                ev.append({"e": "offer"})
                if tset is not None:
                    tset = e["t"] + SETTLE
        elif k == "disk" and e["h"] == h:
            d = {"e": "disk", "p": e["p"], "st": e["st"]}
            if up:
                ev.append(d)
            else:
                i = max((j for j, x in enumerate(ev) if x["e"] in ("kill", "damage")), default=0) if e["st"] not in ("gap",) else len(ev)
                ev.insert(i, d)
        elif k == "damage" and e["n"]:
            ev.append({"e": "damage", "gone": e["all"] and e["op"] in ("delete", "rmtree"), "stuck": e["op"] in ("dir", "noread", "nowrite")})
        elif k in ("kill", "died"):
            if up:
                ev.append({"e": "kill"})
            up = False
        elif k == "end":
            if tset is not None:
                settle(tset)
            ev.append({"e": "end", "ok": e["ok"]})
    return {"np": tr.npieces, "ev": ev}


def check_store(enc, props, chunk=60):
    return validate("StoreTrace", lambda part: {"Check": set(props), "NPieces": max(t["np"] for t in part), "MaxKills": 1000000, "MaxDamage": 1000000, "Answers": {"good"}}, enc, chunk, 4, spec="TSpec")
