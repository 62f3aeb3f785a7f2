"""The exhaustive TLC runs several checks share."""
from . import tlc

SESSION_INV = ["Inv_Order", "Inv_OneOutstanding", "Inv_InOrder", "Inv_InRange", "Inv_OkVerified", "Inv_Total"]
SESSION_ACT = ["Act_AskOnlyWhenReady", "Act_Intro", "Act_NothingAfterChoke"]


def session(rep, blocks=(2,), budget=5, chan=2, live=False, inv=None, act=None, timeout=600):
    r = tlc.run("Session", {"Kinds": {"piece", "meta"}, "Blocks": set(blocks), "Budget": budget, "Chan": chan,
                            "IdleMax": 2, "ChatMax": 3, "MaxParts": 64},
                invariants=SESSION_INV if inv is None else inv, properties=(SESSION_ACT if act is None else act) + (["Live_Ends"] if live else []),
                workers=6, timeout=timeout)
    rep.model("Session", r, "one attempt against a peer that may send anything: blocks %s, %d messages, channel %d%s"
              % (list(blocks), budget, chan, ", termination under fairness" if live else ""))
    return r


SWARM_INV = ["Inv_OnlyVerified", "Inv_NoPieceLost", "Inv_OnePerPiece", "Inv_NoRefetch", "Inv_Width", "Inv_Start"]
SWARM_ACT = ["Act_Preference", "Act_SamePeer"]


def swarm(rep, ep=("a", "b"), good=("a",), np=3, w=2, minpeers=2, maxfound=3, live=False, timeout=600):
    r = tlc.run("Swarm", {"Ep": set(ep), "Good": set(good), "NPieces": np, "W": w, "MinPeers": minpeers, "MaxFound": maxfound},
                invariants=SWARM_INV, properties=SWARM_ACT + (["Live_Completes"] if live else []), workers=6, timeout=timeout)
    rep.model("Swarm", r, "%d peers (%d good), %d pieces, %d transfers%s" % (len(ep), len(good), np, w, ", liveness" if live else ""))
    return r
