#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit titles and statements)."""
import json
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": hook}})


p("C01", "Only bytes that passed the SHA-1 piece check reach the disk",
  "Every byte the client writes into a content file belongs to a piece whose complete data matched the SHA-1 the torrent's "
  "metadata records for that piece. Whatever peers send for a piece (corrupted, truncated, padded, duplicated, reordered or "
  "swapped blocks, data of another piece), a piece that fails the check leaves the files unchanged.",
  ["inputs", "histories", "fault_sequences"],
  "all torrents, all pieces (first, middle, short last), all byte-level manipulations by any number of peers, in every order",
  "no test runs a download that ends in verification; the two download tests use a canned stream and never call the check",
  ["src/peer/manager.rs", "src/torrent/info.rs", "src/actors/connection.rs", "src/actors/torrent.rs", "src/actors/writer.rs"],
  [("download() verifies before returning Ok", "src/peer/manager.rs"), ("Info::verify_piece", "src/torrent/info.rs")],
  ["content files on disk after and during a download from scripted peers"])
p("C02", "No piece is ever lost: a download completes while some peer serves it",
  "As long as some known peer serves valid data, a started download ends with every piece written, whatever sequence of failed "
  "attempts (refused connection, wrong handshake, choke, silence, disconnect, malformed or corrupt data) the pieces went through "
  "before. A piece whose attempt failed always becomes available for another attempt, and an attempt on a peer that serves "
  "correct data succeeds.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of five transfers with every failure kind at every step, over any number of failures per piece and peer",
  "the actors have no tests at all; the pool tests only pop and insert on one thread",
  ["src/actors/torrent.rs", "src/actors/connection.rs", "src/peer/piece_pool.rs", "src/peer/manager.rs"],
  [("failed piece re-inserted and another one popped", "src/actors/torrent.rs"), ("PiecePool", "src/peer/piece_pool.rs")],
  ["block requests seen by the peers", "content files at the end"],
  [("piece_available_pool", "pieces nobody is fetching", "src/actors/torrent.rs")])
p("C03", "Each piece is fetched by one connection at a time, at most five at once",
  "At any moment at most one connection is fetching a given piece and at most five connections are fetching pieces of a torrent. "
  "A piece that was received and verified is never fetched again by that download.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of successes and failures of the concurrent transfers",
  "no test runs the orchestration; uniqueness depends on the history of pops, failures and re-inserts",
  ["src/actors/torrent.rs", "src/peer/piece_pool.rs", "src/actors/connection.rs"],
  [("pop before request, insert only on failure", "src/actors/torrent.rs"), ("five connection workers", "src/actors/torrent.rs")],
  ["overlap of peer connections and the piece index of their block requests"])
p("C04", "Every piece lands at its exact place in the right files",
  "For any torrent of at least one piece, with any list of files (any lengths, including zero, anywhere in the list) and any piece length, writing a piece changes exactly "
  "the byte ranges of the files that piece covers, and nothing else. After all pieces have been written, in any order, every "
  "listed file exists with exactly its length and the torrent's bytes.",
  ["inputs", "histories"],
  "all file-length lists, piece lengths and piece arrival orders",
  "seven fixed layouts are tested, one piece each, none with an empty file and none through the complete sequence of pieces",
  ["src/torrent/writer.rs", "src/torrent/file.rs", "src/actors/writer.rs"],
  [("FileParser window arithmetic", "src/torrent/writer.rs"), ("positioned write without truncation", "src/torrent/writer.rs")],
  ["files after each piece write"])
p("C05", "Writes never leave the download directory",
  "Whatever names and paths the torrent's metadata contains (parent references, absolute paths, separators inside a component, empty "
  "components), the client creates or changes no file or directory outside its working directory. A torrent file with such a path is "
  "not written, and the other files of the torrent still are.",
  ["inputs"],
  "all names and path component lists, single- and multi-file",
  "no test uses a hostile path",
  ["src/torrent/writer.rs", "src/torrent/file.rs", "src/torrent/info.rs"],
  [("FileWriter::write_to_filesystem path construction", "src/torrent/writer.rs")],
  ["file tree around the working directory"])
p("C06", "Only metadata whose SHA-1 is the magnet's info hash is adopted",
  "Torrent metadata received from a peer is used, and saved, only if the SHA-1 of the received bytes is the info hash of the magnet "
  "link. Metadata that does not match, in whatever way, has no effect: it is not saved, no piece of it is requested, and the client "
  "asks the next peer it learns of.",
  ["inputs", "fault_sequences", "histories"],
  "all sequences of peers giving wrong, corrupted, truncated, padded or foreign metadata, in one or many 16 KiB parts",
  "metadata download is tested once, on five canned bytes, without any notion of the expected hash",
  ["src/peer/manager.rs", "src/actors/torrent.rs", "src/torrent/info.rs"],
  [("get_info", "src/peer/manager.rs"), ("collect_info", "src/actors/torrent.rs")],
  ["metadata cache file", "requests that follow a metadata exchange"])
p("C07", "Saved metadata survives restarts and a crash while saving cannot wedge it",
  "Metadata once obtained is saved, and a later run with the same magnet downloads the same torrent without asking any peer for "
  "metadata. If the saved copy is missing, cut short at any byte or otherwise unreadable, the client fetches the metadata again "
  "and the download completes.",
  ["crash_points", "histories"],
  "every prefix of the saved copy (every crash point of the save), and arbitrary damage to it",
  "neither saving nor loading has a test",
  ["src/torrent/info.rs", "src/actors/torrent.rs"],
  [("Info::save / Info::from_file", "src/torrent/info.rs"), ("collect_info", "src/actors/torrent.rs")],
  ["metadata requests seen by peers in the second run", "content files"])
p("C08", "Requested blocks tile the piece exactly, one at a time, in order",
  "The block requests made for a piece start at offset 0, are contiguous, are at most 16 KiB each, never reach beyond the end of the "
  "piece or of the torrent, and together cover the piece exactly; a block is requested only when data for all earlier ones has "
  "arrived (towards a peer that sends data only in answer to requests). Metadata parts are requested likewise, 0, 1, 2, ... up to the size the peer announced, with the extension id that peer announced.",
  ["inputs", "histories"],
  "all piece lengths (multiples of 16 KiB or not, smaller, larger), last-piece lengths, piece counts and metadata sizes",
  "both download tests need a single block, and no test looks at the requests that are written",
  ["src/peer/download/block.rs", "src/peer/download/mod.rs", "src/peer/download/info.rs", "src/peer/buffer.rs"],
  [("next_block/get_block_size", "src/peer/download/block.rs"), ("request_next_message", "src/peer/buffer.rs")],
  ["request messages received by the scripted peers"])
p("C09", "Message framing does not depend on TCP segmentation or keep-alives",
  "The messages the client understands are a function of the byte stream alone: cutting the stream into segments at any points, with pauses "
  "well below a second in between, or inserting keep-alive messages between messages, changes nothing. In particular a download from a "
  "peer that sends its handshake, message headers or bodies in several segments succeeds.",
  ["schedules", "inputs"],
  "all cut positions (inside handshake, length prefix, id, body) and keep-alive positions",
  "the stream tests run on an in-memory stream that always holds complete messages, and no test has a keep-alive",
  ["src/peer/stream.rs"],
  [("read_stream / peek_and_read", "src/peer/stream.rs")],
  ["outcome of a session whose peer segments its bytes"])
p("C10", "A peer session follows the protocol: handshake, hash, unchoke, requests",
  "On every connection the client first sends a well-formed 68-byte handshake with the magnet's info hash and a 20-character peer id, and sends "
  "nothing more unless the peer's handshake carries the same hash; then it sends interested and an extension handshake naming ut_metadata. It requests "
  "blocks or metadata only after the peer unchoked it and announced a metadata size, and after a choke it requests nothing more on that "
  "connection and gives the attempt up. Every message it sends has a correct length prefix.",
  ["histories", "inputs", "schedules"],
  "all sequences of peer messages around the handshake, in every order",
  "the tests apply single messages to a peer record; none runs a session",
  ["src/peer/manager.rs", "src/peer/mod.rs", "src/peer/download/mod.rs", "src/messages/mod.rs", "src/messages/handshake.rs"],
  [("init_peer", "src/peer/manager.rs"), ("Peer::apply_message", "src/peer/mod.rs"), ("execute() choke check", "src/peer/download/mod.rs")],
  ["bytes received by the scripted peers"])
p("C11", "Every peer attempt ends in bounded time",
  "Whatever a peer does (accepts and says nothing, stalls in the middle of a message, sends endless irrelevant messages or keep-alives, "
  "stops answering, disconnects), the client gives that attempt up within a bounded time without useful data, closes the connection and "
  "goes on with other work.",
  ["fault_sequences", "schedules"],
  "all stalling and chattering behaviours at every point of a session",
  "no test has a silent or chattering peer",
  ["src/peer/download/mod.rs", "src/peer/stream.rs", "src/peer/manager.rs"],
  [("idle counter in execute()", "src/peer/download/mod.rs"), ("read timeouts and bounded retries", "src/peer/stream.rs")],
  ["time between the peer's last useful message and the client's close"])
p("C12", "Hostile bytes never crash, hang or disable the client",
  "No bytes from a peer, no reply from a tracker and no torrent metadata make the client crash, hang, grow without bound or lose part of its "
  "capacity: malformed messages, broken or deeply nested bencode, inconsistent metadata cost at most that one attempt. Afterwards all transfers "
  "of this and other torrents still work.",
  ["inputs", "fault_sequences"],
  "all byte strings at every place where the client reads from the network",
  "tests feed only well-formed messages",
  ["src/messages/mod.rs", "src/messages/extension.rs", "src/messages/request.rs", "src/messages/handshake.rs", "src/bencode/decode.rs",
   "src/peer/download/info.rs", "src/peer/mod.rs", "src/torrent/info.rs", "src/actors/torrent.rs"],
  [("message parsing", "src/messages/mod.rs"), ("bencode decoder", "src/bencode/decode.rs"), ("metadata validation", "src/torrent/info.rs")],
  ["process liveness and memory", "completion of the download after hostile sessions"])
p("C13", "The bencode decoder is exact on valid input and total on any input",
  "For every value made of byte strings (including empty ones), signed 64-bit integers, lists and dictionaries with text keys, nested up to 100 levels, "
  "decoding its canonical encoding, followed by any other bytes, yields exactly that value and consumes exactly its encoding. For every other byte string "
  "decoding terminates with an error or a value, never consuming more than the input, and a non-empty encoding cut short is always an error.",
  ["inputs"],
  "all values and all byte strings",
  "six small well-formed inputs are tested",
  ["src/bencode/decode.rs", "src/bencode/metainfo.rs"],
  [("Decoder", "src/bencode/decode.rs")],
  ["decoder result and consumed byte count"])
p("C14", "Bencode encoding is canonical",
  "Encoding any string, number, byte string, list, map or torrent metadata yields canonical bencode: string lengths count bytes, integers are plain "
  "decimal, dictionary keys are sorted, absent optional entries are left out. Encoding the decoded metadata of any torrent that has only the "
  "standard keys gives back the original bytes, hence the original info hash.",
  ["inputs"],
  "all strings (any Unicode), numbers, lists, maps and metadata dictionaries",
  "the tests encode a few ASCII values",
  ["src/bencode/encode.rs", "src/torrent/info.rs", "src/torrent/file.rs"],
  [("Encode impls", "src/bencode/encode.rs"), ("Info::encode", "src/torrent/info.rs")],
  ["encoded bytes"])
p("C15", "A magnet link yields its info hash or is rejected, never garbage or a crash",
  "Posting a magnet link whose first parameter is xt=urn:btih: with 40 hexadecimal digits (any case) or 32 base32 characters, with or without "
  "further parameters, starts a download with exactly the 20-byte info hash it denotes (base32 in lower case may be refused instead). Any other text "
  "sent as request body is answered with a client-error status, registers nothing, and the server keeps serving.",
  ["inputs", "histories"],
  "all text request bodies within the server's body limit: scheme, hash length and alphabet, and what follows the hash, in any sequence of requests",
  "three links are tested, all with several parameters, and no test goes through the HTTP interface",
  ["src/torrent/magnet.rs", "src/main.rs"],
  [("parse_magnet", "src/torrent/magnet.rs"), ("add_magnet", "src/main.rs")],
  ["HTTP status", "info hash in the announces that follow"])
p("C16", "The UDP tracker exchange tolerates loss and accepts only matching replies",
  "Against a UDP tracker the client connects with the protocol magic, then announces with the connection id it was given, the info hash and a 20-byte "
  "peer id, and takes exactly the peers listed in the announce reply, one or many. Lost requests or replies are retried a bounded number of "
  "times; replies that are too short, carry another transaction id, another action or an error are never taken as peers or as a connection id.",
  ["fault_sequences", "inputs", "schedules"],
  "all sequences of lost, duplicated, delayed, short, mismatched and error datagrams, all peer counts",
  "the UDP tracker code has no test",
  ["src/tracker/udp_tracker.rs", "src/tracker/mod.rs", "src/tracker/peer_endpoint.rs"],
  [("call / connect_to_tracker", "src/tracker/udp_tracker.rs")],
  ["datagrams received by scripted trackers", "peers the client contacts"])
p("C17", "Every accepted magnet reaches every tracker, independently of the others",
  "Every accepted magnet is announced to every configured tracker that answers, no matter how many magnets are added or how busy the client is, and "
  "a tracker that is unreachable, silent, or answers nonsense affects neither the other trackers nor any later magnet. Every reachable peer a tracker "
  "lists becomes known to that torrent, and to no other.",
  ["histories", "schedules", "fault_sequences"],
  "all sequences and bursts of magnets, all combinations of failing trackers and outages",
  "no test starts the tracker actors",
  ["src/actors/trackers_interface.rs", "src/actors/tracker.rs", "src/main.rs", "src/tracker/udp_tracker.rs"],
  [("fan-out to one actor per tracker", "src/actors/trackers_interface.rs"), ("PeerFound per reachable peer", "src/actors/tracker.rs")],
  ["announces per tracker and info hash", "peers contacted"])
p("C18", "Failing peers are avoided while better ones are known",
  "After a failed attempt the next attempt goes to a known peer with fewer than two failures if there is one, otherwise to one with fewer than four "
  "if there is one, otherwise to any known peer. After a successful piece the same peer is used for the next piece.",
  ["histories", "schedules"],
  "all histories of failures over any set of peers, with concurrent transfers",
  "peer selection has no test",
  ["src/actors/torrent.rs"],
  [("Peer::find_suitable_peer, update_failed", "src/actors/torrent.rs")],
  ["the peer of each connection, given the failures seen before"])
p("C19", "A download starts exactly once, when metadata and eleven peers are known",
  "No piece is requested before the metadata is known and eleven peers have been found; as soon as both hold, in whichever order they came about, the "
  "download starts, with one transfer per piece up to five. It starts once: peers found later, including repeated ones, start no "
  "additional transfers.",
  ["histories", "schedules"],
  "all orders of peer discovery, repeated peers, and metadata success or failure on each of them",
  "the torrent actor has no test",
  ["src/actors/torrent.rs"],
  [("PeerFound handler", "src/actors/torrent.rs")],
  ["number of piece sessions versus peers announced"],
  [("initiated", "download has started", "src/actors/torrent.rs")])
p("C20", "Killing the process at any moment and adding the magnet again is safe",
  "If the process is killed at any moment and started again in the same directory, adding the same magnet again ends with exactly the same complete files "
  "as an undisturbed run, whatever was on disk at the kill. Adding the same magnet several times, one after the other or at once, also ends with "
  "those files, and at no moment do the files contain a byte that is neither the torrent's nor an untouched gap.",
  ["crash_points", "histories", "schedules"],
  "all kill moments in the whole run (before, during and after metadata, between and during piece writes), repeated",
  "no test runs the program",
  ["src/torrent/writer.rs", "src/torrent/info.rs", "src/actors/torrent.rs", "src/actors/writer.rs"],
  [("positioned writes without truncation", "src/torrent/writer.rs"), ("metadata cache", "src/actors/torrent.rs")],
  ["content files after kill and after the next run"])
p("C21", "The HTTP tracker exchange returns exactly the peers of the reply",
  "Against an http tracker the client sends a GET, addressed to that tracker's host and path and keeping the fields of a query it already has, with the "
  "percent-encoded 20-byte info hash and a 20-byte peer id, and returns exactly the peers in the compact peer list of the reply, in order. Any other reply (error status, malformed or truncated bencode, missing list, silence) is an error "
  "within bounded time, never a crash, and unsupported tracker schemes are refused.",
  ["inputs", "fault_sequences"],
  "all info hashes, peer lists and reply bodies",
  "one canned reply with a three-byte peer list is tested",
  ["src/tracker/tcp_tracker.rs", "src/tracker/mod.rs", "src/tracker/peer_endpoint.rs"],
  [("tcp_tracker::call", "src/tracker/tcp_tracker.rs"), ("PeerEndpoint::from_bytes", "src/tracker/peer_endpoint.rs")],
  ["request line seen by a scripted tracker", "returned endpoints"])
p("C22", "Torrents downloaded at the same time do not interfere",
  "When several torrents whose file paths differ are added to one running client, each one's sessions use its own info hash, each one's pieces go only to its own files, and "
  "each completes as if it were alone. A torrent that cannot make progress (dead or hostile peers, failing writes to its files) does not stop another one.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of several torrents, healthy and failing",
  "no test runs two torrents",
  ["src/actors/torrent.rs", "src/actors/writer.rs", "src/actors/connection.rs", "src/main.rs", "src/torrent/writer.rs"],
  [("one actor, connection pool and writer per torrent", "src/actors/torrent.rs")],
  ["per-torrent sessions and files"])
p("C23", "Only a POST of a magnet link to /add/magnet adds a torrent, and each one does",
  "Only a POST of a magnet link to /add/magnet on the loopback address adds a torrent, and each such request, however its bytes arrive, is answered with success and adds exactly one "
  "that is announced to every tracker. Requests with another method or path or another body, malformed, endless or unfinished ones, and connections to the machine's "
  "other addresses add nothing, and however many of them there are, valid requests are answered promptly and the client's memory stays bounded.",
  ["inputs", "schedules", "histories"],
  "all requests, ways in which their bytes arrive and users that are connected at the same time",
  "no test sends a request to the program",
  ["src/main.rs", "src/actors/trackers_interface.rs"],
  [("add_magnet", "src/main.rs"), ("HttpServer::bind", "src/main.rs")],
  ["status of every answer", "announces per torrent and tracker", "resident memory"])
p("C24", "Whatever is opened is closed again when its use is over",
  "Every connection, socket, file and thread that the client takes for a use - a session with a peer, a probe whether a peer is reachable, an exchange with a tracker, a piece or "
  "metadata read or written, a request of a user, a torrent - is given back when that use is over, however it ends. So at any time the client holds no more peer connections, tracker "
  "sockets and user connections than there are uses in progress, and once nothing is in progress it holds no more descriptors and threads than when it started, and its memory does not "
  "grow with the content it has downloaded.",
  ["histories", "schedules", "fault_sequences"],
  "all histories of sessions, probes, exchanges, writes and requests that end well, fail or fall silent",
  "no test opens a connection; a leak shows only in a process that lives long",
  ["src/peer/stream.rs", "src/peer/manager.rs", "src/tracker/udp_tracker.rs", "src/tracker/peer_endpoint.rs", "src/torrent/writer.rs", "src/torrent/info.rs", "src/actors/torrent.rs", "src/actors/tracker.rs"],
  [("StreamInterface dropped at the end of an attempt", "src/peer/manager.rs"), ("TorrentActor::stopped", "src/actors/torrent.rs")],
  ["descriptors, sockets and threads of the process", "resident memory"])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
