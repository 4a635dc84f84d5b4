#!/usr/bin/env python3
# writes DESIGN.md: tools/DESIGN.head.md, one entry per property with the bounds that
# stand above its harnesses, tools/DESIGN.tail.md
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
"P01": "Oracle: the fields' bits as one array of bits. The first field brings reader and writer into every accumulator state, so the second is a step from an arbitrary state. About 3 s.",
"P02": "Oracle: byte arithmetic written out in the harness. 3 s.",
"P03": "Oracle: an AMF0 encoder in the harness, from the specification; decode compares value trees. Solver bound by floats that go through integer conversion. 17 s.",
"P04": "Oracle: no panic, cursor within input, allocations bounded by a multiple of the input (`vf.AllocLimit`), step limit against spinning; well-formed AMF3 values against an encoder in the harness. 45 s.",
"P05": "Oracle: `lib/flvref.go`, an FLV tag writer from the specification. 10 s.",
"P06": "Oracle: `lib/flvref.go` decodes the same bytes; no panic, no allocation beyond 16 MB, the size field's maximum. 15 s.",
"P07": "Oracle: `lib/rtmpref.go`, an independent chunk splitter and joiner. 43 s.",
"P08": "Oracle: the harness plays the conforming peer: it chooses header formats, chunk stream ids and interleaving and knows the messages. 10 s.",
"P09": "Oracle: no panic, allocation limit, acknowledgement and ping accounting in the harness. 20 s.",
"P10": "Oracle: both ends of joy5 against each other over an in-memory connection, and each end against scripted peers. 60 s.",
"P11": "Oracle: the handshake computed in the harness with the same hash function symbols; the hash is abstract where its input is symbolic, the position of the digest is enumerated by the solver. 15 s.",
"P12": "Oracle: units are generated first, framed by the harness, and split by joy5. 30 s.",
"P13": "Oracle: `lib/spsref.go` writes the SPS bit by bit from symbolic fields, so the expected values are known before parsing. 17 s.",
"P14": "Oracle: the record written by the harness; map iteration order is a choice. 16 s.",
"P15": "Oracle: tables and bit layout of ISO 14496-3 in the harness. 3 s.",
"P16": "Oracle: no panic, step and allocation limits; an exp-Golomb code longer than the input is refused. 30 s.",
"P17": "Oracle: `Len` equals the bytes written, the reader restores every field; unknown boxes are kept. Each box with arbitrary fields; parents with every subset of children. 20 s.",
"P18": "Oracle: no panic, allocations below a fixed multiple of the input, step limit; `io.ReadSeeker` over symbolic bytes. 40 s.",
"P19": "Oracle: the packets given to the muxer. Times go through the integer translation. 35 s.",
"P20": "Oracle: `lib/mp4ref.go` writes the sample tables from a list of samples; run-length codings, chunk divisions are choices. 35 s.",
"P21": "Oracle: `lib/rtspref.go` packetises units; times are computed in 64 bits. 40 s.",
"P22": "Oracle: no panic, no unbounded allocation, no read without input: the session ends with an error when its input does. 50 s.",
"P23": "Oracle: the description is composed from parts whose meaning is known. 20 s.",
"P24": "Oracle: the packets published; the subscriber's view is checked to be configuration, then packets from a key frame on, in order, each once, as GOP-cached. Schedules are decisions of the solver's path exploration. 20 s.",
"P25": "Oracle: accumulated virtual time against stream time; times are symbolic 64 bit values in integer arithmetic. 10 s.",
"P26": "Oracle: recorded opens, creates, closes and their modes in an in-memory file system and network. 25 s.",
"P29": "Oracle: the harness is every client and target, through the RTMP code of joy5 itself (P07 to P10 settle that) over in-memory connections. Schedules are bounded by deviations from a round of turns. 45 s.",
"P30": "The underlying file, pipe or connection is a stand-in that fails at a chosen operation, for good or once, in whole or in part. Oracle: it knows whether it failed. Which error is returned is not judged beyond not being io.EOF. 25 s.",
"P28": "Oracle: the harness is the server, of the RFC 2326 and RFC 2617 rules it needs; MD5 of symbolic text is a function symbol. 10 s.",
"P27": "Oracle: the packets of the input file, transformed in the harness as documented. 30 s.",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = [open(V + "/tools/DESIGN.head.md").read().rstrip() + "\n\n## 4. The properties\n"]
for p in props:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    out.append("Why not by tests: " + p["why_tests_cant"] + "\n")
    out.append(NOTES.get(p["id"], "") + "\n")
    files = sorted(glob.glob("%s/harness/%s/**/*.go" % (V, p["id"]), recursive=True))
    for f in files:
        s = open(f).read().split("\n")
        for i, l in enumerate(s):
            m = re.match(r"func (VF_\w+)\(\)", l)
            if not m: continue
            doc, bound, pre = [], "", ""
            j = i - 1
            while j >= 0 and s[j].startswith("//"):
                t = s[j]
                if t.startswith("//vf:bound "): bound = t[11:]
                elif t.startswith("//vf:preempt"): pre = " (at most %s preemptions)" % t.split()[1]
                elif t.startswith("//vf:sched"): pre = ""
                elif t.startswith("// "): doc.insert(0, t[3:])
                j -= 1
            out.append("* `%s`%s: %s" % (m.group(1), pre, (" ".join(doc) + ". " if doc else "") + (bound or "see the harness") + "."))
    out.append("")
seeds = ["| id | property | what it breaks | needs | seen by |", "|---|---|---|---|---|"]
caught = json.load(open(V + "/tools/caught.json"))
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = f.split("/")[-2]
    m = json.load(open(f))
    c = caught.get(i, {"by": []})
    by = ", ".join("`%s`" % h for h in c["by"]) or "nothing"
    if "after" in c: by += " (after: %s)" % c["after"]
    seeds.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], by))
out.append(open(V + "/tools/DESIGN.tail.md").read().replace("@SEEDS@", "\n".join(seeds)))
open(V + "/DESIGN.md", "w").write("\n".join(out))
