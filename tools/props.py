#!/usr/bin/env python3
# writes properties.jsonl and MANIFEST.json (claims exactly the properties that have harnesses)
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

prop("P01", "Bit-level reading and writing loses, reorders or invents no bits",
 "Fields written to the bit writer with any widths up to 64 come out as one bit string, most significant bit first, padded with zeros only at a flush; the bit readers deliver exactly the next bits of their source for any sequence of widths, however the source splits its reads, and report the end of input as an error. Unsigned and signed exponential-Golomb codes decode to the value H.264 defines for them.",
 ["inputs","histories"], "every field width 0..64 and value, every leftover state of the reader or writer, every split of the source, every code that fits the input",
 "The only test moves two nibbles and two 2-bit fields of one constant; the failures live where a field crosses the 64-bit accumulator or a source reads short.",
 ["utils/bits/bits.go","utils/bits/golomb_reader.go"],
 [("accumulator refill and split","bits.Reader.ReadBits64, bits.Writer.WriteBits64/FlushBits"),("exp-golomb","bits.GolombBitReader")])
prop("P02", "Fixed-size binary fields and buffer vectors are encoded and bounded exactly",
 "Every fixed-width integer accessor reads and writes exactly its own bytes in the documented byte order and sign; every bounded read of a field lying beyond the buffer fails and leaves the cursor where it was, and any other returns that field and advances by its size. A slice of a vector of buffers equals the slice of their concatenation, and an out-of-range slice is refused.",
 ["inputs"], "every field value, buffer length, cursor position, requested length, vector shape and slice boundary within the bounds",
 "One test slices one constant vector; sign extension, exact bounds and zero-length segments are properties of all values and boundaries.",
 ["utils/bits/pio/reader.go","utils/bits/pio/writer.go","utils/bits/pio/vec.go"],
 [("accessors","pio.U*/I*/Put*"),("bounded cursor reads","pio.Read*"),("vector slicing","pio.VecSliceTo")])
prop("P03", "AMF0 values survive encoding, with the exact length announced",
 "Encoding any supported value or list of values as AMF0 produces exactly the number of bytes the length pass announces, in the AMF0 wire format, and decoding those bytes yields an equal value and consumes all of them. This holds for numbers, booleans, strings, nested objects, associative and strict arrays and null, alone or in sequence; dates keep whole milliseconds.",
 ["inputs"], "every value tree up to the stated depth, fan-out and string length, every number and byte value",
 "The tests encode a handful of fixed trees; the round trip must hold for every combination of value kinds, nesting and string length.",
 ["format/flv/flvio/amf0.go"],
 [("fill and length passes","flvio.FillAMF0Val / LenAMF0Val / FillAMF0Vals*"),("decoder","flvio.ParseAMF0Val / ParseAMFVals")])
prop("P04", "AMF decoding of hostile bytes ends cleanly within its input",
 "Decoding any byte string as AMF0 or AMF3 terminates with either values or an error, never crashes, never consumes or reads more than the input, and allocates memory in proportion to the input rather than to counts the input claims. Well-formed AMF3 primitives decode to the values the AMF3 format defines, including the switch from AMF0 to AMF3 inside a command.",
 ["inputs"], "every byte string up to the stated length",
 "Tests decode captured, well-formed messages; a peer controls every byte, so the claim is over all byte strings.",
 ["format/flv/flvio/amf0.go","format/flv/flvio/amf3.go"],
 [("AMF0 decoder","flvio.ParseAMF0Val"),("AMF3 decoder","flvio.ParseAMF3Val and its readers")])
prop("P05", "FLV tags and files round-trip: what is muxed is what is demuxed",
 "Every audio, video or data packet written to an FLV stream is read back in order with the same kind, payload, key-frame flag, millisecond timestamp over the full 32-bit range and signed 24-bit composition offset; the written bytes are valid FLV, with sizes and back-pointers that match. Sequence headers and metadata are carried separately from media and their contents reach the reader unchanged.",
 ["inputs","histories"], "every packet kind, timestamp, composition offset and flag, payloads and packet sequences within the bounds",
 "No test writes or reads an FLV file; wrap of the extended timestamp byte and the sign of the composition offset need specific values.",
 ["format/flv/flv.go","format/flv/flvio/flvio.go"],
 [("tag header codec","flvio.Tag.FillHeader/ParseHeader, ReadTag/WriteTag"),("packet mapping","flv.ReadPacket/WritePacket")])
prop("P06", "Reading hostile or truncated FLV input fails cleanly",
 "Reading any byte string as an FLV file yields packets or an error and never crashes or hangs; it never delivers a packet whose bytes were not completely present, and every packet delivered before the damage is the one the bytes describe.",
 ["inputs","crash_points"], "every byte string up to the stated length, every truncation point",
 "No test feeds FLV bytes to the demuxer at all.",
 ["format/flv/flv.go","format/flv/flvio/flvio.go"],
 [("file header and tag reader","flv.Demuxer, flvio.ReadTag"),("tag body parser","flvio.Tag.Parse*")])
prop("P07", "RTMP messages survive chunking in both directions",
 "Any sequence of RTMP messages written by one end of a connection is read by the other end as the same sequence: same type, stream, 32-bit timestamp and payload, for every payload size relative to the chunk size, every chunk size change, and timestamps that need the extended field. A chunk size is at least 1. Written messages are on the wire when the write that flushes or closes the connection returns.",
 ["inputs","histories"], "every timestamp, type and payload byte; payload sizes around chunk boundaries; message sequences within the bounds",
 "No test runs the RTMP chunk layer.",
 ["format/rtmp/msg.go","format/rtmp/conn.go","format/rtmp/wraprw.go"],
 [("chunk writer","rtmp Conn.writeMsg path"),("chunk reader","rtmp Conn.readChunk path"),("chunk size","set chunk size handling")])
prop("P08", "RTMP chunk streams from any conforming peer are decoded exactly",
 "Any chunk stream the RTMP specification allows - all four header formats, one-, two- and three-byte stream ids, interleaved chunk streams, extended timestamps, delta timestamps, chunk-size changes and aborts of other streams, on up to 16 chunk streams - is reassembled into the messages and absolute timestamps the specification defines. A message begun by a three-format header without a timestamp repeats the step of the message before it on its chunk stream; after one with an absolute timestamp it repeats that timestamp.",
 ["inputs","histories"], "every chunk header field value; sequences of chunks within the bounds, compared with a reference decoder",
 "No test decodes a chunk; the deviations only show for particular header-format sequences.",
 ["format/rtmp/msg.go"],
 [("chunk header decoding","rtmp msg.go chunk reader"),("per chunk-stream state","rtmp msg.go chunk stream map")])
prop("P09", "A hostile RTMP peer cannot crash the connection or exhaust memory",
 "Whatever bytes a peer sends, the RTMP reader returns messages or an error, never crashes or spins, and never holds memory for messages beyond what was received plus a fixed allowance (4 MiB for each of at most 16 chunk streams). Acknowledgements are sent whenever the agreed window of bytes has been received, and protocol control messages are applied with the values they carry.",
 ["inputs","fault_sequences"], "every byte string up to the stated length after any accepted control message",
 "No test feeds the chunk reader.",
 ["format/rtmp/msg.go","format/rtmp/conn.go"],
 [("message assembly","rtmp msg.go"),("control messages","rtmp msg.go handleMsg"),("acknowledgement","rtmp msg.go ack")])
prop("P10", "RTMP publish and play sessions are negotiated consistently",
 "Given a conforming peer, a client connecting with any URL and a server accepting it complete the command exchange, agree on whether the client publishes or plays, and see the same application, stream name and query; media and sequence headers sent afterwards arrive as sent. A refusal or an out-of-order command is reported as an error on the side that sees it.",
 ["inputs","histories"], "every application/stream name within the bounds, publish and play, every position of a refusal",
 "No test runs a session.",
 ["format/rtmp/cmd.go","format/rtmp/client.go","format/rtmp/server.go","format/rtmp/url.go"],
 [("command exchange","rtmp cmd.go"),("URL split and join","rtmp url.go")])
prop("P11", "The RTMP handshake completes with conforming peers and only with them",
 "Client and server handshakes complete against each other and against any conforming simple or digest handshake peer, for every random content and digest offset, sending the echo and digest the scheme requires. A server refuses a client of another version; a handshake cut short is an error on either side.",
 ["inputs","configurations"], "every random block, digest scheme and offset value, simple and digest peers",
 "No test performs a handshake, and the digest offset depends on random bytes.",
 ["format/rtmp/handshake.go"],
 [("digest placement","rtmp hsCalcDigestPos/hsFindDigest"),("handshake sequence","rtmp handshakeClient/handshakeServer")])
prop("P12", "H.264 NAL units survive every framing conversion",
 "Splitting an access unit framed with four-byte length prefixes or with start codes of either length returns exactly its NAL units in order, provided its bytes are not valid in the other framing as well, and joining NAL units and splitting the result returns them unchanged. Malformed framing never yields bytes that are not in the input and never crashes.",
 ["inputs"], "every NAL unit content and size, every arrangement of start codes and length prefixes within the bounds",
 "No test calls the NAL unit functions; start-code-like bytes at the edges of units decide the outcome.",
 ["codec/h264/h264.go","cmd/avtool/avcc2annexb.go"],
 [("split","h264.SplitNALUs / splitAVCC / splitAnnexB"),("join","h264.JoinNALUs*")])
prop("P13", "H.264 sequence parameters are decoded as the standard defines",
 "For every valid sequence parameter set the reported profile, level, width, height and frame rate equal the values the H.264 standard derives from its syntax, including cropping, chroma format, interlacing, scaling lists and emulation-prevention bytes.",
 ["inputs"], "every value of the syntax elements within the bounds, all profiles with and without the high-profile extension",
 "No test parses a parameter set; the deviations need specific chroma, crop or interlace flags.",
 ["codec/h264/h264.go"],
 [("SPS parser","h264.ParseSPS"),("emulation prevention","h264.RemoveH264orH265EmulationBytes")])
prop("P14", "H.264 decoder configuration survives its record format and is deterministic",
 "Parameter sets collected from a stream and stored in a decoder configuration record are recovered from it byte for byte and in order, with profile, level and length size that match the sequence parameter set; the same parameter sets always give the same record. Records from other encoders decode to the parameter sets they contain.",
 ["inputs"], "every parameter set content, number and order within the bounds",
 "No test builds a configuration; map iteration order makes the result vary between runs.",
 ["codec/h264/h264.go"],
 [("record codec","h264.FromDecoderConfig / Codec.ToConfig"),("parameter set store","h264.Codec.AddSPSPPS, h264.Map2arr")])
prop("P15", "AAC configurations and ADTS headers describe the stream exactly",
 "Every AAC configuration within the standard's tables (object types other than SBR, PS and the escape values as such) survives being written and parsed, both as an audio-specific config and as an ADTS header, and reports the sample rate, channel layout and frame duration the standard defines. Every ADTS header reports the frame and header length its bits encode.",
 ["inputs"], "every object type, sampling index, channel configuration, frame length and header bit within the bounds",
 "No test touches the AAC package.",
 ["codec/aac/aac.go"],
 [("audio specific config","aac.ParseMPEG4AudioConfigBytes / WriteMPEG4AudioConfig"),("ADTS","aac.ParseADTSHeader / FillADTSHeader")])
prop("P16", "Codec headers from hostile input never crash the parsers",
 "Parsing any byte string as an H.264 sequence parameter set, decoder configuration record, audio-specific config or ADTS header returns a result or an error, terminates, stays inside the input, and does not allocate more than a fixed multiple of it.",
 ["inputs"], "every byte string up to the stated length",
 "No test feeds these parsers; they run on bytes from the network.",
 ["codec/h264/h264.go","codec/aac/aac.go"],
 [("SPS parser","h264.ParseSPS"),("config parsers","h264.FromDecoderConfig, aac.ParseMPEG4AudioConfigBytes, ParseADTSHeader")])
prop("P17", "MP4 boxes survive serialisation with exact sizes",
 "Every MP4 box structure serialises to exactly the length it announces and parses back to an equal structure; nested box sizes are consistent; unknown boxes are preserved wherever their parent keeps unknown boxes. Times from 1904 to 2040 and fixed-point numbers their field can hold are covered.",
 ["inputs"], "every field value and table entry of every box type, tables within the bounds",
 "No test covers the MP4 packages.",
 ["format/mp4/mp4io/atoms.go","format/mp4/mp4io/mp4io.go"],
 [("generated codecs","mp4io <Box>.Marshal/Len/Unmarshal"),("hand-written boxes","mp4io ElemStreamDesc, Dummy")])
prop("P18", "Hostile MP4 input fails cleanly",
 "Parsing any byte string as an MP4 file or box returns a structure or an error; it never crashes or loops forever, and does not allocate more than a fixed multiple of the bytes present, but for a track run that announces entries without fields (at most 1 MiB each). The demuxer reads samples or errors from whatever tables a file contains.",
 ["inputs"], "every byte string up to the stated length, for every box type",
 "No test parses an MP4 file.",
 ["format/mp4/mp4io/atoms.go","format/mp4/mp4io/mp4io.go","format/mp4/demuxer.go"],
 [("file scanner","mp4io.ReadFileAtoms"),("box parsers","mp4io <Box>.Unmarshal"),("demuxer","mp4.Demuxer")])
prop("P19", "MP4 files play back what was recorded",
 "Packets written to an MP4 file are read back per stream in order with the same payload, key-frame flag and composition offset, and with decode times, relative to the stream's first packet, that differ from the written ones by less than one timescale unit, without accumulating drift; audio and video come out in interleaved time order, the configurations of all streams are recovered, and the boxes of the file fill it and their parents exactly. Files below 4 GiB and gaps below 2^32 ticks are covered.",
 ["inputs","histories"], "every packet payload, timestamp increment, key-frame flag and composition offset; packet sequences within the bounds",
 "No test writes or reads an MP4 file.",
 ["format/mp4/muxer.go","format/mp4/demuxer.go","format/mp4/stream.go"],
 [("sample tables","mp4.Stream writePacket / fillTrackAtom"),("sample lookup","mp4.Stream setSampleIndex/incSampleIndex")])
prop("P20", "MP4 sample lookup and seeking land on the right sample",
 "For every valid set of sample tables (32-bit chunk offsets) the sample at each index has the offset, size, decode time, composition offset and key-frame flag the tables define; without a sync sample table every sample is a key frame. Seeking to a time lands on the last sample not after it (the first, if there is none), for video on the last key frame not after that sample, and playback of every stream continues from there.",
 ["inputs","histories"], "every sample table content within the bounds, every seek time",
 "No test builds sample tables.",
 ["format/mp4/stream.go","format/mp4/demuxer.go"],
 [("table walk","mp4.Stream setSampleIndex/incSampleIndex"),("seek","mp4.Stream timeToSampleIndex, Demuxer.SeekToTime")])
prop("P21", "RTP payloads are reassembled into exact units with the right times",
 "Every H.264 RTP packet sequence - single units, aggregates and fragments - is turned into the NAL units it carries, each slice delivered exactly once and in order with exactly its bytes, and every AAC RTP packet into exactly its access units, each with the time its RTP timestamp denotes, including timestamp wrap-around, for timestamps that do not go back and step by at most 30 minutes; RTP header extensions, contributing sources and padding are never taken for payload; a unit some of whose fragments are lost is never delivered as if whole. A change of the parameter sets within the stream is announced by an error naming it, and once the caller has dealt with it the stream goes on, with the new parameters and without a lost packet.",
 ["inputs","histories","fault_sequences"], "every payload byte, timestamp and marker; packet sequences and losses within the bounds",
 "No test covers RTSP.",
 ["format/rtsp/client.go","format/rtsp/stream.go"],
 [("RTP depacketiser","rtsp Stream.handleRtpPacket, handleH264Payload")])
prop("P22", "A hostile RTSP server cannot crash or hang the client",
 "Whatever bytes an RTSP server sends - responses, session descriptions, interleaved packets, garbage between them - the client returns packets or an error, never crashes or loops without reading, and allocates no more than a fixed allowance (1 MiB) for lengths the server merely claims.",
 ["inputs"], "every byte string up to the stated length at each read point",
 "No test covers RTSP.",
 ["format/rtsp/client.go"],
 [("interleaved framing","rtsp Client.findRTSP / readBlock"),("response parsing","rtsp Client.readResponse")])
prop("P23", "SDP descriptions are parsed to what they say",
 "For every session description the parser returns exactly the audio and video media it contains, in order, each with its own control address, payload type (the first of those its media line lists), and the time scale, codec, parameter sets and configuration bytes that the attributes for that payload type state, whatever the order of the attribute lines, the case of attribute names, unrelated media and unknown attributes; malformed lines never crash it.",
 ["inputs"], "every attribute order and value within the bounds; arbitrary line contents up to the stated length",
 "The one test parses two fixed descriptions.",
 ["format/rtsp/sdp/parser.go"],
 [("line parser","sdp.Parse")])
prop("P24", "The relay gives every subscriber the publisher's packets in order, without gaps",
 "Each subscriber of a published stream receives the audio and video packets of its publisher in publishing order, each at most once and unchanged, without a gap except that one who joins late or falls behind skips ahead to a key frame, or to a publisher that took over; metadata and the decoder configuration in force arrive before the audio packet or key frame they apply to, when they changed; a subscriber that fails or stalls takes nothing from the others; whatever has been published reaches every subscriber without waiting for further packets; and those who use a path at the same time share one stream while others do not.",
 ["schedules","histories"], "every interleaving of publisher and subscriber operations with at most 2 preemptions (1 for three parties) and every packet sequence within the bounds",
 "No test covers the relay, and its faults depend on interleavings.",
 ["cmd/avtool/pubsub.go"],
 [("GOP cache and cursors","cmd/avtool pubsub.go"),("wake-ups","cmd/avtool pubsub.go")])
prop("P25", "Native-rate pacing never runs ahead of stream time and never stalls",
 "With native-rate pacing, a packet whose timestamp goes beyond the highest one so far is held back until as much wall time has passed since that highest one was released as the timestamp advanced, and no longer; the first packet and packets whose timestamp does not advance are not held back at all; whatever the order and size of timestamps and whatever time processing takes. Packets come out unchanged, in order, each exactly once.",
 ["inputs","histories"], "every timestamp sequence and clock behaviour within the bounds",
 "No test covers pacing; it depends on the clock.",
 ["av/pktop/pktop.go"],
 [("rate limiter","pktop.NativeRateLimiter.Do")])
prop("P26", "Opening media by URL picks the right format and destroys nothing on failure",
 "A URL selects the protocol (rtmp, rtmps, rtsp, http) or the container (flv, mp4) its scheme or extension names, for reading and for writing, with the caller's options applied: the OnNew callbacks, the dialer, the connection wrapper, the IsRemote flag. A request that cannot be served (unknown scheme, extension or operation, streams an MP4 file cannot hold, an HTTP status other than 200) is refused with an error before any existing file is created, truncated or left open. Closing a reader or writer closes the file or connection behind it exactly once, also when finishing the file fails.",
 ["inputs","configurations"], "every scheme, extension and operation, and every failure, within the bounds",
 "No test opens anything.",
 ["format/format.go"],
 [("dispatch","format.URLOpener.Open / Create"),("files","format.URLOpener openFile / createFile"),("RTMP","format.URLOpener with rtmp URLs")])
prop("P27", "The conversion tools change only what they are meant to change",
 "Conversion with avtool writes every packet of the source to the destination unchanged and in order, ends without an error at the end of a complete source, and reports an error for a truncated source or a destination that cannot be opened or written. Moving sequence headers to key frames drops the decoder configurations and puts the parameter sets in force, SPS before PPS in the order of their ids, in front of the NAL units of each key frame, all in start-code form; avcc2annexb turns each video packet into one length-prefixed unit that holds its NAL units in start-code form. Order, times and flags of all packets and the payload of all others stay as they are, and neither the source nor any other file is touched.",
 ["inputs","histories"], "every packet sequence within the bounds, every point of truncation or failure",
 "The only test in the tool reads a network stream and is not run.",
 ["cmd/avtool/seqhdr.go","cmd/avtool/avcc2annexb.go","cmd/avtool/conv.go"],
 [("sequence header handling","cmd/avtool seqhdr.go"),("bitstream conversion","cmd/avtool avcc2annexb.go"),("conversion","cmd/avtool conv.go")])
prop("P28", "An RTSP client asks for what it was told to, and takes no refusal for a grant",
 "An RTSP client connects to the host and port of its URL, numbers its requests, describes the URL it was given (without the user part), sets up exactly the streams asked for, each once, at its own control address (absolute, or relative to the Content-Base of the description or else to the URL) with the interleaved channels its packets are then expected on, plays and tears down the session the server named, naming it in every request from the first SETUP on, and also in the keep-alives, which it sends when more than the configured interval has passed since the last one and not earlier. A description, a set-up or a play request answered with anything but success is an error and is never followed by packets or by further requests of the session, whatever body comes with the refusal. Asked for credentials at any point of the session, once or at every request anew, it repeats the refused request with the Basic or Digest credentials of its URL, computed for that request's own method and address and the latest nonce; without credentials in the URL, or if they are refused, opening fails after a bounded number of requests; credentials are not sent to a server that did not ask.",
 ["inputs","histories"], "every session within the bounds: addresses, session names, nonces, status codes, the request at which a refusal or challenge comes, pauses",
 "No test covers RTSP sessions.",
 ["format/rtsp/client.go"],
 [("session","rtsp Client.Describe / Setup / Play / Teardown"),("authentication","rtsp Client.handle401"),("keep-alive","rtsp Client.SendRtpKeepalive")])
prop("P29", "The servers of avtool carry whole streams and let go of every connection",
 "A subscriber of the avtool relay receives the configuration and the packets that a publisher of the same path (application and stream name, not the query) sent over RTMP, whether it came before the publisher or after, and nothing of other paths; when either of them leaves, or a publisher is replaced by another at its path, the server closes its connection to it and leaves the others alone. The forwarding server connects to the RTMP address a publisher names, forwards every packet unchanged and in order, and closes both connections when either ends; a publisher who names no RTMP address, or one that cannot be reached, and a player, are disconnected, and no file or listener of the server is opened on their behalf.",
 ["schedules","histories","inputs"], "every stream content within the bounds and every schedule with at most one deviation from taking turns",
 "No test runs a server, and what they leak or mix up depends on who comes and leaves when.",
 ["cmd/avtool/pubsub.go","cmd/avtool/forwardrtmp.go"],
 [("relay server","cmd/avtool doPubsubRtmp"),("forwarding server","cmd/avtool doForwardRtmp"),("connections","rtmp Server.HandleNetConn")])
prop("P30", "What fails underneath is never taken for success",
 "When a write, flush or seek on the destination fails, once or for good, the FLV, MP4, RTMP, RTSP and bit-level writers report an error, at that operation or, where output is buffered, at the latest from the call that closes the file; when a read or seek on the source fails, the readers report an error that is not io.EOF, so that a failure is never taken for the orderly end, and what was received before it is delivered. A packet an MP4 recording cannot hold is refused, not left out. Without a failure underneath none is reported, and closing a recording closes its file either way.",
 ["faults","inputs"], "every operation on the underlying stream at which it fails, every extent of the failure and every content within the bounds",
 "Tests run against buffers that never fail.",
 ["format/flv/flvio/flvio.go","format/flv/flv.go","format/mp4/muxer.go","format/mp4/demuxer.go","format/rtmp/msg.go","format/rtmp/handshake.go","format/rtsp/client.go","utils/bits/bits.go","format/format.go"],
 [("FLV","flvio.WriteTag / ReadTag"),("MP4","mp4.Muxer / mp4.Demuxer / format.Mp4WriterCloser"),("RTMP","rtmp Conn.WritePacket / ReadPacket / Prepare"),("RTSP","rtsp Client"),("bits","bits.Reader / Writer / GolombBitReader")])

NA = {}
LEVELS = {}
exec(open(os.path.join(V, "tools", "na.py")).read()) if os.path.exists(os.path.join(V, "tools", "na.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    d = os.path.join(V, "harness", p["id"])
    hs = []
    if os.path.isdir(d):
        for g in sorted(os.listdir(d)):
            if g.endswith(".go"):
                hs += re.findall(r"^func (VF_\w+)\(", open(os.path.join(d, g)).read(), re.M)
    if hs and p["id"] not in NA:
        checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
          "evidence_file": "evidence/%s.json" % p["id"],
          "technique": "bounded symbolic execution of the Go SSA with z3 (all values within bounds), counterexamples replayed natively",
          "level": "model_checking",
          "level_note": NOTES.get(p["id"], "%d harnesses; holds for every input within the bounds stated above each harness and in the evidence, nothing beyond them" % len(hs)) if 'NOTES' in globals() else "%d harnesses; holds for every input within the bounds stated above each harness and in the evidence, nothing beyond them" % len(hs)})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "harness not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses enter through build overlays. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "claimed")
