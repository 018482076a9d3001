#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mechanism,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mechanism],observe_at=list(observe),hook_needed=hook)))
S="net/rtsp/session.go";C="net/rtsp/connection.go";M="net/rtsp/message.go";D="net/rtsp/digest.go";T="net/rtsp/transport.go";F="net/rtsp/feed.go";SDP="net/sdp/packet.go"
H="net/h264/packet.go";AB="net/h264/annexb.go";RTP="net/rtp/packet.go";RTCP="net/rtcp/packet.go";HLS="net/hls/playlist.go";MAIN="cmd/ouro/main.go"

prop("C01","Opening a camera reaches Ready exactly once",
 "Opening a session over TCP to a camera that answers per RTSP sends OPTIONS, then DESCRIBE, then one SETUP per video stream of the description, each at that stream's control URI and asking for its own interleaved channel pair (0-1, 2-3, ... in description order). Whatever the timing and segmentation of the answers, and whether or not the camera refuses some of the streams, the application is told Ready exactly once, after the last SETUP has been answered and within bounded time of that. DESCRIBE answers that are not successful lead to no SETUP.",
 ["schedules","fault_sequences","inputs"],"every segmentation, delay and stall of the answers (including stalls longer than the read timeout in the middle of a message), every answer order of pipelined SETUPs, every number of streams, SDP layout and control form, large SDP bodies",
 "No test opens a connection at all; the handshake has never been run with even one segmentation of one answer.",
 [S,C,M,F,T,SDP],[("response-driven handshake",S+": handleRtsp, handleSetup, Setup"),("framing over buffered reads",C+", "+M+": Unpack")],
 [("stage","current stage of the session",S),("feedidx","how many SETUPs have been answered",S),("feeds[].cseq","which request set a stream up",F)],
 ["requests received by the camera","values on Session.State"])
prop("C02","Interleaved packets arrive exactly as sent",
 "Every RTP or RTCP packet a camera interleaves on the RTSP connection is delivered to the application exactly once, in order, with its channel number and all its bytes (0 to 65535 of them), however the stream is segmented, stalled or mixed with RTSP answers and however slowly the application consumes. If the connection ends, what was delivered is a prefix of what was sent, and after an orderly close it includes every packet that was sent whole. A packet already delivered is never altered by later traffic.",
 ["schedules","fault_sequences","inputs"],"every segmentation, stall, packet size, mix with responses, consumer pace, and close or reset at every byte",
 "No test delivers a packet; correctness depends on where reads are cut, when timeouts strike and how far the consumer lags.",
 [S,C],[("interleaved frame parsing",S+": receive"),("bounded channel with back-pressure",C+": Data"),("copy of the payload",S+": receive")],
 [("Data","queue of packets waiting for the application",C)],["values on Session.Data","bytes sent by the camera"])
prop("C03","What the camera receives is always whole requests",
 "The bytes a client sends over its RTSP connection are at every moment a sequence of complete, well-formed RTSP/1.0 requests, of which only the last may be cut short: each has the request line, one CSeq, at most one Session and one Authorization header, a User-Agent and Content-Length 0, and an URI without user name or password. Within a session the CSeq of each new request is larger than any before when one task issues the commands, and a repeated request (after a challenge) keeps its own CSeq and method. This holds when writes are short, time out or fail: nothing is ever sent after a request that was cut short.",
 ["schedules","fault_sequences","inputs"],"every pattern of short, delayed, timed out and failed writes, every challenge, every command sequence",
 "No test looks at the byte stream a session writes, nor at any failed write.",
 [S,C,M],[("request serialisation",M+": Request.Pack"),("numbering",S+": command, enqueue"),("write deadline",C+": Write")],
 [("cseq","last CSeq used",S),("queue","requests waiting for an answer",S)],["byte stream received by the camera"])
prop("C04","Stage changes follow matching successful answers",
 "The application is told Playing, Pausing or Done once for each PLAY, PAUSE or TEARDOWN that the camera answered with 200, in the order of those answers, and for nothing else: not for failures, not for answers whose CSeq matches no outstanding request, not twice for a repeated answer. Such stray answers are ignored and the session goes on. A healthy connection never ends a session for being quiet: after silence of any length the next command still gets its stage.",
 ["schedules","histories","fault_sequences"],"every sequence of commands and pauses between them, answer order, duplicated, unsolicited and failure answers, media traffic in between, idle periods from milliseconds to hours",
 "session_test.go is empty; matching depends on the history of outstanding requests and on timeouts.",
 [S,C],[("matching by CSeq",S+": dequeue"),("stage notification",S+": notify"),("timeouts tolerated",S+": process")],
 [("queue","requests waiting for an answer",S),("stage","current stage",S)],["values on Session.State","answers sent by the camera"])
prop("C05","The camera's session identifier is echoed",
 "From the moment the camera has given a session identifier, every PLAY, PAUSE and TEARDOWN, every keep-alive of a UDP session, and every repetition of those after a challenge carries exactly that identifier, without its parameters, in one Session header; if the camera replaces it, the new one is used from then on. Before one is given, no identifier is sent.",
 ["histories","schedules","inputs"],"every point at which the identifier is given or replaced, with or without parameters, every command sequence and challenge",
 "No test runs a session; which identifier is current depends on the history of answers.",
 [S,M],[("session header handling",S+": handleRtsp, enqueue, KeepAlive"),("serialisation",M+": Request.Pack")],
 [("session","current session identifier",S)],["Session header of requests received by the camera"])
prop("C06","Right credentials always get through",
 "With the right user name and password in the URL, a camera that challenges any request with Basic, or with Digest MD5 or MD5-sess authentication (no qop, auth or auth-int offered; opaque, domain and quoted commas allowed), accepts the repetition, and every later request carries an acceptable answer to the latest challenge without a new round trip: a response that verifies under RFC 2617, with a nonce count that rises with every use of a nonce. New challenges (fresh or stale nonce) at any later request, including several requests in flight, are answered likewise and no request is lost.",
 ["histories","schedules","inputs"],"every challenge kind, every point and number of challenges in the session, every command sequence, credentials with special characters",
 "Two tests compute one response each for a fixed challenge; none makes a second request with the same challenge, none is challenged twice, none loses a request in flight.",
 [D,S],[("challenge parsing and response",D+": NewDigest, Authenticate, response, Next"),("repeat after 401",S+": handleRtsp")],
 [("auth","answers the latest challenge",S),("count/cnonce","use count of the nonce",D)],["Authorization header of requests received by the camera"],
 None)
prop("C07","Credentials are contained and refusals bounded",
 "No request carries an Authorization header before the camera has challenged, none ever carries the password outside it, and a URL without credentials never produces one. If the camera keeps refusing (wrong credentials, no credentials, or a challenge of a kind that is not supported), each request is sent at most a handful of times and the exchange ends: the client neither loops against the camera nor reports a stage for the refused request.",
 ["histories","schedules","inputs"],"every kind of refusal, at every request, for every number of refusals, with stale flags and changing nonces",
 "No test runs an exchange; boundedness is about unbounded histories of refusals.",
 [S,D,C],[("authorisation after 401",S+": authorize, handleRtsp"),("URI without credentials",C+": Dial")],
 [("BaseURI","URI without credentials",C)],["requests received by the camera","values on Session.State"])
prop("C08","Concurrent commands do not interfere",
 "Commands may be issued on one session from several tasks at once, and while the session itself answers a challenge or keeps the connection alive: every request on the wire has a CSeq of its own, arrives whole, and the answer to it has its effect exactly once. No interleaving loses a request, misattributes an answer, or crashes the program.",
 ["schedules","histories"],"every interleaving of two to four issuing tasks with the session's reader at statement granularity, with challenges and keep-alives in progress",
 "Tests are single-threaded; the race is between goroutines of the library and of the application.",
 [S],[("lock around the queue",S+": enqueue, dequeue"),("numbering",S+": command")],
 [("cseq","last CSeq used",S),("queue","requests waiting for an answer",S)],["requests received by the camera","values on Session.State"])
prop("C09","No bytes from a camera crash or wedge a session",
 "Whatever bytes a camera or the network sends on the RTSP connection (malformed, truncated or corrupted answers, headers, session descriptions, challenges, transport and parameter-set data, at any stage), the program does not crash, does not spin without the connection making progress, and does not allocate memory out of proportion to what was received. The session either goes on or ends its background work; everything delivered before the bad bytes stays delivered.",
 ["inputs","fault_sequences","schedules"],"every corruption, truncation, insertion and substitution of the byte stream at every stage of a session",
 "Tests parse a handful of well-formed samples.",
 [S,C,M,SDP,"net/h264/spspps.go",T,F,D],[("error returns of the parsers",M+": Unpack; "+SDP+"; net/h264/spspps.go"),("reader ends on errors",S+": process")],
 [],["process liveness","allocations","steps executed between network events"])
prop("C10","Ending a session releases what it holds",
 "Once a TEARDOWN has been acknowledged, or the connection has failed or been closed by the camera, the session closes its TCP connection and its UDP sockets and its background tasks end within bounded time, provided the application keeps receiving what it is sent. Commands issued afterwards return an error promptly instead of hanging.",
 ["fault_sequences","schedules","crash_points"],"end, reset or stall of the connection at every byte and stage, teardown at every stage, TCP and UDP transports",
 "No test opens or ends a session.",
 [S,C],[("reader loop exit",S+": process"),("sinks",C+": Stop")],
 [("sinks","open UDP sockets",C)],["sockets open in the simulated network","tasks alive"])
prop("C11","UDP sessions are kept alive, at a bounded rate",
 "While a session set up over UDP is established and until it is torn down, the client sends an OPTIONS carrying the session identifier at least every 10 seconds, and never two within 2 seconds, whatever the answers' delays, media traffic and commands in between. A session over TCP sends no keep-alive.",
 ["schedules","histories"],"every timing of answers, commands, idle periods and slow steps of the reader, over hours of simulated time",
 "It is about clocks and hours of elapsed time; no test touches it.",
 [S],[("keep-alive timer",S+": KeepAlive, process")],
 [("last","time of the last keep-alive",S)],["arrival times of OPTIONS at the camera"])
prop("C12","UDP packets that arrive are delivered",
 "For a session set up over UDP unicast, every datagram that reaches the address and client ports the client announced for an accepted stream, from Ready until the session ends, is delivered to the application exactly once and whole (up to 65507 bytes), in order of arrival per port, on a channel that is even for the data port and odd for the control port and distinct for every port. Loss, duplication and reordering in the network, silence, and slow consumers change nothing else.",
 ["schedules","fault_sequences","inputs"],"every pattern of datagram loss, duplication, reordering and delay, datagram size, number of streams, consumer pace",
 "No test opens a UDP socket.",
 [C,S,T],[("UDP listeners",C+": AddSink, Start, Stop"),("port negotiation",T+": NewTransport, Parse; "+S+": handleSetup")],
 [("sinks","UDP listeners",C)],["values on Session.Data","datagrams delivered to client ports"])
prop("C13","Undisturbed RTP streams yield exactly the NAL units sent",
 "For any sequence of H.264 NAL units that a camera packs into RTP payloads in any mixture of RFC 6184 packet types (single unit, STAP-A, STAP-B, MTAP16, MTAP24, FU-A, FU-B) or as Annex B byte streams, pushing the payloads in order yields exactly those units, each once, with header byte, bytes (emulation prevention removed) and timestamp, and with the decoding order number where the packet type carries one. The units completed by one payload are all available after that push and their bytes are not altered by later pushes.",
 ["inputs","histories"],"every sequence of units and packetisations, every cut of fragments, emulation prevention bytes anywhere including across fragment and aggregate boundaries, number and timestamp wrap-around",
 "Tests cover one Annex B sample and no RTP payload.",
 [H,AB],[("depacketisation",H+": Push, parseNAL, parseSTAP, parseMTAP, AddFragment"),("start codes and emulation prevention",AB)],
 [("Fragments","fragments of the unit being assembled",H),("Don","decoding order number",H)],["NALSink.Units after every Push"])
prop("C14","Lost packets never fabricate NAL units",
 "When RTP packets are lost, duplicated, delayed or reordered, a fragmented unit is emitted only when a first and a last fragment were received, and consists of exactly the fragments received from that first one on, all of one timestamp and one unit type; bytes of a unit already emitted or abandoned never reappear in another. Every unit all of whose packets arrive together and in order is emitted intact, whatever was lost before it.",
 ["fault_sequences","histories"],"every pattern of loss, duplication, reordering and delay over every packetised stream, alone and through a whole UDP session",
 "No test pushes an incomplete or disordered stream.",
 [H],[("fragment queue",H+": AddFragment")],
 [("Fragments","fragments of the unit being assembled",H)],["NALSink.Units after every Push"])
prop("C15","Media packets decode exactly or are rejected, never crash",
 "For every RTP packet delivered by a session, decoding gives the version-2 header fields, contributing sources, extension and payload (without padding) that were sent; for RTCP, the header fields, and for sender reports the sender information. Packets truncated, corrupted or forged at any byte, as RTP, RTCP or H.264 payload, either decode within the bytes received or are rejected with an error; none crashes the consumer, and the stream that follows is decoded as if the rejected packet had not come.",
 ["inputs","fault_sequences","histories"],"every header shape and size; every truncation, corruption and forgery of packets within a stream",
 "rtp and rtcp have no tests at all; h264 payload parsing has none.",
 [RTP,RTCP,H],[("header parsing",RTP+": Unpack; "+RTCP+": Unpack"),("length checks",H+": parseSTAP, parseMTAP")],
 [],["values returned by the decoders for every packet of the stream"])
prop("C16","The playlist is always the latest window of segments",
 "Whenever a viewer fetches an HLS playlist while segments keep being added, for any ring size of at least one and any number of segments, it lists exactly the most recent segments up to the ring size, oldest first, each with its duration, length, byte position equal to the sum of all earlier lengths, and media URI. Successive fetches never move backwards, and fetching never fails or disturbs the playlist.",
 ["histories","schedules"],"every ring size, every number of additions and every placing of fetches between them, including many times round the ring",
 "One test adds 6 segments to a ring of 5 and renders once.",
 [HLS],[("ring arithmetic",HLS+": AddSegment, String")],
 [("First/Last","ends of the window in the ring",HLS)],["rendered playlist"])
prop("C17","The command-line client runs its session to the end",
 "Run against a camera that answers per RTSP, the ouro program opens the session, plays for a while, pauses for a while, tears the session down, in that order and each once, and then exits by itself, within bounded time, whatever the delays, segmentation, media traffic and undecodable media packets. It never crashes, whatever the camera sends.",
 ["schedules","fault_sequences","inputs"],"every timing and segmentation of answers and media, every mix of valid and invalid media packets",
 "cmd/ouro has no tests.",
 [MAIN,S,C,RTP,RTCP,H],[("state handling with timer",MAIN+": handleStates")],
 [],["requests received by the camera","process exit"])
prop("C18","Sessions in one program are independent",
 "Several sessions in one program, to one or several cameras, behave as each would alone: packets, stages, credentials, identifiers and CSeq numbers of one never appear in another. A camera that is slow, misbehaves or dies, or an application task that neglects one session, does not disturb the other sessions.",
 ["schedules","histories","fault_sequences"],"every interleaving of two or three sessions, with faults confined to some of them",
 "No test has even one session.",
 [S,C,D],[("per-session state",S+": NewSession; "+C+": Dial")],
 [],["requests received by each camera","values on each session's State and Data"])
prop("N01","Parameter sets decode to the values encoded",
 "For every valid sequence or picture parameter set, parsing yields the values its bits encode, including derived picture width and height.",
 ["inputs"],"every valid parameter set","Tests parse two sample sets.",["net/h264/spspps.go","net/h264/bits.go"],[("bit reader and Exp-Golomb decoding","net/h264/bits.go")])
prop("N02","Emulation prevention round-trips",
 "Encapsulating any raw byte sequence and removing the emulation prevention bytes gives the sequence back, and the encapsulated form contains no start code.",
 ["inputs"],"every byte sequence","Tests use one sample each way.",[AB],[("RBSPToEncapsulated/EBSPToRaw",AB)])
prop("N03","Transport header formatting and parsing agree",
 "Formatting any transport description and parsing the text again yields the same description.",
 ["inputs"],"every combination of transport parameters","No test formats or parses a Transport header.",[T],[("String/Parse",T)])
prop("N04","RTSP over HTTP tunnelling carries a session",
 "A session opened with HTTP tunnelling sends its requests base64-encoded over a POST connection and receives answers and packets over a GET connection, as over TCP.",
 ["schedules","fault_sequences"],"every timing and segmentation of both connections","No test opens a tunnel.",[C,"net/rtsp/http.go"],[("tunnel set-up",C+": Dial, Write")])
prop("N05","RTP packets pack to the bytes they were unpacked from",
 "Packing any RTP packet description produces the packet's bytes; unpacking them again yields the description.",
 ["inputs"],"every packet description","rtp has no tests.",[RTP],[("Pack",RTP)])
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p,sch)
print(len(P),"properties")
