#!/usr/bin/env python3
# writes MANIFEST.json
import json,os
tech="contract-based deductive verification of the Go sources (govc: SSA weakest-precondition / loop-invariant engine, z3+cvc5), with bounded native replay"
claims={
 "C13":("proof","GetHWCtype, GetHWCTypeDefinition, both override resolvers and the category predicates are proved against their documented rule for all topologies (no bound on components, types or sub-elements), with frame obligations over the whole input. Trusted: govc engine, go/ssa, solvers; assumed: termination. Not under contract: the numeric value of HasSteps (native differential check only)."),
 "C14":("proof","JSON shape round trip (type level), serialisers and RandomizeTypes(sequential) are proved; CleanSections is decided for up to 5 components and RandomizeTypes for up to 3 types (bounded, stated); the random collision loop is only exercised natively. Assumed: encoding/json implements its documented struct encoding."),
 "C16":("proof","Every drawing primitive is proved against its contract for all canvases, clip rectangles and arguments below 2^36 (no loop bound). Trusted: govc engine, go/ssa, solvers; assumed: termination, text cursor arithmetic below 2^36. Native replay is bounded."),
 "C17":("proof","Mono->image, graphics state->image (three formats, both routines), colour setters and short-data handling are proved for all contents and all sizes below 2^16/2^20; RGB565 and 4-bit-grey export and image->mono are decided for all contents at enumerated widths/heights (bounded, stated in specs/monogfx/c17.go). PNG encoding and image.RGBA storage are assumed to be lossless (external); native replay decodes the PNG. Assumed: termination."),
 "C20":("proof","Text metrics against the ink (advance width bounds, translation invariance, scale) are proved for every font glyph and string by contracts over drawing and measuring functions; one recorded known finding (scaled character spacing). Trusted: govc engine, go/ssa, solvers; assumed: termination, cursor arithmetic below 2^36."),
 "C01":("proof","Every ASCII-expressible inbound message - all fields, all values in the documented ranges, any number of states, ids and strings - encodes to exactly the lines of an independent grammar writer (specs/root/c01.go), proved without bound. Trusted: govc engine incl. its string theory, go/ssa, solvers. Native replay reads the lines back with an independent grammar reader (bounded)."),
 "C03":("proof","Every outbound message field encodes to exactly the lines of an independent writer of the grammar (specs/root/c03.go), proved for all values, events, lists and maps. Trusted: govc engine incl. its string theory, go/ssa, solvers. Native replay is bounded."),
 "C06":("proof","Safety of both encoders is proved for all messages and of both decoders for all line sequences (nil, bounds, division, no stray state, no nil message); the streaming reader is checked by bounded native fuzzing only (labelled bounded)."),
 "C07":("proof","Both encoders: every produced string is free of CR/LF for all messages; the flattening functions keep all non-space characters (lemma vc_Flatten). Trusted: govc engine incl. its string theory. Native replay is bounded."),
 "C02":("proof","Every production of the system-to-panel grammar - words, numeric and text commands, registers, packed integers for any id list, text lines of 1-21 arbitrary fields, JSON states and arrays, simple and advanced graphics, lines outside the grammar - decodes to the stated effect for all values, and every line sequence without graphics decodes line by line (specs/root/c02.go). Graphics sets here have 2-3 lines; longer sets and histories are C05. Assumed: regexp, encoding/json, base64 and strconv behave as documented. Trusted: govc engine, go/ssa, solvers."),
 "C04":("proof","Every production of the panel-to-system grammar decodes to the stated report or event for all values, every line sequence decodes line by line, lines outside the grammar report nothing (specs/root/c04.go). Bounded part: SysStat lines with at most 3 fields; _networkConfig is stated for text that parses as JSON. Assumed: regexp, encoding/json and strconv behave as documented. Trusted: govc engine, go/ssa, solvers."),
 "C05":("proof","Batch decoding: a clean run of any length (any payload, size, format, offset, id list) yields exactly its image, and the pieces of an image are the image (specs/root/c05.go); the lines of the encoder are those of C01. Streaming reader: one step from any state satisfying the representation invariant, for every graphics line and every other line - what joins, what is delivered, once, exactly the buffered lines in order, nothing left behind; the state survives serialisation (specs/root/c05r.go). Histories of the reader follow by induction over its steps. Interrupted histories inside one batch call - stray, abandoned, trailing, interleaved and repeated transfers of any length - are proved one interruption at a time; combinations are explored natively (bounded). Assumed: regexp, base64, strconv and encoding/json behave as documented. Trusted: govc engine, go/ssa, solvers."),
 "C08":("proof",'One step of the receive loops of ConnectToPanel (specs/root/c08.go), from any point of the stream at which a frame or line starts: whole frames of any length below the limit and any bytes, lines of any text with LF or CRLF, are delivered each once, in order and from their own bytes; no deadline runs while a message is waited for. The loops carry nothing from round to round (obligation), so histories follow by induction; segmentation is invisible through the documented contract of io.ReadFull and bufio.Reader (assumed). Lines ending in blanks: one recorded known finding. Assumed: net, protobuf; goroutines verified one by one. Real sockets, segmentation and timing are explored natively (bounded).'),
 "C09":("proof","The writer goroutine of ConnectToPanel: for every list of any number of messages, after anything written before, exactly its frames (or the converter's lines, each with one LF) are written, in order, and the next list waited for; it is the only writer, carries nothing from list to list (specs/root/c08.go). Assumed: protobuf, Write writes completely. Concurrency with real sockets is explored natively (bounded)."),
 "C10":("proof",'Over-limit lengths (all 2^32 header values), breaking off at every byte of a frame, undecodable payloads: nothing of the frame is read or delivered, nothing beyond 500000 bytes is allocated, the 2 s limit is armed inside frames, a non-cancelled disconnect is reported and the client redials (specs/root/c08.go). Assumed: io.ReadFull, deadlines as documented. Wall-clock behaviour natively (bounded).'),
 "C11":("proof",'Teardown of ConnectToPanel for every reply class, loss at every offset, cancellation without a connection, at connect, while waiting and after loss: callbacks alternate, cancelled reported only after cancellation and last, retry periods, connection closed, both goroutines end, wait group drains, nothing waited for in vain (specs/root/c08.go). Assumed: goroutines verified one by one at stated interleaving points; the remaining interleavings and the time bounds are explored natively (bounded).'),
 "C12":("proof",'AutoDetectIfPanelEncodingIsBinary and the negotiation of ConnectToPanel are proved for every reply class with any frame and any text (probe bytes, classification, flush, error text, deadline); readProbeReply is proved for every frame that fits and every cut; text replies are decided for lines up to 14 characters with every cut (bounded). Assumed: net deadlines, protobuf. Real timing natively (bounded).'),
 "C19":("proof",'Every function of the high-level client is under contract (specs/gorwp/c19.go): both writers for any number of messages, both readers step by step, dispatch of any event list to handlers of every kind without a lock held, state getters and ping acknowledge for any message, initialisation, connect, and the goroutines of listen incl. cancellation. Bounded part: availability maps of at most 2 entries, two lists per goroutine followed with a memorylessness obligation. Assumed: goroutines verified one by one, io.ReadFull, bufio, protobuf, encoding/json as documented. Liveness under bursts and data races are explored natively (race detector, bounded).'),
}
claims.update({"C18":("proof","WriteDisplayTileNew is proved for all text states and all tile sizes up to 65536 with shrink 0-3, border 0-3, padding 0-3: no panic, requested size, no pixel outside the active area, inverted rendering = exact complement, same picture after any other rendering, input unchanged, requested colours, one/two-line text boxes centred to within one pixel, strength bar monotone; over the contracts of the drawing operations (proved in the same check) and a reads clause for them. Ink inside the text box is C20's lemma. Floats as exact reals; termination of string loops assumed. Native replay is bounded."),"C15":("exploration","Bounded: random topologies and base documents, result read back by an independent XML reader; no contract unit yet.")})
na={}
reason={}
for i in range(1,21):
    p="C%02d"%i
    if p not in claims: na[p]=reason.get(p,"no check built yet")
m={"version":1,"setup_cmd":"cd govc && . /opt/vp/env.sh && mkdir -p ../bin ../out ../evidence && go build -o ../bin/govc .",
 "checks":[{"property":p,"quick_cmd":"./check.sh %s quick"%p,"thorough_cmd":"./check.sh %s thorough"%p,"evidence_file":"evidence/%s.json"%p,"technique":tech,"level":l,"level_note":n} for p,(l,n) in sorted(claims.items())],
 "not_applicable":[{"property":p,"reason":r} for p,r in sorted(na.items())]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
