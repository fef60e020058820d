#!/usr/bin/env python3
# Generates properties.jsonl from the table below (kept in the repo so that the two stay in step).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
       "why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)

# ---------------------------------------------------------------- AMF
p("A01","AMF0 encoding emits exactly the AMF0 wire form of the value",
"For every value the AMF0 encoder accepts, a successful encode writes exactly that value's AMF0 form: the type marker, the big-endian length or count where the type has one, then the payload and (for keyed types) the empty key plus end marker. Dates are marker 0x0b, an 8-byte millisecond double and a 2-byte zero zone, with nothing between; strings longer than 65535 bytes use the long form. Elements and entries are written once each, in the order of the container (maps in any order).",
["inputs"],"every value tree (all dynamic types, lengths and contents) handed to the AMF0 encoder's public entry points",
"Tests encode one sample per type; lengths, contents and nesting are unbounded and the tests share the encoder's own decoder as oracle.",
["amf/amf0.go","amf/helper.go"],[("type dispatch","EnDecAMF0.Encode"),("per-type writers","encode* and Encode* methods of EnDecAMF0")],observe=["bytes handed to the io.Writer"])
p("A02","AMF0 decoding accepts exactly the AMF0 wire form and returns its value",
"For every byte stream, the AMF0 decoder reads for each marker exactly the fields AMF0 defines (numbers 8 bytes, booleans 1, strings a 2-byte length plus that many bytes, long strings and XML a 4-byte length, dates 8+2 bytes, objects key/value pairs up to an empty key followed by the end marker, strict arrays a 4-byte count plus that many values) and returns the value those bytes denote. Reserved and unknown markers are errors and never a value.",
["inputs"],"every byte stream delivered by the reader",
"Tests decode a handful of fixed byte strings.",
["amf/amf0.go","amf/helper.go"],[("marker dispatch","EnDecAMF0.Decode"),("per-type readers","decode* methods of EnDecAMF0")],observe=["returned value","bytes consumed from the io.Reader"])
p("A03","AMF3 encoding emits exactly the AMF3 wire form of the value",
"For every value the AMF3 encoder accepts, a successful encode writes exactly that value's AMF3 form: marker, U29 header (inline flag set; for objects the trait header with the member count), then strings as U29 length plus bytes, dates as U29 1 plus an 8-byte millisecond double, arrays as count, empty associative part and the elements in order, objects as class name, sorted member names and the member values in the same order. Integers that do not fit in 29 unsigned bits are written as doubles, never as a truncated integer.",
["inputs"],"every value tree handed to the AMF3 encoder",
"Tests encode one sample per type.",
["amf/amf3.go"],[("type dispatch","EnDecAMF3.Encode"),("per-type writers","encode* methods of EnDecAMF3")],observe=["bytes handed to the io.Writer"])
p("A04","AMF3 decoding accepts exactly the AMF3 wire form and returns its value",
"For every byte stream, the AMF3 decoder reads for each marker exactly the fields AMF3 defines (integers a U29, doubles 8 bytes, strings, XML and byte arrays a U29 header plus that many bytes, dates a U29 header plus 8 bytes, arrays a U29 count, key/value pairs up to an empty key, then that many values, objects trait header, class name, member names, member values, and dynamic pairs when the trait's dynamic flag is set) and returns the value those bytes denote. Externalizable and dynamic traits are recognised from their flag bits; unknown and unimplemented markers are errors.",
["inputs"],"every byte stream delivered by the reader",
"Tests decode a handful of fixed byte strings, none with dynamic or externalizable traits.",
["amf/amf3.go","amf/amf3_external.go"],[("marker dispatch","EnDecAMF3.Decode"),("per-type readers","decode* methods of EnDecAMF3")],observe=["returned value","bytes consumed from the io.Reader"])
p("A05","AMF3 variable-length integers encode and decode as U29",
"Every unsigned integer below 2^29 is written in 1 to 4 bytes, the fewest that hold it, most significant bits first with 7 data bits and a continuation bit in each of the first three bytes and 8 data bits in a fourth, and reading those bytes yields the integer back; larger integers are rejected without a byte being written. Reading stops at the first byte without continuation bit and never takes more than four bytes.",
["inputs"],"all 2^32 unsigned integers and all byte sequences",
"Tests try a few boundary integers.",
["amf/amf3.go"],[("writer","EnDecAMF3.writeUint29"),("reader","EnDecAMF3.readUint29")])
p("A06","AMF encoders report exactly the number of bytes they wrote",
"When an AMF0 or AMF3 encode call succeeds, the byte count it returns equals the number of bytes it handed to the writer, for every value, nesting and length.",
["inputs"],"every value tree and every writer that accepts what it is given",
"Tests compare the count on small samples only.",
["amf/amf0.go","amf/amf3.go"],[("count accumulation","Encode and encode* methods")])
p("A07","A failing or short write is reported by every AMF encode call",
"Whenever the destination of an AMF0 or AMF3 encode call fails a write, the call returns a non-nil error, at whichever byte the failure occurs; a batch stops at the first value whose encoding failed.",
["fault_sequences","inputs"],"every value and every position at which the writer first fails",
"Tests only write to memory buffers, which never fail.",
["amf/amf0.go","amf/amf3.go","amf/helper.go"],[("error returns","every write call in package amf")])
p("A08","AMF length fields never silently truncate",
"A string, key, type name, byte sequence, array or object whose size does not fit the width of its AMF length or count field is rejected with an error; no AMF encode call ever succeeds with a length field that differs from the true size.",
["inputs"],"all sizes up to the largest the language allows",
"Tests would have to build values above 64 KiB keys, 256 MiB strings or 4 GiB arrays.",
["amf/amf0.go","amf/amf3.go"],[("length fields","encodeString, encodeLongString, encodeStrictArray, EncodeEcmaArray, encodeUint29 callers")])
p("A09","AMF decoding never reports success on a short or failing input",
"A decode call that returns no error has actually received every byte its result was built from: a reader that delivers data in small pieces yields the same result as one that delivers it at once, and a reader that ends or fails inside a value makes the call return an error. A batch decode ends without error only when the input ends exactly between two values.",
["inputs","fault_sequences"],"every byte stream, every split of it into reads, and every truncation or read failure",
"Tests only use in-memory readers that deliver everything in one read.",
["amf/helper.go","amf/amf0.go","amf/amf3.go"],[("reads","readByte, readBytes, binary.Read, and direct Read calls")])
p("A10","AMF decoding never panics, whatever the input bytes",
"No byte stream, complete or truncated, makes an AMF0 or AMF3 decode call (including batches, references, externalizable objects and the metadata header helpers) panic; malformed input is reported as an error.",
["inputs"],"every byte stream, on a decoder in any state earlier decode calls can leave it in",
"Tests feed well-formed samples.",
["amf/amf0.go","amf/amf3.go","amf/amf3_external.go","amf/metadata.go","amf/helper.go"],[("index and slice guards","decodeReference, reference-table lookups, DelMetaHeader")])
p("A11","AMF decoding terminates on every finite input",
"On every finite input each AMF decode call returns: every repetition and every nested decode takes at least one more byte from the reader, advances over already decoded data, or stops, so the work is bounded by the length of the input and of counts that input bytes pay for.",
["inputs"],"every finite byte stream",
"Tests cannot exhibit non-termination over all inputs.",
["amf/amf0.go","amf/amf3.go","amf/amf3_external.go"],[("loops and recursion","decode* methods, DecodeBatch, readFlags, decodeExternal")])
p("A12","AMF decoding allocates in proportion to the input actually received",
"Memory reserved while decoding AMF is bounded by a constant plus a constant multiple of the bytes already received: a length or count field in the input never by itself makes the decoder reserve that much memory before the corresponding data arrives.",
["inputs"],"every byte stream, including a few bytes that announce gigabytes",
"Tests use honest lengths.",
["amf/helper.go","amf/amf0.go","amf/amf3.go"],[("buffers sized by wire lengths","readBytes, decodeArray, decodeObject, decodeXmlDoc, decodeByteArray")])
p("A13","AMF decoding bounds its nesting depth",
"However deeply the input nests objects and arrays, AMF decoding uses a bounded call depth and reports an error beyond it, so that no input can exhaust the stack; the bound is restored when a decode call returns.",
["inputs"],"every byte stream, including megabytes of nested container markers",
"A stack overflow kills the test process and needs megabytes of nesting.",
["amf/amf0.go","amf/amf3.go","amf/amf3_external.go"],[("recursion","EnDecAMF0.Decode, EnDecAMF3.Decode")])
p("A14","AMF references resolve to the value they refer to",
"An AMF0 reference, and an AMF3 string, object or trait reference, with an index in range yields the value decoded at that position (the same object, array or string, with its contents), and an index not below the number of values recorded so far is an error. Each reference-able value occupies exactly one position, in the order its encoding starts.",
["inputs","histories"],"every byte stream and every sequence of decode calls on one decoder",
"Tests contain no reference to an array, object or typed object.",
["amf/amf0.go","amf/amf3.go"],[("reference tables","decodeReference, decodeString, decodeDate, decodeArray, decodeObject, decodeXmlDoc, decodeByteArray")])
p("A15","The metadata header is added and stripped exactly",
"Stripping the metadata header returns exactly the bytes after the leading value when that value is the set-data-frame command string, in whichever encoding the given decoder reads it, and the input unchanged otherwise; adding it returns the input unchanged when it already starts with that command and otherwise the AMF0 encoding of the command followed by the whole input. Neither modifies the bytes it was given.",
["inputs"],"every byte slice whose first value is a string, both AMF versions",
"Tests use one short AMF0 sample.",
["amf/metadata.go"],[("header helpers","AddMetaHeader, DelMetaHeader")])
# ---------------------------------------------------------------- FLV
p("F01","Every FLV tag is framed with its exact size, type and timestamp",
"A successful FLV mux writes exactly one tag: type byte (9 video, 8 audio, 18 script data), 24-bit payload size, the low 24 bits of the timestamp followed by its high 8 bits, a zero 3-byte stream id, the payload unchanged, and a 32-bit trailing size equal to 11 plus the payload size. A payload that does not fit the 24-bit size, and an unknown packet type, are errors and write nothing.",
["inputs","histories"],"every packet type, payload and 32-bit timestamp, in any sequence on one muxer",
"Tests mux one short packet.",
["container/flv/muxer.go"],[("tag writer","muxer.mux")],observe=["bytes handed to the io.Writer"])
p("F02","The FLV preamble announces the stream and replays the cached headers in order",
"Writing the FLV preamble emits the 13-byte file header (signature FLV, version 1, header size 9, previous tag size 0, and the audio and video flags set exactly for the kinds whose sequence header was saved), followed by the saved metadata tag, then the saved video sequence header tag, then the saved audio sequence header tag, each only if present and each as framed when it was saved (with timestamp 0).",
["histories","inputs"],"every order and number of save calls before the preamble is written",
"Tests save one sequence and compare a length.",
["container/flv/mixer.go","container/flv/muxer.go","packet/types.go"],[("preamble","Mixer.SetFlvHeader"),("header flags","muxer.header"),("kind set","packet.Types")])
p("F03","FLV media tag headers are decoded field by field",
"Demuxing a video payload reports frame type and codec from the high and low nibble of byte 0 and, for key and inter frames, the packet type from byte 1 and the signed 24-bit composition time from bytes 2-4, leaving the rest as media; an audio payload reports the format from the high nibble of byte 0 and, for AAC only, the packet type from byte 1. The media part is exactly the bytes after the header, shorter payloads and unsupported sound formats are errors, and nothing from a previously parsed header survives in the result.",
["inputs","histories"],"every payload of every length and every packet type, with fresh and reused tags",
"Tests parse a few fixed headers, each on a fresh tag and with a positive composition time.",
["container/flv/tag.go","container/flv/demuxer.go"],[("bit fields","parseVideoHeader, parseAudioHeader, ParseMediaTagHeader"),("media slice","Demuxer.Demux")])
p("F04","Demuxing and codec parsing never panic on any payload",
"No payload of any length or content makes the FLV demuxer or the H.264, AAC or MP3 parsers panic, whatever was parsed before; malformed payloads are reported as errors.",
["inputs","histories"],"every payload byte string, parser state reachable by earlier calls, packet type and header flags",
"Tests parse well-formed samples and a few short ones.",
["container/flv/demuxer.go","container/flv/tag.go","parser/parser.go","parser/h264/parser.go","parser/aac/parser.go","parser/mp3/parser.go"],[("length guards","parse functions of the four packages")])
p("F05","Muxing never modifies the caller's packet or payload bytes",
"Muxing a packet into FLV or TS leaves the caller's payload and media bytes unmodified and, for ordinary (non sequence-header) packets, leaves the packet itself unmodified, so that one packet can be written to several outputs with the same result.",
["inputs","histories"],"every packet and every set of outputs it is written to",
"Tests mux each packet once into one output.",
["container/flv/muxer.go","container/flv/mixer.go","container/ts/mixer.go","container/ts/muxer.go"],[("packet use","flv muxer.mux, ts Mixer.Mux, Muxer.Mux")])
p("F06","A failing output is reported by every mux, replay and parse call",
"Whenever a write to the output fails, the FLV and TS mux, preamble and table calls, the H.264 and AAC stream conversion and the cache replay in progress return a non-nil error and write nothing further to that output.",
["fault_sequences","inputs"],"every call and every write at which the output first fails",
"Tests only write to memory buffers, which never fail.",
["container/flv/muxer.go","container/flv/mixer.go","container/ts/mixer.go","container/ts/muxer.go","parser/h264/parser.go","parser/aac/parser.go","gop/array.go","gop/cache.go"],[("error returns","every write call in these packages")])
# ---------------------------------------------------------------- codecs
p("C01","AAC frames get an ADTS header that describes them exactly",
"Every AAC frame is emitted as a 7-byte ADTS header followed by the frame unchanged: sync word 0xfff, MPEG-4, layer 0, no CRC, profile = object type - 1, the sampling-frequency index and channel configuration of the last accepted configuration, a 13-bit length equal to 7 plus the frame size, buffer fullness 0x7ff and one raw data block. A frame whose total does not fit 13 bits, and any frame before a configuration was accepted, is an error and emits nothing.",
["inputs","histories"],"every frame length and content and every sequence of configurations and frames",
"Tests frame one short sample.",
["parser/aac/parser.go"],[("header assembly","Parser.addADTSToFrame")])
p("C02","AAC configuration parsing is exact and a rejected one changes nothing",
"Parsing an AAC configuration takes the object type from the top 5 bits, the sampling index from the next 4 and the channel configuration from the next 4, and the reported sample rate is the MPEG-4 table entry for that index (44100 for the reserved indices 13 and 14). A configuration that is rejected (too short, or escape index 15) leaves the parser exactly as it was.",
["inputs","histories"],"all two-byte configurations and every sequence of accepted and rejected ones",
"Tests use one configuration and never continue after a rejected one.",
["parser/aac/parser.go","parser/aac/type.go"],[("bit fields","Parser.specificInfo"),("rate table","aacRates, Parser.SampleRate")])
p("C03","AVCC access units become Annex-B streams with every NAL unit intact",
"Converting a length-prefixed access unit emits an access unit delimiter, then for each slice, IDR and SEI unit in order a 4-byte start code and the unit's bytes unchanged; parameter sets precede the first IDR unit exactly once (those carried in the access unit if any, else those of the last sequence header), delimiter units are dropped, and any other unit type, a zero length or a length beyond the data is an error. Data already in Annex-B form is passed through unchanged.",
["inputs"],"every access unit: any number, order, size and content of NAL units",
"Tests convert one or two fixed access units.",
["parser/h264/parser.go"],[("conversion loop","Parser.getAnnexbH264"),("length prefix","Parser.naluSize")])
p("C04","AVC sequence headers yield exactly their SPS and PPS, latest one wins",
"Parsing an AVC sequence header stores a start code and the first SPS, then a start code and the first PPS, each with exactly the length its 16-bit field states, replacing whatever an earlier sequence header stored; a truncated or empty one is an error that leaves the stored parameter sets as they were.",
["inputs","histories"],"every sequence header and every sequence of them on one parser",
"Tests parse one header once, without trailing bytes.",
["parser/h264/parser.go"],[("extraction","Parser.parseSpecificInfo")],state=[("specificInfo","start-code prefixed SPS and PPS of the current stream","parser/h264/parser.go")])
p("C05","Each packet is routed to the parser its header names, or refused",
"A packet without header or media, a video packet whose codec is not AVC, an audio packet that is neither AAC nor MP3, and any other packet type are refused with an error and produce no output; AVC video is converted by the H.264 parser as sequence header or access unit according to its header, AAC audio by the AAC parser according to its packet type, MP3 audio by the MP3 parser.",
["inputs"],"every combination of packet type and header flags",
"Tests cover three combinations.",
["parser/parser.go","parser/aac/parser.go"],[("dispatch","CodecParser.Parse, aac Parser.Parse")])
p("C06","Container and codec loops terminate and take bounded memory",
"Every loop that demuxes, converts, frames or caches media makes progress towards a fixed end on each pass (consumes input, fills a packet or advances an index), so each call returns after work bounded by the size of its input and of its own tables, and it reserves memory proportional to that input only.",
["inputs"],"every payload, including empty and one-byte NAL units and PES packets of every size",
"Tests cannot exhibit non-termination over all inputs.",
["parser/h264/parser.go","container/ts/muxer.go","container/ts/table/pes.go","container/flv/tag.go","gop/array.go","gop/gop.go"],[("loops","every loop of these packages")])
# ---------------------------------------------------------------- TS
p("T01","Every TS packet is 188 bytes with a correct header",
"Each unit the TS muxer hands to its output is exactly one 188-byte packet starting with 0x47, with error, priority and scrambling bits clear, the PID of its stream (0x100 video, 0x101 audio), the payload-start flag set on exactly the first packet of each PES packet, and the adaptation-field flag set exactly when an adaptation field is present.",
["inputs","histories"],"every packet type, key-frame flag, media length and timestamp, on a muxer in any state",
"Tests compare a few outputs of fixed length.",
["container/ts/muxer.go","container/ts/table/pes.go"],[("packet assembly","Muxer.Mux, NewPes")],observe=["each Write to the output"])
p("T02","Continuity counters advance by one modulo 16 per packet of each PID",
"Consecutive TS packets of the same PID carry 4-bit continuity counters that advance by one modulo 16, across PES packets and calls, independently for video, audio, PAT and PMT, and a counter value never spills into other header bits.",
["histories"],"every sequence of mux and table calls on one muxer",
"Tests issue one or two calls; wrap-around and interleaving are never reached.",
["container/ts/muxer.go"],[("counters","Muxer.Mux, Muxer.PAT, Muxer.PMT")],state=[("videoCc/audioCc/patCc/pmtCc","next or last continuity counter per PID","container/ts/muxer.go")])
p("T03","TS packets carry the PES packet completely, in order and exactly once",
"Concatenating the payloads of the TS packets one mux call emits gives exactly the PES header followed by the media bytes: nothing is lost, repeated, reordered or added, and the space a PES packet does not fill is adaptation-field stuffing (length byte, zero flags, 0xff bytes) covered by the adaptation field length.",
["inputs"],"every media length from 0 up, key frame or not, audio or video",
"Boundary lengths around one packet's capacity are not tested.",
["container/ts/muxer.go","container/ts/table/pes.go"],[("copy loop","Muxer.Mux"),("stuffing","Pes.WriteStuff")])
p("T04","PES headers state stream, length and 33-bit timestamps exactly",
"Each PES packet starts with 00 00 01, stream id 0xe0 for video or 0xc0 for audio, a length equal to the bytes that follow it (0 when that exceeds 65535), marker and flag bytes that announce a PTS, and for video whose PTS differs from its DTS also a DTS, the matching header-data length 5 or 10, and timestamps encoded modulo 2^33 in the 5-byte marker-bit layout with prefix 0010 (PTS only), 0011 (PTS of both) and 0001 (DTS).",
["inputs"],"all media lengths and all 64-bit timestamps",
"Tests encode one header with zero timestamps.",
["container/ts/table/pes.go"],[("header assembly","Pes.GeneratePesHeader, Pes.encodeTs")])
p("T05","Key frames start with a PCR equal to their decode time",
"The first TS packet of a video key frame, and no other packet, carries an adaptation field of length 7 (before stuffing) with the PCR flag whose 33-bit base is the decode timestamp modulo 2^33, with the reserved bits set and a zero extension.",
["inputs"],"all decode timestamps, key-frame flags and packet types",
"Tests check one value.",
["container/ts/muxer.go","container/ts/table/pes.go"],[("PCR","Pes.WritePcr, Muxer.Mux")])
p("T06","PAT, PMT and SDT sections are well formed for every configuration",
"Each table call returns one 188-byte packet on its PID with the payload-start flag and a zero pointer field, whose section has the length, ids and entries of the requested configuration (PAT: program 1 on PID 0x1001; PMT: one entry per requested kind with its stream type and PID; SDT: the given descriptors with their length), followed by the MPEG-2 CRC of exactly the section bytes and 0xff fill to the end. Descriptors that do not fit the packet are refused, never written past or truncated.",
["inputs","histories"],"every list of media kinds and every descriptor buffer, on a muxer in any state",
"Tests build each table once.",
["container/ts/muxer.go","container/ts/table/pat.go","container/ts/table/pmt.go","container/ts/table/sdt.go","container/ts/table/program.go"],[("table builders","Muxer.PAT, Muxer.PMT, Muxer.SDT")])
p("T07","The section checksum is the MPEG-2 CRC-32 of the bytes given",
"The checksum routine computes CRC-32/MPEG-2 (polynomial 0x04c11db7, initial value 0xffffffff, no reflection, no final xor) over every byte of its input in order.",
["inputs"],"every byte sequence",
"Tests check no checksum value beyond two golden packets.",
["container/ts/crc32.go"],[("table-driven CRC","GenerateCrc32, crcTable")])
p("T08","Presentation and decode times are exact multiples of the input milliseconds",
"Updating the clock with a packet time of t milliseconds sets the decode time to exactly 90*t ticks for every 32-bit t, and for video the presentation time to the decode time plus exactly 90 times the signed composition offset. For audio the decode and presentation time are equal and are either that decode time or a predicted time at most 10 ms away from it.",
["inputs","histories"],"all 32-bit times and composition offsets, every history of audio packets",
"Tests use times of a few seconds; 32-bit overflow starts after 13 hours.",
["container/ts/mixer.go","container/ts/sync.go"],[("clock","Mixer.Update"),("audio smoothing","sync.syncAudioTs")])
p("T09","TS muxing never panics",
"No packet type, media length or content, timestamp, key-frame flag, media-kind list, metadata or descriptor text, on a muxer in any reachable state, makes a TS mux, table, descriptor or clock call panic.",
["inputs","histories"],"every argument and reachable muxer state",
"Only a few payload lengths are tested; the failing lengths are a handful out of 188.",
["container/ts/muxer.go","container/ts/mixer.go","container/ts/sync.go","container/ts/table/pes.go","container/ts/table/descriptor.go"],[("index arithmetic","Muxer.Mux, SDT, PAT, PMT, WriteStuff, WritePcr")])
p("T10","Service descriptors state their lengths exactly or are refused",
"A service, network-name or country-availability descriptor is appended as tag, length byte and body where the length byte equals the number of body bytes and every embedded name is preceded by its own exact length; names too long for the one-byte lengths are refused with an error and append nothing.",
["inputs"],"every provider, service and network name of every length",
"Tests use short names.",
["container/ts/table/descriptor.go"],[("descriptor writers","Descriptor.Service, NetworkName, CountryAvailability")])
# ---------------------------------------------------------------- GOP cache
p("G01","The GOP cache never exceeds its configured size",
"At every point the cache holds at most the configured number of picture groups and at most 1024 packets per group: a packet that would exceed the group limit is refused with an error, a new key frame beyond the group count reuses the oldest group's place, and a non-positive group count disables the cache instead of failing.",
["histories"],"every sequence of key and non-key frames, every configured size",
"Tests write a few packets; 1024-packet groups and wrap-around are not reached.",
["gop/array.go","gop/gop.go","gop/cache.go"],[("limits","array.write, gopCache.Write, newGopCache")],state=[("packets","packets of one group","gop/array.go"),("gops/len/index","ring of groups","gop/gop.go")])
p("G02","Replay sends headers first and then each group oldest first, in arrival order",
"Replaying the cache to a new consumer sends the metadata packet, then the video sequence header, then the audio sequence header (each the last one written, if any), then the packets of the cached groups from the oldest group to the newest and within a group in arrival order, each exactly once, and does not change the cache.",
["histories"],"every history of writes, cache sizes from 1 up, fewer or more key frames than groups",
"Tests replay one or two short histories.",
["gop/cache.go","gop/gop.go","gop/array.go","gop/frame.go"],[("replay","Cache.SendTo, gopCache.SendTo, array.sendTo, frameCache.SendTo")])
p("G03","Packets are cached by what they are",
"A video sequence header, an AAC sequence header and a metadata packet each replace the previous one of their kind and nothing else; a key frame opens a new group with itself as first packet; an inter frame is appended to the newest group and refused with an error when there is none; other packets change nothing.",
["histories","inputs"],"every packet kind in every cache state",
"Tests write a few combinations.",
["gop/cache.go","gop/gop.go","gop/frame.go"],[("classification","Cache.Write, WriteVideo, WriteAudio"),("group selection","gopCache.Write")])
# ---------------------------------------------------------------- SIP
p("S01","SIP parsing never panics, whatever the message bytes",
"No byte sequence, in any order of lines and however truncated, makes parsing a SIP message, a request URI, a From/To/Contact, Via, CSeq or Authorization value or an argument list panic, including on a message object reused after earlier messages.",
["inputs","histories"],"every byte string handed to each SIP parsing entry point",
"Tests parse well-formed samples.",
["sips/sips.go","sips/request.go","sips/user.go","sips/via.go","sips/cseq.go","sips/auth.go","sips/header_args.go","sips/header.go","sips/base.go"],[("index guards","parse functions of package sips")])
p("S02","SIP parsing terminates with work bounded by the message",
"Every SIP parsing call returns on every finite input: each pass of its loops advances in the text, reads from the connection or moves to a later state, and no header value, including Content-Length, makes it reserve memory or loop beyond the data actually received.",
["inputs"],"every finite byte string, including huge and negative Content-Length values",
"Tests cannot exhibit non-termination over all inputs.",
["sips/sips.go","sips/request.go","sips/user.go","sips/via.go","sips/cseq.go","sips/header_args.go"],[("loops","every loop reachable from the parsing entry points")])
p("S03","SIP methods and versions map to their names and back",
"For every SIP method the text form parses back, in any letter case, to the same method and every accepted method name is the text form of the method it yields; the same holds for the two SIP versions; any other text is an error.",
["inputs"],"every method and version value and every string",
"Tests try a few of the fifteen methods.",
["sips/method.go","sips/version.go"],[("tables","SIPMethod.String, GetSIPMethod, SIPVersion.String, GetSIPVersion")])
p("S04","SIP header lookup ignores case and accepts compact forms",
"Looking a header up by name, in any letter case, finds every value stored under its lower-case long name and, when there is none, the values stored under its RFC 3261 compact form, first value first; setting a header stores exactly one value under the lower-case name and changes no other header.",
["inputs","histories"],"every header name and every header table",
"Tests look up long names only.",
["sips/header.go"],[("lookup","SIPHeader.GetHeader, GetFirstHeader, SetFirstHeader"),("compact table","compactSipHeadersCorrespondence")])
p("S05","SIP body reading stays within Content-Length",
"Parsing a message takes from the connection, after the header section, no more body bytes than Content-Length announces, keeps every byte it takes in order, and never takes bytes of a following message; a missing or malformed Content-Length is an error.",
["inputs","histories"],"every message, every Content-Length and every sequence of pipelined messages on one connection",
"Tests parse one message per reader.",
["sips/sips.go","sips/header.go"],[("body loop","SIP.fillBody, SIP.Parse")])
p("S06","SIP serialization emits start line, exact Content-Length and body",
"Serializing a message emits the start line (request: method, request URI, version; response: version, code, standard reason text) ended by CRLF, then all headers with Content-Length equal to the body size in bytes, then, when there is a body, an empty line and the body unchanged.",
["inputs"],"every message object",
"Tests serialize two messages.",
["sips/sips.go","sips/header.go","sips/easy.go"],[("serializer","SIP.Bytes, SIPHeader.Bytes")])
p("S07","SIP headers parse into lower-case names with complete values",
"Each header line splits at its first colon into a lower-cased name and a value with surrounding blanks removed, appended after earlier values of the same name; a line that starts with a blank extends the last value of the preceding header by one space and the trimmed text; a line without a colon, and a continuation with no preceding header, change nothing.",
["inputs","histories"],"every line in every parsing state",
"Tests parse two header blocks.",
["sips/sips.go"],[("line parser","SIP.ParseHeader")])
p("S08","SIP addresses, Via and CSeq values are written component by component",
"The text form of a request URI, address, Via or CSeq value is exactly its components with the fixed separators (scheme ':' user '@' host, ':' port only when a port is set, arguments each preceded by ';' only when there are any; address in angle brackets after an optional display name; Via protocol, transport and host; CSeq number, space, method), and writing it does not alter any component.",
["inputs"],"every component content",
"Tests write one sample of each.",
["sips/request.go","sips/user.go","sips/via.go","sips/cseq.go","sips/header_args.go"],[("writers","Bytes methods")])
p("S09","The first line decides message kind, version, code and URI",
"A start line of three space-separated parts whose first part begins with SIP is a response with that version, the decimal code and the rest of the line as reason; otherwise it is a request with that method, URI and version; a line with fewer parts, an unknown method or version or a non-numeric code is an error.",
["inputs"],"every start line",
"Tests parse a few start lines.",
["sips/request.go"],[("start line","SIP.ParseFirstLine")])
p("S10","SIP response codes have their standard reason text",
"Every SIP status code the package names has a non-empty reason text, equal to the IANA reason phrase of its number, and prints as its decimal number.",
["inputs"],"every named status code",
"Tests print two codes.",
["sips/status.go"],[("table","statusTexts, SIPStatus.Text, SIPStatus.String")])
# ---------------------------------------------------------------- cross-cutting
p("X01","The library keeps no mutable package-level state",
"After package initialisation nothing in the library writes to package-level data, and no call hands out a slice, map or pointer through which a caller or another object could modify package-level data, so distinct objects can be used from different goroutines without synchronisation.",
["schedules","programs"],"every interleaving of calls on distinct objects",
"A race between two instances shows only under particular schedules and is never exercised.",
["amf/metadata.go","parser/h264/type.go","parser/aac/type.go","parser/mp3/parser.go","container/ts/crc32.go","sips/header.go","sips/status.go"],[("package-level tables","every package-level variable and its uses")])
# ---------------------------------------------------------------- not decided
p("N01","AMF values round-trip through encode and decode",
"Decoding what the encoder wrote yields a value equal to the original for every supported value, up to the documented widening of numbers.",
["inputs"],"every value tree","Tests round-trip samples.",["amf/amf0.go","amf/amf3.go"],[("codec pair","Encode, Decode")])
p("N02","SIP addresses round-trip through parse and text form",
"Parsing the text form of an address, request URI or Via yields the same components for every well-formed address.",
["inputs"],"every well-formed address","Tests round-trip samples.",["sips/user.go","sips/request.go","sips/via.go"],[("scanner","NewSIPUser, NewSIPRequest, NewSIPVia")])
p("N03","Audio and video stay in sync over a whole session",
"Over any session the smoothed audio clock never drifts from the true audio time by more than the sync window.",
["histories"],"every history of audio packets","Needs real timestamps over hours.",["container/ts/sync.go"],[("smoothing","syncAudioTs")])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
