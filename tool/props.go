package main

var props = []*Prop{
	{id: "C01", harness: []string{"zzaac"}, entries: []string{"zzaac.Frames", "zzaac.Unconfigured"},
		rule: "Every frame after any history of configurations and frames is compared, bit by bit, with the ADTS header of the last accepted configuration followed by the frame."},
	{id: "C02", harness: []string{"zzaac"}, entries: []string{"zzaac.Config", "zzaac.Unconfigured", "zzaac.Fields"},
		rule: "After any history, a configuration's acceptance and the reported sample rate are compared with the AudioSpecificConfig fields; refused configurations must leave the parser unchanged."},
	{id: "C03", harness: []string{"zzh264"}, entries: []string{"zzh264.PassThrough", "zzh264.Fresh1", "zzh264.Fresh2", "zzh264.Stored2", "zzh264.Three1", "zzh264.Three2", "zzh264.Three3", "zzh264.Three4", "zzh264.Malformed0", "zzh264.Malformed1", "zzh264.Malformed2"},
		rule: "After any history, access units of one to three NAL units of every kind and of any length and content, well-formed or not, are converted and the output compared with the specified stream."},
	{id: "C04", harness: []string{"zzh264"}, entries: []string{"zzh264.SeqHeader", "zzh264.BadHeader"},
		rule: "After any history, a sequence header of any content is parsed and the parameter sets that precede the next IDR unit are compared with its first SPS and PPS; refused headers must leave the stored ones."},
	{id: "F01", harness: []string{"zzflv"}, entries: []string{"zzflv.Media", "zzflv.Metadata", "zzflv.Other"},
		rule: "Every write of the FLV muxer to a collecting writer is compared, bit by bit, with the specified tag: header fields, 24-bit size, timestamp split, payload and back-pointer; packets that cannot be framed must be refused."},
	{id: "F02", harness: []string{"zzflv"}, entries: []string{"zzflv.Fresh", "zzflv.Replaced1", "zzflv.Replaced2", "zzflv.Replaced3"},
		rule: "After any history of cached and muxed packets, the preamble written is compared with the file header followed by the last cached metadata and sequence headers."},
	{id: "F03", harness: []string{"zzflv"}, entries: []string{"zzflv.DemuxVideo", "zzflv.DemuxAudio", "zzflv.DemuxOther", "zzflv.Reused"},
		rule: "For payloads of any length and content, acceptance and every accessor of the header produced by the demuxer are compared with the bit fields of the payload; a reused packet must carry nothing over."},
	{id: "C05", harness: []string{"zzcodec"}, entries: []string{"zzcodec.Video", "zzcodec.Audio", "zzcodec.Refused", "zzcodec.Rate"},
		rule: "With the three codec parsers replaced by contracts that record how they are called, every packet kind is given to the codec dispatcher after any history; which parser runs, with which input, is compared with the packet's codec identifiers."},
	{id: "F04", harness: []string{"zzfree", "zzflv", "zzh264", "zzaac"}, kinds: append([]string{"check"}, panicKinds...), entries: []string{"zzflv.DemuxVideo", "zzflv.DemuxAudio", "zzflv.DemuxOther", "zzh264.Malformed0", "zzh264.Malformed1", "zzh264.BadHeader", "zzaac.Unconfigured", "zzaac.Config", "zzaac.Frames", "zzfree.Demux", "zzfree.Pipeline", "zzfree.Direct", "zzfree.AVC", "zzfree.AAC", "zzfree.MP3"},
		rule: "The demuxer and the codec parsers are run on payloads of any length and content, in any order; every index, slice, dereference, type assertion, division and explicit panic in them is an obligation, and malformed payloads must be refused."},
	{id: "F05", harness: []string{"zzflv", "zzts", "zztsmix", "zzfree"}, entries: []string{"zzfree.UnchangedAVC", "zzfree.UnchangedAAC", "zzfree.UnchangedMP3", "zzflv.Media", "zzflv.Metadata", "zztsmix.Packets", "zzts.Failing"},
		rule: "The caller's packet and payload after each mux call are compared with copies made before it."},
	{id: "F06", harness: []string{"zzflv", "zzfree", "zzts", "zztsmix", "zzgop"}, entries: []string{"zzgop.Bound1", "zzgop.Bound2", "zzflv.Failing", "zzflv.FailingPreamble", "zzfree.FailingAVC", "zzfree.FailingAAC", "zztsmix.Packets", "zztsmix.FailingHeader", "zzts.Failing"},
		rule: "Each call is run after any history on a writer that may fail at any write; a failure must be returned and must be the last write."},
	{id: "C06", harness: []string{"zzfree", "zzflv", "zzts", "zzcrc", "zzgop"}, kinds: []string{"terminate", "makesize", "alloc"}, entries: []string{"zzflv.Media", "zzflv.Metadata", "zzflv.Fresh", "zzts.Audio", "zzts.Inter", "zzts.Key", "zzts.KeyShort", "zzts.Kinds", "zzts.SDT", "zzcrc.Any", "zzgop.Bound2", "zzgop.Full", "zzfree.Demux", "zzfree.Pipeline", "zzfree.Direct", "zzfree.AVC", "zzfree.AAC", "zzfree.MP3", "zzfree.MemoryAVC", "zzfree.MemoryAAC", "zzfree.MemoryMP3", "zzfree.MemoryCodec", "zzts.Memory", "zzflv.Memory"},
		rule: "Every loop reached in the demuxer and codec parsers needs a quantity that strictly advances towards a bound fixed before the loop, and what is reserved at once must be within a constant plus a multiple of the input."},
	{id: "T01", harness: []string{"zzts"}, entries: append(tsTables, tsEntries...),
		rule: "A writer given to the muxer reads back every packet written, after any history, for PES packets of any length: size, sync byte, flags and PID; tables are payload only."},
	{id: "T02", harness: []string{"zzts"}, entries: append(tsCounters, tsEntries...),
		rule: "The continuity counter of every packet read back is one more than that of the previous packet of the same PID, whatever came in between."},
	{id: "T03", harness: []string{"zzts", "zztsmix"}, entries: append([]string{"zztsmix.Packets"}, tsEntries...),
		rule: "The payloads of the packets read back are compared with the specified PES packet, byte by byte; stuffing must lie in the adaptation field and be 0xff."},
	{id: "T04", harness: []string{"zzts"}, entries: tsEntries,
		rule: "The payload read back is compared, bit by bit, with a PES packet whose header states stream, length, flags and 33-bit time stamps."},
	{id: "T05", harness: []string{"zzts"}, entries: tsEntries,
		rule: "The first packet of a key frame, and no other, must carry a PCR equal to the 33-bit decode time."},
	{id: "T06", harness: []string{"zzts", "zztsmix"}, entries: []string{"zztsmix.Header", "zzts.Kinds", "zzts.PAT", "zzts.PMT0", "zzts.PMT1", "zzts.PMT2", "zzts.PMT3", "zzts.PMT4", "zzts.SDT"},
		rule: "With the checksum replaced by a contract that records its input, each table built after any history, for every list of up to four kinds and descriptors of any length and content, is compared with the specified section, its checksum and the fill."},
	{id: "T07", harness: []string{"zzcrc"}, entries: []string{"zzcrc.Len0", "zzcrc.Len1", "zzcrc.Len2", "zzcrc.Len3", "zzcrc.Len4", "zzcrc.Len5", "zzcrc.Len8", "zzcrc.Len12", "zzcrc.Len16", "zzcrc.Len17", "zzcrc.Len22", "zzcrc.Len40", "zzcrc.Len64", "zzcrc.Len100", "zzcrc.Len183"},
		rule: "For selected lengths up to 183, every bit of the checksum is computed as an exclusive-or of the bits of the input, from the code's table and from the bitwise definition, and the two compared."},
	{id: "T08", harness: []string{"zztsmix"}, entries: []string{"zztsmix.Clock"},
		rule: "With the codec parser and the packet muxer replaced by contracts, the decode and presentation times the muxer is given after any history and any clock update are compared with the packet's time and offset."},
	{id: "T09", harness: []string{"zzts", "zztsmix", "zzcrc", "zzfree"}, kinds: append([]string{"check"}, panicKinds...), entries: []string{"zzts.Audio", "zzts.Inter", "zzts.Key", "zzts.KeyShort", "zzts.Kinds", "zzts.PAT", "zzts.SDT", "zzcrc.Any", "zztsmix.Clock", "zztsmix.Packets", "zztsmix.FailingHeader", "zztsmix.Metadata", "zztsmix.Service", "zztsmix.NetworkName", "zztsmix.Country", "zzfree.Pipeline"},
		rule: "The muxer, the mixer, the descriptors and the checksum are run on any arguments in any order; every index, slice, dereference, type assertion, division and explicit panic in them is an obligation."},
	{id: "T10", harness: []string{"zztsmix"}, entries: []string{"zztsmix.Service", "zztsmix.NetworkName", "zztsmix.Country", "zztsmix.Metadata"},
		rule: "For names of any length and content and any buffer before, each descriptor appended, or refused, is compared with the specified bytes."},
	{id: "G01", harness: []string{"zzgop"}, kinds: append([]string{"check", "makesize"}, panicKinds...), entries: append([]string{"zzgop.Bound0", "zzgop.Bound1", "zzgop.Bound2", "zzgop.Bound3", "zzgop.NoGroups", "zzgop.Full"}, gopLong...),
		rule: "For up to five groups (and any number below one), after any history, what a group accepts and what a replay sends is compared with 1024 packets per group and the number of groups."},
	{id: "G02", harness: []string{"zzgop"}, entries: append([]string{"zzgop.Short1", "zzgop.Short2", "zzgop.Short3", "zzgop.Headers", "zzgop.NoGroups", "zzgop.NoKey", "zzgop.AfterLong1_0", "zzgop.AfterLong2_0", "zzgop.AfterLong2_1", "zzgop.AfterLong3_1", "zzgop.After3"}, gopLong...),
		rule: "A packet at any place of a group of any length, in new caches and after any history, must be replayed at its place, after the headers; short histories are compared packet by packet, twice."},
	{id: "G03", harness: []string{"zzgop"}, entries: []string{"zzgop.Headers", "zzgop.NoGroups", "zzgop.NoKey", "zzgop.Short1", "zzgop.Short2", "zzgop.Short3", "zzgop.After1", "zzgop.After2", "zzgop.After3", "zzgop.Full"},
		rule: "Every kind of packet, with any other field, is written to caches in any state; acceptance and the replay afterwards are compared with a model of the cache."},
	{id: "A01", harness: []string{"zzamf"}, entries: amfEnc0,
		rule: "Values of every type the encoder takes, of any content and length, are encoded and the bytes written compared with the AMF0 form."},
	{id: "A02", harness: []string{"zzamf"}, entries: amfDec0,
		rule: "Byte strings with any marker, length and content, and containers of up to three parts, are decoded and the value and the bytes read compared with the AMF0 form."},
	{id: "A03", harness: []string{"zzamf"}, entries: amfEnc3,
		rule: "Values of every type the encoder takes, of any content and length, are encoded and the bytes written compared with the AMF3 form."},
	{id: "A04", harness: []string{"zzamf"}, entries: amfDec3,
		rule: "Byte strings with any marker, length and content, and containers of up to three parts, are decoded and the value and the bytes read compared with the AMF3 form."},
	{id: "A05", harness: []string{"zzamf"}, entries: []string{"zzamf.Integer", "zzamf.Number3"},
		rule: "Every integer written and every byte string read is compared, bit by bit, with the variable-length form."},
	{id: "A06", harness: []string{"zzamf"}, kinds: []string{"check"}, entries: append(append([]string{"zzamf.Any0", "zzamf.Any3", "zzamf.Calls0"}, amfEnc0...), amfEnc3...),
		rule: "Any value is encoded, nested values replaced by a contract that writes any number of bytes and returns it; the count returned must be the number of bytes the writer was given."},
	{id: "A07", harness: []string{"zzamf"}, kinds: []string{"check"}, entries: []string{"zzamf.Any0", "zzamf.Any3", "zzamf.Calls0", "zzamf.BatchEnc0", "zzamf.BatchEnc3"},
		rule: "Any value is encoded to a writer that may fail at any write, nested values replaced by a contract that may fail; a failure must be returned, and a batch must stop there."},
	{id: "A08", harness: []string{"zzamf"}, entries: []string{"zzamf.Text0", "zzamf.Single0", "zzamf.Entries0", "zzamf.Text3", "zzamf.Names3", "zzamf.Count0", "zzamf.CountE0", "zzamf.Count3"},
		rule: "Strings, keys, names, byte sequences and arrays of any length are encoded; one that does not fit its length field must be refused, others must be written with their length."},
	{id: "A09", harness: []string{"zzamf"}, entries: append(append([]string{"zzamf.Integer", "zzamf.Batch0", "zzamf.Batch3", "zzamf.Free0", "zzamf.Free3"}, amfDec0...), amfDec3...),
		rule: "Any bytes are decoded from a reader that delivers them in any pieces and may fail or end anywhere, in any state of the decoder, nested values replaced by a contract that may fail; success requires all the bytes of the value."},
	{id: "A10", harness: []string{"zzamf"}, kinds: panicKinds, entries: append(append([]string{"zzamf.Integer", "zzamf.MetaFree", "zzamf.Batch0", "zzamf.Batch3", "zzamf.Free0", "zzamf.Free3"}, amfDec0...), amfDec3...),
		rule: "Any bytes are decoded in any state of the decoder; every index, slice, dereference, type assertion, division, nil map write and explicit panic is an obligation."},
	{id: "A11", harness: []string{"zzamf"}, kinds: []string{"check", "terminate"}, entries: []string{"zzamf.Batch0", "zzamf.Batch3", "zzamf.Free0", "zzamf.Free3"},
		rule: "Every loop of the decoders needs a quantity that strictly advances towards a bound, and every value must take at least one byte of the input."},
	{id: "A12", harness: []string{"zzamf"}, kinds: []string{"alloc", "makesize"}, entries: []string{"zzamf.Free0", "zzamf.Free3"},
		rule: "Every reservation of memory in the decoders, on any bytes in any state, must be within a constant plus a multiple of the bytes read so far."},
	{id: "A13", harness: []string{"zzamf"}, kinds: []string{"check"}, entries: []string{"zzamf.Free0", "zzamf.Free3"},
		rule: "At any nesting level, every nested decode must be at a greater level that is below a constant, and the level must be restored when a call returns."},
	{id: "A14", harness: []string{"zzamf"}, entries: append([]string{"zzamf.Ref0", "zzamf.Ref3", "zzamf.Beyond3"}, amfSlots...),
		rule: "Values are decoded in a row by one decoder, followed by a reference; for every kind of value, of any content, the positions it takes are determined, and the value a reference yields is compared with the one that was decoded at that position."},
	{id: "A15", harness: []string{"zzamf"}, entries: []string{"zzamf.Meta0", "zzamf.Meta3", "zzamf.MetaFree"},
		rule: "A string of any content in either encoding, followed by any bytes, is given to the helpers, and the result compared with the specified bytes."},
	{id: "S01", harness: []string{"zzsip", "zzsipline", "zzsipmsg"}, kinds: append([]string{"check"}, panicKinds...), entries: append(append([]string{"zzsipmsg.Free", "zzsipmsg.Failing", "zzsipline.StartLine", "zzsipline.Continued"}, sipFree...), sipLookup...),
		rule: "Every parser of the package is run on any text, and the message reader on any connection, after any history, with its parts replaced by contracts; every index, slice, dereference, type assertion, map write and explicit panic in them is an obligation."},
	{id: "S02", harness: []string{"zzsip", "zzsipmsg"}, kinds: []string{"terminate", "makesize", "alloc"}, entries: append([]string{"zzsipmsg.Free", "zzsipmsg.Failing"}, sipFree...),
		rule: "Every loop reached by a parser needs a quantity that strictly advances towards a bound fixed before the loop, and every allocation a size bounded by the data received."},
	{id: "S03", harness: []string{"zzsip"}, entries: []string{"zzsip.Methods1", "zzsip.Methods2", "zzsip.Versions"},
		rule: "Every method and version is written and read back, and any text read is compared with the names."},
	{id: "S04", harness: []string{"zzsip"}, entries: sipLookup,
		rule: "In tables with any other content, headers are looked up and set by every name the package has an accessor for and by any other, and the result and the table compared with the rule."},
	{id: "S05", harness: []string{"zzsipmsg"}, entries: []string{"zzsipmsg.Body"},
		rule: "With the parsers of the parts replaced by contracts, any bytes are read with a Content-Length of any text; what is taken, kept and refused is compared with it."},
	{id: "S06", harness: []string{"zzsip"}, entries: []string{"zzsip.SendRequest0", "zzsip.SendRequest1", "zzsip.SendRequest2", "zzsip.SendRequest3", "zzsip.SendResponse0", "zzsip.SendResponse1", "zzsip.SendResponse2", "zzsip.SendResponse3"},
		rule: "Messages of every method, version and status, with any request, body and up to two further headers, are written and the text compared with the specified one."},
	{id: "S07", harness: []string{"zzsipline"}, entries: []string{"zzsipline.Header", "zzsipline.Continued", "zzsipline.Orphan", "zzsipline.Empty"},
		rule: "Any header line is parsed into a table with any content, and the table, the name and the value compared with the rule."},
	{id: "S08", harness: []string{"zzsip"}, entries: []string{"zzsip.Request0", "zzsip.Request1", "zzsip.Request2", "zzsip.User0", "zzsip.User1", "zzsip.User2", "zzsip.Via0", "zzsip.Via1", "zzsip.Via2", "zzsip.CseqText", "zzsip.Lists0", "zzsip.Lists1", "zzsip.Lists2"},
		rule: "Objects with any components and up to two arguments are written and the text compared with the components and their separators; the components are compared with copies made before."},
	{id: "S09", harness: []string{"zzsipline"}, entries: []string{"zzsipline.StartLine"},
		rule: "Any start line is parsed into a message with any earlier content, and kind, version, code, reason, method and URI compared with the parts of the line."},
	{id: "S10", harness: []string{"zzsip"}, entries: []string{"zzsip.Statuses", "zzsip.Named"},
		rule: "The text and number of every status the package names are compared with the IANA registry."},
	{id: "X01", custom: sharedState,
		rule: "Which values may refer to package-level data is computed for every function of the library; every store, map update, append, copy, library call and return that could change it or hand it out is an obligation."},
}

var tsEntries = []string{"zzts.Audio", "zzts.Inter", "zzts.Key", "zzts.KeyShort"}
var tsTables = []string{"zzts.PATCounter", "zzts.PMTCounter", "zzts.SDTCounter"}
var tsCounters = []string{"zzts.AudioCounter", "zzts.VideoCounter", "zzts.PATCounter", "zzts.PMTCounter", "zzts.SDTCounter"}

var gopLong = []string{"zzgop.Long1_1_0", "zzgop.Key1_1", "zzgop.Long1_2_0", "zzgop.Key1_2", "zzgop.Long2_1_0", "zzgop.Key2_1", "zzgop.Long2_2_0", "zzgop.Long2_2_1", "zzgop.Key2_2", "zzgop.Long2_3_0", "zzgop.Long2_3_1", "zzgop.Key2_3", "zzgop.Long2_4_0", "zzgop.Long2_4_1", "zzgop.Key2_4", "zzgop.Long3_1_0", "zzgop.Key3_1", "zzgop.Long3_2_0", "zzgop.Long3_2_1", "zzgop.Key3_2", "zzgop.Long3_3_0", "zzgop.Long3_3_1", "zzgop.Long3_3_2", "zzgop.Key3_3", "zzgop.Long3_4_0", "zzgop.Long3_4_1", "zzgop.Long3_4_2", "zzgop.Key3_4", "zzgop.Long3_6_0", "zzgop.Long3_6_1", "zzgop.Long3_6_2", "zzgop.Key3_6", "zzgop.Long5_4_0", "zzgop.Long5_4_1", "zzgop.Long5_4_2", "zzgop.Long5_4_3", "zzgop.Key5_4", "zzgop.Long5_6_0", "zzgop.Long5_6_4", "zzgop.Long5_10_0", "zzgop.Long5_10_4", "zzgop.Key5_10"}

var amfEnc0 = []string{"zzamf.Number0", "zzamf.Text0", "zzamf.Single0", "zzamf.Entries0", "zzamf.Elements0", "zzamf.Other0", "zzamf.Inner3"}
var amfEnc3 = []string{"zzamf.Number3", "zzamf.Single3", "zzamf.Text3", "zzamf.Members3_0", "zzamf.Members3_1", "zzamf.Members3_2", "zzamf.Members3_3", "zzamf.Names3", "zzamf.Elements3"}
var amfDec0 = []string{"zzamf.Scalar0", "zzamf.String0", "zzamf.Object0", "zzamf.Object0x2", "zzamf.BadEnd0", "zzamf.Array0", "zzamf.Typed0", "zzamf.Switch0", "zzamf.CountIn0", "zzamf.Again0"}
var amfDec3 = []string{"zzamf.Scalar3", "zzamf.String3", "zzamf.Date3", "zzamf.Array3", "zzamf.Object3", "zzamf.External3", "zzamf.Flags3", "zzamf.DateIn3", "zzamf.CountIn3", "zzamf.Members3x2", "zzamf.Members3x3", "zzamf.Members3x4", "zzamf.Again3", "zzamf.AgainA3", "zzamf.Moment3"}

var amfSlots = []string{"zzamf.SlotXML3", "zzamf.SlotXMLe3", "zzamf.SlotBytes3", "zzamf.SlotText3", "zzamf.SlotDate3", "zzamf.SlotArray3", "zzamf.SlotNone3", "zzamf.SlotObject3", "zzamf.SlotPlain3", "zzamf.SlotNum3", "zzamf.SlotNames3", "zzamf.Slot0"}

var sipFree = []string{"zzsip.Request", "zzsip.User", "zzsip.Via", "zzsip.Cseq", "zzsip.Auth", "zzsip.Args", "zzsip.Lines", "zzsip.FirstLine"}

var sipLookup = []string{"zzsip.Lookup1", "zzsip.Lookup2", "zzsip.Lookup3", "zzsip.Lookup4", "zzsip.LookupOther", "zzsip.Set", "zzsip.Copy", "zzsip.Setters"}
