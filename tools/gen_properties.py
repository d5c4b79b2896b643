#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the JSON stays valid)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "Text survives encode, transmission, reassembly and decode",
  "For every valid UTF-8 message that needs at most 255 segments, and whatever character sets, direction and number are selected, encoding it, marshalling and unmarshalling each TPDU, collecting the TPDUs in any order and decoding the completed set yields exactly the original bytes. A message that would need more than 255 segments is refused with an error instead of being encoded into something that cannot be reassembled.",
  ["inputs", "configurations"], "all valid UTF-8 messages x permitted character sets x submit/deliver x arrival order of the segments",
  "Tests round-trip a handful of fixed strings through single stages; the guarantee is about the composition of all stages for every text, length and alphabet mix.",
  ["encode.go", "sms.go", "collect.go", "encoding/tpdu/userdata.go", "encoding/tpdu/tpdu.go", "encoding/gsm7/gsm7.go", "encoding/ucs2/ucs2.go"],
  [("encoding and alphabet fallback", "encode.go, encoding/tpdu/userdata.go:EncodeUserData"), ("segmentation", "encoding/tpdu/tpdu.go:Segment"), ("decode with surrogate carry", "sms.go:Decode")],
  ["sms.Encode", "TPDU.MarshalBinary", "sms.Unmarshal", "Collector.Collect", "sms.Decode"])

p("C02", "Segmentation fits, covers the message and never splits a character",
  "The segments produced for a message carry, in order, exactly the message; each fits its TPDU type's user data limit together with its header (140 octets or 160 septets for submit and deliver), never separates an escape from its septet or a surrogate pair, and is as full as those rules allow. A message that fits in one TPDU is sent unsegmented; otherwise every segment carries a concatenation header with the same reference, the true total and consecutive numbers from 1, using the 8-bit form unless the 16-bit form was requested. Where the template leaves no room for a character, no segments are produced, and encoding fails with an error.",
  ["inputs", "configurations"], "all payloads up to 255 segments x alphabets x template headers, including those that leave little or no room, x TPDU types x 8/16-bit references",
  "The boundary positions depend on every combination of length, escape or surrogate position and header length; tests pick a few lengths.",
  ["encoding/tpdu/tpdu.go"],
  [("block size", "encoding/tpdu/tpdu.go:UDBlockSize"), ("chunking", "encoding/tpdu/tpdu.go:chunk7Bit,chunk8Bit,chunkUCS2"), ("concat IE", "encoding/tpdu/tpdu.go:Segment")],
  ["TPDU.Segment", "sms.Encode"])

p("C03", "The most compact permitted alphabet is chosen and announced",
  "A message expressible in the GSM default alphabet is encoded with it and no language header, regardless of the other character sets offered; otherwise the first offered character set that suffices is used, trying locking tables, then shift tables, then both for one language, each in the order offered, and the header names exactly the tables used, in the elements that the standard assigns to locking and shift tables; only when none suffices is UCS-2 used. The coding scheme of the result states the alphabet really used while keeping the template's other coding bits, and an encoding that the template's coding scheme cannot express is refused with an error.",
  ["inputs", "configurations"], "all valid UTF-8 messages x lists of offered locking and shift character sets x template coding schemes",
  "13 languages x locking/shift/both x option order x message content is far beyond the sampled cases.",
  ["encoding/tpdu/userdata.go", "encode.go", "options.go", "encoding/tpdu/dcs.go"],
  [("selection order", "encoding/tpdu/userdata.go:EncodeUserData"), ("DCS hint", "encode.go:Encode"), ("options", "options.go")],
  ["sms.Encode", "tpdu.EncodeUserData"])

p("C04", "8-bit and explicit UCS-2 payloads are carried verbatim",
  "When a message is encoded as 8-bit data, every octet string arrives unchanged after marshal, unmarshal, collect and decode. When it is encoded as explicit UCS-2, the given UTF-16 code units are carried unchanged and decode to the text they spell, and an odd number of octets is refused at marshalling or unmarshalling rather than altered.",
  ["inputs", "configurations"], "all octet strings and all UTF-16 strings up to 255 segments",
  "Tests use short constant payloads; the property is over all payload values, lengths and segment boundaries.",
  ["encode.go", "sms.go", "encoding/tpdu/tpdu.go", "encoding/ucs2/ucs2.go"],
  [("pass-through branch", "encode.go:Encode"), ("octet alphabets in encode/decodeUserData", "encoding/tpdu/tpdu.go")],
  ["sms.Encode(As8Bit/AsUCS2)", "sms.Decode"])

p("C05", "TPDUs of every type marshal to the 3GPP layout and back",
  "For each of the six SMS TPDU types, a TPDU whose fields are within their representable ranges marshals to the octets 3GPP TS 23.040 prescribes for it, and unmarshalling those octets restores every field of that type. A field that has no encoding - too long for its length octet, a character without a digit or septet, a zone beyond 19:45, a reserved type or validity period format - is refused with an error instead of producing octets that mean something else.",
  ["inputs"], "all well-formed TPDU field values for the six types, with all optional field combinations",
  "Tests marshal a fixed list of structures; interactions of header length, alphabet, fill bits, optional parameters and validity formats are combinatorial.",
  ["encoding/tpdu/tpdu.go", "encoding/tpdu/userdata.go", "encoding/tpdu/address.go"],
  [("marshal*/unmarshal*", "encoding/tpdu/tpdu.go"), ("user data packing", "encoding/tpdu/tpdu.go:encodeUserData,decodeUserData,decode7Bit")],
  ["TPDU.MarshalBinary", "TPDU.UnmarshalBinary"])

p("C06", "Any received octets are decoded or rejected cleanly",
  "For every octet string in either direction, unmarshalling, collecting, decoding and displaying the result never panics, hangs or modifies or retains the input buffer: it yields either an error or a TPDU, and a reported error locates a field within the input. The decoded fields are those present in the octets, an accepted TPDU re-marshals to octets that decode to the same TPDU, and a submit, deliver or command cut short anywhere, or followed by extra octets after its user data, is rejected.",
  ["inputs"], "all octet strings (random, structured, mutated and truncated) x both directions",
  "Hostile or corrupted input space is unbounded; tests hold a list of known-bad strings.",
  ["encoding/tpdu/tpdu.go", "encoding/tpdu/userdata.go", "encoding/tpdu/address.go", "encoding/tpdu/error.go", "sms.go", "collect.go"],
  [("underflow/overlength checks", "encoding/tpdu/tpdu.go:unmarshal*"), ("UDH parsing", "encoding/tpdu/userdata.go:UnmarshalBinary"), ("error location", "encoding/tpdu/error.go")],
  ["sms.Unmarshal", "sms.Decode", "Collector.Collect"])

p("C07", "The collector returns each message once, complete, ordered, unmixed",
  "For every sequence of received TPDUs, a single-part TPDU is returned at once, and a multi-part message is returned exactly when its last missing segment arrives, as all its segments in order, never mixing segments that differ in TPDU type, peer address, reference or segment count. A repeated segment, a segment number outside its total, and a concatenated TPDU of a type that cannot be reassembled are refused with the documented error and leave everything held unchanged, and the held-segments snapshot always shows exactly the segments accepted and not yet returned and is not altered by later activity.",
  ["histories", "inputs"], "all histories of segments of interleaved messages, in any order, with duplicates and malformed concatenation headers",
  "Tests play one fixed history; correctness depends on arrival order and on collisions between messages.",
  ["collect.go", "encoding/tpdu/userdata.go"],
  [("reassembly pipes keyed by type, address, reference and count", "collect.go:Collect,pduKey"), ("snapshot", "collect.go:Pipes")],
  ["Collector.Collect", "Collector.Pipes"],
  [dict(name="pipes", meaning="segments held per incomplete message", where="collect.go:Collector")])

p("C08", "An incomplete reassembly expires exactly once, on time",
  "With a reassembly timeout, a set of segments that stays incomplete for that long after its most recently accepted segment is removed and handed to the expiry handler exactly once with exactly the segments collected in their places; a completed set is never also expired, refused segments do not postpone expiry, and a later segment of an expired message starts a new set. A zero timeout disables expiry, a missing handler just discards, and after the collector is closed every further segment is refused with the closed error and no timeout that had not yet elapsed fires.",
  ["histories", "schedules"], "all histories of collects, refusals, waits and closes under a controlled clock",
  "Tests wait for one real timer; the property is over the relation between all timer expiries and all operations.",
  ["collect.go"],
  [("timer re-arm, stop and cleanup", "collect.go:Collect"), ("shutdown", "collect.go:Close")],
  ["Collector.Collect", "expiry handler", "Collector.Pipes", "Collector.Close"])

p("C09", "A collector shared by goroutines loses, duplicates and mixes nothing",
  "When any number of goroutines feed one collector concurrently, with or without timeouts and concurrent snapshots and closing, every accepted segment ends up in exactly one place - a returned message, an expired set or still held - every returned message is complete and ordered, and there is no data race.",
  ["schedules"], "all interleavings of concurrent collects, snapshots, expiries and close",
  "No existing test uses the collector from more than one goroutine.",
  ["collect.go"],
  [("mutex covering pipes and closed", "collect.go:Collector"), ("timer callback re-checking identity", "collect.go:Collect")],
  ["Collector.Collect", "Collector.Pipes", "expiry handler"])

p("C10", "Concurrent encoding and decoding equals sequential, without races",
  "Encoding, decoding, marshalling and unmarshalling from many goroutines, including through one shared encoder with per-call options or one shared template, gives each call the result it would give alone apart from the reference numbers, and involves no data race even on first use of a character set. The shared encoder's counters never hand the same number to two TPDUs or two segmented messages.",
  ["schedules", "configurations"], "all interleavings of concurrent calls over all character sets and options",
  "No existing test runs these functions concurrently.",
  ["encode.go", "options.go", "encoding/gsm7/charset/charset.go", "encoding/tpdu/tpdu.go", "sms.go"],
  [("atomic counter", "encode.go:Counter"), ("value receiver", "encode.go:Encode"), ("shared tables", "encoding/gsm7/charset/charset.go")],
  ["sms.Encode", "Encoder.Encode", "sms.Decode", "Counter.Count"])

p("C11", "Septet packing is lossless and bit-exact at every alignment",
  "For every septet sequence and every fill of 0 to 6 bits, packing places septet k in bits fill+7k onwards, least significant first, in the minimal number of octets with zero padding, and unpacking returns the original septets, except that a final 7 bits of padding may show as one extra zero septet.",
  ["inputs"], "all septet sequences x fill bits 0..6",
  "Tests cover short constants with a few alignments.",
  ["encoding/gsm7/7bit.go"],
  [("bit packing", "encoding/gsm7/7bit.go:Pack7Bit,Unpack7Bit")],
  ["gsm7.Pack7Bit", "gsm7.Unpack7Bit"])

p("C12", "USSD packing is lossless apart from the documented trailing CR",
  "For every septet sequence and fill, USSD packing equals plain packing plus a CR filler exactly when 7 bits would be unused, or an extra CR exactly when the sequence ends in CR on an octet boundary. USSD unpacking returns the original septets, except that a sequence whose own last two septets are both CR with the first of them ending on an octet boundary loses one.",
  ["inputs"], "all septet sequences x fill bits 0..6",
  "The rule depends on length modulo 8, fill and last septet value together; tests sample a dozen.",
  ["encoding/gsm7/7bit.go"],
  [("CR filler", "encoding/gsm7/7bit.go:Pack7BitUSSD,Unpack7BitUSSD")],
  ["gsm7.Pack7BitUSSD", "gsm7.Unpack7BitUSSD"])

p("C13", "GSM character sets match 3GPP 23.038 and are invertible",
  "Every locking and shift table maps each septet to the character 3GPP TS 23.038 assigns, unknown languages use the default tables, and for every text and language choice GSM encoding either succeeds with septets that decode, under the same choice, to exactly that text or fails because some character is in neither table. Decoding is total: an unmapped septet becomes a space, or an error in strict mode, an escaped septet absent from the shift table falls back to the locking table, and escape followed by escape or by nothing is a space.",
  ["inputs", "configurations"], "all 14x2 tables entry by entry, all texts and all septet strings x language pairs x strictness",
  "Tests spot-check table entries and decode a few strings.",
  ["encoding/gsm7/gsm7.go", "encoding/gsm7/charset/charset.go", "encoding/gsm7/charset/default.go", "encoding/gsm7/charset/turkish.go", "encoding/gsm7/charset/urdu.go", "encoding/gsm7/charset/hindi.go"],
  [("tables", "encoding/gsm7/charset/*.go"), ("escape handling", "encoding/gsm7/gsm7.go:Decode,Encode")],
  ["gsm7.Encode", "gsm7.Decode", "charset.NewDecoder", "charset.NewEncoder"])

p("C14", "UCS-2 conversion is exact UTF-16BE and rejoins split pairs",
  "Encoding any sequence of Unicode characters gives its big-endian UTF-16 and decoding restores it; an odd length is refused, an unpaired surrogate inside the text becomes one replacement character without disturbing its neighbours, and one at the very end is reported with the text before it. When a sender splits a surrogate pair across two segments, decoding the segments together restores the character.",
  ["inputs"], "all rune sequences, all octet strings, all even split points",
  "Tests use two strings and one dangling surrogate.",
  ["encoding/ucs2/ucs2.go", "sms.go"],
  [("surrogate handling", "encoding/ucs2/ucs2.go:Decode"), ("dangling surrogate carry", "sms.go:Decode")],
  ["ucs2.Encode", "ucs2.Decode", "sms.Decode"])

p("C15", "Addresses round-trip and reject what they cannot carry",
  "Every address made of the digits 0-9*#abc, or of GSM default-alphabet text for alphanumeric type, with any numbering plan, marshals to the 3GPP form (digit count, type octet, swapped semi-octets or packed septets) and unmarshals to the same address having consumed exactly its own octets whatever follows. Any other character, or a length beyond the length octet, is refused, and a number given with or without leading plus reads back as international.",
  ["inputs"], "all address strings x types of number x numbering plans x trailing octets",
  "Length parity, septet/semi-octet rounding and type interact; tests pick several numbers.",
  ["encoding/tpdu/address.go", "encoding/semioctet/semioctet.go"],
  [("semi-octet or septet address", "encoding/tpdu/address.go:MarshalBinary,UnmarshalBinary")],
  ["Address.MarshalBinary", "Address.UnmarshalBinary", "sms.To", "sms.From"])

p("C16", "Timestamps keep instant and zone",
  "Every whole-second time from 1970 to 2069 in a zone of whole quarter hours within +-19:45 marshals to 7 swapped-BCD octets with the sign in the zone octet and unmarshals to the same local fields and the same zone offset, hence the same instant. A zone beyond that, octets that are not BCD digits and inputs shorter than 7 octets are refused.",
  ["inputs"], "all representable timestamps and all 7-octet strings",
  "Tests have a few instants and one or two zones.",
  ["encoding/tpdu/timestamp.go", "encoding/bcd/bcd.go"],
  [("BCD fields and signed zone", "encoding/tpdu/timestamp.go")],
  ["Timestamp.MarshalBinary", "Timestamp.UnmarshalBinary"])

p("C17", "Validity periods round-trip and never round up past the request",
  "Each of the 256 relative octets decodes to its 3GPP duration and encodes back to itself, and any duration encodes, as relative octet, seconds or hh:mm:ss, to the largest representable one not exceeding it, or the smallest when none is. Enhanced periods in each of these forms, with their indicator octet, and absolute periods restore the same duration or time in exactly 7 octets; a reserved enhanced format, non-BCD or non-zero filler is refused.",
  ["inputs"], "all durations, indicator octets, absolute times and 7-octet strings",
  "Scale boundaries and rounding are sampled at one point per scale.",
  ["encoding/tpdu/validityperiod.go"],
  [("relative scale", "encoding/tpdu/validityperiod.go:durationToRelative,relativeToDuration"), ("enhanced formats", "encoding/tpdu/validityperiod.go")],
  ["ValidityPeriod.MarshalBinary", "ValidityPeriod.UnmarshalBinary"])

p("C18", "Coding scheme reads and updates agree with 3GPP 23.038",
  "For each of the 256 coding scheme values, the alphabet, message class and compression reported are those of 3GPP TS 23.038 and reserved groups are reported invalid. Setting an alphabet or a class either yields a value that reads back exactly that and leaves the other's meaning and all unrelated bits unchanged, or is refused leaving the value as it was.",
  ["inputs", "configurations"], "256 values x alphabets x classes",
  "Tests enumerate reads from the same bit tests as the code; update/read interplay is not enumerated.",
  ["encoding/tpdu/dcs.go"],
  [("bit groups", "encoding/tpdu/dcs.go")],
  ["DCS.Alphabet", "DCS.WithAlphabet", "DCS.Class", "DCS.WithClass", "DCS.Compressed"])

p("C19", "User data headers round-trip and stay within their length",
  "Every list of information elements that fits the one-octet lengths marshals to length, then identifier, size and data of each element in order, and unmarshals to the same list, consuming exactly the header whatever follows; a header or element that overruns the stated header length is refused. Looking up an identifier finds its last element and listing finds all in order, and concatenation details are those of the last well-sized 8-bit element, else 16-bit element, else none.",
  ["inputs"], "all element lists, all header octet strings and all trailing data",
  "Overruns into the following message and repeated elements are combinatorial.",
  ["encoding/tpdu/userdata.go"],
  [("IE parsing", "encoding/tpdu/userdata.go:UserDataHeader.UnmarshalBinary"), ("lookup", "encoding/tpdu/userdata.go:IE,IEs,ConcatInfo")],
  ["UserDataHeader.MarshalBinary", "UserDataHeader.UnmarshalBinary", "UserDataHeader.IE", "UserDataHeader.ConcatInfo"])

p("C20", "Modem PDU mode round-trips in binary and hex",
  "For every service-centre number (possibly none) and TPDU octets, the PDU-mode form is the length-prefixed service-centre address followed by the unmodified TPDU, in binary and in hexadecimal of either case, and parsing it restores both. Any input is parsed or rejected without a panic: truncated addresses, non-hex text, odd-length hex and addresses with invalid digits or beyond the length octet are refused.",
  ["inputs"], "all SMSC addresses x TPDU payloads x arbitrary strings",
  "Tests have a handful of constants.",
  ["encoding/pdumode/pdu.go", "encoding/pdumode/smscaddress.go"],
  [("octet-length SMSC address", "encoding/pdumode/smscaddress.go"), ("hex", "encoding/pdumode/pdu.go")],
  ["pdumode.PDU.MarshalBinary", "pdumode.PDU.MarshalHexString", "pdumode.UnmarshalBinary", "pdumode.UnmarshalHexString"])

p("C21", "Message and concatenation references advance correctly",
  "Over any sequence of messages sent through one encoder, TPDUs carry consecutive message references modulo 256 in the order produced, each segmented message takes exactly one new concatenation reference modulo 256 shared by all its segments while unsegmented messages take none, and the counters read the totals. One-off encoding starts both from 1, and failed or empty encodings take no concatenation reference.",
  ["histories"], "all sequences of encodes, mixing sizes, alphabets, failures and per-call options",
  "Tests encode at most a couple of messages per encoder; wrap-around and mixed histories are not reached.",
  ["encode.go", "encoding/tpdu/tpdu.go"],
  [("counters", "encode.go:Counter"), ("MR and concat reference assignment", "encoding/tpdu/tpdu.go:Segment")],
  ["Encoder.Encode", "Encoder.MsgCount", "Encoder.ConcatRef"])

p("C22", "Calls do not modify their inputs or leak state between calls",
  "Encoding, segmenting, marshalling, decoding and collecting never modify the message, template, header, segments or any caller memory adjoining them, and unmarshalled TPDUs do not change when the source buffer is later reused. Unmarshalling into a value that held another gives the same as into a new one. Encoding through a used encoder gives the same TPDUs as a fresh one apart from reference numbers, per-call options affect only that call, and decoding the same segments twice gives the same result.",
  ["inputs", "histories"], "all inputs with spare slice capacity and shared backing arrays, all sequences of calls",
  "Tests never reuse buffers with spare capacity or compare inputs before and after.",
  ["encoding/tpdu/tpdu.go", "encode.go", "sms.go", "options.go"],
  [("copying appends", "encoding/tpdu/tpdu.go:Segment, sms.go:Decode, encode.go:Encode")],
  ["TPDU.Segment", "sms.Decode", "Encoder.Encode", "sms.Unmarshal"])

p("C23", "Completeness test accepts exactly complete ordered messages",
  "A set of TPDUs is reported complete if and only if it is a single unsegmented TPDU or consists of all segments of one concatenation reference, each present once and in order with the same total. Multi-part sets returned by the collector are always reported complete; any omission, repetition, swap or foreign segment makes a multi-part set incomplete.",
  ["inputs", "histories"], "all segment lists and all single edits of complete ones",
  "Tests check about ten lists.",
  ["sms.go"],
  [("consistency scan", "sms.go:IsCompleteMessage")],
  ["sms.IsCompleteMessage"])

p("C24", "Command-line tools agree with the library and each other",
  "For every message and number, the PDUs printed by smssubmit are those of the library, smsdecode shows their fields and octets, smsdeliver given the PDUs of a delivered message in any order, among others that cannot be decoded, prints sender and text once, charsets shows every language's tables as specified, and smscounter reports the true number of messages, alphabet and remaining room: that many more characters still fit and one more does not. Any arguments end in output or an error message, never in a crash.",
  ["inputs", "configurations"], "all messages, numbers, languages and hex arguments",
  "smsdeliver, smssubmit and charsets have no tests; the others a few cases.",
  ["cmd/smssubmit/smssubmit.go", "cmd/smsdeliver/smsdeliver.go", "cmd/smsdecode/smsdecode.go", "cmd/smscounter/smscounter.go", "cmd/charsets/charsets.go"],
  [("tools", "cmd/*")],
  ["stdout", "exit status"])

p("C25", "BCD and semi-octet primitives are exact inverses on their domains",
  "Integers 0..99 and -79..79 encode to swapped BCD octets and decode back, every other integer and every octet with a non-decimal digit is refused. Semi-octet encoding of any string over 0-9*#abc, padded with a fill nibble when odd, decodes to the same string with the right number of octets consumed; other characters are refused, as is a missing fill where the requested digit count is odd.",
  ["inputs"], "all integers, octets, digit strings and octet strings x destination sizes",
  "Tests sample values; the domain is enumerable or unbounded.",
  ["encoding/bcd/bcd.go", "encoding/semioctet/semioctet.go"],
  [("BCD", "encoding/bcd/bcd.go"), ("semi-octets", "encoding/semioctet/semioctet.go")],
  ["bcd.Encode", "bcd.Decode", "bcd.EncodeSigned", "bcd.DecodeSigned", "semioctet.Encode", "semioctet.Decode"])

p("C26", "Encoded TPDUs preserve everything in the template",
  "Whatever template and template options are given, in any order, every TPDU produced for a message keeps the template's type, direction, flags, addresses, protocol identifier, validity period, timestamps and header elements, changing only the message reference, user data, the alphabet in the coding scheme, and added language and concatenation header elements with the header flag. The marshalled form announces a header exactly when it contains one.",
  ["inputs", "configurations"], "all templates x options x message sizes x alphabets",
  "Tests use near-empty templates; header elements combined with language selection and segmentation are not tested.",
  ["encode.go", "encoding/tpdu/tpdu.go", "encoding/tpdu/options.go", "options.go"],
  [("template copy", "encode.go:Encode"), ("header extension", "encoding/tpdu/tpdu.go:Segment"), ("options", "encoding/tpdu/options.go")],
  ["sms.Encode", "sms.WithTemplate", "sms.WithTemplateOption"])

p("C27", "TPDU field accessors and setters keep fields independent",
  "For every TPDU state, each setter or construction option (type, coding scheme, protocol identifier, validity period, user data, header, addresses, direction) makes its field read back as set and updates the matching presence or flag bits, leaving every other field and flag as it was, and an invalid type is refused without change. Every first octet and parameter indicator value reads as its 3GPP bit fields, and the block size reported is the room left after the header.",
  ["inputs", "histories"], "all first octets and indicators, all sequences of setters",
  "Tests set one field on a zero TPDU; shared bit fields interact over sequences.",
  ["encoding/tpdu/tpdu.go", "encoding/tpdu/firstoctet.go", "encoding/tpdu/parameterindicator.go", "encoding/tpdu/options.go"],
  [("setters", "encoding/tpdu/tpdu.go:Set*"), ("bit fields", "encoding/tpdu/firstoctet.go, encoding/tpdu/parameterindicator.go")],
  ["TPDU.Set*", "FirstOctet accessors", "PI accessors", "TPDU.UDBlockSize"])

p("C28", "Decoding honours the announced and the permitted character sets",
  "Decoding a 7-bit TPDU uses exactly the locking and shift tables its header names, in the elements that the standard assigns to them, when they are permitted and the default table for each one that is not permitted or not known; by default all are permitted, and permitting character sets, locking only, shift only, all or none affects only the tables named. The language applies to that segment alone, so segments of one message may differ in language and alphabet.",
  ["inputs", "configurations"], "all septet strings x header language elements x decode options x mixed segment lists",
  "Tests decode a few languages with matching options.",
  ["sms.go", "options.go", "encoding/tpdu/userdata.go"],
  [("charset selection at decode", "encoding/tpdu/userdata.go:DecodeUserData"), ("default policy", "sms.go:Decode")],
  ["sms.Decode", "tpdu.DecodeUserData"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P))
