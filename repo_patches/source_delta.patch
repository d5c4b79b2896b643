From b92f8e1a207223cb2466021e6baaa111cbff0413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:08 +0000
Subject: [PATCH 01/31] fix: Collect rejects unsupported SMS types without
 buffering them

A concatenated TPDU that is neither SUBMIT nor DELIVER was stored in a shared
pipe despite the error, mixing unrelated messages and panicking when their
segment counts differed.
---
 collect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collect.go b/collect.go
index 445585e..ca35b0b 100644
--- a/collect.go
+++ b/collect.go
@@ -107,6 +107,9 @@ func (c *Collector) Collect(pdu tpdu.TPDU) (d []*tpdu.TPDU, err error) {
 		return nil, ErrReassemblyInconsistency
 	}
 	key, err := pduKey(pdu, segments, concatRef)
+	if err != nil {
+		return nil, err
+	}
 	p, ok := c.pipes[key]
 	if ok {
 		if p.segments[seqno-1] != nil {
-- 
2.43.0


From c44124b248124509213c45760c509e6040f74414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:10 +0000
Subject: [PATCH 02/31] fix: Pipes returns a snapshot rather than the live
 reassembly buffers

---
 collect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collect.go b/collect.go
index ca35b0b..591e674 100644
--- a/collect.go
+++ b/collect.go
@@ -82,7 +82,7 @@ func (c *Collector) Pipes() map[string][]*tpdu.TPDU {
 	c.Lock()
 	m := map[string][]*tpdu.TPDU{}
 	for k, v := range c.pipes {
-		m[k] = v.segments
+		m[k] = append([]*tpdu.TPDU(nil), v.segments...)
 	}
 	c.Unlock()
 	return m
-- 
2.43.0


From dc7a2d359ca828666d4b03694a547614c197bce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:12 +0000
Subject: [PATCH 03/31] fix: do not encode U+001B as a GSM7 escape septet

It would combine with the following character, or decode to a space, so the
text did not survive the round trip. Such text now falls back to UCS-2.
---
 encoding/gsm7/gsm7.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding/gsm7/gsm7.go b/encoding/gsm7/gsm7.go
index 25e77d6..c81be41 100644
--- a/encoding/gsm7/gsm7.go
+++ b/encoding/gsm7/gsm7.go
@@ -218,6 +218,10 @@ func (e *Encoder) Encode(src []byte) ([]byte, error) {
 	}
 	dst := make([]byte, 0, len(src))
 	for _, u := range string(src) {
+		if u == rune(esc) {
+			// the escape septet does not represent a character
+			return nil, ErrInvalidUTF8(u)
+		}
 		g, ok := e.set[u]
 		if ok {
 			dst = append(dst, g)
-- 
2.43.0


From 211075489e30f90f62bfb7618903b8ec3213c6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 04/31] fix: reject information elements that overrun the user
 data header

The element data was only bounded by the user data, so an element could take
in octets of the message that followed the header.
---
 encoding/tpdu/userdata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/userdata.go b/encoding/tpdu/userdata.go
index de19912..60fd1f1 100644
--- a/encoding/tpdu/userdata.go
+++ b/encoding/tpdu/userdata.go
@@ -85,7 +85,7 @@ func (udh *UserDataHeader) UnmarshalBinary(src []byte) (int, error) {
 		ri++
 		iedl := int(src[ri])
 		ri++
-		if len(src) < ri+iedl {
+		if udhl < ri+iedl {
 			return ri, NewDecodeError("ied", ri, ErrUnderflow)
 		}
 		ie.Data = append([]byte(nil), src[ri:ri+iedl]...)
-- 
2.43.0


From 30450a7a789e9f5e7e0db8361a77e6251f9227af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:16 +0000
Subject: [PATCH 05/31] fix: encode a 5 minute relative validity period as 5
 minutes, not 10

---
 encoding/tpdu/validityperiod.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/validityperiod.go b/encoding/tpdu/validityperiod.go
index e0dce80..f983bb8 100644
--- a/encoding/tpdu/validityperiod.go
+++ b/encoding/tpdu/validityperiod.go
@@ -215,7 +215,7 @@ func durationToRelative(d time.Duration) byte {
 	switch {
 	case d < time.Hour*12:
 		t := byte(d / (time.Minute * 5))
-		if t > 1 {
+		if t > 0 {
 			t--
 		}
 		return t
-- 
2.43.0


From 47605b3e462468f8dd79a8b412def3831da97b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:19 +0000
Subject: [PATCH 06/31] fix: WithUDH sets the UDHI flag

Without it the marshalled TPDU contained a header that it did not announce, so
the receiver took the header for message text.
---
 encoding/tpdu/options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/options.go b/encoding/tpdu/options.go
index d1956f9..c7a6557 100644
--- a/encoding/tpdu/options.go
+++ b/encoding/tpdu/options.go
@@ -48,7 +48,7 @@ type UDHOption struct {
 
 // ApplyTPDUOption applies the UDH to the TPDU.
 func (o UDHOption) ApplyTPDUOption(t *TPDU) error {
-	t.UDH = o.udh
+	t.SetUDH(o.udh)
 	return nil
 }
 
-- 
2.43.0


From 4519a596b3b9dd4556dcc27c8f3d5f357c62ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:20 +0000
Subject: [PATCH 07/31] fix: keep the template UDH when a language header is
 added

---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 63e9d05..cfb354c 100644
--- a/encode.go
+++ b/encode.go
@@ -107,7 +107,7 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 			e.pdu.SetDCS(byte(dcs))
 		}
 		if udh != nil {
-			e.pdu.SetUDH(append(e.pdu.UDH[:0:0], udh...))
+			e.pdu.SetUDH(append(append(e.pdu.UDH[:0:0], e.pdu.UDH...), udh...))
 		}
 		return e.pdu.Segment(d, sopts...), nil
 	}
-- 
2.43.0


From cc3c8a07a320a3b5a823549ec239a80446c037cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:23 +0000
Subject: [PATCH 08/31] fix: Segment does not write into spare capacity of the
 template UDH

---
 encoding/tpdu/tpdu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index b6ca697..5ea7a6b 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -204,7 +204,7 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 		return []TPDU{t}
 	}
 	// add contcat IE and recalc bs
-	t.SetUDH(append(t.UDH, cfg.ief(0, 0, 0)))
+	t.SetUDH(append(t.UDH[:len(t.UDH):len(t.UDH)], cfg.ief(0, 0, 0)))
 	bs = t.UDBlockSize()
 	t.UDH = t.UDH[:len(t.UDH)-1]
 	alpha, _ := t.Alphabet()
-- 
2.43.0


From f4562952181b9b6c1e9379455a096b6d1ac353e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:38 +0000
Subject: [PATCH 09/31] fix: Decode does not write beyond the UD of a segment
 ending in half a surrogate pair

---
 sms.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sms.go b/sms.go
index 8deb5cd..d5fcbcd 100644
--- a/sms.go
+++ b/sms.go
@@ -35,7 +35,7 @@ func Decode(segments []*tpdu.TPDU, options ...DecodeOption) ([]byte, error) {
 		a, _ := s.Alphabet()
 		ud := s.UD
 		if danglingSurrogate != nil {
-			ud = append([]byte(danglingSurrogate), ud...)
+			ud = append(append([]byte(nil), danglingSurrogate...), ud...)
 			danglingSurrogate = nil
 		}
 		d, err := tpdu.DecodeUserData(ud, s.UDH, a, cfg.dopts...)
-- 
2.43.0


From f65a51a391ec25b15d7fd0d313c89e618a6f376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:40 +0000
Subject: [PATCH 10/31] fix: per-call Encode options do not share memory with
 concurrent calls

---
 encode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/encode.go b/encode.go
index cfb354c..4334035 100644
--- a/encode.go
+++ b/encode.go
@@ -87,6 +87,8 @@ func NewEncoder(options ...EncoderOption) *Encoder {
 // For implicit UCS-2 encoding (the fallback with 7-bit fails) the message is
 // assumed to contain UTF-8.
 func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, error) {
+	// clip so options applied here don't write to an array shared with other calls
+	e.eopts = e.eopts[:len(e.eopts):len(e.eopts)]
 	for _, option := range options {
 		option.ApplyEncoderOption(&e)
 	}
-- 
2.43.0


From 092e7b7409f166720d63dbfa8316cb289af96c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:42 +0000
Subject: [PATCH 11/31] fix: a lone surrogate does not swallow the character
 that follows it

---
 encoding/ucs2/ucs2.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encoding/ucs2/ucs2.go b/encoding/ucs2/ucs2.go
index 8ecc83c..c9cd6a6 100644
--- a/encoding/ucs2/ucs2.go
+++ b/encoding/ucs2/ucs2.go
@@ -9,6 +9,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"unicode"
 	"unicode/utf16"
 )
 
@@ -31,9 +32,12 @@ func Decode(src []byte) ([]rune, error) {
 			if ri >= len(src)-3 {
 				return dst, ErrDanglingSurrogate(src[ri:])
 			}
-			ri += 2
-			r2 := rune(binary.BigEndian.Uint16(src[ri:]))
+			r2 := rune(binary.BigEndian.Uint16(src[ri+2:]))
 			r = utf16.DecodeRune(r, r2)
+			if r != unicode.ReplacementChar {
+				// a valid pair, rather than a lone surrogate
+				ri += 2
+			}
 		}
 		dst = append(dst, r)
 	}
-- 
2.43.0


From 787226f14d67261fbb2b42a9a373404b79349b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:45 +0000
Subject: [PATCH 12/31] fix: USSD packing adds and removes the CR filler only
 where bits are unused

---
 encoding/gsm7/7bit.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/encoding/gsm7/7bit.go b/encoding/gsm7/7bit.go
index 986e099..e3ea5e0 100644
--- a/encoding/gsm7/7bit.go
+++ b/encoding/gsm7/7bit.go
@@ -91,9 +91,11 @@ func Pack7BitUSSD(u []byte, fillBits int) []byte {
 		return append(b[:0:0], b...)
 	}
 	last := len(b) - 1
-	if b[last]&^0x1 == 0 && u[len(u)-1] != 0 {
+	switch used := (len(u)*7 + fillBits) & 0x7; {
+	case used == 1:
+		// 7 bits unused
 		b[last] = b[last] | (cr << 1)
-	} else if len(u)&0x7 == 0 && u[len(u)-1] == cr {
+	case used == 0 && u[len(u)-1] == cr:
 		b = append(b, cr)
 	}
 	return b
@@ -111,8 +113,13 @@ func Pack7BitUSSD(u []byte, fillBits int) []byte {
 func Unpack7BitUSSD(p []byte, fillBits int) []byte {
 	u := Unpack7Bit(p, fillBits)
 	// remove any trailing filler
-	if len(p) > 1 && ((p[len(p)-1]>>1 == cr) || (p[len(p)-1] == cr && p[len(p)-2]>>1 == cr)) {
-		u = u[:len(u)-1]
+	last := len(u) - 1
+	if last < 1 || u[last] != cr {
+		return u
+	}
+	unused := (len(p)*8 - fillBits) % 7
+	if unused == 0 || (unused == 1 && u[last-1] == cr) {
+		u = u[:last]
 	}
 	return u
 }
-- 
2.43.0


From 13faebf92662b20e11a4474a24076684cc90e1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:49 +0000
Subject: [PATCH 13/31] fix: generate character set tables up front rather than
 racing to on first use

---
 encoding/gsm7/charset/charset.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/encoding/gsm7/charset/charset.go b/encoding/gsm7/charset/charset.go
index 7e1f675..45ad279 100644
--- a/encoding/gsm7/charset/charset.go
+++ b/encoding/gsm7/charset/charset.go
@@ -5,6 +5,25 @@
 // Package charset provides encoders and decoders for GSM character sets.
 package charset
 
+// Generate all the tables up front so that lookups are read only, and so are
+// safe for concurrent use.
+func init() {
+	defaultDecoder = generateDefaultDecoder()
+	defaultEncoder = generateDefaultEncoder()
+	defaultExtEncoder = generateDefaultExtEncoder()
+	for _, di := range decoder {
+		if *di.e == nil {
+			*di.e = di.g()
+		}
+	}
+	for _, ei := range encoder {
+		*ei.e = ei.g()
+	}
+	for _, ei := range extEncoder {
+		*ei.e = ei.g()
+	}
+}
+
 // DefaultDecoder returns the default mapping table from GSM7 to UTF8.
 func DefaultDecoder() Decoder {
 	if defaultDecoder == nil {
-- 
2.43.0


From 5352b1ed09d5d86a58434450e913f190a7b6d588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 14/31] fix: refuse to encode messages requiring more than 255
 segments

---
 encode.go             | 13 +++++++++++--
 encoding/tpdu/tpdu.go |  9 +++++++++
 error.go              |  3 +++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 4334035..1a0fb82 100644
--- a/encode.go
+++ b/encode.go
@@ -97,7 +97,7 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 	alpha, _ := e.pdu.DCS.Alphabet()
 	switch alpha {
 	case tpdu.Alpha8Bit, tpdu.AlphaUCS2:
-		return e.pdu.Segment(msg, sopts...), nil
+		return segment(e.pdu, msg, sopts)
 	default:
 		// encode as GSM7, or failing that UCS2...
 		d, udh, alpha := tpdu.EncodeUserData(msg, e.eopts...)
@@ -111,10 +111,19 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 		if udh != nil {
 			e.pdu.SetUDH(append(append(e.pdu.UDH[:0:0], e.pdu.UDH...), udh...))
 		}
-		return e.pdu.Segment(d, sopts...), nil
+		return segment(e.pdu, d, sopts)
 	}
 }
 
+// segment splits the encoded message into TPDUs based on the template.
+func segment(t tpdu.TPDU, d []byte, sopts []tpdu.SegmentationOption) ([]tpdu.TPDU, error) {
+	pdus := t.Segment(d, sopts...)
+	if pdus == nil && len(d) > 0 {
+		return nil, ErrMessageTooLong
+	}
+	return pdus, nil
+}
+
 // Counter is an implementation of the tpdu.Counter interface.
 //
 // It also provides a Read method on the current value for diagnostic purposes.
diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 5ea7a6b..caddd65 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -186,6 +186,9 @@ type SegmentationOption func(*segmentationConfig)
 // the message.  For multi-part messages, the UDH provided in the TPDU is
 // extended with a concatenation IE. The TPDU UDH must not contain a
 // concatenation IE (ID 0 or 8) or the resulting TPDUs will be non-conformant.
+//
+// Returns nil if the message requires more segments than the concatenation IE
+// can describe.
 func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	if len(msg) == 0 {
 		return nil
@@ -210,6 +213,9 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	alpha, _ := t.Alphabet()
 	chunks := chunk(msg, alpha, bs)
 	count := len(chunks)
+	if count > maxSegments {
+		return nil
+	}
 	pdus := make([]TPDU, count)
 	concatRef := 1
 	if cfg.cr != nil {
@@ -966,6 +972,9 @@ func (t *TPDU) encodeUserData() (b []byte, err error) {
 	return b, nil
 }
 
+// maxSegments is the maximum number of segments in a concatenated message.
+const maxSegments = 255
+
 // MaxUDL is the maximum number of octets that can be encoded into the UD.
 // Note that for 7bit encoding this can result in up to 160 septets.
 const MaxUDL = 140
diff --git a/error.go b/error.go
index 375f432..e4aab6d 100644
--- a/error.go
+++ b/error.go
@@ -22,6 +22,9 @@ var (
 	// cannot be used to determine which of the two may better fit the
 	// reassembly, so the first is kept and the second discarded.
 	ErrDuplicateSegment = errors.New("duplicate segment")
+	// ErrMessageTooLong indicates the message requires more segments than can
+	// be described by the concatenation information element (255).
+	ErrMessageTooLong = errors.New("message too long")
 	// ErrReassemblyInconsistency indicates a segment has arrived for a
 	// reassembly that has a seqno greater than the number of segments in the
 	// reassembly.
-- 
2.43.0


From e918b895291d9b224d07d35cc6184d5d9bbd25db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:54 +0000
Subject: [PATCH 15/31] fix: refuse to marshal fields longer than their length
 octet can indicate

---
 encoding/pdumode/smscaddress.go | 3 +++
 encoding/tpdu/address.go        | 3 +++
 encoding/tpdu/error.go          | 3 ++-
 encoding/tpdu/tpdu.go           | 7 ++++++-
 encoding/tpdu/userdata.go       | 4 ++++
 5 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/encoding/pdumode/smscaddress.go b/encoding/pdumode/smscaddress.go
index 6e7595f..08a6154 100644
--- a/encoding/pdumode/smscaddress.go
+++ b/encoding/pdumode/smscaddress.go
@@ -33,6 +33,9 @@ func (a *SMSCAddress) MarshalBinary() (dst []byte, err error) {
 		return []byte{0}, nil
 	}
 	l := len(addr) + 1 // in octets and includes the toa
+	if l > 255 {
+		return nil, tpdu.EncodeError("addr", tpdu.ErrOverlength)
+	}
 	dst = make([]byte, 2, l+1)
 	dst[0] = byte(l)
 	dst[1] = a.TOA
diff --git a/encoding/tpdu/address.go b/encoding/tpdu/address.go
index 0f210df..fc07252 100644
--- a/encoding/tpdu/address.go
+++ b/encoding/tpdu/address.go
@@ -64,6 +64,9 @@ func (a *Address) MarshalBinary() (dst []byte, err error) {
 		}
 		l = len(a.Addr)
 	}
+	if l > 255 {
+		return nil, EncodeError("addr", ErrOverlength)
+	}
 	dst = make([]byte, 0, l+2)
 	dst = append(dst, byte(l), a.TOA)
 	dst = append(dst, addr...)
diff --git a/encoding/tpdu/error.go b/encoding/tpdu/error.go
index b5d655e..92dee3c 100644
--- a/encoding/tpdu/error.go
+++ b/encoding/tpdu/error.go
@@ -78,7 +78,8 @@ var (
 	ErrOddUCS2Length = errors.New("odd UCS2 length")
 
 	// ErrOverlength indicates the binary provided contains more bytes than
-	// expected by the TPDU decoder.
+	// expected by the TPDU decoder, or that a field provided to an encoder is
+	// longer than its encoded length can indicate.
 	ErrOverlength = errors.New("overlength")
 
 	// ErrMissing indicates a field requiored to marshal an object is missing.
diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index caddd65..7913f93 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -412,6 +412,9 @@ func (t *TPDU) marshalCommand() ([]byte, error) {
 		return nil, EncodeError("da", err)
 	}
 	cdl := len(t.UD)
+	if cdl > 255 {
+		return nil, EncodeError("cd", ErrOverlength)
+	}
 	l := 6 + len(da) + cdl
 	b := make([]byte, 0, l)
 	b = append(b, byte(t.FirstOctet), t.MR, t.PID, t.CT, t.MN)
@@ -934,7 +937,6 @@ func decode7Bit(sml, udhl int, src []byte) ([]byte, error) {
 func (t *TPDU) encodeUserData() (b []byte, err error) {
 	udh, err := t.UDH.MarshalBinary()
 	if err != nil {
-		// never trips as UDH marshalling never fails...
 		return nil, EncodeError("udh", err)
 	}
 	ud := t.UD
@@ -965,6 +967,9 @@ func (t *TPDU) encodeUserData() (b []byte, err error) {
 		// udl is in octets
 		udl = udl + len(udh)
 	}
+	if udl > 255 {
+		return nil, EncodeError("sm", ErrOverlength)
+	}
 	b = make([]byte, 0, 1+len(udh)+len(ud))
 	b = append(b, byte(udl))
 	b = append(b, udh...)
diff --git a/encoding/tpdu/userdata.go b/encoding/tpdu/userdata.go
index 60fd1f1..bcdf635 100644
--- a/encoding/tpdu/userdata.go
+++ b/encoding/tpdu/userdata.go
@@ -50,6 +50,10 @@ func (udh UserDataHeader) MarshalBinary() ([]byte, error) {
 		return nil, nil
 	}
 	udhl := udh.UDHL()
+	if udhl > 255 {
+		// also covers the length of the IE data
+		return nil, EncodeError("udhl", ErrOverlength)
+	}
 	b := make([]byte, 0, udhl+1)
 	b = append(b, byte(udhl))
 	for _, ie := range udh {
-- 
2.43.0


From 8a63be902e17d83afb0b1200d4e6420467456fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:57 +0000
Subject: [PATCH 16/31] fix: marshal the UDH of a SMS-COMMAND

---
 encoding/tpdu/tpdu.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 7913f93..1faba2b 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -411,7 +411,11 @@ func (t *TPDU) marshalCommand() ([]byte, error) {
 	if err != nil {
 		return nil, EncodeError("da", err)
 	}
-	cdl := len(t.UD)
+	udh, err := t.UDH.MarshalBinary()
+	if err != nil {
+		return nil, EncodeError("udh", err)
+	}
+	cdl := len(udh) + len(t.UD)
 	if cdl > 255 {
 		return nil, EncodeError("cd", ErrOverlength)
 	}
@@ -420,6 +424,7 @@ func (t *TPDU) marshalCommand() ([]byte, error) {
 	b = append(b, byte(t.FirstOctet), t.MR, t.PID, t.CT, t.MN)
 	b = append(b, da...)
 	b = append(b, byte(cdl))
+	b = append(b, udh...)
 	b = append(b, t.UD...)
 	return b, nil
 }
-- 
2.43.0


From c9bbf4563cf7c3a27935863c07a30ae05f795a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:59 +0000
Subject: [PATCH 17/31] fix: reject octets following a zero length UD

---
 encoding/tpdu/tpdu.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 1faba2b..13f6309 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -850,6 +850,9 @@ func (t *TPDU) decodeUserData(src []byte) error {
 	}
 	udl := int(src[0])
 	if udl == 0 {
+		if len(src) > 1 {
+			return NewDecodeError("ud", 1, ErrOverlength)
+		}
 		return nil
 	}
 	var udh UserDataHeader
-- 
2.43.0


From 4d9421efff7444cae8cdd127b165e9e3d98d37a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:32 +0000
Subject: [PATCH 18/31] fix: marshal the UDHL of a flagged but empty UDH

---
 encoding/tpdu/tpdu.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 13f6309..251d505 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -351,14 +351,14 @@ func (t *TPDU) UDBlockSize() int {
 	if alpha == Alpha7Bit {
 		// work in septets
 		bs = (bs * 8) / 7
-		if udhl == 0 {
+		if udhl == 0 && !t.UDHI() {
 			return bs
 		}
 		// remove septets used by UDH, including UDHL and fill bits
 		bs -= ((udhl+1)*8 + 6) / 7
 		return bs
 	}
-	if udhl > 0 {
+	if udhl > 0 || t.UDHI() {
 		bs -= (udhl + 1)
 	}
 	if alpha == AlphaUCS2 {
@@ -411,7 +411,7 @@ func (t *TPDU) marshalCommand() ([]byte, error) {
 	if err != nil {
 		return nil, EncodeError("da", err)
 	}
-	udh, err := t.UDH.MarshalBinary()
+	udh, err := t.marshalUDH()
 	if err != nil {
 		return nil, EncodeError("udh", err)
 	}
@@ -934,6 +934,17 @@ func decode7Bit(sml, udhl int, src []byte) ([]byte, error) {
 	return sm, nil
 }
 
+// marshalUDH marshals the User Data Header into binary.
+//
+// A header which is flagged as present, but which contains no IEs, is
+// marshalled as a bare UDHL.
+func (t *TPDU) marshalUDH() ([]byte, error) {
+	if len(t.UDH) == 0 && t.UDHI() {
+		return []byte{0}, nil
+	}
+	return t.UDH.MarshalBinary()
+}
+
 // encodeUserData marshals the User Data into binary.
 //
 // The User Data Header is also encoded if present.
@@ -943,7 +954,7 @@ func decode7Bit(sml, udhl int, src []byte) ([]byte, error) {
 // No checks of encoded size are performed here as that depends on concrete
 // TPDU type, and that can check the length of the returned b.
 func (t *TPDU) encodeUserData() (b []byte, err error) {
-	udh, err := t.UDH.MarshalBinary()
+	udh, err := t.marshalUDH()
 	if err != nil {
 		return nil, EncodeError("udh", err)
 	}
-- 
2.43.0


From d292612520231a8651ea39240fbc7d2500d6116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:36 +0000
Subject: [PATCH 19/31] fix: allow WithAllCharsets to be passed to Decode as
 documented

---
 options.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/options.go b/options.go
index 744f7f6..b9e87ed 100644
--- a/options.go
+++ b/options.go
@@ -92,7 +92,8 @@ func From(number string) EncoderOption {
 	return templateOption{tpdu.WithOA(addr)}
 }
 
-// AllCharsetsOption specifies that all charactersets are available for encoding.
+// AllCharsetsOption specifies that all charactersets are available for
+// encoding or decoding.
 type AllCharsetsOption struct{}
 
 // ApplyEncoderOption applies the AllCharsetsOption to an Encoder.
@@ -100,6 +101,11 @@ func (o AllCharsetsOption) ApplyEncoderOption(e *Encoder) {
 	e.eopts = append(e.eopts, tpdu.WithAllCharsets)
 }
 
+// ApplyDecodeOption applies the AllCharsetsOption to decoding.
+func (o AllCharsetsOption) ApplyDecodeOption(cc *DecodeConfig) {
+	cc.dopts = append(cc.dopts, tpdu.WithAllCharsets)
+}
+
 // WithCharset creates an CharsetOption.
 func WithCharset(nli ...int) CharsetOption {
 	return CharsetOption{nli}
-- 
2.43.0


From e8ca926027bd6e556a646798bbc08f9e8f9f6f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 20/31] fix: smssubmit reports PDUs that cannot be marshalled

---
 cmd/smssubmit/smssubmit.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/smssubmit/smssubmit.go b/cmd/smssubmit/smssubmit.go
index 9b56580..9390741 100644
--- a/cmd/smssubmit/smssubmit.go
+++ b/cmd/smssubmit/smssubmit.go
@@ -39,12 +39,18 @@ func main() {
 		return
 	}
 	if len(pdus) == 1 {
-		b, _ := pdus[0].MarshalBinary()
+		b, err := pdus[0].MarshalBinary()
+		if err != nil {
+			log.Fatalln(err)
+		}
 		fmt.Printf("Submit TPDU:\n%s\n", hex.EncodeToString(b))
 		return
 	}
 	for i, p := range pdus {
-		b, _ := p.MarshalBinary()
+		b, err := p.MarshalBinary()
+		if err != nil {
+			log.Fatalln(err)
+		}
 		fmt.Printf("Submit TPDU %d:\n%s\n", i+1, hex.EncodeToString(b))
 	}
 }
-- 
2.43.0


From 6968f5eadaf3c1e368a37fe99194553d32ac04da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 21/31] fix: Segment flags the presence of UD in single segment
 reports

---
 encoding/tpdu/tpdu.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 251d505..945e159 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -200,7 +200,13 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	bs := t.UDBlockSize()
 	if len(msg) <= bs {
 		// single segment
-		t.UD = msg
+		switch t.SmsType() {
+		case SmsDeliverReport, SmsSubmitReport, SmsStatusReport:
+			// UD is optional, so flag that it is present
+			t.SetUD(msg)
+		default:
+			t.UD = msg
+		}
 		if cfg.mr != nil {
 			t.MR = byte(cfg.mr.Count())
 		}
-- 
2.43.0


From f165ef9b9655fda1e352c856cfc6fcf73ca26e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:08 +0000
Subject: [PATCH 22/31] fix: WithAllCharsets adds to, rather than replaces,
 charsets offered earlier

---
 encoding/tpdu/userdata.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/encoding/tpdu/userdata.go b/encoding/tpdu/userdata.go
index bcdf635..7e457a4 100644
--- a/encoding/tpdu/userdata.go
+++ b/encoding/tpdu/userdata.go
@@ -312,11 +312,10 @@ func (o AllCharsetsOption) applyDecodeOption(d udDecodeConfig) udDecodeConfig {
 }
 
 func (o AllCharsetsOption) applyEncodeOption(e udEncodeConfig) udEncodeConfig {
-	e.locking = make([]int, charset.Size)
 	for nli := charset.Start; nli < charset.End; nli++ {
-		e.locking[nli-1] = nli
+		e.locking = append(e.locking, nli)
+		e.shift = append(e.shift, nli)
 	}
-	e.shift = e.locking
 	return e
 }
 
-- 
2.43.0


From df2461dd1548b96743181433e8d418fe65d87807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:23 +0000
Subject: [PATCH 23/31] fix: Hindi locking table uses the Devanagari anusvara
 and visarga

---
 encoding/gsm7/charset/hindi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/gsm7/charset/hindi.go b/encoding/gsm7/charset/hindi.go
index 541b314..8442744 100644
--- a/encoding/gsm7/charset/hindi.go
+++ b/encoding/gsm7/charset/hindi.go
@@ -7,8 +7,8 @@ package charset
 var (
 	hindiDecoder = Decoder{
 		0x00: '\u0981',
-		0x01: '\u0982',
-		0x02: '\u0983',
+		0x01: '\u0902',
+		0x02: '\u0903',
 		0x03: 'अ',
 		0x04: 'आ',
 		0x05: 'इ',
-- 
2.43.0


From af121d4595c3e56c732f146b6441c5cce8bfc011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:28 +0000
Subject: [PATCH 24/31] fix: IsCompleteMessage reports sets with missing
 segments as incomplete

The sets handed to the expiry handler, and those in the Pipes snapshot,
contain a nil for each missing segment, and IsCompleteMessage panicked on
them.
---
 sms.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sms.go b/sms.go
index d5fcbcd..dd5a6af 100644
--- a/sms.go
+++ b/sms.go
@@ -66,6 +66,12 @@ func IsCompleteMessage(segments []*tpdu.TPDU) bool {
 	if len(segments) == 0 {
 		return false
 	}
+	for _, s := range segments {
+		// a segment yet to be collected
+		if s == nil {
+			return false
+		}
+	}
 	baseSegs, _, baseConcatRef, ok := segments[0].ConcatInfo()
 	if !ok {
 		return len(segments) == 1
-- 
2.43.0


From c80a9ff5de8e3baf432219665145679e1315dad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:13 +0000
Subject: [PATCH 25/31] fix: smsdecode shows the user data header of a command

---
 cmd/smsdecode/smsdecode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/smsdecode/smsdecode.go b/cmd/smsdecode/smsdecode.go
index f1c1c46..2957822 100644
--- a/cmd/smsdecode/smsdecode.go
+++ b/cmd/smsdecode/smsdecode.go
@@ -103,6 +103,9 @@ func dumpCommand(w io.Writer, t *tpdu.TPDU) {
 	fmt.Fprintf(w, "TP-DA: %s\n", t.DA.Number())
 	fmt.Fprintf(w, "TP-SCTS: %s\n", t.SCTS)
 	fmt.Fprintf(w, "TP-CDL: %d\n", len(t.UD))
+	if t.UDH != nil {
+		dumpUDH(w, t.UDH)
+	}
 	dumpCD(w, t.UD)
 }
 
-- 
2.43.0


From eee881abd19522b8b2930259ba94bc51657948af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:02 +0000
Subject: [PATCH 26/31] fix: enhanced validity periods beyond 99:59:59, and
 negative durations

Periods of 100 hours and more wrapped round to a short one, and negative
durations to a long one or an error. Use the nearest that can be represented,
as is done for the other formats.
---
 encoding/tpdu/validityperiod.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/validityperiod.go b/encoding/tpdu/validityperiod.go
index f983bb8..3028043 100644
--- a/encoding/tpdu/validityperiod.go
+++ b/encoding/tpdu/validityperiod.go
@@ -66,12 +66,22 @@ func (v *ValidityPeriod) MarshalBinary() ([]byte, error) {
 			dst[1] = durationToRelative(v.Duration)
 		case EvpfRelativeSeconds:
 			secs := v.Duration / time.Second
+			if secs < 0 {
+				secs = 0
+			}
 			if secs > 255 {
 				secs = 255
 			}
 			dst[1] = byte(secs)
 		case EvpfRelativeHHMMSS:
-			f := []int{int(v.Duration.Hours()) % 100, int(v.Duration.Minutes()) % 60, int(v.Duration.Seconds()) % 60}
+			d := v.Duration
+			if d < 0 {
+				d = 0
+			}
+			if d >= 100*time.Hour {
+				d = 100*time.Hour - time.Second
+			}
+			f := []int{int(d / time.Hour), int(d/time.Minute) % 60, int(d/time.Second) % 60}
 			for i, tf := range f {
 				t, err := bcd.Encode(tf)
 				// this should never trip, as the encoded values should always be valid, but just in case...
@@ -213,6 +223,8 @@ const (
 
 func durationToRelative(d time.Duration) byte {
 	switch {
+	case d < 0:
+		return 0
 	case d < time.Hour*12:
 		t := byte(d / (time.Minute * 5))
 		if t > 0 {
-- 
2.43.0


From bdba8ce1f59ae583d03512704347d4d417534faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:05 +0000
Subject: [PATCH 27/31] fix: WithAlphabet and WithClass overflowed into other
 bits of the DCS for values that cannot be set

---
 encoding/tpdu/dcs.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/encoding/tpdu/dcs.go b/encoding/tpdu/dcs.go
index 0317180..8c974fb 100644
--- a/encoding/tpdu/dcs.go
+++ b/encoding/tpdu/dcs.go
@@ -80,8 +80,12 @@ func (d DCS) String() string {
 // WithAlphabet sets the Alphabet bits of the DCS, given the state of the other
 // bits.
 //
-// An error is returned if the state is incompatible with setting the alphabet.
+// An error is returned if the state is incompatible with setting the alphabet,
+// or if the alphabet is not one that can be set.
 func (d DCS) WithAlphabet(a Alphabet) (DCS, error) {
+	if a < Alpha7Bit || a > AlphaReserved {
+		return d, ErrInvalid
+	}
 	switch {
 	case d&0x80 == 0x00: // 0xxx
 		return d&^0x0c | (DCS(a) << 2), nil
@@ -142,8 +146,12 @@ func (d DCS) Class() (MessageClass, error) {
 // other bits.
 //
 // An error is returned if the state is incompatible with setting the message
-// class.
+// class, or if the class is not one that can be set.
 func (d DCS) WithClass(c MessageClass) (DCS, error) {
+	if c < MClass0 || c > MClass3 {
+		// would overflow into the alphabet bits
+		return d, ErrInvalid
+	}
 	switch {
 	case d&0x80 == 0x00: // 0xxx
 		return (d&^0x03 | 0x10 | DCS(c)), nil
-- 
2.43.0


From 97a92ed03e6a64bdfdb0cdc656ae8b7e8d2af2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:41 +0000
Subject: [PATCH 28/31] fix: unmarshalling into a used TPDU or SMSC address
 kept parts of what it held before, such as the text

---
 encoding/pdumode/smscaddress.go | 1 +
 encoding/tpdu/tpdu.go           | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/encoding/pdumode/smscaddress.go b/encoding/pdumode/smscaddress.go
index 08a6154..3a05664 100644
--- a/encoding/pdumode/smscaddress.go
+++ b/encoding/pdumode/smscaddress.go
@@ -53,6 +53,7 @@ func (a *SMSCAddress) UnmarshalBinary(src []byte) (int, error) {
 	}
 	l := int(src[0]) // len is octets including toa
 	if l == 0 {
+		*a = SMSCAddress{}
 		return 1, nil
 	}
 	if len(src) < 2 {
diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 945e159..307aa92 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -583,12 +583,15 @@ func (t *TPDU) marshalSubmitReport() ([]byte, error) {
 
 // UnmarshalBinary unmarshals a SMS TPDU from the corresponding byte array.
 //
+// Any existing contents of the TPDU, other than the Direction, are discarded.
+//
 // In the case of error the TPDU will be partially unmarshalled, up to the
 // point that the decoding error was detected.
 func (t *TPDU) UnmarshalBinary(src []byte) (err error) {
 	if len(src) < 1 {
 		return NewDecodeError("tpdu.firstOctet", 0, ErrUnderflow)
 	}
+	*t = TPDU{Direction: t.Direction}
 	t.FirstOctet = FirstOctet(src[0])
 	st := smsType(t.FirstOctet.MTI(), t.Direction)
 	switch st {
-- 
2.43.0


From 5b3efe18f7b614152273d3a8a934eb9bf396708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:13 +0000
Subject: [PATCH 29/31] fix: segmenting with a template that leaves no room for
 a character panicked or never ended

---
 encoding/tpdu/tpdu.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 307aa92..78dd801 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -188,7 +188,7 @@ type SegmentationOption func(*segmentationConfig)
 // concatenation IE (ID 0 or 8) or the resulting TPDUs will be non-conformant.
 //
 // Returns nil if the message requires more segments than the concatenation IE
-// can describe.
+// can describe, or if the template leaves no room in a segment for a character.
 func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	if len(msg) == 0 {
 		return nil
@@ -219,7 +219,7 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	alpha, _ := t.Alphabet()
 	chunks := chunk(msg, alpha, bs)
 	count := len(chunks)
-	if count > maxSegments {
+	if count == 0 || count > maxSegments {
 		return nil
 	}
 	pdus := make([]TPDU, count)
@@ -1152,7 +1152,12 @@ const (
 )
 
 // chunk splits a message into chunks that are not larger than bs.
+//
+// Returns nil if bs is too small to hold a character.
 func chunk(msg []byte, alpha Alphabet, bs int) [][]byte {
+	if bs < 1 || (bs < 2 && alpha == AlphaUCS2) {
+		return nil
+	}
 	switch alpha {
 	default: // default to 7Bit
 		return chunk7Bit(msg, bs)
@@ -1177,9 +1182,12 @@ func chunk7Bit(msg []byte, bs int) [][]byte {
 	bend := bs
 	for bend < len(msg) {
 		// don't split escapes
-		if msg[bend-1] == esc && msg[bend-2] != esc {
+		if msg[bend-1] == esc && (bend < 2 || msg[bend-2] != esc) {
 			bend--
 		}
+		if bend == bstart {
+			return nil
+		}
 		chunks = append(chunks, msg[bstart:bend])
 		bstart = bend
 		bend = bstart + bs
@@ -1238,6 +1246,9 @@ func chunkUCS2(msg []byte, bs int) [][]byte {
 		if surrHighStart <= r && r < surrLowStart {
 			bend = bend - 2
 		}
+		if bend == bstart {
+			return nil
+		}
 		chunks = append(chunks, msg[bstart:bend])
 		bstart = bend
 		bend = bstart + bs
-- 
2.43.0


From 9caf77f4d3a53e61c56133ef128679e9ac034af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:43 +0000
Subject: [PATCH 30/31] fix: a validity period unmarshalled into one that held
 another kept parts of it

---
 encoding/tpdu/validityperiod.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/validityperiod.go b/encoding/tpdu/validityperiod.go
index 3028043..e18fd2b 100644
--- a/encoding/tpdu/validityperiod.go
+++ b/encoding/tpdu/validityperiod.go
@@ -106,7 +106,7 @@ func (v *ValidityPeriod) MarshalBinary() ([]byte, error) {
 // Returns the number of bytes read from the src, and any error detected during
 // the unmarshalling.
 func (v *ValidityPeriod) UnmarshalBinary(src []byte, vpf ValidityPeriodFormat) (int, error) {
-	v.Format = VpfNotPresent
+	*v = ValidityPeriod{}
 	switch vpf {
 	case VpfAbsolute:
 		t := Timestamp{}
-- 
2.43.0


From 5bfaade9f8adea3195495903b2007d7e9ddbbc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:40 +0000
Subject: [PATCH 31/31] fix: smsdecode left the header out of the length of the
 command data it shows

---
 cmd/smsdecode/smsdecode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/smsdecode/smsdecode.go b/cmd/smsdecode/smsdecode.go
index 2957822..944e261 100644
--- a/cmd/smsdecode/smsdecode.go
+++ b/cmd/smsdecode/smsdecode.go
@@ -102,7 +102,11 @@ func dumpCommand(w io.Writer, t *tpdu.TPDU) {
 	fmt.Fprintf(w, "TP-MN: %d\n", t.MN)
 	fmt.Fprintf(w, "TP-DA: %s\n", t.DA.Number())
 	fmt.Fprintf(w, "TP-SCTS: %s\n", t.SCTS)
-	fmt.Fprintf(w, "TP-CDL: %d\n", len(t.UD))
+	cdl := len(t.UD)
+	if t.UDHI() {
+		cdl += t.UDHL() + 1 // the UDH, including the UDHL
+	}
+	fmt.Fprintf(w, "TP-CDL: %d\n", cdl)
 	if t.UDH != nil {
 		dumpUDH(w, t.UDH)
 	}
-- 
2.43.0

