From b9ab791c214eb255234a3a30262e52b1901657ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 01/26] fix: escape structured data parameter values byte by
 byte

EscapeBytes converted every byte of a multi-byte UTF-8 sequence to a rune
(and dropped the continuation bytes), so that String() corrupted any
non-ASCII parameter value.
---
 common/functions.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/common/functions.go b/common/functions.go
index ce2880c..ea636fb 100644
--- a/common/functions.go
+++ b/common/functions.go
@@ -29,16 +29,17 @@ func RemoveBytes(data []byte, positions []int, offset int) []byte {
 
 // EscapeBytes adds a backslash to \, ], " characters.
 func EscapeBytes(value string) string {
-	res := ""
-	for i, c := range value {
+	res := make([]byte, 0, len(value))
+	for i := 0; i < len(value); i++ {
+		c := value[i]
 		// todo(leodido): generalize byte codes (the function should ideally accept a byte slice containing byte codes to escape)
 		if c == 92 || c == 93 || c == 34 {
-			res += `\`
+			res = append(res, '\\')
 		}
-		res += string(value[i])
+		res = append(res, c)
 	}
 
-	return res
+	return string(res)
 }
 
 // InBetween tells whether value is into [min, max] range.
-- 
2.43.0


From 12a87071c83ddf0350a10b357619c269fa2a714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 02/26] fix: do not share builder state between messages

The element identifier and parameter name being set were package level
variables, hence building independent messages concurrently raced on them:
parameters could end up with the wrong name, in the wrong element, or panic.
---
 rfc5424/builder.go    | 14 +++++++-------
 rfc5424/builder.go.rl | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 4aa3baa..4136b6d 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -61,10 +61,12 @@ func (e entrypoint) translate() int {
 	}
 }
 
-var currentid string
-var currentparamname string
-
 func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
+	return sm.setWithin("", "", from, value)
+}
+
+// setWithin sets the given value knowing the structured data element, and the parameter name, it belongs to (if any).
+func (sm *SyslogMessage) setWithin(currentid string, currentparamname string, from entrypoint, value string) *SyslogMessage {
 	data := []byte(value)
 	p := 0
 	pb := 0
@@ -9330,12 +9332,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
 	if sm.StructuredData != nil {
 		elements := *sm.StructuredData
 		if _, ok := elements[id]; ok {
-			currentid = id
-			sm.set(sdpn, name)
+			sm.setWithin(id, "", sdpn, name)
 			// We can assign parameter value iff the given parameter key exists
 			if _, ok := elements[id][name]; ok {
-				currentparamname = name
-				sm.set(sdpv, value)
+				sm.setWithin(id, name, sdpv, value)
 			}
 		}
 	}
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index 3eaccf2..bebfc0b 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -151,10 +151,12 @@ func (e entrypoint) translate() int {
     }
 }
 
-var currentid string
-var currentparamname string
-
 func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
+    return sm.setWithin("", "", from, value)
+}
+
+// setWithin sets the given value knowing the structured data element, and the parameter name, it belongs to (if any).
+func (sm *SyslogMessage) setWithin(currentid string, currentparamname string, from entrypoint, value string) *SyslogMessage {
     data := []byte(value)
     p := 0
     pb := 0
@@ -233,12 +235,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
     if sm.StructuredData != nil {
         elements := *sm.StructuredData
         if _, ok := elements[id]; ok {
-            currentid = id
-            sm.set(sdpn, name)
+            sm.setWithin(id, "", sdpn, name)
             // We can assign parameter value iff the given parameter key exists
             if _, ok := elements[id][name]; ok {
-                currentparamname = name
-                sm.set(sdpv, value)
+                sm.setWithin(id, name, sdpv, value)
             }
         }
     }
-- 
2.43.0


From fa2d6cbe8e3b273f5c721c6dd253bae883077fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 03/26] fix: do not carry over messages between streams
 (non-transparent)

Reusing a parser for a second stream emitted again the last message of the
previous one, since the candidate (and the last chunk) were never forgotten.
---
 nontransparent/parser.go    | 5 +++++
 nontransparent/parser.go.rl | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/nontransparent/parser.go b/nontransparent/parser.go
index c587202..bdf3ff8 100644
--- a/nontransparent/parser.go
+++ b/nontransparent/parser.go
@@ -255,6 +255,11 @@ func (m *machine) WithListener(f syslog.ParserListener) {
 //
 // It stops parsing when an error regarding RFC 6587 is found.
 func (m *machine) Parse(reader io.Reader) {
+	// Forget what a previous stream left behind
+	m.candidate = nil
+	m.readError = nil
+	m.lastChunk = nil
+
 	r := parser.ArbitraryReader(reader, m.trailer)
 	parser.New(r, m, parser.WithStart(1)).Parse()
 }
diff --git a/nontransparent/parser.go.rl b/nontransparent/parser.go.rl
index 1dde434..a3a7999 100644
--- a/nontransparent/parser.go.rl
+++ b/nontransparent/parser.go.rl
@@ -146,6 +146,11 @@ func (m *machine) WithListener(f syslog.ParserListener) {
 //
 // It stops parsing when an error regarding RFC 6587 is found.
 func (m *machine) Parse(reader io.Reader) {
+    // Forget what a previous stream left behind
+    m.candidate = nil
+    m.readError = nil
+    m.lastChunk = nil
+
     r := parser.ArbitraryReader(reader, m.trailer)
     parser.New(r, m, parser.WithStart(%%{ write start; }%%)).Parse()
 }
-- 
2.43.0


From ad8863b223145bb5ff6d102df6e4a3b08fead61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 04/26] fix: let WithBestEffort take effect on already built
 stream parsers

It only set the flag of the stream parser, which then reported best effort mode
while the inner RFC5424 machine kept on discarding partial messages.
---
 nontransparent/parser.go    | 3 +++
 nontransparent/parser.go.rl | 3 +++
 octetcounting/parser.go     | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/nontransparent/parser.go b/nontransparent/parser.go
index bdf3ff8..19feebd 100644
--- a/nontransparent/parser.go
+++ b/nontransparent/parser.go
@@ -242,6 +242,9 @@ func WithTrailer(t TrailerType) syslog.ParserOption {
 // The generic options uses it.
 func (m *machine) WithBestEffort() {
 	m.bestEffort = true
+	if m.internal != nil {
+		m.internal.WithBestEffort()
+	}
 }
 
 // WithListener implements the syslog.Parser interface.
diff --git a/nontransparent/parser.go.rl b/nontransparent/parser.go.rl
index a3a7999..51a9143 100644
--- a/nontransparent/parser.go.rl
+++ b/nontransparent/parser.go.rl
@@ -133,6 +133,9 @@ func WithTrailer(t TrailerType) syslog.ParserOption {
 // The generic options uses it.
 func (m *machine) WithBestEffort() {
     m.bestEffort = true
+    if m.internal != nil {
+        m.internal.WithBestEffort()
+    }
 }
 
 // WithListener implements the syslog.Parser interface.
diff --git a/octetcounting/parser.go b/octetcounting/parser.go
index cbdbaac..53c4c4e 100644
--- a/octetcounting/parser.go
+++ b/octetcounting/parser.go
@@ -57,6 +57,9 @@ func (p *parser) HasBestEffort() bool {
 // The generic options uses it.
 func (p *parser) WithBestEffort() {
 	p.bestEffort = true
+	if p.internal != nil {
+		p.internal.WithBestEffort()
+	}
 }
 
 // WithListener implements the syslog.Parser interface.
-- 
2.43.0


From 0f058cb888d850dbf7dbe21a398ba6b6dbd99c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 05/26] fix: accept only digits, without leading zeros, in
 MSG-LEN

The byte ranges were off by one: '/' was taken as a digit, and '0' as a
non-zero digit, which RFC 5425 (MSG-LEN = NONZERO-DIGIT *DIGIT) forbids.
---
 octetcounting/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 7e5f2bb..4f01450 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -18,12 +18,12 @@ var lt = byte(60)
 
 // isDigit returns true if the byte represents a number in [0,9]
 func isDigit(ch byte) bool {
-	return (ch >= 47 && ch <= 57)
+	return (ch >= 48 && ch <= 57)
 }
 
 // isNonZeroDigit returns true if the byte represents a number in ]0,9]
 func isNonZeroDigit(ch byte) bool {
-	return (ch >= 48 && ch <= 57)
+	return (ch >= 49 && ch <= 57)
 }
 
 // Scanner represents the lexical scanner for octet counting transport.
-- 
2.43.0


From faadcd798e891f3f35358f9d4450206932f817fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 06/26] fix: compare the octet count to the max length without
 overflowing

Octet counts not fitting an int became negative, therefore they went past the
check on the max message length.
---
 octetcounting/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/octetcounting/parser.go b/octetcounting/parser.go
index 53c4c4e..ef7b74b 100644
--- a/octetcounting/parser.go
+++ b/octetcounting/parser.go
@@ -89,7 +89,7 @@ func (p *parser) run() {
 			break
 		}
 
-		if int(p.s.msglen) > p.maxMessageLength {
+		if p.maxMessageLength < 0 || p.s.msglen > uint64(p.maxMessageLength) {
 			p.emit(&syslog.Result{
 				Error: fmt.Errorf("message too long to parse. was size %d, max length %d", p.s.msglen, p.maxMessageLength),
 			})
-- 
2.43.0


From 7cd55ea5ee2acffa0473c24844ead71b0c2957c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 07/26] fix: do not take NUL bytes as the end of an octet
 counted stream

A NUL where a token was expected silently ended the parsing, ignoring whatever
followed, and a NUL after MSG-LEN was dropped. It is an illegal byte, instead.
---
 octetcounting/scanner.go | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 4f01450..6288b37 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -7,9 +7,6 @@ import (
 	"strconv"
 )
 
-// eof represents a marker byte for the end of the reader
-var eof = byte(0)
-
 // ws represents the whitespace
 var ws = byte(32)
 
@@ -41,13 +38,10 @@ func NewScanner(r io.Reader, maxLength int) *Scanner {
 }
 
 // read reads the next byte from the buffered reader
-// it returns the byte(0) if an error occurs (or io.EOF is returned)
-func (s *Scanner) read() byte {
+// it returns false if an error occurs (or io.EOF is returned)
+func (s *Scanner) read() (byte, bool) {
 	b, err := s.r.ReadByte()
-	if err != nil {
-		return eof
-	}
-	return b
+	return b, err == nil
 }
 
 // unread places the previously read byte back on the reader
@@ -58,7 +52,13 @@ func (s *Scanner) unread() {
 // Scan returns the next token.
 func (s *Scanner) Scan() (tok Token) {
 	// Read the next byte.
-	b := s.read()
+	b, ok := s.read()
+	if !ok {
+		s.ready = false
+		return Token{
+			typ: EOF,
+		}
+	}
 
 	if isNonZeroDigit(b) {
 		s.unread()
@@ -68,11 +68,6 @@ func (s *Scanner) Scan() (tok Token) {
 
 	// Otherwise read the individual character
 	switch b {
-	case eof:
-		s.ready = false
-		return Token{
-			typ: EOF,
-		}
 	case ws:
 		s.ready = true
 		return Token{
@@ -95,12 +90,13 @@ func (s *Scanner) Scan() (tok Token) {
 func (s *Scanner) scanMsgLen() Token {
 	// Create a buffer and read the current character into it
 	var buf bytes.Buffer
-	buf.WriteByte(s.read())
+	first, _ := s.read()
+	buf.WriteByte(first)
 
 	// Read every subsequent digit character into the buffer
 	// Non-digit characters and EOF will cause the loop to exit
 	for {
-		if b := s.read(); b == eof {
+		if b, ok := s.read(); !ok {
 			break
 		} else if !isDigit(b) {
 			s.unread()
-- 
2.43.0


From c68abb128d1f8582fb0298e28cfb68aa9d07d841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 08/26] fix: set the RFC 3164 priority only once the whole PRI
 matched

In best effort mode the digits preceding the offending character were given back as
the priority of the message (eg., 19 for <192>).
---
 rfc3164/machine.go    | 28 +++++++++-------------------
 rfc3164/machine.go.rl |  2 +-
 2 files changed, 10 insertions(+), 20 deletions(-)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 6dd3d29..743697b 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -964,14 +964,16 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof3
 		}
 	stCase3:
+		if (m.data)[(m.p)] == 62 {
+			goto tr6
+		}
+		goto tr2
+	tr6:
 
 		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
 		output.prioritySet = true
 
-		if (m.data)[(m.p)] == 62 {
-			goto st4
-		}
-		goto tr2
+		goto st4
 	st4:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof4
@@ -5992,15 +5994,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof330
 		}
 	stCase330:
-
-		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-		output.prioritySet = true
-
 		switch (m.data)[(m.p)] {
 		case 57:
 			goto st332
 		case 62:
-			goto st4
+			goto tr6
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 56 {
 			goto st331
@@ -6016,12 +6014,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof331
 		}
 	stCase331:
-
-		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-		output.prioritySet = true
-
 		if (m.data)[(m.p)] == 62 {
-			goto st4
+			goto tr6
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			goto st3
@@ -6032,12 +6026,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof332
 		}
 	stCase332:
-
-		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-		output.prioritySet = true
-
 		if (m.data)[(m.p)] == 62 {
-			goto st4
+			goto tr6
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
 			goto st3
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index 4d13817..13017e8 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -129,7 +129,7 @@ action err_content {
 	fgoto fail;
 }
 
-pri = ('<' prival >mark %from(set_prival) $err(err_prival) '>') @err(err_pri);
+pri = ('<' prival >mark %set_prival $err(err_prival) '>') @err(err_pri);
 
 timestamp = (datemmm sp datemday sp hhmmss) >mark %set_timestamp @err(err_timestamp);
 
-- 
2.43.0


From ed430f4ea4c5b7bdfc80b569133880c663e37734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 09/26] fix: always report an error when RFC 3164 parsing fails

Some inputs (eg., a control character within MSG, or ending right after the
timestamp) made Parse return neither a message nor an error.
---
 rfc3164/machine.go    | 4 ++++
 rfc3164/machine.go.rl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 743697b..2bb182e 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -7242,6 +7242,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	}
 
 	if m.cs < firstFinal || m.cs == enFail {
+		if m.err == nil {
+			// No rule of the grammar claimed the character, or the end of the input, the FSM stopped at
+			m.err = fmt.Errorf(errParse, m.p)
+		}
 		if m.bestEffort && output.minimal() {
 			// An error occurred but partial parsing is on and partial message is minimally valid
 			return output.export(), m.err
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index 13017e8..3d8c5a1 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -251,6 +251,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	%% write exec;
 
 	if m.cs < first_final || m.cs == en_fail {
+		if m.err == nil {
+			// No rule of the grammar claimed the character, or the end of the input, the FSM stopped at
+			m.err = fmt.Errorf(errParse, m.p)
+		}
 		if m.bestEffort && output.minimal() {
 			// An error occurred but partial parsing is on and partial message is minimally valid
 			return output.export(), m.err
-- 
2.43.0


From bcd08f29eff01fbbf9f282f84c8171d37d697ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 10/26] fix: never drop or misplace part of RFC 3164 messages
 with square brackets

The message mark was overwritten by the one of the content, so that a message
whose tag is followed by an open bracket lost its beginning. Furthermore, the
content was greedy: it went until the last bracket, even within the message,
and accepted any octet, control characters included.
---
 rfc3164/machine.go    | 1234 +++++++++++++++++++----------------------
 rfc3164/machine.go.rl |   21 +-
 2 files changed, 569 insertions(+), 686 deletions(-)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 2bb182e..95d991d 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -9,21 +9,20 @@ import (
 )
 
 var (
-	errPrival       = "expecting a priority value in the range 1-191 or equal to 0 [col %d]"
-	errPri          = "expecting a priority value within angle brackets [col %d]"
-	errTimestamp    = "expecting a Stamp timestamp [col %d]"
-	errRFC3339      = "expecting a Stamp or a RFC3339 timestamp [col %d]"
-	errHostname     = "expecting an hostname (from 1 to max 255 US-ASCII characters) [col %d]"
-	errTag          = "expecting an alphanumeric tag (max 32 characters) [col %d]"
-	errContentStart = "expecting a content part starting with a non-alphanumeric character [col %d]"
-	errContent      = "expecting a content part composed by visible characters only [col %d]"
-	errParse        = "parsing error [col %d]"
+	errPrival    = "expecting a priority value in the range 1-191 or equal to 0 [col %d]"
+	errPri       = "expecting a priority value within angle brackets [col %d]"
+	errTimestamp = "expecting a Stamp timestamp [col %d]"
+	errRFC3339   = "expecting a Stamp or a RFC3339 timestamp [col %d]"
+	errHostname  = "expecting an hostname (from 1 to max 255 US-ASCII characters) [col %d]"
+	errTag       = "expecting an alphanumeric tag (max 32 characters) [col %d]"
+	errContent   = "expecting a content part composed by visible characters only [col %d]"
+	errParse     = "parsing error [col %d]"
 )
 
 const start int = 1
-const firstFinal int = 333
+const firstFinal int = 329
 
-const enFail int = 373
+const enFail int = 367
 const enMain int = 1
 
 type machine struct {
@@ -31,6 +30,7 @@ type machine struct {
 	cs         int
 	p, pe, eof int
 	pb         int
+	msgat      int
 	err        error
 	bestEffort bool
 	yyyy       int
@@ -98,6 +98,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	m.data = input
 	m.p = 0
 	m.pb = 0
+	m.msgat = 0
 	m.pe = len(input)
 	m.eof = len(input)
 	m.err = nil
@@ -159,6 +160,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto stCase21
 		case 22:
 			goto stCase22
+		case 329:
+			goto stCase329
+		case 330:
+			goto stCase330
+		case 331:
+			goto stCase331
+		case 332:
+			goto stCase332
 		case 333:
 			goto stCase333
 		case 334:
@@ -227,10 +236,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto stCase365
 		case 366:
 			goto stCase366
-		case 367:
-			goto stCase367
-		case 368:
-			goto stCase368
 		case 23:
 			goto stCase23
 		case 24:
@@ -239,14 +244,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto stCase25
 		case 26:
 			goto stCase26
-		case 369:
-			goto stCase369
-		case 370:
-			goto stCase370
-		case 371:
-			goto stCase371
-		case 372:
-			goto stCase372
 		case 27:
 			goto stCase27
 		case 28:
@@ -851,16 +848,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto stCase327
 		case 328:
 			goto stCase328
-		case 329:
-			goto stCase329
-		case 330:
-			goto stCase330
-		case 331:
-			goto stCase331
-		case 332:
-			goto stCase332
-		case 373:
-			goto stCase373
+		case 367:
+			goto stCase367
 		}
 		goto stOut
 	stCase1:
@@ -874,7 +863,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st367
 		}
 
 		goto st0
@@ -884,14 +873,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st367
 		}
 
 		m.err = fmt.Errorf(errPri, m.p)
 		(m.p)--
 
 		{
-			goto st373
+			goto st367
 		}
 
 		goto st0
@@ -901,7 +890,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st367
 		}
 
 		goto st0
@@ -911,7 +900,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st367
 		}
 
 		goto st0
@@ -921,17 +910,27 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st367
 		}
 
 		goto st0
-	tr333:
+	tr327:
 
 		m.err = fmt.Errorf(errRFC3339, m.p)
 		(m.p)--
 
 		{
-			goto st373
+			goto st367
+		}
+
+		goto st0
+	tr374:
+
+		m.err = fmt.Errorf(errContent, m.p)
+		(m.p)--
+
+		{
+			goto st367
 		}
 
 		goto st0
@@ -1022,7 +1021,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 112:
 			goto st6
 		case 117:
-			goto st284
+			goto st280
 		}
 		goto tr7
 	st6:
@@ -1052,10 +1051,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 32:
 			goto st9
 		case 51:
-			goto st283
+			goto st279
 		}
 		if 49 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 50 {
-			goto st282
+			goto st278
 		}
 		goto tr7
 	st9:
@@ -1082,7 +1081,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 	stCase11:
 		if (m.data)[(m.p)] == 50 {
-			goto st281
+			goto st277
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
 			goto st12
@@ -1167,7 +1166,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			(m.p)--
 
 			{
-				goto st373
+				goto st367
 			}
 		} else {
 			if m.timezone != nil {
@@ -1181,14 +1180,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 
 		goto st20
-	tr341:
+	tr335:
 
 		if t, e := time.Parse(time.RFC3339, string(m.text())); e != nil {
 			m.err = fmt.Errorf("%s [col %d]", e, m.p)
 			(m.p)--
 
 			{
-				goto st373
+				goto st367
 			}
 		} else {
 			output.timestamp = t
@@ -1219,7 +1218,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto tr39
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto st27
+			goto st23
 		}
 		goto tr37
 	tr39:
@@ -1255,26 +1254,116 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		goto tr42
 	tr42:
 
-		m.pb = m.p
+		m.msgat = m.p
 
-		goto st333
-	st333:
+		goto st329
+	st329:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof333
+			goto _testEof329
 		}
-	stCase333:
+	stCase329:
 		if (m.data)[(m.p)] == 127 {
 			goto st0
 		}
 		if (m.data)[(m.p)] <= 31 {
 			goto st0
 		}
-		goto st333
+		goto st329
 	tr43:
 
 		m.pb = m.p
 
-		goto st334
+		m.msgat = m.p
+
+		goto st330
+	st330:
+		if (m.p)++; (m.p) == (m.pe) {
+			goto _testEof330
+		}
+	stCase330:
+		switch (m.data)[(m.p)] {
+		case 58:
+			goto tr341
+		case 91:
+			goto tr342
+		case 127:
+			goto st0
+		}
+		switch {
+		case (m.data)[(m.p)] > 31:
+			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+				goto st331
+			}
+		default:
+			goto st0
+		}
+		goto st329
+	st331:
+		if (m.p)++; (m.p) == (m.pe) {
+			goto _testEof331
+		}
+	stCase331:
+		switch (m.data)[(m.p)] {
+		case 58:
+			goto tr341
+		case 91:
+			goto tr342
+		case 127:
+			goto st0
+		}
+		switch {
+		case (m.data)[(m.p)] > 31:
+			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+				goto st332
+			}
+		default:
+			goto st0
+		}
+		goto st329
+	st332:
+		if (m.p)++; (m.p) == (m.pe) {
+			goto _testEof332
+		}
+	stCase332:
+		switch (m.data)[(m.p)] {
+		case 58:
+			goto tr341
+		case 91:
+			goto tr342
+		case 127:
+			goto st0
+		}
+		switch {
+		case (m.data)[(m.p)] > 31:
+			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+				goto st333
+			}
+		default:
+			goto st0
+		}
+		goto st329
+	st333:
+		if (m.p)++; (m.p) == (m.pe) {
+			goto _testEof333
+		}
+	stCase333:
+		switch (m.data)[(m.p)] {
+		case 58:
+			goto tr341
+		case 91:
+			goto tr342
+		case 127:
+			goto st0
+		}
+		switch {
+		case (m.data)[(m.p)] > 31:
+			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+				goto st334
+			}
+		default:
+			goto st0
+		}
+		goto st329
 	st334:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof334
@@ -1282,9 +1371,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase334:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1296,7 +1385,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st335:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof335
@@ -1304,9 +1393,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase335:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1318,7 +1407,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st336:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof336
@@ -1326,9 +1415,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase336:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1340,7 +1429,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st337:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof337
@@ -1348,9 +1437,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase337:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1362,7 +1451,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st338:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof338
@@ -1370,9 +1459,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase338:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1384,7 +1473,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st339:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof339
@@ -1392,9 +1481,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase339:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1406,7 +1495,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st340:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof340
@@ -1414,9 +1503,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase340:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1428,7 +1517,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st341:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof341
@@ -1436,9 +1525,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase341:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1450,7 +1539,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st342:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof342
@@ -1458,9 +1547,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase342:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1472,7 +1561,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st343:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof343
@@ -1480,9 +1569,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase343:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1494,7 +1583,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st344:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof344
@@ -1502,9 +1591,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase344:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1516,7 +1605,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st345:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof345
@@ -1524,9 +1613,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase345:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1538,7 +1627,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st346:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof346
@@ -1546,9 +1635,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase346:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1560,7 +1649,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st347:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof347
@@ -1568,9 +1657,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase347:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1582,7 +1671,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st348:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof348
@@ -1590,9 +1679,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase348:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1604,7 +1693,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st349:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof349
@@ -1612,9 +1701,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase349:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1626,7 +1715,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st350:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof350
@@ -1634,9 +1723,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase350:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1648,7 +1737,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st351:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof351
@@ -1656,9 +1745,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase351:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1670,7 +1759,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st352:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof352
@@ -1678,9 +1767,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase352:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1692,7 +1781,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st353:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof353
@@ -1700,9 +1789,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase353:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1714,7 +1803,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st354:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof354
@@ -1722,9 +1811,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase354:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1736,7 +1825,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st355:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof355
@@ -1744,9 +1833,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase355:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1758,7 +1847,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st356:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof356
@@ -1766,9 +1855,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase356:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1780,7 +1869,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st357:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof357
@@ -1788,9 +1877,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase357:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1802,7 +1891,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st358:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof358
@@ -1810,9 +1899,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase358:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1824,7 +1913,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st359:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof359
@@ -1832,9 +1921,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase359:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1846,7 +1935,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st360:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof360
@@ -1854,9 +1943,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase360:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1868,7 +1957,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st361:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof361
@@ -1876,107 +1965,98 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase361:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
-		switch {
-		case (m.data)[(m.p)] > 31:
-			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-				goto st362
-			}
-		default:
+		if (m.data)[(m.p)] <= 31 {
 			goto st0
 		}
-		goto st333
+		goto st329
+	tr341:
+
+		output.tag = string(m.text())
+
+		goto st362
 	st362:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof362
 		}
 	stCase362:
 		switch (m.data)[(m.p)] {
-		case 58:
-			goto tr347
-		case 91:
-			goto tr348
+		case 32:
+			goto st363
 		case 127:
 			goto st0
 		}
-		switch {
-		case (m.data)[(m.p)] > 31:
-			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-				goto st363
-			}
-		default:
+		if (m.data)[(m.p)] <= 31 {
 			goto st0
 		}
-		goto st333
+		goto st329
 	st363:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof363
 		}
 	stCase363:
-		switch (m.data)[(m.p)] {
-		case 58:
-			goto tr347
-		case 91:
-			goto tr348
-		case 127:
+		if (m.data)[(m.p)] == 127 {
 			goto st0
 		}
-		switch {
-		case (m.data)[(m.p)] > 31:
-			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-				goto st364
-			}
-		default:
+		if (m.data)[(m.p)] <= 31 {
 			goto st0
 		}
-		goto st333
+		goto tr42
+	tr342:
+
+		output.tag = string(m.text())
+
+		goto st364
 	st364:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof364
 		}
 	stCase364:
 		switch (m.data)[(m.p)] {
-		case 58:
-			goto tr347
-		case 91:
-			goto tr348
+		case 93:
+			goto tr376
 		case 127:
-			goto st0
+			goto tr374
 		}
-		switch {
-		case (m.data)[(m.p)] > 31:
-			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-				goto st365
-			}
-		default:
-			goto st0
+		if (m.data)[(m.p)] <= 31 {
+			goto tr374
 		}
-		goto st333
+		goto tr375
+	tr375:
+
+		m.pb = m.p
+
+		goto st365
 	st365:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof365
 		}
 	stCase365:
 		switch (m.data)[(m.p)] {
-		case 58:
-			goto tr347
-		case 91:
-			goto tr348
+		case 93:
+			goto tr378
 		case 127:
-			goto st0
+			goto tr374
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto st0
+			goto tr374
 		}
-		goto st333
-	tr347:
+		goto st365
+	tr376:
 
-		output.tag = string(m.text())
+		m.pb = m.p
+
+		output.content = string(m.text())
+
+		goto st366
+	tr378:
+
+		output.content = string(m.text())
 
 		goto st366
 	st366:
@@ -1985,193 +2065,63 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 	stCase366:
 		switch (m.data)[(m.p)] {
-		case 32:
-			goto st367
+		case 58:
+			goto st362
 		case 127:
 			goto st0
 		}
 		if (m.data)[(m.p)] <= 31 {
 			goto st0
 		}
-		goto st333
-	st367:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof367
-		}
-	stCase367:
-		if (m.data)[(m.p)] == 127 {
-			goto st0
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st0
-		}
-		goto tr42
-	tr348:
-
-		output.tag = string(m.text())
-
-		goto st368
-	st368:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof368
-		}
-	stCase368:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr381
-		case 127:
-			goto tr380
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto tr380
-		}
-		goto tr48
-	tr380:
-
-		m.pb = m.p
-
-		goto st23
+		goto st329
 	st23:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof23
 		}
 	stCase23:
-		if (m.data)[(m.p)] == 93 {
-			goto tr45
+		if (m.data)[(m.p)] == 32 {
+			goto tr39
 		}
-		goto st23
-	tr45:
-
-		output.content = string(m.text())
-
-		goto st24
+		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+			goto st24
+		}
+		goto tr37
 	st24:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof24
 		}
 	stCase24:
-		switch (m.data)[(m.p)] {
-		case 58:
+		if (m.data)[(m.p)] == 32 {
+			goto tr39
+		}
+		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st25
-		case 93:
-			goto tr45
 		}
-		goto st23
+		goto tr37
 	st25:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof25
 		}
 	stCase25:
-		switch (m.data)[(m.p)] {
-		case 32:
+		if (m.data)[(m.p)] == 32 {
+			goto tr39
+		}
+		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st26
-		case 93:
-			goto tr45
 		}
-		goto st23
+		goto tr37
 	st26:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof26
 		}
 	stCase26:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr49
-		case 127:
-			goto st23
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
-		}
-		goto tr48
-	tr48:
-
-		m.pb = m.p
-
-		goto st369
-	st369:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof369
-		}
-	stCase369:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr383
-		case 127:
-			goto st23
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
-		}
-		goto st369
-	tr383:
-
-		output.content = string(m.text())
-
-		goto st370
-	tr49:
-
-		output.content = string(m.text())
-
-		m.pb = m.p
-
-		goto st370
-	tr381:
-
-		m.pb = m.p
-
-		output.content = string(m.text())
-
-		goto st370
-	st370:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof370
-		}
-	stCase370:
-		switch (m.data)[(m.p)] {
-		case 58:
-			goto st371
-		case 93:
-			goto tr383
-		case 127:
-			goto st23
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
-		}
-		goto st369
-	st371:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof371
-		}
-	stCase371:
-		switch (m.data)[(m.p)] {
-		case 32:
-			goto st372
-		case 93:
-			goto tr383
-		case 127:
-			goto st23
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
-		}
-		goto st369
-	st372:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof372
-		}
-	stCase372:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr49
-		case 127:
-			goto st23
+		if (m.data)[(m.p)] == 32 {
+			goto tr39
 		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
+		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+			goto st27
 		}
-		goto tr48
+		goto tr37
 	st27:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof27
@@ -5168,62 +5118,55 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 32 {
 			goto tr39
 		}
-		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto st277
-		}
 		goto tr37
 	st277:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof277
 		}
 	stCase277:
-		if (m.data)[(m.p)] == 32 {
-			goto tr39
-		}
-		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto st278
+		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 51 {
+			goto st13
 		}
-		goto tr37
+		goto tr7
 	st278:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof278
 		}
 	stCase278:
-		if (m.data)[(m.p)] == 32 {
-			goto tr39
-		}
-		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto st279
+		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
+			goto st10
 		}
-		goto tr37
+		goto tr7
 	st279:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof279
 		}
 	stCase279:
-		if (m.data)[(m.p)] == 32 {
-			goto tr39
-		}
-		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto st280
+		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
+			goto st10
 		}
-		goto tr37
+		goto tr7
 	st280:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof280
 		}
 	stCase280:
-		if (m.data)[(m.p)] == 32 {
-			goto tr39
+		if (m.data)[(m.p)] == 103 {
+			goto st7
 		}
-		goto tr37
+		goto tr7
+	tr9:
+
+		m.pb = m.p
+
+		goto st281
 	st281:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof281
 		}
 	stCase281:
-		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 51 {
-			goto st13
+		if (m.data)[(m.p)] == 101 {
+			goto st282
 		}
 		goto tr7
 	st282:
@@ -5231,17 +5174,22 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof282
 		}
 	stCase282:
-		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-			goto st10
+		if (m.data)[(m.p)] == 99 {
+			goto st7
 		}
 		goto tr7
+	tr10:
+
+		m.pb = m.p
+
+		goto st283
 	st283:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof283
 		}
 	stCase283:
-		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
-			goto st10
+		if (m.data)[(m.p)] == 101 {
+			goto st284
 		}
 		goto tr7
 	st284:
@@ -5249,11 +5197,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof284
 		}
 	stCase284:
-		if (m.data)[(m.p)] == 103 {
+		if (m.data)[(m.p)] == 98 {
 			goto st7
 		}
 		goto tr7
-	tr9:
+	tr11:
 
 		m.pb = m.p
 
@@ -5263,8 +5211,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof285
 		}
 	stCase285:
-		if (m.data)[(m.p)] == 101 {
+		switch (m.data)[(m.p)] {
+		case 97:
 			goto st286
+		case 117:
+			goto st287
 		}
 		goto tr7
 	st286:
@@ -5272,57 +5223,60 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof286
 		}
 	stCase286:
-		if (m.data)[(m.p)] == 99 {
+		if (m.data)[(m.p)] == 110 {
 			goto st7
 		}
 		goto tr7
-	tr10:
-
-		m.pb = m.p
-
-		goto st287
 	st287:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof287
 		}
 	stCase287:
-		if (m.data)[(m.p)] == 101 {
-			goto st288
+		switch (m.data)[(m.p)] {
+		case 108:
+			goto st7
+		case 110:
+			goto st7
 		}
 		goto tr7
+	tr12:
+
+		m.pb = m.p
+
+		goto st288
 	st288:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof288
 		}
 	stCase288:
-		if (m.data)[(m.p)] == 98 {
-			goto st7
+		if (m.data)[(m.p)] == 97 {
+			goto st289
 		}
 		goto tr7
-	tr11:
-
-		m.pb = m.p
-
-		goto st289
 	st289:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof289
 		}
 	stCase289:
 		switch (m.data)[(m.p)] {
-		case 97:
-			goto st290
-		case 117:
-			goto st291
+		case 114:
+			goto st7
+		case 121:
+			goto st7
 		}
 		goto tr7
+	tr13:
+
+		m.pb = m.p
+
+		goto st290
 	st290:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof290
 		}
 	stCase290:
-		if (m.data)[(m.p)] == 110 {
-			goto st7
+		if (m.data)[(m.p)] == 111 {
+			goto st291
 		}
 		goto tr7
 	st291:
@@ -5330,14 +5284,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof291
 		}
 	stCase291:
-		switch (m.data)[(m.p)] {
-		case 108:
-			goto st7
-		case 110:
+		if (m.data)[(m.p)] == 118 {
 			goto st7
 		}
 		goto tr7
-	tr12:
+	tr14:
 
 		m.pb = m.p
 
@@ -5347,7 +5298,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof292
 		}
 	stCase292:
-		if (m.data)[(m.p)] == 97 {
+		if (m.data)[(m.p)] == 99 {
 			goto st293
 		}
 		goto tr7
@@ -5356,14 +5307,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof293
 		}
 	stCase293:
-		switch (m.data)[(m.p)] {
-		case 114:
-			goto st7
-		case 121:
+		if (m.data)[(m.p)] == 116 {
 			goto st7
 		}
 		goto tr7
-	tr13:
+	tr15:
 
 		m.pb = m.p
 
@@ -5373,7 +5321,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof294
 		}
 	stCase294:
-		if (m.data)[(m.p)] == 111 {
+		if (m.data)[(m.p)] == 101 {
 			goto st295
 		}
 		goto tr7
@@ -5382,11 +5330,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof295
 		}
 	stCase295:
-		if (m.data)[(m.p)] == 118 {
+		if (m.data)[(m.p)] == 112 {
 			goto st7
 		}
 		goto tr7
-	tr14:
+	tr16:
 
 		m.pb = m.p
 
@@ -5396,116 +5344,70 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof296
 		}
 	stCase296:
-		if (m.data)[(m.p)] == 99 {
+		_widec = int16((m.data)[(m.p)])
+		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
+			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
+			if m.rfc3339 {
+				_widec += 256
+			}
+		}
+		if 560 <= _widec && _widec <= 569 {
 			goto st297
 		}
-		goto tr7
+		goto st0
 	st297:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof297
 		}
 	stCase297:
-		if (m.data)[(m.p)] == 116 {
-			goto st7
+		_widec = int16((m.data)[(m.p)])
+		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
+			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
+			if m.rfc3339 {
+				_widec += 256
+			}
 		}
-		goto tr7
-	tr15:
-
-		m.pb = m.p
-
-		goto st298
+		if 560 <= _widec && _widec <= 569 {
+			goto st298
+		}
+		goto st0
 	st298:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof298
 		}
 	stCase298:
-		if (m.data)[(m.p)] == 101 {
+		_widec = int16((m.data)[(m.p)])
+		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
+			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
+			if m.rfc3339 {
+				_widec += 256
+			}
+		}
+		if 560 <= _widec && _widec <= 569 {
 			goto st299
 		}
-		goto tr7
+		goto st0
 	st299:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof299
 		}
 	stCase299:
-		if (m.data)[(m.p)] == 112 {
-			goto st7
-		}
-		goto tr7
-	tr16:
-
-		m.pb = m.p
-
-		goto st300
-	st300:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof300
-		}
-	stCase300:
-		_widec = int16((m.data)[(m.p)])
-		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
-			if m.rfc3339 {
-				_widec += 256
-			}
-		}
-		if 560 <= _widec && _widec <= 569 {
-			goto st301
-		}
-		goto st0
-	st301:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof301
-		}
-	stCase301:
-		_widec = int16((m.data)[(m.p)])
-		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
-			if m.rfc3339 {
-				_widec += 256
-			}
-		}
-		if 560 <= _widec && _widec <= 569 {
-			goto st302
-		}
-		goto st0
-	st302:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof302
-		}
-	stCase302:
-		_widec = int16((m.data)[(m.p)])
-		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
-			if m.rfc3339 {
-				_widec += 256
-			}
-		}
-		if 560 <= _widec && _widec <= 569 {
-			goto st303
-		}
-		goto st0
-	st303:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof303
-		}
-	stCase303:
-		_widec = int16((m.data)[(m.p)])
-		if 45 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 45 {
-			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
-			if m.rfc3339 {
-				_widec += 256
-			}
+		_widec = int16((m.data)[(m.p)])
+		if 45 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 45 {
+			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
+			if m.rfc3339 {
+				_widec += 256
+			}
 		}
 		if _widec == 557 {
-			goto st304
+			goto st300
 		}
 		goto st0
-	st304:
+	st300:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof304
+			goto _testEof300
 		}
-	stCase304:
+	stCase300:
 		_widec = int16((m.data)[(m.p)])
 		switch {
 		case (m.data)[(m.p)] > 48:
@@ -5523,16 +5425,16 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 		switch _widec {
 		case 560:
-			goto st305
+			goto st301
 		case 561:
-			goto st329
+			goto st325
 		}
 		goto st0
-	st305:
+	st301:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof305
+			goto _testEof301
 		}
-	stCase305:
+	stCase301:
 		_widec = int16((m.data)[(m.p)])
 		if 49 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5541,14 +5443,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 561 <= _widec && _widec <= 569 {
-			goto st306
+			goto st302
 		}
 		goto st0
-	st306:
+	st302:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof306
+			goto _testEof302
 		}
-	stCase306:
+	stCase302:
 		_widec = int16((m.data)[(m.p)])
 		if 45 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 45 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5557,14 +5459,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 557 {
-			goto st307
+			goto st303
 		}
 		goto st0
-	st307:
+	st303:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof307
+			goto _testEof303
 		}
-	stCase307:
+	stCase303:
 		_widec = int16((m.data)[(m.p)])
 		switch {
 		case (m.data)[(m.p)] < 49:
@@ -5589,19 +5491,19 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 		switch _widec {
 		case 560:
-			goto st308
+			goto st304
 		case 563:
-			goto st328
+			goto st324
 		}
 		if 561 <= _widec && _widec <= 562 {
-			goto st327
+			goto st323
 		}
 		goto st0
-	st308:
+	st304:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof308
+			goto _testEof304
 		}
-	stCase308:
+	stCase304:
 		_widec = int16((m.data)[(m.p)])
 		if 49 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5610,14 +5512,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 561 <= _widec && _widec <= 569 {
-			goto st309
+			goto st305
 		}
 		goto st0
-	st309:
+	st305:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof309
+			goto _testEof305
 		}
-	stCase309:
+	stCase305:
 		_widec = int16((m.data)[(m.p)])
 		if 84 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 84 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5626,14 +5528,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 596 {
-			goto st310
+			goto st306
 		}
 		goto st0
-	st310:
+	st306:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof310
+			goto _testEof306
 		}
-	stCase310:
+	stCase306:
 		_widec = int16((m.data)[(m.p)])
 		switch {
 		case (m.data)[(m.p)] > 49:
@@ -5650,17 +5552,17 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 562 {
-			goto st326
+			goto st322
 		}
 		if 560 <= _widec && _widec <= 561 {
-			goto st311
+			goto st307
 		}
 		goto st0
-	st311:
+	st307:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof311
+			goto _testEof307
 		}
-	stCase311:
+	stCase307:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5669,14 +5571,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st312
+			goto st308
 		}
 		goto st0
-	st312:
+	st308:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof312
+			goto _testEof308
 		}
-	stCase312:
+	stCase308:
 		_widec = int16((m.data)[(m.p)])
 		if 58 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 58 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5685,14 +5587,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 570 {
-			goto st313
+			goto st309
 		}
 		goto st0
-	st313:
+	st309:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof313
+			goto _testEof309
 		}
-	stCase313:
+	stCase309:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 53 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5701,14 +5603,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 565 {
-			goto st314
+			goto st310
 		}
 		goto st0
-	st314:
+	st310:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof314
+			goto _testEof310
 		}
-	stCase314:
+	stCase310:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5717,14 +5619,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st315
+			goto st311
 		}
 		goto st0
-	st315:
+	st311:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof315
+			goto _testEof311
 		}
-	stCase315:
+	stCase311:
 		_widec = int16((m.data)[(m.p)])
 		if 58 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 58 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5733,14 +5635,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 570 {
-			goto st316
+			goto st312
 		}
 		goto st0
-	st316:
+	st312:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof316
+			goto _testEof312
 		}
-	stCase316:
+	stCase312:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 53 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5749,14 +5651,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 565 {
-			goto st317
+			goto st313
 		}
 		goto st0
-	st317:
+	st313:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof317
+			goto _testEof313
 		}
-	stCase317:
+	stCase313:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5765,14 +5667,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st318
+			goto st314
 		}
 		goto st0
-	st318:
+	st314:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof318
+			goto _testEof314
 		}
-	stCase318:
+	stCase314:
 		_widec = int16((m.data)[(m.p)])
 		switch {
 		case (m.data)[(m.p)] < 45:
@@ -5797,18 +5699,18 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 		switch _widec {
 		case 555:
-			goto st319
+			goto st315
 		case 557:
-			goto st319
+			goto st315
 		case 602:
-			goto st324
+			goto st320
 		}
-		goto tr333
-	st319:
+		goto tr327
+	st315:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof319
+			goto _testEof315
 		}
-	stCase319:
+	stCase315:
 		_widec = int16((m.data)[(m.p)])
 		switch {
 		case (m.data)[(m.p)] > 49:
@@ -5825,17 +5727,17 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 562 {
-			goto st325
+			goto st321
 		}
 		if 560 <= _widec && _widec <= 561 {
-			goto st320
+			goto st316
 		}
-		goto tr333
-	st320:
+		goto tr327
+	st316:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof320
+			goto _testEof316
 		}
-	stCase320:
+	stCase316:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5844,14 +5746,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st321
+			goto st317
 		}
-		goto tr333
-	st321:
+		goto tr327
+	st317:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof321
+			goto _testEof317
 		}
-	stCase321:
+	stCase317:
 		_widec = int16((m.data)[(m.p)])
 		if 58 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 58 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5860,14 +5762,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 570 {
-			goto st322
+			goto st318
 		}
-		goto tr333
-	st322:
+		goto tr327
+	st318:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof322
+			goto _testEof318
 		}
-	stCase322:
+	stCase318:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 53 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5876,14 +5778,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 565 {
-			goto st323
+			goto st319
 		}
-		goto tr333
-	st323:
+		goto tr327
+	st319:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof323
+			goto _testEof319
 		}
-	stCase323:
+	stCase319:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5892,23 +5794,23 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st324
+			goto st320
 		}
-		goto tr333
-	st324:
+		goto tr327
+	st320:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof324
+			goto _testEof320
 		}
-	stCase324:
+	stCase320:
 		if (m.data)[(m.p)] == 32 {
-			goto tr341
+			goto tr335
 		}
 		goto st0
-	st325:
+	st321:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof325
+			goto _testEof321
 		}
-	stCase325:
+	stCase321:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 51 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5917,14 +5819,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 563 {
-			goto st321
+			goto st317
 		}
-		goto tr333
-	st326:
+		goto tr327
+	st322:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof326
+			goto _testEof322
 		}
-	stCase326:
+	stCase322:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 51 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5933,14 +5835,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 563 {
-			goto st312
+			goto st308
 		}
 		goto st0
-	st327:
+	st323:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof327
+			goto _testEof323
 		}
-	stCase327:
+	stCase323:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5949,14 +5851,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st309
+			goto st305
 		}
 		goto st0
-	st328:
+	st324:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof328
+			goto _testEof324
 		}
-	stCase328:
+	stCase324:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5965,14 +5867,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 561 {
-			goto st309
+			goto st305
 		}
 		goto st0
-	st329:
+	st325:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof329
+			goto _testEof325
 		}
-	stCase329:
+	stCase325:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 50 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5981,39 +5883,39 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 562 {
-			goto st306
+			goto st302
 		}
 		goto st0
 	tr4:
 
 		m.pb = m.p
 
-		goto st330
-	st330:
+		goto st326
+	st326:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof330
+			goto _testEof326
 		}
-	stCase330:
+	stCase326:
 		switch (m.data)[(m.p)] {
 		case 57:
-			goto st332
+			goto st328
 		case 62:
 			goto tr6
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 56 {
-			goto st331
+			goto st327
 		}
 		goto tr2
 	tr5:
 
 		m.pb = m.p
 
-		goto st331
-	st331:
+		goto st327
+	st327:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof331
+			goto _testEof327
 		}
-	stCase331:
+	stCase327:
 		if (m.data)[(m.p)] == 62 {
 			goto tr6
 		}
@@ -6021,11 +5923,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st3
 		}
 		goto tr2
-	st332:
+	st328:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof332
+			goto _testEof328
 		}
-	stCase332:
+	stCase328:
 		if (m.data)[(m.p)] == 62 {
 			goto tr6
 		}
@@ -6033,18 +5935,18 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st3
 		}
 		goto tr2
-	st373:
+	st367:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof373
+			goto _testEof367
 		}
-	stCase373:
+	stCase367:
 		switch (m.data)[(m.p)] {
 		case 10:
 			goto st0
 		case 13:
 			goto st0
 		}
-		goto st373
+		goto st367
 	stOut:
 	_testEof2:
 		m.cs = 2
@@ -6109,6 +6011,18 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	_testEof22:
 		m.cs = 22
 		goto _testEof
+	_testEof329:
+		m.cs = 329
+		goto _testEof
+	_testEof330:
+		m.cs = 330
+		goto _testEof
+	_testEof331:
+		m.cs = 331
+		goto _testEof
+	_testEof332:
+		m.cs = 332
+		goto _testEof
 	_testEof333:
 		m.cs = 333
 		goto _testEof
@@ -6211,12 +6125,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	_testEof366:
 		m.cs = 366
 		goto _testEof
-	_testEof367:
-		m.cs = 367
-		goto _testEof
-	_testEof368:
-		m.cs = 368
-		goto _testEof
 	_testEof23:
 		m.cs = 23
 		goto _testEof
@@ -6229,18 +6137,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	_testEof26:
 		m.cs = 26
 		goto _testEof
-	_testEof369:
-		m.cs = 369
-		goto _testEof
-	_testEof370:
-		m.cs = 370
-		goto _testEof
-	_testEof371:
-		m.cs = 371
-		goto _testEof
-	_testEof372:
-		m.cs = 372
-		goto _testEof
 	_testEof27:
 		m.cs = 27
 		goto _testEof
@@ -7147,20 +7043,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	_testEof328:
 		m.cs = 328
 		goto _testEof
-	_testEof329:
-		m.cs = 329
-		goto _testEof
-	_testEof330:
-		m.cs = 330
-		goto _testEof
-	_testEof331:
-		m.cs = 331
-		goto _testEof
-	_testEof332:
-		m.cs = 332
-		goto _testEof
-	_testEof373:
-		m.cs = 373
+	_testEof367:
+		m.cs = 367
 		goto _testEof
 
 	_testEof:
@@ -7168,9 +7052,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 		if (m.p) == (m.eof) {
 			switch m.cs {
-			case 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372:
+			case 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366:
 
-				output.message = string(m.text())
+				output.message = string(m.data[m.msgat:m.p])
 
 			case 1:
 
@@ -7178,34 +7062,34 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				(m.p)--
 
 				{
-					goto st373
+					goto st367
 				}
 
-			case 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299:
+			case 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295:
 
 				m.err = fmt.Errorf(errTimestamp, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st367
 				}
 
-			case 318, 319, 320, 321, 322, 323, 325:
+			case 314, 315, 316, 317, 318, 319, 321:
 
 				m.err = fmt.Errorf(errRFC3339, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st367
 				}
 
-			case 20, 21, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280:
+			case 20, 21, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276:
 
 				m.err = fmt.Errorf(errHostname, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st367
 				}
 
 			case 22:
@@ -7214,23 +7098,23 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				(m.p)--
 
 				{
-					goto st373
+					goto st367
 				}
 
-			case 2, 3, 330, 331, 332:
+			case 2, 3, 326, 327, 328:
 
 				m.err = fmt.Errorf(errPrival, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st367
 				}
 
 				m.err = fmt.Errorf(errPri, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st367
 				}
 
 			}
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index 3d8c5a1..8f8d191 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -15,7 +15,6 @@ var (
 	errRFC3339        = "expecting a Stamp or a RFC3339 timestamp [col %d]"
 	errHostname       = "expecting an hostname (from 1 to max 255 US-ASCII characters) [col %d]"
 	errTag            = "expecting an alphanumeric tag (max 32 characters) [col %d]"
-	errContentStart   = "expecting a content part starting with a non-alphanumeric character [col %d]"
 	errContent        = "expecting a content part composed by visible characters only [col %d]"
 	errParse          = "parsing error [col %d]"
 )
@@ -32,6 +31,10 @@ action mark {
 	m.pb = m.p
 }
 
+action markmsg {
+	m.msgat = m.p
+}
+
 action set_prival {
 	output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
 	output.prioritySet = true
@@ -78,7 +81,7 @@ action set_content {
 }
 
 action set_message {
-	output.message = string(m.text())
+	output.message = string(m.data[m.msgat:m.p])
 }
 
 action err_prival {
@@ -117,12 +120,6 @@ action err_tag {
 	fgoto fail;
 }
 
-action err_contentstart {
-	m.err = fmt.Errorf(errContentStart, m.p)
-	fhold;
-	fgoto fail;
-}
-
 action err_content {
 	m.err = fmt.Errorf(errContent, m.p)
 	fhold;
@@ -147,12 +144,12 @@ tag = (print -- [ :\[]){1,32} >mark %set_tag @err(err_tag);
 
 visible = print | 0x80..0xFF;
 
-# The first not alphanumeric character starts the content (usually containing a PID) part of the message part
-contentval = !alnum @err(err_contentstart) >mark print* %set_content @err(err_content);
+# The content (usually containing a PID) part of the message part goes from the open bracket to the first closed one
+contentval = (visible - csb)* >mark %set_content $err(err_content);
 
 content = '[' contentval ']'; # todo(leodido) > support ':' and ' ' too. Also they have to match?
 
-mex = visible+ >mark %set_message;
+mex = visible+ >markmsg %set_message;
 
 msg = (tag content? ':' sp)? mex;
 
@@ -169,6 +166,7 @@ type machine struct {
 	cs           int
 	p, pe, eof   int
 	pb           int
+	msgat        int
 	err          error
 	bestEffort   bool
 	yyyy         int
@@ -242,6 +240,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	m.data = input
 	m.p = 0
 	m.pb = 0
+	m.msgat = 0
 	m.pe = len(input)
 	m.eof = len(input)
 	m.err = nil
-- 
2.43.0


From 9d11551eddb77a6c2c12942fcec5017be7b3697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 11/26] fix: keep completed structured data on best effort mode

An error within an element, or a parameter, also removed the previous one, which
was complete, since the identifiers to remove were stale. Parameters are now
stored only when complete, thus there is no need to remove them.
---
 rfc5424/machine.go    | 88 +++++++++++++++++++++----------------------
 rfc5424/machine.go.rl | 18 +++++----
 2 files changed, 53 insertions(+), 53 deletions(-)

diff --git a/rfc5424/machine.go b/rfc5424/machine.go
index ddd4a7c..bab971c 100644
--- a/rfc5424/machine.go
+++ b/rfc5424/machine.go
@@ -1592,9 +1592,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		goto st0
 	tr42:
 
-		if len(output.structuredData) > 0 {
-			delete(output.structuredData[m.currentelem], m.currentparam)
-		}
 		m.err = fmt.Errorf(ErrSdParam+ColumnPositionTemplate, m.p)
 		(m.p)--
 
@@ -1619,9 +1616,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st614
 		}
 
-		if len(output.structuredData) > 0 {
-			delete(output.structuredData[m.currentelem], m.currentparam)
-		}
 		m.err = fmt.Errorf(ErrSdParam+ColumnPositionTemplate, m.p)
 		(m.p)--
 
@@ -1974,6 +1968,13 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 		output.structuredData = map[string]map[string]string{}
 
+		m.currentelem = ""
+
+		goto st17
+	tr634:
+
+		m.currentelem = ""
+
 		goto st17
 	st17:
 		if (m.p)++; (m.p) == (m.pe) {
@@ -2040,6 +2041,22 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			m.currentelem = id
 		}
 
+		goto st19
+	tr98:
+
+		if output.hasElements {
+			// (fixme) > what if SD-PARAM-NAME already exist for the current element (ie., current SD-ID)?
+
+			// Store text (the current position is right after the closing double quote)
+			text := m.data[m.pb : m.p-1]
+
+			// Strip backslashes only when there are ...
+			if len(m.backslashat) > 0 {
+				text = common.RemoveBytes(text, m.backslashat, m.pb)
+			}
+			output.structuredData[m.currentelem][m.currentparam] = string(text)
+		}
+
 		goto st19
 	st19:
 		if (m.p)++; (m.p) == (m.pe) {
@@ -2768,7 +2785,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase54:
 		switch (m.data)[(m.p)] {
 		case 34:
-			goto tr89
+			goto st55
 		case 92:
 			goto tr90
 		case 93:
@@ -2809,35 +2826,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 		m.pb = m.p
 
-		if output.hasElements {
-			// (fixme) > what if SD-PARAM-NAME already exist for the current element (ie., current SD-ID)?
-
-			// Store text
-			text := m.text()
-
-			// Strip backslashes only when there are ...
-			if len(m.backslashat) > 0 {
-				text = common.RemoveBytes(text, m.backslashat, m.pb)
-			}
-			output.structuredData[m.currentelem][m.currentparam] = string(text)
-		}
-
-		goto st55
-	tr89:
-
-		if output.hasElements {
-			// (fixme) > what if SD-PARAM-NAME already exist for the current element (ie., current SD-ID)?
-
-			// Store text
-			text := m.text()
-
-			// Strip backslashes only when there are ...
-			if len(m.backslashat) > 0 {
-				text = common.RemoveBytes(text, m.backslashat, m.pb)
-			}
-			output.structuredData[m.currentelem][m.currentparam] = string(text)
-		}
-
 		goto st55
 	st55:
 		if (m.p)++; (m.p) == (m.pe) {
@@ -2846,9 +2834,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase55:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto st19
+			goto tr98
 		case 93:
-			goto st606
+			goto tr99
 		}
 		goto tr42
 	tr41:
@@ -2868,6 +2856,22 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			m.currentelem = id
 		}
 
+		goto st606
+	tr99:
+
+		if output.hasElements {
+			// (fixme) > what if SD-PARAM-NAME already exist for the current element (ie., current SD-ID)?
+
+			// Store text (the current position is right after the closing double quote)
+			text := m.data[m.pb : m.p-1]
+
+			// Strip backslashes only when there are ...
+			if len(m.backslashat) > 0 {
+				text = common.RemoveBytes(text, m.backslashat, m.pb)
+			}
+			output.structuredData[m.currentelem][m.currentparam] = string(text)
+		}
+
 		goto st606
 	st606:
 		if (m.p)++; (m.p) == (m.pe) {
@@ -2878,7 +2882,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 32:
 			goto st604
 		case 91:
-			goto st17
+			goto tr634
 		}
 		goto tr633
 	tr79:
@@ -11899,9 +11903,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 			case 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 55, 57, 58, 59, 60, 61, 62, 63:
 
-				if len(output.structuredData) > 0 {
-					delete(output.structuredData[m.currentelem], m.currentparam)
-				}
 				m.err = fmt.Errorf(ErrSdParam+ColumnPositionTemplate, m.p)
 				(m.p)--
 
@@ -12009,9 +12010,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st614
 				}
 
-				if len(output.structuredData) > 0 {
-					delete(output.structuredData[m.currentelem], m.currentparam)
-				}
 				m.err = fmt.Errorf(ErrSdParam+ColumnPositionTemplate, m.p)
 				(m.p)--
 
diff --git a/rfc5424/machine.go.rl b/rfc5424/machine.go.rl
index f0b9c82..cb076cb 100644
--- a/rfc5424/machine.go.rl
+++ b/rfc5424/machine.go.rl
@@ -114,6 +114,10 @@ action ini_elements {
 	output.structuredData = map[string]map[string]string{}
 }
 
+action ini_sdelement {
+	m.currentelem = ""
+}
+
 action set_id {
 	if _, ok := output.structuredData[string(m.text())]; ok {
 		// As per RFC5424 section 6.3.2 SD-ID MUST NOT exist more than once in a message
@@ -144,8 +148,8 @@ action set_paramvalue {
 	if output.hasElements {
 		// (fixme) > what if SD-PARAM-NAME already exist for the current element (ie., current SD-ID)?
 
-		// Store text
-		text := m.text()
+		// Store text (the current position is right after the closing double quote)
+		text := m.data[m.pb:m.p-1]
 
 		// Strip backslashes only when there are ...
 		if len(m.backslashat) > 0 {
@@ -224,9 +228,6 @@ action err_sdid {
 }
 
 action err_sdparam {
-	if len(output.structuredData) > 0 {
-		delete(output.structuredData[m.currentelem], m.currentparam)
-	}
 	m.err = fmt.Errorf(ErrSdParam + ColumnPositionTemplate, m.p)
 	fhold;
 	fgoto fail;
@@ -285,16 +286,17 @@ escapes = (bs >add_slash toescape) $err(err_escape);
 # As per section 6.3.3 param value MUST NOT contain '"', '\' and ']', unless they are escaped.
 # A backslash '\' followed by none of the this three characters is an invalid escape sequence.
 # In this case, treat it as a regular backslash and the following character as a regular character (not altering the invalid sequence).
-paramvalue = (utf8charwodelims* escapes*)+ >mark %set_paramvalue;
+paramvalue = (utf8charwodelims* escapes*)+ >mark;
 
 paramname = sdname >mark %set_paramname;
 
-sdparam = (paramname '=' dq paramvalue dq) >ini_sdparam $err(err_sdparam);
+# (note) > a param is stored only once something legit follows it
+sdparam = (paramname '=' dq paramvalue dq) >ini_sdparam %set_paramvalue $err(err_sdparam);
 
 # (note) > finegrained semantics of section 6.3.2 not represented here since not so useful for parsing goal
 sdid = sdname >mark %set_id %err(set_id) $err(err_sdid);
 
-sdelement = ('[' sdid (sp sdparam)* ']');
+sdelement = ('[' sdid (sp sdparam)* ']') >ini_sdelement;
 
 structureddata = nilvalue | sdelement+ >ini_elements $err(err_structureddata);
 
-- 
2.43.0


From 0b294a3e33c2737b9d5df386ed3ea4e9c19e2c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 12/26] fix: discard the setting of an already existing
 structured data parameter

SetParameter documents so, but it replaced the existing value.
---
 rfc5424/builder.go    | 4 ++++
 rfc5424/builder.go.rl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 4136b6d..a8c7b30 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -9332,6 +9332,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
 	if sm.StructuredData != nil {
 		elements := *sm.StructuredData
 		if _, ok := elements[id]; ok {
+			// Discard the operation when the parameter already exists
+			if _, ok := elements[id][name]; ok {
+				return sm
+			}
 			sm.setWithin(id, "", sdpn, name)
 			// We can assign parameter value iff the given parameter key exists
 			if _, ok := elements[id][name]; ok {
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index bebfc0b..fd787e1 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -235,6 +235,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
     if sm.StructuredData != nil {
         elements := *sm.StructuredData
         if _, ok := elements[id]; ok {
+            // Discard the operation when the parameter already exists
+            if _, ok := elements[id][name]; ok {
+                return sm
+            }
             sm.setWithin(id, "", sdpn, name)
             // We can assign parameter value iff the given parameter key exists
             if _, ok := elements[id][name]; ok {
-- 
2.43.0


From 2935b43fde61301c7bca7e1e7c572dadbf8545d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 13/26] fix: do not set an empty structured data parameter
 given an invalid value

SetParameter ignored the invalid value but left the parameter there, with an
empty value nobody asked for.
---
 rfc5424/builder.go    | 4 ++++
 rfc5424/builder.go.rl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index a8c7b30..28d4619 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -9340,6 +9340,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
 			// We can assign parameter value iff the given parameter key exists
 			if _, ok := elements[id][name]; ok {
 				sm.setWithin(id, name, sdpv, value)
+				// Do not leave behind an empty parameter when the given value is not legit
+				if value != "" && elements[id][name] == "" {
+					delete(elements[id], name)
+				}
 			}
 		}
 	}
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index fd787e1..8f10fec 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -243,6 +243,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
             // We can assign parameter value iff the given parameter key exists
             if _, ok := elements[id][name]; ok {
                 sm.setWithin(id, name, sdpv, value)
+                // Do not leave behind an empty parameter when the given value is not legit
+                if value != "" && elements[id][name] == "" {
+                    delete(elements[id], name)
+                }
             }
         }
     }
-- 
2.43.0


From 2f79eb4df9e8e57ec3e2f27af4755614ca58cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 14/26] fix: report non-transparent streams not starting with a
 syslog message

When the first octet was not '<' the whole stream was silently discarded: neither
messages nor errors were emitted. Emit one error, as the other framing does.
---
 nontransparent/parser.go    | 10 ++++++++++
 nontransparent/parser.go.rl | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/nontransparent/parser.go b/nontransparent/parser.go
index 19feebd..d2c1340 100644
--- a/nontransparent/parser.go
+++ b/nontransparent/parser.go
@@ -1,6 +1,7 @@
 package nontransparent
 
 import (
+	"fmt"
 	"io"
 
 	syslog "github.com/influxdata/go-syslog/v3"
@@ -22,6 +23,7 @@ type machine struct {
 	emit       syslog.ParserListener
 	readError  error
 	lastChunk  []byte // store last candidate message also if it does not ends with a trailer
+	illegal    bool   // whether the stream does not start with a syslog message
 }
 
 // Exec implements the ragel.Parser interface.
@@ -163,6 +165,13 @@ func (m *machine) Exec(s *parser.State) (int, int) {
 		}
 	}
 
+	// Tell that the stream can not be split into frames, just once
+	if cs == nontransparentError && !m.illegal {
+		m.illegal = true
+		m.emit(&syslog.Result{
+			Error: fmt.Errorf("found %q, expecting a syslog message starting with %q", data[p], '<'),
+		})
+	}
 	// Update parsing variables
 	s.Set(cs, p, pe, eof)
 	return p, pe
@@ -262,6 +271,7 @@ func (m *machine) Parse(reader io.Reader) {
 	m.candidate = nil
 	m.readError = nil
 	m.lastChunk = nil
+	m.illegal = false
 
 	r := parser.ArbitraryReader(reader, m.trailer)
 	parser.New(r, m, parser.WithStart(1)).Parse()
diff --git a/nontransparent/parser.go.rl b/nontransparent/parser.go.rl
index 51a9143..9d29c89 100644
--- a/nontransparent/parser.go.rl
+++ b/nontransparent/parser.go.rl
@@ -1,6 +1,7 @@
 package nontransparent
 
 import (
+    "fmt"
     "io"
 
     parser "github.com/leodido/ragel-machinery/parser"
@@ -50,6 +51,7 @@ type machine struct{
     emit       syslog.ParserListener
     readError  error
     lastChunk  []byte // store last candidate message also if it does not ends with a trailer
+    illegal    bool   // whether the stream does not start with a syslog message
 }
 
 // Exec implements the ragel.Parser interface.
@@ -57,6 +59,13 @@ func (m *machine) Exec(s *parser.State) (int, int) {
     // Retrieve previously stored parsing variables
     cs, p, pe, eof, data := s.Get()
     %% write exec;
+    // Tell that the stream can not be split into frames, just once
+    if cs == nontransparent_error && !m.illegal {
+        m.illegal = true
+        m.emit(&syslog.Result{
+            Error: fmt.Errorf("found %q, expecting a syslog message starting with %q", data[p], '<'),
+        })
+    }
     // Update parsing variables
     s.Set(cs, p, pe, eof)
     return p, pe
@@ -153,6 +162,7 @@ func (m *machine) Parse(reader io.Reader) {
     m.candidate = nil
     m.readError = nil
     m.lastChunk = nil
+    m.illegal = false
 
     r := parser.ArbitraryReader(reader, m.trailer)
     parser.New(r, m, parser.WithStart(%%{ write start; }%%)).Parse()
-- 
2.43.0


From 5684a6f00a5e0cfbe38767796b602be4518160d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 15/26] fix: keep all the digits of a RFC 5424 version at the
 end of the input

---
 rfc5424/machine.go    | 36 ++++++++++++++++++------------------
 rfc5424/machine.go.rl |  2 +-
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/rfc5424/machine.go b/rfc5424/machine.go
index bab971c..89d5500 100644
--- a/rfc5424/machine.go
+++ b/rfc5424/machine.go
@@ -11925,6 +11925,24 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 				output.message = string(m.text())
 
+			case 591, 592:
+
+				output.version = uint16(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
+
+				m.err = fmt.Errorf(ErrVersion+ColumnPositionTemplate, m.p)
+				(m.p)--
+
+				{
+					goto st614
+				}
+
+				m.err = fmt.Errorf(ErrParse+ColumnPositionTemplate, m.p)
+				(m.p)--
+
+				{
+					goto st614
+				}
+
 			case 18, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94:
 
 				if _, ok := output.structuredData[string(m.text())]; ok {
@@ -11983,24 +12001,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st614
 				}
 
-			case 591, 592:
-
-				m.err = fmt.Errorf(ErrVersion+ColumnPositionTemplate, m.p)
-				(m.p)--
-
-				{
-					goto st614
-				}
-
-				output.version = uint16(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-
-				m.err = fmt.Errorf(ErrParse+ColumnPositionTemplate, m.p)
-				(m.p)--
-
-				{
-					goto st614
-				}
-
 			case 53, 54, 56:
 
 				m.err = fmt.Errorf(ErrEscape+ColumnPositionTemplate, m.p)
diff --git a/rfc5424/machine.go.rl b/rfc5424/machine.go.rl
index cb076cb..9bd71c9 100644
--- a/rfc5424/machine.go.rl
+++ b/rfc5424/machine.go.rl
@@ -266,7 +266,7 @@ nilvalue = '-';
 
 pri = ('<' prival >mark %from(set_prival) $err(err_prival) '>') @err(err_pri);
 
-version = (nonzerodigit digit{0,2} <err(err_version)) >mark %from(set_version) %eof(set_version) @err(err_version);
+version = (nonzerodigit digit{0,2} $eof(set_version) <err(err_version)) >mark %from(set_version) @err(err_version);
 
 timestamp = (nilvalue | (fulldate >mark 'T' fulltime %set_timestamp %err(set_timestamp))) @err(err_timestamp);
 
-- 
2.43.0


From b24b7f2411c8635ff82e4150c087c38e571e673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 16/26] fix: frames larger than the scanner buffer, whatever
 the max length is

---
 octetcounting/scanner.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 6288b37..fa39556 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -30,8 +30,14 @@ type Scanner struct {
 	ready  bool
 }
 
+// maxBufferSize bounds the buffer to read through, whatever the maximum message length is
+const maxBufferSize = 65536
+
 // NewScanner returns a pointer to a new instance of Scanner.
 func NewScanner(r io.Reader, maxLength int) *Scanner {
+	if maxLength > maxBufferSize {
+		maxLength = maxBufferSize
+	}
 	return &Scanner{
 		r: bufio.NewReaderSize(r, maxLength+20), // max uint64 is 19 characters + a space
 	}
@@ -118,7 +124,24 @@ func (s *Scanner) scanMsgLen() Token {
 func (s *Scanner) scanSyslogMsg() Token {
 	// Check the reader contains almost MSGLEN characters
 	n := int(s.msglen)
+	var large []byte
+	for n-len(large) > s.r.Size() {
+		// It does not fit the buffer: move what the buffer can contain away
+		b, err := s.r.Peek(s.r.Size())
+		large = append(large, b...)
+		if err != nil {
+			return Token{
+				typ: EOF,
+				lit: large,
+			}
+		}
+		s.r.Discard(len(b))
+	}
+	n -= len(large)
 	b, err := s.r.Peek(n)
+	if len(large) > 0 {
+		b = append(large, b...)
+	}
 	if err != nil {
 		return Token{
 			typ: EOF,
-- 
2.43.0


From e83876cf4d4fd22b8561d7878faf69d31b7e5412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 17/26] fix: do not retain what a non-transparent stream
 discards

A stream which does not start with a syslog message was kept in memory as a
whole while reading it.
---
 nontransparent/parser.go    | 16 ++++++++++------
 nontransparent/parser.go.rl | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/nontransparent/parser.go b/nontransparent/parser.go
index d2c1340..94e2ad3 100644
--- a/nontransparent/parser.go
+++ b/nontransparent/parser.go
@@ -165,12 +165,16 @@ func (m *machine) Exec(s *parser.State) (int, int) {
 		}
 	}
 
-	// Tell that the stream can not be split into frames, just once
-	if cs == nontransparentError && !m.illegal {
-		m.illegal = true
-		m.emit(&syslog.Result{
-			Error: fmt.Errorf("found %q, expecting a syslog message starting with %q", data[p], '<'),
-		})
+	if cs == nontransparentError {
+		// Tell that the stream can not be split into frames, just once
+		if !m.illegal {
+			m.illegal = true
+			m.emit(&syslog.Result{
+				Error: fmt.Errorf("found %q, expecting a syslog message starting with %q", data[p], '<'),
+			})
+		}
+		// Do not retain what is discarded
+		p = pe
 	}
 	// Update parsing variables
 	s.Set(cs, p, pe, eof)
diff --git a/nontransparent/parser.go.rl b/nontransparent/parser.go.rl
index 9d29c89..3024030 100644
--- a/nontransparent/parser.go.rl
+++ b/nontransparent/parser.go.rl
@@ -59,12 +59,16 @@ func (m *machine) Exec(s *parser.State) (int, int) {
     // Retrieve previously stored parsing variables
     cs, p, pe, eof, data := s.Get()
     %% write exec;
-    // Tell that the stream can not be split into frames, just once
-    if cs == nontransparent_error && !m.illegal {
-        m.illegal = true
-        m.emit(&syslog.Result{
-            Error: fmt.Errorf("found %q, expecting a syslog message starting with %q", data[p], '<'),
-        })
+    if cs == nontransparent_error {
+        // Tell that the stream can not be split into frames, just once
+        if !m.illegal {
+            m.illegal = true
+            m.emit(&syslog.Result{
+                Error: fmt.Errorf("found %q, expecting a syslog message starting with %q", data[p], '<'),
+            })
+        }
+        // Do not retain what is discarded
+        p = pe
     }
     // Update parsing variables
     s.Set(cs, p, pe, eof)
-- 
2.43.0


From ca19ac380150d5f0590f85e853665c184e03ba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 18/26] fix: remove the escapes of a value in one pass

Unescaping took time proportional to the number of escapes times the length of
the value.
---
 common/functions.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/common/functions.go b/common/functions.go
index ea636fb..c9e8a37 100644
--- a/common/functions.go
+++ b/common/functions.go
@@ -20,11 +20,14 @@ func UnsafeUTF8DecimalCodePointsToInt(chars []uint8) int {
 func RemoveBytes(data []byte, positions []int, offset int) []byte {
 	// We need a copy here to not modify original data
 	cp := append([]byte(nil), data...)
-	for i, pos := range positions {
-		at := pos - i - offset
-		cp = append(cp[:at], cp[(at+1):]...)
+	n, from := 0, 0
+	for _, pos := range positions {
+		at := pos - offset
+		n += copy(cp[n:], data[from:at])
+		from = at + 1
 	}
-	return cp
+	n += copy(cp[n:], data[from:])
+	return cp[:n]
 }
 
 // EscapeBytes adds a backslash to \, ], " characters.
-- 
2.43.0


From 9669bce6c409d583d05f974306631a31929cb787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 19/26] fix: serialize structured data without copying it at
 every parameter

Serializing took time proportional to the square of the length of the
structured data.
---
 rfc5424/builder.go    | 10 ++++++----
 rfc5424/builder.go.rl | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 28d4619..6986aec 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -3,6 +3,7 @@ package rfc5424
 import (
 	"fmt"
 	"sort"
+	"strings"
 	"time"
 
 	"github.com/influxdata/go-syslog/v3/common"
@@ -9393,9 +9394,9 @@ func (sm *SyslogMessage) String() (string, error) {
 		}
 		sort.Strings(identifiers)
 
-		sd = ""
+		var elements strings.Builder
 		for _, id := range identifiers {
-			sd += fmt.Sprintf("[%s", id)
+			fmt.Fprintf(&elements, "[%s", id)
 
 			// Sort parameter names
 			params := (*sm.StructuredData)[id]
@@ -9406,10 +9407,11 @@ func (sm *SyslogMessage) String() (string, error) {
 			sort.Strings(names)
 
 			for _, name := range names {
-				sd += fmt.Sprintf(" %s=\"%s\"", name, common.EscapeBytes(params[name]))
+				fmt.Fprintf(&elements, " %s=\"%s\"", name, common.EscapeBytes(params[name]))
 			}
-			sd += "]"
+			elements.WriteString("]")
 		}
+		sd = elements.String()
 	}
 	if sm.Message != nil {
 		m = " " + *sm.Message
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index 8f10fec..4f27e12 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -3,6 +3,7 @@ package rfc5424
 import (
     "time"
     "sort"
+    "strings"
     "fmt"
 
     "github.com/influxdata/go-syslog/v3/common"
@@ -296,9 +297,9 @@ func (sm *SyslogMessage) String() (string, error) {
         }
         sort.Strings(identifiers)
 
-        sd = ""
+        var elements strings.Builder
         for _, id := range identifiers {
-            sd += fmt.Sprintf("[%s", id)
+            fmt.Fprintf(&elements, "[%s", id)
 
             // Sort parameter names
             params := (*sm.StructuredData)[id]
@@ -309,10 +310,11 @@ func (sm *SyslogMessage) String() (string, error) {
             sort.Strings(names)
 
             for _, name := range names {
-                sd += fmt.Sprintf(" %s=\"%s\"", name, common.EscapeBytes(params[name]))
+                fmt.Fprintf(&elements, " %s=\"%s\"", name, common.EscapeBytes(params[name]))
             }
-            sd += "]"
+            elements.WriteString("]")
         }
+        sd = elements.String()
     }
     if sm.Message != nil {
         m = " " + *sm.Message
-- 
2.43.0


From efeb63880966b1baf8e6628a14b21e26add8a198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:55 +0000
Subject: [PATCH 20/26] fix: stop at the first failure of the reader within the
 length of an octet counting frame

---
 octetcounting/scanner.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index fa39556..cd80bdf 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -28,6 +28,7 @@ type Scanner struct {
 	r      *bufio.Reader
 	msglen uint64
 	ready  bool
+	failed bool // whether the reader ended, or failed
 }
 
 // maxBufferSize bounds the buffer to read through, whatever the maximum message length is
@@ -44,10 +45,14 @@ func NewScanner(r io.Reader, maxLength int) *Scanner {
 }
 
 // read reads the next byte from the buffered reader
-// it returns false if an error occurs (or io.EOF is returned)
+// it returns false if an error occurs (or io.EOF is returned), and from then on
 func (s *Scanner) read() (byte, bool) {
+	if s.failed {
+		return 0, false
+	}
 	b, err := s.r.ReadByte()
-	return b, err == nil
+	s.failed = err != nil
+	return b, !s.failed
 }
 
 // unread places the previously read byte back on the reader
-- 
2.43.0


From 6fc577fb2c5f20fdf3fb7a821b6430fa71486b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:46 +0000
Subject: [PATCH 21/26] fix: tell the announced count when another number is
 found in place of an octet counting message

---
 octetcounting/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/octetcounting/parser.go b/octetcounting/parser.go
index ef7b74b..658802e 100644
--- a/octetcounting/parser.go
+++ b/octetcounting/parser.go
@@ -105,10 +105,11 @@ func (p *parser) run() {
 		}
 
 		// Next we MUST see a SYSLOGMSG with length equal to MSGLEN
+		msglen := p.s.msglen // the scanner overwrites it when it finds another number
 		if tok = p.scan(); tok.typ != SYSLOGMSG {
-			e := fmt.Errorf(`found %s after "%s", expecting a %s containing %d octets`, tok, tok.lit, SYSLOGMSG, p.s.msglen)
+			e := fmt.Errorf(`found %s after "%s", expecting a %s containing %d octets`, tok, tok.lit, SYSLOGMSG, msglen)
 			// Underflow case
-			if len(tok.lit) < int(p.s.msglen) && p.bestEffort {
+			if len(tok.lit) < int(msglen) && p.bestEffort {
 				// Though MSGLEN was not respected, we try to parse the existing SYSLOGMSG as a RFC5424 syslog message
 				result := p.parse(tok.lit)
 				if result.Error == nil {
-- 
2.43.0


From ddc037d6ba300f2acda87cef998b630189ffe9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:46 +0000
Subject: [PATCH 22/26] fix: tell what is found in place of an octet counting
 message in best effort too

---
 octetcounting/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/octetcounting/parser.go b/octetcounting/parser.go
index 658802e..456fc60 100644
--- a/octetcounting/parser.go
+++ b/octetcounting/parser.go
@@ -109,7 +109,7 @@ func (p *parser) run() {
 		if tok = p.scan(); tok.typ != SYSLOGMSG {
 			e := fmt.Errorf(`found %s after "%s", expecting a %s containing %d octets`, tok, tok.lit, SYSLOGMSG, msglen)
 			// Underflow case
-			if len(tok.lit) < int(msglen) && p.bestEffort {
+			if tok.typ == EOF && len(tok.lit) < int(msglen) && p.bestEffort {
 				// Though MSGLEN was not respected, we try to parse the existing SYSLOGMSG as a RFC5424 syslog message
 				result := p.parse(tok.lit)
 				if result.Error == nil {
-- 
2.43.0


From a3b82f92f1c78dbd6d57b58dc8036ddb67d372ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 23/26] fix: serialize structured data without elements as a
 nil value

---
 rfc5424/builder.go    | 2 +-
 rfc5424/builder.go.rl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 6986aec..401a210 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -9386,7 +9386,7 @@ func (sm *SyslogMessage) String() (string, error) {
 	if sm.MsgID != nil {
 		mid = *sm.MsgID
 	}
-	if sm.StructuredData != nil {
+	if sm.StructuredData != nil && len(*sm.StructuredData) > 0 {
 		// Sort element identifiers
 		identifiers := make([]string, 0)
 		for k := range *sm.StructuredData {
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index 4f27e12..82cdefc 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -289,7 +289,7 @@ func (sm *SyslogMessage) String() (string, error) {
     if sm.MsgID != nil {
         mid = *sm.MsgID
     }
-    if sm.StructuredData != nil {
+    if sm.StructuredData != nil && len(*sm.StructuredData) > 0 {
         // Sort element identifiers
         identifiers := make([]string, 0)
         for k, _ := range *sm.StructuredData {
-- 
2.43.0


From fc6b2ebaf443c249fcb9abaad6007f81af22df5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 24/26] fix: let the setters work on messages with nil maps of
 structured data

---
 rfc5424/builder.go    | 4 ++--
 rfc5424/builder.go.rl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 401a210..5a107c7 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -9200,13 +9200,13 @@ func (sm *SyslogMessage) setWithin(currentid string, currentparamname string, fr
 
 			case 518, 519, 520, 521, 522, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549:
 
-				if sm.StructuredData == nil {
+				if sm.StructuredData == nil || *sm.StructuredData == nil {
 					sm.StructuredData = &(map[string]map[string]string{})
 				}
 
 				id := string(data[pb:p])
 				elements := *sm.StructuredData
-				if _, ok := elements[id]; !ok {
+				if elements[id] == nil {
 					elements[id] = map[string]string{}
 				}
 
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index 82cdefc..bd881b2 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -51,13 +51,13 @@ action set_msgid {
 }
 
 action set_sdid {
-    if sm.StructuredData == nil {
+    if sm.StructuredData == nil || *sm.StructuredData == nil {
         sm.StructuredData = &(map[string]map[string]string{})
     }
 
     id := string(data[pb:p])
     elements := *sm.StructuredData
-    if _, ok := elements[id]; !ok {
+    if elements[id] == nil {
         elements[id] = map[string]string{}
     }
 }
-- 
2.43.0


From da8780f1f960842725e038eca8f1178bc9f63302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 25/26] fix: keep the octet counting scanner at the end once it
 found it, and do not truncate counts

---
 octetcounting/scanner.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index cd80bdf..3afdb8b 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -129,12 +129,20 @@ func (s *Scanner) scanMsgLen() Token {
 func (s *Scanner) scanSyslogMsg() Token {
 	// Check the reader contains almost MSGLEN characters
 	n := int(s.msglen)
+	if n < 0 || uint64(n) != s.msglen {
+		// Nothing can contain so many
+		s.failed = true
+		return Token{
+			typ: EOF,
+		}
+	}
 	var large []byte
 	for n-len(large) > s.r.Size() {
 		// It does not fit the buffer: move what the buffer can contain away
 		b, err := s.r.Peek(s.r.Size())
 		large = append(large, b...)
 		if err != nil {
+			s.failed = true
 			return Token{
 				typ: EOF,
 				lit: large,
@@ -148,6 +156,7 @@ func (s *Scanner) scanSyslogMsg() Token {
 		b = append(large, b...)
 	}
 	if err != nil {
+		s.failed = true
 		return Token{
 			typ: EOF,
 			lit: b,
-- 
2.43.0


From 8002cb0ee413eb7889da97aec020f6b7b5414c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:20 +0000
Subject: [PATCH 26/26] fix: octet counting delivers one result per frame even
 when the listener changes the result it gets

---
 octetcounting/parser.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/octetcounting/parser.go b/octetcounting/parser.go
index 456fc60..81e509d 100644
--- a/octetcounting/parser.go
+++ b/octetcounting/parser.go
@@ -127,13 +127,11 @@ func (p *parser) run() {
 
 		// Parse the SYSLOGMSG literal pretending it is a RFC5424 syslog message
 		result := p.parse(tok.lit)
-		if p.bestEffort || result.Error == nil {
-			p.emit(result)
-		}
 		if !p.bestEffort && result.Error != nil {
 			p.emit(&syslog.Result{Error: result.Error})
 			break
 		}
+		p.emit(result)
 
 		// Next we MUST see an EOF otherwise the parsing we'll start again
 		if tok = p.scan(); tok.typ == EOF {
-- 
2.43.0

