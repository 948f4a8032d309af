From 31f2836cf6cf422c209edeec737d1795c703e847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 01/15] fix: do not write the bytes at the memory limit twice
 when a body spills

---
 modsecurity/buffer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index 27a982c..f3730d6 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -44,7 +44,6 @@ func (b *buffer) Write(p []byte) (wn int, err error) {
 	case b.length+int64(len(p)) > b.fileLimit:
 		return 0, ErrOutOfFileLimit
 	case b.fileBuf == nil && b.length+int64(len(p)) > b.memLimit:
-		b.memBuf.Write(p[:b.memLimit-b.length])
 		b.fileBuf, err = ioutil.TempFile(b.dir, "modsecurity-buffer-*.data")
 		if err != nil {
 			return 0, err
@@ -53,6 +52,8 @@ func (b *buffer) Write(p []byte) (wn int, err error) {
 		if err != nil {
 			return 0, err
 		}
+		// the first memLimit bytes stay available in memory
+		b.memBuf.Write(p[:b.memLimit-b.length])
 		wn, err = b.fileBuf.Write(p)
 	case b.fileBuf == nil:
 		wn, err = b.memBuf.Write(p)
-- 
2.43.0


From 1e9358e51af2bad16898af923c4280b077846b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 02/15] fix: read a buffered body on from where the last read
 ended, refuse appends after it

---
 modsecurity/buffer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index f3730d6..f87d811 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -84,6 +84,7 @@ func (b *buffer) Len() int64 {
 }
 func (b *buffer) initRead() {
 	if !b.readed {
+		b.readed = true
 		b.memReader = bytes.NewReader(b.memBuf.Bytes())
 		b.fileBuf.Seek(0, 0)
 	}
-- 
2.43.0


From 14c0f2b95e8b55d091617be4552672c01ad9bcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 03/15] fix: a failed write to the body file leaves the buffer
 as it was

---
 modsecurity/buffer.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index f87d811..ca15f23 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -29,7 +29,9 @@ type buffer struct {
 	memBuf    *bytes.Buffer
 	memReader *bytes.Reader
 	fileBuf   *os.File
-	readed    bool
+	// fileReader covers the acknowledged bytes of fileBuf
+	fileReader *io.SectionReader
+	readed     bool
 }
 
 var ErrOutOfFileLimit = errors.New("out of file limit")
@@ -44,21 +46,30 @@ func (b *buffer) Write(p []byte) (wn int, err error) {
 	case b.length+int64(len(p)) > b.fileLimit:
 		return 0, ErrOutOfFileLimit
 	case b.fileBuf == nil && b.length+int64(len(p)) > b.memLimit:
-		b.fileBuf, err = ioutil.TempFile(b.dir, "modsecurity-buffer-*.data")
+		var f *os.File
+		f, err = ioutil.TempFile(b.dir, "modsecurity-buffer-*.data")
 		if err != nil {
 			return 0, err
 		}
-		_, err = b.fileBuf.Write(b.memBuf.Bytes())
-		if err != nil {
+		if _, err = f.Write(b.memBuf.Bytes()); err == nil {
+			_, err = f.Write(p)
+		}
+		if err != nil { // the body stays in memory, as it was
+			f.Close()
+			os.Remove(f.Name())
 			return 0, err
 		}
 		// the first memLimit bytes stay available in memory
 		b.memBuf.Write(p[:b.memLimit-b.length])
-		wn, err = b.fileBuf.Write(p)
+		b.fileBuf, wn = f, len(p)
 	case b.fileBuf == nil:
 		wn, err = b.memBuf.Write(p)
 	default:
-		wn, err = b.fileBuf.Write(p)
+		// a failed write leaves bytes past length, which are never read
+		if _, err = b.fileBuf.WriteAt(p, b.length); err != nil {
+			return 0, err
+		}
+		wn = len(p)
 	}
 	b.length += int64(wn)
 	return wn, err
@@ -86,7 +97,9 @@ func (b *buffer) initRead() {
 	if !b.readed {
 		b.readed = true
 		b.memReader = bytes.NewReader(b.memBuf.Bytes())
-		b.fileBuf.Seek(0, 0)
+		if b.fileBuf != nil {
+			b.fileReader = io.NewSectionReader(b.fileBuf, 0, b.length)
+		}
 	}
 	return
 }
@@ -95,21 +108,21 @@ func (b *buffer) Read(p []byte) (n int, err error) {
 	if b.fileBuf == nil {
 		return b.memReader.Read(p)
 	}
-	return b.fileBuf.Read(p)
+	return b.fileReader.Read(p)
 }
 func (b *buffer) WriteTo(w io.Writer) (n int64, err error) {
 	b.initRead()
 	if b.fileBuf == nil {
 		return b.memReader.WriteTo(w)
 	}
-	return io.Copy(w, b.fileBuf)
+	return io.Copy(w, b.fileReader)
 }
 func (b *buffer) Seek(offset int64, whence int) (int64, error) {
 	b.initRead()
 	if b.fileBuf == nil {
 		return b.memReader.Seek(offset, whence)
 	}
-	return b.fileBuf.Seek(offset, whence)
+	return b.fileReader.Seek(offset, whence)
 }
 
 func (b *buffer) Close() error {
-- 
2.43.0


From 35aa7850069a649d591fcd0cf9edd3044534f6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 04/15] fix: let a transaction release its body files, spilled
 or not

---
 modsecurity/buffer.go      | 7 +++++++
 modsecurity/transaction.go | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index ca15f23..016c11a 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -32,6 +32,7 @@ type buffer struct {
 	// fileReader covers the acknowledged bytes of fileBuf
 	fileReader *io.SectionReader
 	readed     bool
+	closed     bool
 }
 
 var ErrOutOfFileLimit = errors.New("out of file limit")
@@ -125,7 +126,13 @@ func (b *buffer) Seek(offset int64, whence int) (int64, error) {
 	return b.fileReader.Seek(offset, whence)
 }
 
+// Close releases the file of a spilled body. No bytes can be appended after it.
 func (b *buffer) Close() error {
+	b.initRead()
+	if b.fileBuf == nil || b.closed {
+		return nil
+	}
+	b.closed = true
 	filename := b.fileBuf.Name()
 	err := b.fileBuf.Close()
 	err2 := os.Remove(filename)
diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 8f9a256..f3ec233 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -262,6 +262,15 @@ func (t *Transaction) Result() *Intervention {
 	return i
 }
 
+// Close releases the temporary files of the request and response bodies.
+func (t *Transaction) Close() error {
+	err := t.Request.Body.Close()
+	if err2 := t.Response.Body.Close(); err == nil {
+		err = err2
+	}
+	return err
+}
+
 func (t *Transaction) Logf(f string, val ...interface{}) {
 	buffer := bytes.NewBuffer(nil)
 	fmt.Fprintf(buffer, "[client %s:%s] (phase %d) ", t.SrcIp, t.SrcPort, t.CurrentPhase())
-- 
2.43.0


From f4646cacdb0e0681798093119c063a3188f888fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 05/15] fix: a body that cannot be parsed gives every rule the
 same arguments

---
 modsecurity/variables/request_body_parser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index 80c3986..bbcdc47 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -2,6 +2,7 @@ package variables
 
 import (
 	"fmt"
+	"io"
 	"mime"
 	"mime/multipart"
 	"net/http"
@@ -37,13 +38,20 @@ var parsers = map[int]*bodyParser{
 	bodyTypeMultipart: &bodyParser{
 		contentType: "multipart/",
 		parser: func(t *modsecurity.Transaction, params map[string]string) (interface{}, error) {
+			// whatever was read before, parse the whole body
+			if _, err := t.Request.Body.Seek(0, io.SeekStart); err != nil {
+				return nil, err
+			}
 			mr := multipart.NewReader(t.Request.Body, params["boundary"])
 			form, err := mr.ReadForm(t.Engine.RequestBodyInMem)
 			if err == multipart.ErrMessageTooLarge {
 				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
 				return nil, err
 			}
-			return form, err
+			if err != nil {
+				return nil, err
+			}
+			return form, nil
 		},
 	},
 }
@@ -76,7 +84,6 @@ func requestBodyParse(t *modsecurity.Transaction, types ...int) (int, interface{
 			t.VariableCache[cacheKey] = res
 			if err != nil {
 				t.RequestBodyError = err
-				break
 			}
 		}
 		if res != nil {
-- 
2.43.0


From 6f9f067591b44a01205711f97d88c4de9139ba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 06/15] fix: remove the temporary files of uploads after
 inspection

---
 modsecurity/variables/request_body_parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index bbcdc47..c63708d 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -51,7 +51,8 @@ var parsers = map[int]*bodyParser{
 			if err != nil {
 				return nil, err
 			}
-			return form, nil
+			// only the values are inspected, not the files
+			return form, form.RemoveAll()
 		},
 	},
 }
-- 
2.43.0


From d8c5fe60a6ef3f08b992d4e5ede59db3748c83d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 07/15] fix: allow resumes at the phase it names and never runs
 a phase again

---
 modsecurity/transaction.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index f3ec233..943b973 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -23,6 +23,7 @@ type Transaction struct {
 	intervention  *Intervention
 	// status
 	currentPhase int
+	donePhase    int // the last phase whose rules ran
 	currentRule  int
 	nextRule     int
 	Data         map[string]interface{}
@@ -79,6 +80,7 @@ func NewTransaction(e *Engine, rs *SecRuleSet) (*Transaction, error) {
 		Errors:        &Errors{},
 		VariableCache: make(map[string]interface{}),
 		currentPhase:  PhaseBegin,
+		donePhase:     StatusNotStarted,
 		currentRule:   StatusNotStarted,
 		nextRule:      0,
 		Data:          make(map[string]interface{}),
@@ -137,6 +139,9 @@ func (s *Transaction) CurrentPhase() int {
 }
 
 func (s *Transaction) JumpToPhase(i int) int {
+	if i <= s.donePhase { // there is no way back to a phase that ran
+		i = s.donePhase + 1
+	}
 	switch {
 	case i < PhaseBegin:
 		i = PhaseBegin
@@ -149,14 +154,18 @@ func (s *Transaction) JumpToPhase(i int) int {
 	return i
 }
 func (t *Transaction) NextPhase() int {
+	if t.donePhase != StatusNotStarted && t.currentPhase > t.donePhase {
+		return t.currentPhase // already left the phase that ran
+	}
 	return t.JumpToPhase(t.CurrentPhase() + 1)
 }
 
 func (t *Transaction) ProcessPhase(phase int) {
-	if t.currentPhase >= phase {
+	if t.currentPhase > phase || t.donePhase >= phase {
 		return
 	}
 	t.JumpToPhase(phase)
+	t.donePhase = phase
 	t.processPhase(phase)
 }
 
-- 
2.43.0


From bd40d0e71a6847e2559a846aed6c294fd2e52dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 08/15] fix: run no further rule while a denial waits to be
 collected

---
 modsecurity/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 943b973..7decfe6 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -170,7 +170,7 @@ func (t *Transaction) ProcessPhase(phase int) {
 }
 
 func (t *Transaction) processPhase(phase int) {
-	if t.Abort {
+	if t.Abort || t.Intervention().Disruptive {
 		return
 	}
 	next := t.Next()
-- 
2.43.0


From fd7e2ff189c96594edac5de7bb218ce08c17b910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 09/15] fix: a backslash that continues no line does not hang
 the scanner

---
 seclang/parser/scanner.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index 7b8f4b2..04d8467 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -354,11 +354,11 @@ func (s *Scanner) SkipBlank() error {
 		case isBlank(s.current):
 			s.advance()
 		case s.current == '\\':
-			if s.next() == '\n' {
-				s.advance()             //skip '\\'
-				s.incrementLineNumber() // skip newlines
-
+			if !isNewLine(s.next()) {
+				return nil // not a line continuation
 			}
+			s.advance()             //skip '\\'
+			s.incrementLineNumber() // skip newlines
 		default:
 			return nil
 
-- 
2.43.0


From 3ae025440e2b21af09a21ad3e6522a201c2004b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:57 +0000
Subject: [PATCH 10/15] fix: report a failing source instead of taking the
 failure for its end

---
 seclang/parser/scanner.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index 04d8467..3aef9fc 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -34,6 +34,7 @@ type Scanner struct {
 	buffer               *bytes.Buffer
 	r                    *bufio.Reader
 	current              rune
+	err                  error // a failure of the source other than its end
 	LineNumber, LastLine int
 }
 
@@ -113,6 +114,9 @@ func (s *Scanner) readString(delimiter ...rune) (string, error) {
 		}
 	}
 
+	if s.current == EOS && s.err != nil { // the end is not known
+		return "", s.err
+	}
 	s.advance()
 	str := s.buffer.String()
 	s.buffer.Reset()
@@ -132,9 +136,15 @@ func (s *Scanner) ReadDirective() (Directive, error) {
 		case 0:
 			s.advance()
 		case EOS:
+			if s.err != nil {
+				return nil, s.err
+			}
 			return nil, ErrEOS
 		default:
 			dir, err := s.readDirective()
+			if err != nil && s.err != nil {
+				return nil, s.err
+			}
 			if err == ErrEOS {
 				return nil, errors.New("unexpected EOS")
 			}
@@ -406,7 +416,7 @@ func (s *Scanner) incrementLineNumber() {
 }
 
 func (s *Scanner) advance() {
-	if c, err := s.r.ReadByte(); err != nil {
+	if c, err := s.readByte(); err != nil {
 		s.current = EOS
 	} else {
 		s.current = rune(c)
@@ -414,7 +424,7 @@ func (s *Scanner) advance() {
 }
 
 func (s *Scanner) next() rune {
-	if c, err := s.r.ReadByte(); err != nil {
+	if c, err := s.readByte(); err != nil {
 		return EOS
 	} else {
 		s.r.UnreadByte()
@@ -422,6 +432,18 @@ func (s *Scanner) next() rune {
 	}
 }
 
+// readByte remembers a failure of the source: nothing is read after it.
+func (s *Scanner) readByte() (byte, error) {
+	if s.err != nil {
+		return 0, s.err
+	}
+	c, err := s.r.ReadByte()
+	if err != nil && err != io.EOF {
+		s.err = err
+	}
+	return c, err
+}
+
 func (s *Scanner) saveAndAdvance() {
 	s.save(s.current)
 	s.advance()
-- 
2.43.0


From d6671c602f75a4a3410190ceb6f5008dbb58563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 11/15] fix: a rejected configuration text leaves the rule set
 unchanged

---
 seclang/rule_set.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seclang/rule_set.go b/seclang/rule_set.go
index 74b4dcb..4e9efcb 100644
--- a/seclang/rule_set.go
+++ b/seclang/rule_set.go
@@ -44,6 +44,7 @@ type DireSet struct {
 
 func (rs *DireSet) AddSecLangString(str string) error {
 	var chainParent *DireRule
+	var dires []Dire // added only when all of str is accepted
 	scanner := parser.NewSecLangScannerFromString(str)
 	dirs, err := scanner.AllDirective()
 	if err != nil {
@@ -67,8 +68,9 @@ func (rs *DireSet) AddSecLangString(str string) error {
 				continue // skip append dire
 			}
 		}
-		rs.dires = append(rs.dires, dire)
+		dires = append(dires, dire)
 	}
+	rs.dires = append(rs.dires, dires...)
 	return nil
 }
 
-- 
2.43.0


From a601a763578b53962ad6edba93833d886aaa989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 12/15] fix: honour SecRuleEngine Off and DetectionOnly while
 processing

---
 modsecurity/engine.go      |  1 +
 modsecurity/sec_rule.go    |  5 ++++-
 modsecurity/transaction.go | 11 +++++++----
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/modsecurity/engine.go b/modsecurity/engine.go
index 34f47d3..24b0459 100644
--- a/modsecurity/engine.go
+++ b/modsecurity/engine.go
@@ -35,6 +35,7 @@ func NewDefaultLimits() *Limits {
 
 func NewEngine() *Engine {
 	return &Engine{
+		Enabled: true,
 		RuleSet: NewSecRuleSet(),
 		Limits:  NewDefaultLimits(),
 		Config:  NewDefaultConfig(),
diff --git a/modsecurity/sec_rule.go b/modsecurity/sec_rule.go
index e157122..743a0f2 100644
--- a/modsecurity/sec_rule.go
+++ b/modsecurity/sec_rule.go
@@ -106,7 +106,10 @@ func ActionsExecute(t *Transaction, as []Action) {
 	for _, a := range as {
 		actionMap[a.ActionGroup()] = append(actionMap[a.ActionGroup()], a)
 	}
-	for _, actions := range actionMap {
+	for group, actions := range actionMap {
+		if group == ActionGroupDisruptive && t.Engine.DetectionOnly {
+			continue
+		}
 		for _, action := range actions {
 			action.Do(t)
 		}
diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 7decfe6..182b9df 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -173,6 +173,9 @@ func (t *Transaction) processPhase(phase int) {
 	if t.Abort || t.Intervention().Disruptive {
 		return
 	}
+	if !t.Engine.Enabled && !t.Engine.DetectionOnly {
+		return
+	}
 	next := t.Next()
 	for ; t.currentPhase == phase && next != StatusEndOfRules; next = t.Next() {
 		t.RuleSet.Process(t, phase, next)
@@ -249,14 +252,14 @@ func (t *Transaction) ResetIntervention() {
 }
 
 func (t *Transaction) AbortWithError(code int, err error) {
-	t.Abort = true
-	i := t.Intervention()
-	i.Status = code
-	i.Disruptive = true
+	t.AbortWithStatus(code)
 	t.Logf("abort process with error %s", err.Error())
 }
 
 func (t *Transaction) AbortWithStatus(code int) {
+	if t.Engine.DetectionOnly {
+		return
+	}
 	t.Abort = true
 	i := t.Intervention()
 	i.Status = code
-- 
2.43.0


From 9e4cfd238efd236b89d76dca52a8867e31b93398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 13/15] fix: record a request body that cannot be stored or
 inspected in full

---
 modsecurity/transaction.go            | 3 +++
 modsecurity/variables/request_body.go | 1 +
 2 files changed, 4 insertions(+)

diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 182b9df..8071b52 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -208,6 +208,9 @@ func (t *Transaction) ProcessRequestHeader(h http.Header) {
 }
 func (t *Transaction) AppendRequestBody(p []byte) error {
 	_, err := t.Request.Body.Write(p)
+	if err != nil {
+		t.RequestBodyError = err
+	}
 	return err
 }
 
diff --git a/modsecurity/variables/request_body.go b/modsecurity/variables/request_body.go
index 3813e1a..4a597f8 100644
--- a/modsecurity/variables/request_body.go
+++ b/modsecurity/variables/request_body.go
@@ -37,6 +37,7 @@ func (v *VariableRequestBody) Fetch(t *modsecurity.Transaction) []string {
 	}
 	body, err := t.Request.Body.String()
 	if err != nil {
+		t.RequestBodyError = err
 		t.AbortWithError(http.StatusRequestEntityTooLarge, err)
 		return nil
 	}
-- 
2.43.0


From 01ae5246843a7bb79e935ef944a87c3d0f43936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:03 +0000
Subject: [PATCH 14/15] fix: a configuration cut off right after an opening
 quote is refused

The scanner took the missing string for an empty one, so that a registered
directive whose argument is cut off there was accepted.
---
 seclang/parser/scanner.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index 3aef9fc..1eb9f4a 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -89,10 +89,7 @@ func (s *Scanner) readString(delimiter ...rune) (string, error) {
 	for !runeInSlice(s.current, delimiter) {
 		switch s.current {
 		case EOS:
-			if s.buffer.Len() > 0 {
-				return "", fmt.Errorf("unexpected EOS after %s", s.buffer.String())
-			}
-			return "", nil
+			return "", fmt.Errorf("unexpected EOS after %s", s.buffer.String())
 		case '\n', '\r':
 			return "", errors.New("unfinished string got newline")
 		case '\\':
-- 
2.43.0


From 9ed85945d2f88dcd2b9df5e39afd532c5eca7cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:03 +0000
Subject: [PATCH 15/15] fix: a directive name cut by a failing source is not
 taken for another

When the source fails within a name whose beginning is the name of another,
registered directive, that directive was handed out.
---
 seclang/parser/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index 1eb9f4a..45fdeb3 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -167,6 +167,9 @@ func (s *Scanner) AllDirective() ([]Directive, error) {
 
 func (s *Scanner) readDirective() (Directive, error) {
 	dir := s.ReadWord()
+	if s.current == EOS && s.err != nil { // the end of the word is not known
+		return nil, s.err
+	}
 	td := DirectiveFromString(dir)
 	if td == nil {
 		return nil, fmt.Errorf("string %s is not directive", dir)
-- 
2.43.0

