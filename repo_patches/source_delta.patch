From abf96a77ec861d7d8009b5de351fc3e46d469540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:55 +0000
Subject: [PATCH 01/55] fix: Ctrl-T on a one-character line moved the cursor
 past its end

The next editing key then panicked.
---
 runebuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index d95df1e..b1066a4 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -274,7 +274,7 @@ func (r *RuneBuffer) Kill() {
 func (r *RuneBuffer) Transpose() {
 	r.Refresh(func() {
 		if len(r.buf) == 1 {
-			r.idx++
+			r.idx = 1
 		}
 
 		if len(r.buf) < 2 {
-- 
2.43.0


From 4be6b5e20f3c3dce9694c214718c9a7dab8160a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:55 +0000
Subject: [PATCH 02/55] fix: Ctrl-W on the first word deleted the text after
 the cursor too

It also did not keep the word for Ctrl-Y.
---
 runebuf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index b1066a4..d8e7c71 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -340,7 +340,8 @@ func (r *RuneBuffer) BackEscapeWord() {
 			}
 		}
 
-		r.buf = r.buf[:0]
+		r.pushKill(r.buf[:r.idx])
+		r.buf = append(r.buf[:0], r.buf[r.idx:]...)
 		r.idx = 0
 	})
 }
-- 
2.43.0


From d7f76438b0a66d1f186e76cb27871d9db166ec15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:55 +0000
Subject: [PATCH 03/55] fix: vi commands e on the last character and r at the
 end of the line panicked

---
 runebuf.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index d8e7c71..6aa088f 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -187,6 +187,9 @@ func (r *RuneBuffer) IsCursorInEnd() bool {
 
 func (r *RuneBuffer) Replace(ch rune) {
 	r.Refresh(func() {
+		if r.idx == len(r.buf) {
+			return
+		}
 		r.buf[r.idx] = ch
 	})
 }
@@ -311,7 +314,7 @@ func (r *RuneBuffer) MoveToEndWord() {
 			return
 		}
 		// if we are at the end of a word already, go to next
-		if !IsWordBreak(r.buf[r.idx]) && IsWordBreak(r.buf[r.idx+1]) {
+		if r.idx+1 < len(r.buf) && !IsWordBreak(r.buf[r.idx]) && IsWordBreak(r.buf[r.idx+1]) {
 			r.idx++
 		}
 
-- 
2.43.0


From 81ca675cbd7fded4a048b4850de374bd6f2f9c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:34 +0000
Subject: [PATCH 04/55] fix: SaveHistory recorded another text while an older
 entry was recalled, and empty lines on a new history

---
 history.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/history.go b/history.go
index 6b17c46..28c7a5e 100644
--- a/history.go
+++ b/history.go
@@ -271,18 +271,12 @@ func (o *opHistory) New(current []rune) (err error) {
 		if o.current != nil {
 			o.current.Value.(*hisItem).Clean()
 			o.historyVer++
-			return nil
 		}
+		return nil
 	}
 
-	if o.current != o.history.Back() {
-		// move history item to current command
-		currentItem := o.current.Value.(*hisItem)
-		// set current to last item
-		o.current = o.history.Back()
-
-		current = runes.Copy(currentItem.Tmp)
-	}
+	// set current to last item
+	o.current = o.history.Back()
 
 	// err only can be a IO error, just report
 	err = o.Update(current, true)
-- 
2.43.0


From 01f7105f0f28ad893f52123d75a2c75359588318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:34 +0000
Subject: [PATCH 05/55] fix: the first line of an empty history was not written
 to the history file

---
 history.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/history.go b/history.go
index 28c7a5e..98c710c 100644
--- a/history.go
+++ b/history.go
@@ -297,9 +297,7 @@ func (o *opHistory) Update(s []rune, commit bool) (err error) {
 	defer o.fdLock.Unlock()
 	s = runes.Copy(s)
 	if o.current == nil {
-		o.Push(s)
-		o.Compact()
-		return
+		o.Push(nil)
 	}
 	r := o.current.Value.(*hisItem)
 	r.Version = o.historyVer
-- 
2.43.0


From 3c37aeb5a06c8672c7b555961a31d10603900005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:34 +0000
Subject: [PATCH 06/55] fix: typing a line dropped the oldest of HistoryLimit
 entries

---
 history.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/history.go b/history.go
index 98c710c..a981ada 100644
--- a/history.go
+++ b/history.go
@@ -307,11 +307,10 @@ func (o *opHistory) Update(s []rune, commit bool) (err error) {
 			// just report the error
 			_, err = o.fd.Write([]byte(string(r.Source) + "\n"))
 		}
+		o.Compact()
 	} else {
 		r.Tmp = append(r.Tmp[:0], s...)
 	}
-	o.current.Value = r
-	o.Compact()
 	return
 }
 
-- 
2.43.0


From db647e11fdb9bf9191fd93e486744b1223e63c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:35 +0000
Subject: [PATCH 07/55] fix: history file damage after torn lines, failed
 rewrites and reopening

A line without its newline was dropped and merged with the next one, a
failed write of the shortened file replaced the good one, and every
ReadPassword loaded the file once more.
---
 history.go | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/history.go b/history.go
index a981ada..f50a23d 100644
--- a/history.go
+++ b/history.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"container/list"
 	"fmt"
+	"io"
 	"os"
 	"strings"
 	"sync"
@@ -28,6 +29,8 @@ type opHistory struct {
 	fd         *os.File
 	fdLock     sync.Mutex
 	enable     bool
+	loaded     bool // the file was read, opening it again must not repeat that
+	torn       bool // the file does not end with a newline
 }
 
 func newOpHistory(cfg *Config) (o *opHistory) {
@@ -71,13 +74,20 @@ func (o *opHistory) historyUpdatePath(path string) {
 		return
 	}
 	o.fd = f
+	if o.loaded {
+		return
+	}
+	o.loaded = true
 	r := bufio.NewReader(o.fd)
 	total := 0
-	for ; ; total++ {
-		line, err := r.ReadString('\n')
-		if err != nil {
+	for ; err == nil; total++ {
+		var line string
+		line, err = r.ReadString('\n')
+		if len(line) == 0 || (err != nil && err != io.EOF) {
 			break
 		}
+		// the last line may lack its newline, it counts all the same
+		o.torn = err == io.EOF
 		// ignore the empty line
 		line = strings.TrimSpace(line)
 		if len(line) == 0 {
@@ -86,7 +96,8 @@ func (o *opHistory) historyUpdatePath(path string) {
 		o.Push([]rune(line))
 		o.Compact()
 	}
-	if total > o.cfg.HistoryLimit {
+	// don't replace a file which could not be read to its end
+	if err == io.EOF && total > o.cfg.HistoryLimit {
 		o.rewriteLocked()
 	}
 	o.historyVer++
@@ -121,11 +132,13 @@ func (o *opHistory) rewriteLocked() {
 	for elem := o.history.Front(); elem != nil; elem = elem.Next() {
 		buf.WriteString(string(elem.Value.(*hisItem).Source) + "\n")
 	}
-	buf.Flush()
-
-	// replace history file
-	if err = os.Rename(tmpFile, o.cfg.HistoryFile); err != nil {
+	// replace history file, but only with a complete one
+	if err = buf.Flush(); err == nil {
+		err = os.Rename(tmpFile, o.cfg.HistoryFile)
+	}
+	if err != nil {
 		fd.Close()
+		os.Remove(tmpFile)
 		return
 	}
 
@@ -134,6 +147,7 @@ func (o *opHistory) rewriteLocked() {
 	}
 	// fd is write only, just satisfy what we need.
 	o.fd = fd
+	o.torn = false
 }
 
 func (o *opHistory) Close() {
@@ -305,7 +319,7 @@ func (o *opHistory) Update(s []rune, commit bool) (err error) {
 		r.Source = s
 		if o.fd != nil {
 			// just report the error
-			_, err = o.fd.Write([]byte(string(r.Source) + "\n"))
+			err = o.appendLocked(string(r.Source) + "\n")
 		}
 		o.Compact()
 	} else {
@@ -314,6 +328,19 @@ func (o *opHistory) Update(s []rune, commit bool) (err error) {
 	return
 }
 
+// appendLocked adds a line to the history file. A line which was only written
+// in part is ended first.
+func (o *opHistory) appendLocked(line string) error {
+	if o.torn {
+		line = "\n" + line
+	}
+	n, err := o.fd.Write([]byte(line))
+	if n > 0 {
+		o.torn = line[n-1] != '\n'
+	}
+	return err
+}
+
 func (o *opHistory) Push(s []rune) {
 	s = runes.Copy(s)
 	elem := o.history.PushBack(&hisItem{Source: s})
-- 
2.43.0


From 8f069bb50e77c2038c4d0882465daa40bd6b40e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:35 +0000
Subject: [PATCH 08/55] fix: save a line to the history before returning it

The program may exit as soon as it has the line.
---
 operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index b60939a..d4d8b1a 100644
--- a/operation.go
+++ b/operation.go
@@ -253,13 +253,13 @@ func (o *Operation) ioloop() {
 				o.buf.Clean()
 				data = o.buf.Reset()
 			}
-			o.outchan <- data
 			if !o.GetConfig().DisableAutoSaveHistory {
 				// ignore IO error
 				_ = o.history.New(data)
 			} else {
 				isUpdateHistory = false
 			}
+			o.outchan <- data
 		case CharBackward:
 			o.buf.MoveBackward()
 		case CharForward:
-- 
2.43.0


From 51bd47860fe39c37b586d08175abfe731d609766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:35 +0000
Subject: [PATCH 09/55] fix: search changed history entries, and cancelling it
 panicked or went elsewhere

---
 search.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/search.go b/search.go
index 52e8ff0..179b28e 100644
--- a/search.go
+++ b/search.go
@@ -77,7 +77,8 @@ func (o *opSearch) search(isChange bool) bool {
 	}
 	o.history.current = elem
 
-	item := o.history.showItem(o.history.current.Value)
+	// the buffer must not share its runes with the history
+	item := runes.Copy(o.history.showItem(o.history.current.Value))
 	start, end := 0, 0
 	if o.dir == S_DIR_BCK {
 		start, end = idx, idx+len(o.data)
@@ -103,19 +104,19 @@ func (o *opSearch) SearchMode(dir int) bool {
 	alreadyInMode := o.inMode
 	o.inMode = true
 	o.dir = dir
-	o.source = o.history.current
 	if alreadyInMode {
 		o.search(false)
 	} else {
+		o.source = o.history.current
 		o.SearchRefresh(-1)
 	}
 	return true
 }
 
 func (o *opSearch) ExitSearchMode(revert bool) {
-	if revert {
+	if revert && o.source != nil {
 		o.history.current = o.source
-		o.buf.Set(o.history.showItem(o.history.current.Value))
+		o.buf.Set(runes.Copy(o.history.showItem(o.history.current.Value)))
 	}
 	o.markStart, o.markEnd = 0, 0
 	o.state = S_STATE_FOUND
-- 
2.43.0


From 6801f0bd4975fa1979629ceba223fef772a6ae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:59 +0000
Subject: [PATCH 10/55] fix: recalling a history entry lost a default text and
 vi edits

---
 operation.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/operation.go b/operation.go
index d4d8b1a..ba9a789 100644
--- a/operation.go
+++ b/operation.go
@@ -185,6 +185,7 @@ func (o *Operation) ioloop() {
 			}
 
 		case CharBckSearch:
+			o.keepEdit()
 			if !o.SearchMode(S_DIR_BCK) {
 				o.t.Bell()
 				break
@@ -193,6 +194,7 @@ func (o *Operation) ioloop() {
 		case CharCtrlU:
 			o.buf.KillFront()
 		case CharFwdSearch:
+			o.keepEdit()
 			if !o.SearchMode(S_DIR_FWD) {
 				o.t.Bell()
 				break
@@ -265,6 +267,7 @@ func (o *Operation) ioloop() {
 		case CharForward:
 			o.buf.MoveForward()
 		case CharPrev:
+			o.keepEdit()
 			buf := o.history.Prev()
 			if buf != nil {
 				o.buf.Set(buf)
@@ -272,6 +275,7 @@ func (o *Operation) ioloop() {
 				o.t.Bell()
 			}
 		case CharNext:
+			o.keepEdit()
 			buf, ok := o.history.Next()
 			if ok {
 				o.buf.Set(buf)
@@ -365,6 +369,14 @@ func (o *Operation) ioloop() {
 	}
 }
 
+// keepEdit stores the line as it is before another history entry replaces it:
+// a default text or a vi command has not been stored yet.
+func (o *Operation) keepEdit() {
+	if !o.IsSearchMode() {
+		o.history.Update(o.buf.Runes(), false)
+	}
+}
+
 func (o *Operation) Stderr() io.Writer {
 	return &wrapWriter{target: o.GetConfig().Stderr, r: o, t: o.t}
 }
-- 
2.43.0


From a70abb91967993cf207eb3d71d6ecdb6ab931dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:00 +0000
Subject: [PATCH 11/55] fix: SetHistoryPath neither read nor wrote the new file

---
 operation.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index ba9a789..0723c07 100644
--- a/operation.go
+++ b/operation.go
@@ -460,7 +460,13 @@ func (o *Operation) SetHistoryPath(path string) {
 		o.history.Close()
 	}
 	o.cfg.HistoryFile = path
-	o.history = newOpHistory(o.cfg)
+	history := newOpHistory(o.cfg)
+	history.Init()
+	o.history = history
+	if o.cfg.opHistory != nil {
+		o.cfg.opHistory = history
+		o.opSearch.history = history
+	}
 }
 
 func (o *Operation) IsNormalMode() bool {
-- 
2.43.0


From f84d3e34a96a33cd14000a785e5b422921cae726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:29 +0000
Subject: [PATCH 12/55] fix: SaveHistory from another goroutine corrupted the
 history

---
 history.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/history.go b/history.go
index f50a23d..edba043 100644
--- a/history.go
+++ b/history.go
@@ -43,6 +43,8 @@ func newOpHistory(cfg *Config) (o *opHistory) {
 }
 
 func (o *opHistory) Reset() {
+	o.fdLock.Lock()
+	defer o.fdLock.Unlock()
 	o.history = list.New()
 	o.current = nil
 }
@@ -215,6 +217,8 @@ func (o *opHistory) showItem(obj interface{}) []rune {
 }
 
 func (o *opHistory) Prev() []rune {
+	o.fdLock.Lock()
+	defer o.fdLock.Unlock()
 	if o.current == nil {
 		return nil
 	}
@@ -227,6 +231,8 @@ func (o *opHistory) Prev() []rune {
 }
 
 func (o *opHistory) Next() ([]rune, bool) {
+	o.fdLock.Lock()
+	defer o.fdLock.Unlock()
 	if o.current == nil {
 		return nil, false
 	}
@@ -264,6 +270,8 @@ func (o *opHistory) New(current []rune) (err error) {
 		return nil
 	}
 
+	o.fdLock.Lock()
+	defer o.fdLock.Unlock()
 	current = runes.Copy(current)
 
 	// if just use last command without modify
@@ -293,7 +301,7 @@ func (o *opHistory) New(current []rune) (err error) {
 	o.current = o.history.Back()
 
 	// err only can be a IO error, just report
-	err = o.Update(current, true)
+	err = o.update(current, true)
 
 	// push a new one to commit current command
 	o.historyVer++
@@ -302,6 +310,8 @@ func (o *opHistory) New(current []rune) (err error) {
 }
 
 func (o *opHistory) Revert() {
+	o.fdLock.Lock()
+	defer o.fdLock.Unlock()
 	o.historyVer++
 	o.current = o.history.Back()
 }
@@ -309,6 +319,10 @@ func (o *opHistory) Revert() {
 func (o *opHistory) Update(s []rune, commit bool) (err error) {
 	o.fdLock.Lock()
 	defer o.fdLock.Unlock()
+	return o.update(s, commit)
+}
+
+func (o *opHistory) update(s []rune, commit bool) (err error) {
 	s = runes.Copy(s)
 	if o.current == nil {
 		o.Push(nil)
-- 
2.43.0


From 5c2c2b9441c25560c186f1f1993d716bbd4719bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:40 +0000
Subject: [PATCH 13/55] fix: inserting a completion could overwrite the
 completer's own runes

---
 runebuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index 6aa088f..a9b0a29 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -164,7 +164,7 @@ func (r *RuneBuffer) WriteRune(s rune) {
 
 func (r *RuneBuffer) WriteRunes(s []rune) {
 	r.Refresh(func() {
-		tail := append(s, r.buf[r.idx:]...)
+		tail := append(runes.Copy(s), r.buf[r.idx:]...)
 		r.buf = append(r.buf[:r.idx], tail...)
 		r.idx += len(s)
 	})
-- 
2.43.0


From 5f45783bd611930f74979ebeeee98818b974f73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:40 +0000
Subject: [PATCH 14/55] fix: a prompt ending in ESC panicked

---
 runes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runes.go b/runes.go
index a669bc4..a6fb97c 100644
--- a/runes.go
+++ b/runes.go
@@ -116,7 +116,7 @@ func (Runes) Index(r rune, rs []rune) int {
 func (Runes) ColorFilter(r []rune) []rune {
 	newr := make([]rune, 0, len(r))
 	for pos := 0; pos < len(r); pos++ {
-		if r[pos] == '\033' && r[pos+1] == '[' {
+		if r[pos] == '\033' && pos+1 < len(r) && r[pos+1] == '[' {
 			idx := runes.Index('m', r[pos+2:])
 			if idx == -1 {
 				continue
-- 
2.43.0


From 987002835c0d1dcd910c2dc27465a8e321025ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:40 +0000
Subject: [PATCH 15/55] fix: SetConfig with a configuration without Painter
 panicked

---
 readline.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/readline.go b/readline.go
index 63b9171..1ab479b 100644
--- a/readline.go
+++ b/readline.go
@@ -124,6 +124,9 @@ func (c *Config) Init() error {
 		c.EOFPrompt = ""
 	}
 
+	if c.Painter == nil {
+		c.Painter = &defaultPainter{}
+	}
 	if c.AutoComplete == nil {
 		c.AutoComplete = &TabCompleter{}
 	}
@@ -167,9 +170,6 @@ func NewEx(cfg *Config) (*Instance, error) {
 		return nil, err
 	}
 	rl := t.Readline()
-	if cfg.Painter == nil {
-		cfg.Painter = &defaultPainter{}
-	}
 	return &Instance{
 		Config:    cfg,
 		Terminal:  t,
-- 
2.43.0


From 8fe527c06060fe733d5b88f64a7fa849e44040ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:17 +0000
Subject: [PATCH 16/55] fix: drawing of wrapped, wide, masked and multi-line
 input

The cursor was put in the wrong place after wide runes, in masked input and
when the prompt is wider than the window, the editor spun for ever on an
unknown width or when the prompt is as wide as the window, and search and
completion left their lines behind.
---
 complete.go |   4 +-
 runebuf.go  | 159 ++++++++++++++++++++++++++++++++--------------------
 search.go   |   7 +--
 utils.go    |   3 +
 4 files changed, 104 insertions(+), 69 deletions(-)

diff --git a/complete.go b/complete.go
index c08c994..6fad1a6 100644
--- a/complete.go
+++ b/complete.go
@@ -237,7 +237,9 @@ func (o *opCompleter) CompleteRefresh() {
 
 	// move back
 	fmt.Fprintf(buf, "\033[%dA\r", lineCnt-1+lines)
-	fmt.Fprintf(buf, "\033[%dC", o.op.buf.idx+o.op.buf.PromptLen())
+	if col := o.op.buf.CursorColumn(); col > 0 {
+		fmt.Fprintf(buf, "\033[%dC", col)
+	}
 	buf.Flush()
 }
 
diff --git a/runebuf.go b/runebuf.go
index a9b0a29..84e22d9 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -421,16 +421,77 @@ func (r *RuneBuffer) MoveTo(ch rune, prevChar, reverse bool) (success bool) {
 	return
 }
 
+// displayed returns the runes which stand for the buffer on the screen
+func (r *RuneBuffer) displayed() []rune {
+	if !r.cfg.EnableMask {
+		return r.buf
+	}
+	rs := make([]rune, len(r.buf))
+	for i := range rs {
+		rs[i] = r.cfg.MaskRune
+	}
+	if n := len(rs); n > 0 && r.buf[n-1] == '\n' {
+		rs[n-1] = '\n'
+	}
+	return rs
+}
+
+// position returns the line, counted from the start of the prompt, and the
+// column of the n-th rune. edge is true if that is the start of a line which
+// the terminal only goes to when there is more output.
+func (r *RuneBuffer) position(n int) (line, col int, edge bool) {
+	rs := append(runes.ColorFilter(r.prompt), r.displayed()[:n]...)
+	for _, e := range rs {
+		if e == '\n' {
+			line++
+			col = 0
+			continue
+		}
+		w, times := runes.Width(e), 1
+		if e == '\t' {
+			w, times = 1, TabWidth
+		}
+		for ; times > 0; times-- {
+			// a wide rune does not start in the last column
+			if w > 0 && r.width > 0 && col+w > r.width {
+				line++
+				col = 0
+			}
+			col += w
+		}
+	}
+	if r.width > 0 && col >= r.width {
+		return line + 1, 0, true
+	}
+	return line, col, false
+}
+
+// moveCursor moves the cursor from the a-th to the b-th rune
+func (r *RuneBuffer) moveCursor(a, b int) []byte {
+	var buf []byte
+	fromLine, fromCol, _ := r.position(a)
+	line, col, _ := r.position(b)
+	if fromLine == line && col <= fromCol {
+		return bytes.Repeat([]byte("\b"), fromCol-col)
+	}
+	if line < fromLine {
+		buf = append(buf, "\033["+strconv.Itoa(fromLine-line)+"A"...)
+	} else if line > fromLine {
+		buf = append(buf, "\033["+strconv.Itoa(line-fromLine)+"B"...)
+	}
+	buf = append(buf, '\r')
+	if col > 0 {
+		buf = append(buf, "\033["+strconv.Itoa(col)+"C"...)
+	}
+	return buf
+}
+
 func (r *RuneBuffer) isInLineEdge() bool {
 	if isWindows {
 		return false
 	}
-	sp := r.getSplitByLine(r.buf)
-	return len(sp[len(sp)-1]) == 0
-}
-
-func (r *RuneBuffer) getSplitByLine(rs []rune) []string {
-	return SplitByLine(r.promptLen(), r.width, rs)
+	_, _, edge := r.position(len(r.buf))
+	return edge
 }
 
 func (r *RuneBuffer) IdxLine(width int) int {
@@ -443,12 +504,25 @@ func (r *RuneBuffer) idxLine(width int) int {
 	if width == 0 {
 		return 0
 	}
-	sp := r.getSplitByLine(r.buf[:r.idx])
-	return len(sp) - 1
+	line, _, _ := r.position(r.idx)
+	return line
 }
 
+// CursorLineCount returns how many lines below the cursor the buffer is over
 func (r *RuneBuffer) CursorLineCount() int {
-	return r.LineCount(r.width) - r.IdxLine(r.width)
+	r.Lock()
+	defer r.Unlock()
+	last, _, _ := r.position(len(r.buf))
+	line, _, _ := r.position(r.idx)
+	return last - line + 1
+}
+
+// CursorColumn returns the column the cursor is in
+func (r *RuneBuffer) CursorColumn() int {
+	r.Lock()
+	defer r.Unlock()
+	_, col, _ := r.position(r.idx)
+	return col
 }
 
 func (r *RuneBuffer) Refresh(f func()) {
@@ -490,10 +564,6 @@ func (r *RuneBuffer) output() []byte {
 		} else {
 			buf.Write([]byte(string(r.cfg.MaskRune)))
 		}
-		if len(r.buf) > r.idx {
-			buf.Write(r.getBackspaceSequence())
-		}
-
 	} else {
 		for _, e := range r.cfg.Painter.Paint(r.buf, r.idx) {
 			if e == '\t' {
@@ -502,47 +572,17 @@ func (r *RuneBuffer) output() []byte {
 				buf.WriteRune(e)
 			}
 		}
-		if r.isInLineEdge() {
-			buf.Write([]byte(" \b"))
-		}
+	}
+	if r.isInLineEdge() {
+		buf.Write([]byte(" \b"))
 	}
 	// cursor position
 	if len(r.buf) > r.idx {
-		buf.Write(r.getBackspaceSequence())
+		buf.Write(r.moveCursor(len(r.buf), r.idx))
 	}
 	return buf.Bytes()
 }
 
-func (r *RuneBuffer) getBackspaceSequence() []byte {
-	var sep = map[int]bool{}
-
-	var i int
-	for {
-		if i >= runes.WidthAll(r.buf) {
-			break
-		}
-
-		if i == 0 {
-			i -= r.promptLen()
-		}
-		i += r.width
-
-		sep[i] = true
-	}
-	var buf []byte
-	for i := len(r.buf); i > r.idx; i-- {
-		// move input to the left of one
-		buf = append(buf, '\b')
-		if sep[i] {
-			// up one line, go to the start of the line and move cursor right to the end (r.width)
-			buf = append(buf, "\033[A\r"+"\033["+strconv.Itoa(r.width)+"C"...)
-		}
-	}
-
-	return buf
-
-}
-
 func (r *RuneBuffer) Reset() []rune {
 	ret := runes.Copy(r.buf)
 	r.buf = r.buf[:0]
@@ -550,29 +590,24 @@ func (r *RuneBuffer) Reset() []rune {
 	return ret
 }
 
-func (r *RuneBuffer) calWidth(m int) int {
-	if m > 0 {
-		return runes.WidthAll(r.buf[r.idx : r.idx+m])
-	}
-	return runes.WidthAll(r.buf[r.idx+m : r.idx])
-}
-
 func (r *RuneBuffer) SetStyle(start, end int, style string) {
 	if end < start {
 		panic("end < start")
 	}
 
-	// goto start
-	move := start - r.idx
-	if move > 0 {
-		r.w.Write([]byte(string(r.buf[r.idx : r.idx+move])))
-	} else {
-		r.w.Write(bytes.Repeat([]byte("\b"), r.calWidth(move)))
+	r.Lock()
+	defer r.Unlock()
+	if end > len(r.buf) {
+		return
 	}
+	r.w.Write(r.moveCursor(r.idx, start))
 	r.w.Write([]byte("\033[" + style + "m"))
 	r.w.Write([]byte(string(r.buf[start:end])))
 	r.w.Write([]byte("\033[0m"))
-	// TODO: move back
+	if _, _, edge := r.position(end); edge {
+		r.w.Write([]byte("\r\n"))
+	}
+	r.w.Write(r.moveCursor(end, r.idx))
 }
 
 func (r *RuneBuffer) SetWithIdx(idx int, buf []rune) {
@@ -595,7 +630,7 @@ func (r *RuneBuffer) SetPrompt(prompt string) {
 func (r *RuneBuffer) cleanOutput(w io.Writer, idxLine int) {
 	buf := bufio.NewWriter(w)
 
-	if r.width == 0 {
+	if r.width <= 0 {
 		buf.WriteString(strings.Repeat("\r\b", len(r.buf)+r.promptLen()))
 		buf.Write([]byte("\033[J"))
 	} else {
diff --git a/search.go b/search.go
index 179b28e..dfe274e 100644
--- a/search.go
+++ b/search.go
@@ -131,12 +131,7 @@ func (o *opSearch) SearchRefresh(x int) {
 	} else if x >= 0 {
 		o.state = S_STATE_FOUND
 	}
-	if x < 0 {
-		x = o.buf.idx
-	}
-	x = o.buf.CurrentWidth(x)
-	x += o.buf.PromptLen()
-	x = x % o.width
+	x = o.buf.CursorColumn()
 
 	if o.markStart > 0 {
 		o.buf.SetStyle(o.markStart, o.markEnd, "4")
diff --git a/utils.go b/utils.go
index 0706dd4..2720b23 100644
--- a/utils.go
+++ b/utils.go
@@ -232,6 +232,9 @@ func SplitByLine(start, screenWidth int, rs []rune) []string {
 
 // calculate how many lines for N character
 func LineCount(screenWidth, w int) int {
+	if screenWidth <= 0 {
+		return 1
+	}
 	r := w / screenWidth
 	if w%screenWidth != 0 {
 		r++
-- 
2.43.0


From c1427a26d60559a9aa454754c6fc0f6b28bee3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:17 +0000
Subject: [PATCH 17/55] fix: search showed masked input, and a wrapped search
 line displaced the cursor

---
 search.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/search.go b/search.go
index dfe274e..a022d9c 100644
--- a/search.go
+++ b/search.go
@@ -98,7 +98,8 @@ func (o *opSearch) SearchChar(r rune) {
 }
 
 func (o *opSearch) SearchMode(dir int) bool {
-	if o.width == 0 {
+	// the search line would show what is masked
+	if o.width == 0 || o.cfg.EnableMask {
 		return false
 	}
 	alreadyInMode := o.inMode
@@ -141,18 +142,21 @@ func (o *opSearch) SearchRefresh(x int) {
 	buf := bytes.NewBuffer(nil)
 	buf.Write(bytes.Repeat([]byte("\n"), lineCnt))
 	buf.WriteString("\033[J")
+	line := ""
 	if o.state == S_STATE_FAILING {
-		buf.WriteString("failing ")
+		line = "failing "
 	}
 	if o.dir == S_DIR_BCK {
-		buf.WriteString("bck")
+		line += "bck"
 	} else if o.dir == S_DIR_FWD {
-		buf.WriteString("fwd")
+		line += "fwd"
 	}
-	buf.WriteString("-i-search: ")
-	buf.WriteString(string(o.data))         // keyword
-	buf.WriteString("\033[4m \033[0m")      // _
-	fmt.Fprintf(buf, "\r\033[%dA", lineCnt) // move prev
+	line += "-i-search: " + string(o.data) // keyword
+	buf.WriteString(line)
+	buf.WriteString("\033[4m \033[0m") // _
+	// move prev, the search line may have been wrapped
+	lineCnt += LineCount(o.width, runes.WidthAll([]rune(line))+1) - 1
+	fmt.Fprintf(buf, "\r\033[%dA", lineCnt)
 	if x > 0 {
 		fmt.Fprintf(buf, "\033[%dC", x) // move forward
 	}
-- 
2.43.0


From f55cd95ac254c5eef5fbbf24eb684b0137a889f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:58 +0000
Subject: [PATCH 18/55] fix: completion menu panicked in narrow windows, after
 Ctrl-K, and on concurrent output

---
 complete.go | 48 ++++++++++++++++++++++++++++++++++++++++--------
 runebuf.go  |  6 ++++++
 2 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/complete.go b/complete.go
index 6fad1a6..0dd1712 100644
--- a/complete.go
+++ b/complete.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"sync"
 )
 
 type AutoCompleter interface {
@@ -36,6 +37,10 @@ type opCompleter struct {
 	candidateOff    int
 	candidateChoise int
 	candidateColNum int
+
+	// protects the fields above which output of another goroutine reads to
+	// draw the menu again
+	m sync.Mutex
 }
 
 func newOpCompleter(w io.Writer, op *Operation, width int) *opCompleter {
@@ -186,42 +191,61 @@ func (o *opCompleter) OnWidthChange(newWidth int) {
 }
 
 func (o *opCompleter) CompleteRefresh() {
-	if !o.inCompleteMode {
+	o.m.Lock()
+	candidate, candidateOff := o.candidate, o.candidateOff
+	inMode := o.inCompleteMode && len(candidate) > 0
+	inSelectMode, choise := o.inSelectMode, o.candidateChoise
+	o.m.Unlock()
+	if !inMode {
 		return
 	}
 	lineCnt := o.op.buf.CursorLineCount()
 	colWidth := 0
-	for _, c := range o.candidate {
+	for _, c := range candidate {
 		w := runes.WidthAll(c)
 		if w > colWidth {
 			colWidth = w
 		}
 	}
-	colWidth += o.candidateOff + 1
-	same := o.op.buf.RuneSlice(-o.candidateOff)
+	colWidth += candidateOff + 1
+	if colWidth < 1 {
+		colWidth = 1
+	}
+	same := o.op.buf.RuneSlice(-candidateOff)
 
 	// -1 to avoid reach the end of line
 	width := o.width - 1
 	colNum := width / colWidth
-	if colNum != 0 {
+	if colNum > 0 {
 		colWidth += (width - (colWidth * colNum)) / colNum
+	} else {
+		// one candidate per line, which takes several lines of the screen
+		colNum = 1
+		colWidth = 0
 	}
 
+	o.m.Lock()
 	o.candidateColNum = colNum
+	o.m.Unlock()
 	buf := bufio.NewWriter(o.w)
 	buf.Write(bytes.Repeat([]byte("\n"), lineCnt))
 
 	colIdx := 0
 	lines := 1
 	buf.WriteString("\033[J")
-	for idx, c := range o.candidate {
-		inSelect := idx == o.candidateChoise && o.IsInCompleteSelectMode()
+	for idx, c := range candidate {
+		inSelect := idx == choise && inSelectMode
 		if inSelect {
 			buf.WriteString("\033[30;47m")
 		}
 		buf.WriteString(string(same))
 		buf.WriteString(string(c))
-		buf.Write(bytes.Repeat([]byte(" "), colWidth-runes.WidthAll(c)-runes.WidthAll(same)))
+		cellWidth := runes.WidthAll(c) + runes.WidthAll(same)
+		if cellWidth < colWidth {
+			buf.Write(bytes.Repeat([]byte(" "), colWidth-cellWidth))
+		} else if cellWidth > o.width {
+			lines += LineCount(o.width, cellWidth) - 1
+		}
 
 		if inSelect {
 			buf.WriteString("\033[0m")
@@ -261,19 +285,25 @@ aggregate:
 }
 
 func (o *opCompleter) EnterCompleteSelectMode() {
+	o.m.Lock()
 	o.inSelectMode = true
 	o.candidateChoise = -1
+	o.m.Unlock()
 	o.CompleteRefresh()
 }
 
 func (o *opCompleter) EnterCompleteMode(offset int, candidate [][]rune) {
+	o.m.Lock()
 	o.inCompleteMode = true
 	o.candidate = candidate
 	o.candidateOff = offset
+	o.m.Unlock()
 	o.CompleteRefresh()
 }
 
 func (o *opCompleter) ExitCompleteSelectMode() {
+	o.m.Lock()
+	defer o.m.Unlock()
 	o.inSelectMode = false
 	o.candidate = nil
 	o.candidateChoise = -1
@@ -282,6 +312,8 @@ func (o *opCompleter) ExitCompleteSelectMode() {
 }
 
 func (o *opCompleter) ExitCompleteMode(revent bool) {
+	o.m.Lock()
 	o.inCompleteMode = false
+	o.m.Unlock()
 	o.ExitCompleteSelectMode()
 }
diff --git a/runebuf.go b/runebuf.go
index 84e22d9..9af6ba7 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -106,6 +106,12 @@ func (r *RuneBuffer) RuneSlice(i int) []rune {
 	r.Lock()
 	defer r.Unlock()
 
+	// the line may have become shorter meanwhile
+	if i > len(r.buf)-r.idx {
+		i = len(r.buf) - r.idx
+	} else if i < -r.idx {
+		i = -r.idx
+	}
 	if i > 0 {
 		rs := make([]rune, i)
 		copy(rs, r.buf[r.idx:r.idx+i])
-- 
2.43.0


From ef99c915a9160f5da776ea7969f87e6ba1b129e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:33 +0000
Subject: [PATCH 19/55] fix: vi operands swallowed Enter and Ctrl-C, r stored
 control characters

---
 vim.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/vim.go b/vim.go
index bedf2c1..34d446c 100644
--- a/vim.go
+++ b/vim.go
@@ -59,7 +59,9 @@ func (o *opVim) handleVimNormalMovement(r rune, readNext func() rune) (t rune, h
 			rb.MoveBackward()
 		}
 	case 'r':
-		rb.Replace(readNext())
+		if next := readNext(); IsPrintable(next) && next != CharBackspace {
+			rb.Replace(next)
+		}
 	case 'd':
 		next := readNext()
 		switch next {
@@ -132,17 +134,33 @@ func (o *opVim) handleVimNormalEnterInsert(r rune, readNext func() rune) (t rune
 
 func (o *opVim) HandleVimNormal(r rune, readNext func() rune) (t rune) {
 	switch r {
-	case CharEnter, CharInterrupt:
+	case CharEnter, CharCtrlJ, CharInterrupt:
 		o.ExitVimMode()
 		return r
 	}
 
-	if r, handled := o.handleVimNormalMovement(r, readNext); handled {
-		return r
+	// the keys which end the line do so instead of being an operand
+	var end rune
+	operand := func() rune {
+		next := readNext()
+		switch next {
+		case 0, CharEnter, CharCtrlJ, CharInterrupt:
+			end = next
+			return CharEsc
+		}
+		return next
 	}
 
-	if r, handled := o.handleVimNormalEnterInsert(r, readNext); handled {
-		return r
+	t, handled := o.handleVimNormalMovement(r, operand)
+	if !handled {
+		t, handled = o.handleVimNormalEnterInsert(r, operand)
+	}
+	if end != 0 {
+		o.ExitVimMode()
+		return end
+	}
+	if handled {
+		return t
 	}
 
 	// invalid operation
-- 
2.43.0


From 4a6301ba75a5f8ad835efe758a421d48d085b7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:33 +0000
Subject: [PATCH 20/55] fix: input stalled after keys that did not end the
 call, calls after EOF hung

Enter, Ctrl-J, Ctrl-C and Ctrl-D make the terminal wait for KickRead; where
vi mode, an input filter or a search consumed them nobody kicked. A NUL was
taken as end of input. After io.EOF or Close later calls waited for ever.
---
 operation.go | 88 +++++++++++++++++++++++++++++++++++-----------------
 terminal.go  | 36 ++++++++++++++-------
 2 files changed, 84 insertions(+), 40 deletions(-)

diff --git a/operation.go b/operation.go
index 0723c07..3be6d88 100644
--- a/operation.go
+++ b/operation.go
@@ -25,6 +25,9 @@ type Operation struct {
 	buf     *RuneBuffer
 	outchan chan []rune
 	errchan chan error
+	done    chan struct{} // closed by Close and at the end of the input
+	endOnce sync.Once
+	stopped bool // the terminal waits to be kicked, only used by ioloop
 	w       io.Writer
 
 	history *opHistory
@@ -73,6 +76,7 @@ func NewOperation(t *Terminal, cfg *Config) *Operation {
 		buf:     NewRuneBuffer(t, cfg.Prompt, cfg, width),
 		outchan: make(chan []rune),
 		errchan: make(chan error, 1),
+		done:    make(chan struct{}),
 	}
 	op.w = op.buf.w
 	op.SetConfig(cfg)
@@ -108,24 +112,12 @@ func (o *Operation) ioloop() {
 	for {
 		keepInSearchMode := false
 		keepInCompleteMode := false
-		r := o.t.ReadRune()
-
-		if o.GetConfig().FuncFilterInputRune != nil {
-			var process bool
-			r, process = o.GetConfig().FuncFilterInputRune(r)
-			if !process {
-				o.t.KickRead()
-				o.buf.Refresh(nil) // to refresh the line
-				continue           // ignore this rune
-			}
-		}
+		r := o.readKey()
 
 		if r == 0 { // io.EOF
 			if o.buf.Len() == 0 {
 				o.buf.Clean()
-				select {
-				case o.errchan <- io.EOF:
-				}
+				o.end()
 				break
 			} else {
 				// if stdin got io.EOF and there is something left in buffer,
@@ -147,16 +139,13 @@ func (o *Operation) ioloop() {
 			case CharEnter, CharCtrlJ:
 				o.history.Update(o.buf.Runes(), false)
 				fallthrough
-			case CharInterrupt:
-				o.t.KickRead()
-				fallthrough
-			case CharBell:
+			case CharInterrupt, CharBell:
 				continue
 			}
 		}
 
 		if o.IsEnableVimMode() {
-			r = o.HandleVim(r, o.t.ReadRune)
+			r = o.HandleVim(r, o.readKey)
 			if r == 0 {
 				continue
 			}
@@ -261,7 +250,11 @@ func (o *Operation) ioloop() {
 			} else {
 				isUpdateHistory = false
 			}
-			o.outchan <- data
+			o.stopped = false
+			select {
+			case o.outchan <- data:
+			case <-o.done:
+			}
 		case CharBackward:
 			o.buf.MoveBackward()
 		case CharForward:
@@ -284,7 +277,6 @@ func (o *Operation) ioloop() {
 			}
 		case CharDelete:
 			if o.buf.Len() > 0 || !o.IsNormalMode() {
-				o.t.KickRead()
 				if !o.buf.Delete() {
 					o.t.Bell()
 				}
@@ -298,18 +290,16 @@ func (o *Operation) ioloop() {
 			o.buf.Reset()
 			isUpdateHistory = false
 			o.history.Revert()
-			o.errchan <- io.EOF
+			o.fail(io.EOF)
 			if o.GetConfig().UniqueEditLine {
 				o.buf.Clean()
 			}
 		case CharInterrupt:
 			if o.IsSearchMode() {
-				o.t.KickRead()
 				o.ExitSearchMode(true)
 				break
 			}
 			if o.IsInCompleteMode() {
-				o.t.KickRead()
 				o.ExitCompleteMode(true)
 				o.buf.Refresh(nil)
 				break
@@ -326,7 +316,7 @@ func (o *Operation) ioloop() {
 			}
 			isUpdateHistory = false
 			o.history.Revert()
-			o.errchan <- &InterruptError{remain}
+			o.fail(&InterruptError{remain})
 		default:
 			if o.IsSearchMode() {
 				o.SearchChar(r)
@@ -369,6 +359,42 @@ func (o *Operation) ioloop() {
 	}
 }
 
+// readKey reads the next key that passes the configured filter. The terminal
+// stops after keys which may end a call, if this one did not the reading has to
+// go on.
+func (o *Operation) readKey() rune {
+	for {
+		if o.stopped {
+			o.t.KickRead()
+		}
+		r := o.t.ReadRune()
+		o.stopped = stopsReading(r)
+		filter := o.GetConfig().FuncFilterInputRune
+		if r == 0 || filter == nil {
+			return r
+		}
+		r, process := filter(r)
+		if process {
+			return r
+		}
+		o.buf.Refresh(nil) // to refresh the line
+	}
+}
+
+// fail ends the current call with err.
+func (o *Operation) fail(err error) {
+	o.stopped = false
+	select {
+	case o.errchan <- err:
+	case <-o.done:
+	}
+}
+
+// end makes the current call and all later ones return io.EOF.
+func (o *Operation) end() {
+	o.endOnce.Do(func() { close(o.done) })
+}
+
 // keepEdit stores the line as it is before another history entry replaces it:
 // a default text or a vi command has not been stored yet.
 func (o *Operation) keepEdit() {
@@ -391,6 +417,11 @@ func (o *Operation) String() (string, error) {
 }
 
 func (o *Operation) Runes() ([]rune, error) {
+	select {
+	case <-o.done:
+		return nil, io.EOF
+	default:
+	}
 	o.t.EnterRawMode()
 	defer o.t.ExitRawMode()
 
@@ -409,6 +440,8 @@ func (o *Operation) Runes() ([]rune, error) {
 			return e.Line, ErrInterrupt
 		}
 		return nil, err
+	case <-o.done:
+		return nil, io.EOF
 	}
 }
 
@@ -448,10 +481,7 @@ func (o *Operation) Slice() ([]byte, error) {
 }
 
 func (o *Operation) Close() {
-	select {
-	case o.errchan <- io.EOF:
-	default:
-	}
+	o.end()
 	o.history.Close()
 }
 
diff --git a/terminal.go b/terminal.go
index 38413d0..6f89141 100644
--- a/terminal.go
+++ b/terminal.go
@@ -51,6 +51,9 @@ func (t *Terminal) SleepToResume() {
 	SuspendMe()
 	<-ch
 	t.EnterRawMode()
+	if atomic.LoadInt32(&t.closed) != 0 {
+		t.ExitRawMode()
+	}
 }
 
 func (t *Terminal) EnterRawMode() (err error) {
@@ -115,6 +118,16 @@ func (t *Terminal) KickRead() {
 	}
 }
 
+// stopsReading tells whether the terminal waits for KickRead after r, because
+// it may end the call.
+func stopsReading(r rune) bool {
+	switch r {
+	case CharInterrupt, CharEnter, CharCtrlJ, CharDelete:
+		return true
+	}
+	return false
+}
+
 func (t *Terminal) ioloop() {
 	t.wg.Add(1)
 	defer func() {
@@ -196,18 +209,19 @@ func (t *Terminal) ioloop() {
 		}
 
 		expectNextChar = true
-		switch r {
-		case CharEsc:
-			if t.cfg.VimMode {
-				t.outchan <- r
-				break
-			}
+		if r == 0 {
+			// a NUL character, nothing is bound to it
+			continue
+		}
+		if r == CharEsc && !t.cfg.VimMode {
 			isEscape = true
-		case CharInterrupt, CharEnter, CharCtrlJ, CharDelete:
-			expectNextChar = false
-			fallthrough
-		default:
-			t.outchan <- r
+			continue
+		}
+		expectNextChar = !stopsReading(r)
+		select {
+		case t.outchan <- r:
+		case <-t.stopChan:
+			return
 		}
 	}
 
-- 
2.43.0


From e94e60a90bede046c5dfe7e8bb98ee68156cb82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:34 +0000
Subject: [PATCH 21/55] fix: Close hung while a read was pending, WriteStdin
 lost text or inserted it late

FillableStdin dropped what did not fit in the reader's buffer, handed written
text over asynchronously and did not close the input it reads from.
---
 std.go | 75 +++++++++++++++++++++++++++-------------------------------
 1 file changed, 35 insertions(+), 40 deletions(-)

diff --git a/std.go b/std.go
index 61d44b7..3ba75a4 100644
--- a/std.go
+++ b/std.go
@@ -136,62 +136,57 @@ func (c *CancelableStdin) Close() error {
 // reading into the real stdin
 type FillableStdin struct {
 	sync.Mutex
-	stdin       io.Reader
-	stdinBuffer io.ReadCloser
-	buf         []byte
-	bufErr      error
+	stdin  io.Reader
+	buf    []byte
+	closed bool
 }
 
 // NewFillableStdin gives you FillableStdin
 func NewFillableStdin(stdin io.Reader) (io.ReadCloser, io.Writer) {
-	r, w := io.Pipe()
-	s := &FillableStdin{
-		stdinBuffer: r,
-		stdin:       stdin,
+	s := &FillableStdin{stdin: stdin}
+	return s, fillWriter{s}
+}
+
+// fillWriter is the writer of a FillableStdin, what was written is there for
+// the next Read once Write has returned.
+type fillWriter struct {
+	s *FillableStdin
+}
+
+func (w fillWriter) Write(p []byte) (int, error) {
+	w.s.Lock()
+	defer w.s.Unlock()
+	if w.s.closed {
+		return 0, io.ErrClosedPipe
 	}
-	s.ioloop()
-	return s, w
-}
-
-func (s *FillableStdin) ioloop() {
-	go func() {
-		for {
-			bufR := make([]byte, 100)
-			var n int
-			n, s.bufErr = s.stdinBuffer.Read(bufR)
-			if s.bufErr != nil {
-				if s.bufErr == io.ErrClosedPipe {
-					break
-				}
-			}
-			s.Lock()
-			s.buf = append(s.buf, bufR[:n]...)
-			s.Unlock()
-		}
-	}()
+	w.s.buf = append(w.s.buf, p...)
+	return len(p), nil
 }
 
 // Read will read from the local buffer and if no data, read from stdin
 func (s *FillableStdin) Read(p []byte) (n int, err error) {
 	s.Lock()
-	i := len(s.buf)
-	if len(p) < i {
-		i = len(p)
-	}
-	if i > 0 {
+	if len(s.buf) > 0 {
 		n := copy(p, s.buf)
-		s.buf = s.buf[:0]
-		cerr := s.bufErr
-		s.bufErr = nil
+		s.buf = s.buf[n:]
 		s.Unlock()
-		return n, cerr
+		return n, nil
 	}
 	s.Unlock()
-	n, err = s.stdin.Read(p)
-	return n, err
+	return s.stdin.Read(p)
 }
 
+// Close also closes the stdin it reads from, so that a blocked Read returns.
 func (s *FillableStdin) Close() error {
-	s.stdinBuffer.Close()
+	s.Lock()
+	closed := s.closed
+	s.closed = true
+	s.Unlock()
+	if closed {
+		return nil
+	}
+	if closer, ok := s.stdin.(io.Closer); ok {
+		return closer.Close()
+	}
 	return nil
 }
-- 
2.43.0


From 402aefaa6135a578f48b8539aba805d80adcc082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:26 +0000
Subject: [PATCH 22/55] fix: after SetConfig Close hung and the terminal stayed
 raw, a failed mode switch lost the original mode

The terminal closes and fills the input it really reads, leaves the raw mode
it entered, and never takes a raw mode for the one to go back to.
---
 readline.go |  1 -
 terminal.go | 50 +++++++++++++++++++++++++++++++-------------------
 utils.go    | 20 ++++++++++++++++----
 3 files changed, 47 insertions(+), 24 deletions(-)

diff --git a/readline.go b/readline.go
index 1ab479b..69bad93 100644
--- a/readline.go
+++ b/readline.go
@@ -275,7 +275,6 @@ func (i *Instance) ReadSlice() ([]byte, error) {
 // if there has a pending reading operation, that reading will be interrupted.
 // so you can capture the signal and call Instance.Close(), it's thread-safe.
 func (i *Instance) Close() error {
-	i.Config.Stdin.Close()
 	i.Operation.Close()
 	if err := i.Terminal.Close(); err != nil {
 		return err
diff --git a/terminal.go b/terminal.go
index 6f89141..9fd7a10 100644
--- a/terminal.go
+++ b/terminal.go
@@ -20,6 +20,12 @@ type Terminal struct {
 	isReading int32
 	sleeping  int32
 
+	// the input does not change with the configuration
+	stdin       io.Reader
+	stdinWriter io.Writer
+	// leaves the raw mode that was entered last
+	exitRaw func() error
+
 	sizeChan chan string
 }
 
@@ -28,13 +34,16 @@ func NewTerminal(cfg *Config) (*Terminal, error) {
 		return nil, err
 	}
 	t := &Terminal{
-		cfg:      cfg,
-		kickChan: make(chan struct{}, 1),
-		outchan:  make(chan rune),
-		stopChan: make(chan struct{}, 1),
-		sizeChan: make(chan string, 1),
+		cfg:         cfg,
+		stdin:       cfg.Stdin,
+		stdinWriter: cfg.StdinWriter,
+		kickChan:    make(chan struct{}, 1),
+		outchan:     make(chan rune),
+		stopChan:    make(chan struct{}, 1),
+		sizeChan:    make(chan string, 1),
 	}
 
+	t.wg.Add(1)
 	go t.ioloop()
 	return t, nil
 }
@@ -57,11 +66,21 @@ func (t *Terminal) SleepToResume() {
 }
 
 func (t *Terminal) EnterRawMode() (err error) {
-	return t.cfg.FuncMakeRaw()
+	t.m.Lock()
+	cfg := t.cfg
+	t.exitRaw = cfg.FuncExitRaw
+	t.m.Unlock()
+	return cfg.FuncMakeRaw()
 }
 
 func (t *Terminal) ExitRawMode() (err error) {
-	return t.cfg.FuncExitRaw()
+	t.m.Lock()
+	exitRaw := t.exitRaw
+	t.m.Unlock()
+	if exitRaw == nil {
+		return nil
+	}
+	return exitRaw()
 }
 
 func (t *Terminal) Write(b []byte) (int, error) {
@@ -71,7 +90,7 @@ func (t *Terminal) Write(b []byte) (int, error) {
 // WriteStdin prefill the next Stdin fetch
 // Next time you call ReadLine() this value will be writen before the user input
 func (t *Terminal) WriteStdin(b []byte) (int, error) {
-	return t.cfg.StdinWriter.Write(b)
+	return t.stdinWriter.Write(b)
 }
 
 type termSize struct {
@@ -129,7 +148,6 @@ func stopsReading(r rune) bool {
 }
 
 func (t *Terminal) ioloop() {
-	t.wg.Add(1)
 	defer func() {
 		t.wg.Done()
 		close(t.outchan)
@@ -142,7 +160,7 @@ func (t *Terminal) ioloop() {
 		expectNextChar bool
 	)
 
-	buf := bufio.NewReader(t.getStdin())
+	buf := bufio.NewReader(t.stdin)
 	for {
 		if !expectNextChar {
 			atomic.StoreInt32(&t.isReading, 0)
@@ -235,12 +253,13 @@ func (t *Terminal) Close() error {
 	if atomic.SwapInt32(&t.closed, 1) != 0 {
 		return nil
 	}
-	if closer, ok := t.cfg.Stdin.(io.Closer); ok {
+	err := t.ExitRawMode()
+	if closer, ok := t.stdin.(io.Closer); ok {
 		closer.Close()
 	}
 	close(t.stopChan)
 	t.wg.Wait()
-	return t.ExitRawMode()
+	return err
 }
 
 func (t *Terminal) GetConfig() *Config {
@@ -250,13 +269,6 @@ func (t *Terminal) GetConfig() *Config {
 	return &cfg
 }
 
-func (t *Terminal) getStdin() io.Reader {
-	t.m.Lock()
-	r := t.cfg.Stdin
-	t.m.Unlock()
-	return r
-}
-
 func (t *Terminal) SetConfig(c *Config) error {
 	if err := c.Init(); err != nil {
 		return err
diff --git a/utils.go b/utils.go
index 2720b23..b4e21a9 100644
--- a/utils.go
+++ b/utils.go
@@ -265,19 +265,31 @@ func GetInt(s []string, def int) int {
 }
 
 type RawMode struct {
-	state *State
+	m     sync.Mutex
+	state *State // the mode to go back to, nil if not in raw mode
 }
 
-func (r *RawMode) Enter() (err error) {
-	r.state, err = MakeRaw(GetStdin())
+func (r *RawMode) Enter() error {
+	r.m.Lock()
+	defer r.m.Unlock()
+	state, err := MakeRaw(GetStdin())
+	if r.state == nil {
+		r.state = state
+	}
 	return err
 }
 
 func (r *RawMode) Exit() error {
+	r.m.Lock()
+	defer r.m.Unlock()
 	if r.state == nil {
 		return nil
 	}
-	return Restore(GetStdin(), r.state)
+	if err := Restore(GetStdin(), r.state); err != nil {
+		return err
+	}
+	r.state = nil
+	return nil
 }
 
 // -----------------------------------------------------------------------------
-- 
2.43.0


From 0c3230c4f03c9f08747b8610539696c4adcb75fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:17 +0000
Subject: [PATCH 23/55] fix: remote sessions hung or panicked on disconnects
 and malformed messages

A reader could miss the wake-up for the data or the end of a session, writers
waited for ever after it, short and negative lengths panicked, Write counted
the message header, and a width report could be missed.
---
 remote.go | 102 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 68 insertions(+), 34 deletions(-)

diff --git a/remote.go b/remote.go
index 74dbf56..e1e4158 100644
--- a/remote.go
+++ b/remote.go
@@ -32,6 +32,7 @@ type RemoteSvr struct {
 	writeChan     chan *writeCtx
 	conn          net.Conn
 	isTerminal    bool
+	widthM        sync.Mutex
 	funcWidthChan func()
 	stopChan      chan struct{}
 
@@ -52,7 +53,7 @@ type writeCtx struct {
 func newWriteCtx(msg *Message) *writeCtx {
 	return &writeCtx{
 		msg:   msg,
-		reply: make(chan *writeReply),
+		reply: make(chan *writeReply, 1),
 	}
 }
 
@@ -61,7 +62,7 @@ func NewRemoteSvr(conn net.Conn) (*RemoteSvr, error) {
 		width:      -1,
 		conn:       conn,
 		writeChan:  make(chan *writeCtx),
-		reciveChan: make(chan struct{}),
+		reciveChan: make(chan struct{}, 1),
 		stopChan:   make(chan struct{}),
 	}
 	buf := bufio.NewReader(rs.conn)
@@ -81,7 +82,7 @@ func (r *RemoteSvr) init(buf *bufio.Reader) error {
 		return err
 	}
 	// receive isTerminal
-	if m.Type != T_ISTTY_REPORT {
+	if m.Type != T_ISTTY_REPORT || len(m.Data) < 2 {
 		return fmt.Errorf("unexpected init message")
 	}
 	r.GotIsTerminal(m.Data)
@@ -91,7 +92,7 @@ func (r *RemoteSvr) init(buf *bufio.Reader) error {
 	if err != nil {
 		return err
 	}
-	if m.Type != T_WIDTH_REPORT {
+	if m.Type != T_WIDTH_REPORT || len(m.Data) < 2 {
 		return fmt.Errorf("unexpected init message")
 	}
 	r.GotReportWidth(m.Data)
@@ -109,7 +110,10 @@ func (r *RemoteSvr) HandleConfig(cfg *Config) {
 	cfg.FuncExitRaw = r.ExitRawMode
 	cfg.FuncGetWidth = r.GetWidth
 	cfg.FuncOnWidthChanged = func(f func()) {
+		r.widthM.Lock()
 		r.funcWidthChan = f
+		r.widthM.Unlock()
+		f() // it may have changed already
 	}
 }
 
@@ -118,49 +122,59 @@ func (r *RemoteSvr) IsTerminal() bool {
 }
 
 func (r *RemoteSvr) checkEOF() error {
-	if atomic.LoadInt32(&r.eof) == 1 {
+	if atomic.LoadInt32(&r.eof) == 1 || atomic.LoadInt32(&r.closed) == 1 {
 		return io.EOF
 	}
 	return nil
 }
 
 func (r *RemoteSvr) Read(b []byte) (int, error) {
-	r.dataBufM.Lock()
-	n, err := r.dataBuf.Read(b)
-	r.dataBufM.Unlock()
-	if n == 0 {
-		if err := r.checkEOF(); err != nil {
-			return 0, err
-		}
+	if len(b) == 0 {
+		return 0, nil
 	}
-
-	if n == 0 && err == io.EOF {
-		<-r.reciveChan
+	for {
+		// data that came before the end is read first
+		end := r.checkEOF()
 		r.dataBufM.Lock()
-		n, err = r.dataBuf.Read(b)
+		n, _ := r.dataBuf.Read(b)
 		r.dataBufM.Unlock()
-	}
-	if n == 0 {
-		if err := r.checkEOF(); err != nil {
-			return 0, err
+		if n > 0 {
+			return n, nil
+		}
+		if end != nil {
+			return 0, end
+		}
+		select {
+		case <-r.reciveChan:
+		case <-r.stopChan:
 		}
 	}
+}
 
-	return n, err
+func (r *RemoteSvr) send(m *Message) *writeReply {
+	ctx := newWriteCtx(m)
+	select {
+	case r.writeChan <- ctx:
+		return <-ctx.reply
+	case <-r.stopChan:
+		return &writeReply{0, io.ErrClosedPipe}
+	}
 }
 
 func (r *RemoteSvr) writeMsg(m *Message) error {
-	ctx := newWriteCtx(m)
-	r.writeChan <- ctx
-	reply := <-ctx.reply
-	return reply.err
+	return r.send(m).err
 }
 
 func (r *RemoteSvr) Write(b []byte) (int, error) {
-	ctx := newWriteCtx(NewMessage(T_DATA, b))
-	r.writeChan <- ctx
-	reply := <-ctx.reply
-	return reply.n, reply.err
+	reply := r.send(NewMessage(T_DATA, b))
+	if reply.err != nil {
+		n := reply.n - msgHeader
+		if n < 0 {
+			n = 0
+		}
+		return n, reply.err
+	}
+	return len(b), nil
 }
 
 func (r *RemoteSvr) EnterRawMode() error {
@@ -228,6 +242,9 @@ func (r *RemoteSvr) readLoop(buf *bufio.Reader) {
 }
 
 func (r *RemoteSvr) GotIsTerminal(data []byte) {
+	if len(data) < 2 {
+		return
+	}
 	if binary.BigEndian.Uint16(data) == 0 {
 		r.isTerminal = false
 	} else {
@@ -236,9 +253,15 @@ func (r *RemoteSvr) GotIsTerminal(data []byte) {
 }
 
 func (r *RemoteSvr) GotReportWidth(data []byte) {
+	if len(data) < 2 {
+		return
+	}
 	atomic.StoreInt32(&r.width, int32(binary.BigEndian.Uint16(data)))
-	if r.funcWidthChan != nil {
-		r.funcWidthChan()
+	r.widthM.Lock()
+	f := r.funcWidthChan
+	r.widthM.Unlock()
+	if f != nil {
+		f()
 	}
 }
 
@@ -253,6 +276,9 @@ type Message struct {
 	Data []byte
 }
 
+// msgHeader is the size of what precedes the data of a message.
+const msgHeader = 4 + 2
+
 func ReadMessage(r io.Reader) (*Message, error) {
 	m := new(Message)
 	var length int32
@@ -262,10 +288,18 @@ func ReadMessage(r io.Reader) (*Message, error) {
 	if err := binary.Read(r, binary.BigEndian, &m.Type); err != nil {
 		return nil, err
 	}
-	m.Data = make([]byte, int(length)-2)
-	if _, err := io.ReadFull(r, m.Data); err != nil {
+	if length < 2 {
+		return nil, fmt.Errorf("invalid message length %d", length)
+	}
+	// the peer decides on the length, so only take memory for what it sends
+	var data bytes.Buffer
+	if _, err := io.CopyN(&data, r, int64(length)-2); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return nil, err
 	}
+	m.Data = data.Bytes()
 	return m, nil
 }
 
@@ -274,7 +308,7 @@ func NewMessage(t MsgType, data []byte) *Message {
 }
 
 func (m *Message) WriteTo(w io.Writer) (int, error) {
-	buf := bytes.NewBuffer(make([]byte, 0, len(m.Data)+2+4))
+	buf := bytes.NewBuffer(make([]byte, 0, len(m.Data)+msgHeader))
 	binary.Write(buf, binary.BigEndian, int32(len(m.Data)+2))
 	binary.Write(buf, binary.BigEndian, m.Type)
 	buf.Write(m.Data)
-- 
2.43.0


From f79ec4cf1b4214fb4a6062711d8cd01bfbcead0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:02 +0000
Subject: [PATCH 24/55] fix: a password call changed the prompt and mask, its
 text could be pasted, remote sessions used the server's terminal

---
 operation.go |  2 +-
 password.go  | 27 ++++++++++++++++++++++++---
 runebuf.go   | 10 ++++++++++
 3 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/operation.go b/operation.go
index 3be6d88..90d217e 100644
--- a/operation.go
+++ b/operation.go
@@ -515,8 +515,8 @@ func (op *Operation) SetConfig(cfg *Config) (*Config, error) {
 	old := op.cfg
 	op.cfg = cfg
 	op.SetPrompt(cfg.Prompt)
-	op.SetMaskRune(cfg.MaskRune)
 	op.buf.SetConfig(cfg)
+	op.SetMaskRune(cfg.MaskRune)
 	width := op.cfg.FuncGetWidth()
 
 	if cfg.opHistory == nil {
diff --git a/password.go b/password.go
index 414288c..6972aa5 100644
--- a/password.go
+++ b/password.go
@@ -3,6 +3,10 @@ package readline
 type opPassword struct {
 	o         *Operation
 	backupCfg *Config
+
+	// SetPrompt may have set another prompt than that of the configuration
+	backupPrompt []rune
+	backupKill   []rune
 }
 
 func newOpPassword(o *Operation) *opPassword {
@@ -11,15 +15,23 @@ func newOpPassword(o *Operation) *opPassword {
 
 func (o *opPassword) ExitPasswordMode() {
 	o.o.SetConfig(o.backupCfg)
+	o.o.buf.setKept(o.backupPrompt, o.backupKill)
 	o.backupCfg = nil
 }
 
 func (o *opPassword) EnterPasswordMode(cfg *Config) (err error) {
+	prompt, kill := o.o.buf.setKept(nil, nil)
 	o.backupCfg, err = o.o.SetConfig(cfg)
-	return
+	if err != nil {
+		o.o.buf.setKept(prompt, kill)
+		return err
+	}
+	o.backupPrompt, o.backupKill = prompt, kill
+	return nil
 }
 
 func (o *opPassword) PasswordConfig() *Config {
+	cfg := o.o.GetConfig()
 	return &Config{
 		EnableMask:      true,
 		InterruptPrompt: "\n",
@@ -27,7 +39,16 @@ func (o *opPassword) PasswordConfig() *Config {
 		HistoryLimit:    -1,
 		Painter:         &defaultPainter{},
 
-		Stdout: o.o.cfg.Stdout,
-		Stderr: o.o.cfg.Stderr,
+		Stdin:  cfg.Stdin,
+		Stdout: cfg.Stdout,
+		Stderr: cfg.Stderr,
+
+		// the same terminal, which may be a remote one
+		FuncGetWidth:        cfg.FuncGetWidth,
+		FuncIsTerminal:      cfg.FuncIsTerminal,
+		FuncMakeRaw:         cfg.FuncMakeRaw,
+		FuncExitRaw:         cfg.FuncExitRaw,
+		FuncOnWidthChanged:  cfg.FuncOnWidthChanged,
+		ForceUseInteractive: cfg.ForceUseInteractive,
 	}
 }
diff --git a/runebuf.go b/runebuf.go
index 9af6ba7..5c66e2f 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -79,6 +79,16 @@ func (r *RuneBuffer) SetConfig(cfg *Config) {
 	r.Unlock()
 }
 
+// setKept sets the prompt and the text which was cut last, and returns what they
+// were.
+func (r *RuneBuffer) setKept(prompt, lastKill []rune) (oldPrompt, oldKill []rune) {
+	r.Lock()
+	defer r.Unlock()
+	oldPrompt, oldKill = r.prompt, r.lastKill
+	r.prompt, r.lastKill = prompt, lastKill
+	return oldPrompt, oldKill
+}
+
 func (r *RuneBuffer) SetMask(m rune) {
 	r.Lock()
 	r.cfg.MaskRune = m
-- 
2.43.0


From a51618c24b1f8fe9c04db1eb43fc5985d2c3591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:50 +0000
Subject: [PATCH 25/55] fix: Ctrl-Z hung for ever if the stop was short or did
 not happen

A resume was noticed by a gap in the ticks of over 100 ms only.
---
 utils.go         | 24 ++++++++++++------------
 utils_unix.go    |  5 +++++
 utils_windows.go |  4 ++++
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/utils.go b/utils.go
index b4e21a9..8f0abb7 100644
--- a/utils.go
+++ b/utils.go
@@ -57,27 +57,27 @@ const (
 )
 
 // WaitForResume need to call before current process got suspend.
-// It will run a ticker until a long duration is occurs,
-// which means this process is resumed.
+// The channel gets a value once the process was continued, or when it turns out
+// that nothing suspends it.
 func WaitForResume() chan struct{} {
 	ch := make(chan struct{})
-	var wg sync.WaitGroup
-	wg.Add(1)
+	cont := make(chan os.Signal, 1)
+	notifyResume(cont)
 	go func() {
+		// time spent suspended does not count, the ticker drops those ticks
 		ticker := time.NewTicker(10 * time.Millisecond)
-		t := time.Now()
-		wg.Done()
-		for {
-			now := <-ticker.C
-			if now.Sub(t) > 100*time.Millisecond {
-				break
+	wait:
+		for i := 0; i < 100; i++ {
+			select {
+			case <-cont:
+				break wait
+			case <-ticker.C:
 			}
-			t = now
 		}
 		ticker.Stop()
+		signal.Stop(cont)
 		ch <- struct{}{}
 	}()
-	wg.Wait()
 	return ch
 }
 
diff --git a/utils_unix.go b/utils_unix.go
index fc49492..ba9d350 100644
--- a/utils_unix.go
+++ b/utils_unix.go
@@ -27,6 +27,11 @@ func SuspendMe() {
 	p.Signal(syscall.SIGTSTP)
 }
 
+// notifyResume sends a signal to c when the process is continued.
+func notifyResume(c chan<- os.Signal) {
+	signal.Notify(c, syscall.SIGCONT)
+}
+
 // get width of the terminal
 func getWidth(stdoutFd int) int {
 	cols, _, err := GetSize(stdoutFd)
diff --git a/utils_windows.go b/utils_windows.go
index 5bfa55d..b36adf7 100644
--- a/utils_windows.go
+++ b/utils_windows.go
@@ -4,12 +4,16 @@ package readline
 
 import (
 	"io"
+	"os"
 	"syscall"
 )
 
 func SuspendMe() {
 }
 
+func notifyResume(c chan<- os.Signal) {
+}
+
 func GetStdin() int {
 	return int(syscall.Stdin)
 }
-- 
2.43.0


From e42e7dce49722fb2255853b20d10e91b07aa4513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:25 +0000
Subject: [PATCH 26/55] fix: the Listener and the history could see a key after
 its call had returned

---
 operation.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/operation.go b/operation.go
index 90d217e..8e79197 100644
--- a/operation.go
+++ b/operation.go
@@ -127,6 +127,8 @@ func (o *Operation) ioloop() {
 			}
 		}
 		isUpdateHistory := true
+		// ends the call, once nothing of it is left to be done here
+		var finish func()
 
 		if o.IsInCompleteSelectMode() {
 			keepInCompleteMode = o.HandleCompleteSelect(r)
@@ -250,10 +252,11 @@ func (o *Operation) ioloop() {
 			} else {
 				isUpdateHistory = false
 			}
-			o.stopped = false
-			select {
-			case o.outchan <- data:
-			case <-o.done:
+			finish = func() {
+				select {
+				case o.outchan <- data:
+				case <-o.done:
+				}
 			}
 		case CharBackward:
 			o.buf.MoveBackward()
@@ -290,10 +293,10 @@ func (o *Operation) ioloop() {
 			o.buf.Reset()
 			isUpdateHistory = false
 			o.history.Revert()
-			o.fail(io.EOF)
 			if o.GetConfig().UniqueEditLine {
 				o.buf.Clean()
 			}
+			finish = func() { o.fail(io.EOF) }
 		case CharInterrupt:
 			if o.IsSearchMode() {
 				o.ExitSearchMode(true)
@@ -316,7 +319,7 @@ func (o *Operation) ioloop() {
 			}
 			isUpdateHistory = false
 			o.history.Revert()
-			o.fail(&InterruptError{remain})
+			finish = func() { o.fail(&InterruptError{remain}) }
 		default:
 			if o.IsSearchMode() {
 				o.SearchChar(r)
@@ -356,6 +359,11 @@ func (o *Operation) ioloop() {
 			o.history.Update(o.buf.Runes(), false)
 		}
 		o.m.Unlock()
+
+		if finish != nil {
+			o.stopped = false
+			finish()
+		}
 	}
 }
 
@@ -383,7 +391,6 @@ func (o *Operation) readKey() rune {
 
 // fail ends the current call with err.
 func (o *Operation) fail(err error) {
-	o.stopped = false
 	select {
 	case o.errchan <- err:
 	case <-o.done:
-- 
2.43.0


From 00ead655f64ad037ca1ebd9418401c9367ebd741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:43 +0000
Subject: [PATCH 27/55] fix: ReadSlice lost the text of an interrupted line

---
 operation.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/operation.go b/operation.go
index 8e79197..d0e8fd7 100644
--- a/operation.go
+++ b/operation.go
@@ -481,10 +481,7 @@ func (o *Operation) SetTitle(t string) {
 
 func (o *Operation) Slice() ([]byte, error) {
 	r, err := o.Runes()
-	if err != nil {
-		return nil, err
-	}
-	return []byte(string(r)), nil
+	return []byte(string(r)), err
 }
 
 func (o *Operation) Close() {
-- 
2.43.0


From 4c42e5c808f4677a8c2d3a147c5a4ad9df89e923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:23 +0000
Subject: [PATCH 28/55] fix: a text that the call after the end of input
 started with was sometimes returned as a line

---
 operation.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index d0e8fd7..8da2de9 100644
--- a/operation.go
+++ b/operation.go
@@ -114,7 +114,8 @@ func (o *Operation) ioloop() {
 		keepInCompleteMode := false
 		r := o.readKey()
 
-		if r == 0 { // io.EOF
+		isEOF := r == 0
+		if isEOF {
 			if o.buf.Len() == 0 {
 				o.buf.Clean()
 				o.end()
@@ -363,6 +364,12 @@ func (o *Operation) ioloop() {
 		if finish != nil {
 			o.stopped = false
 			finish()
+			if isEOF {
+				// what was left is flushed, a text later calls
+				// start with was not typed
+				o.end()
+				break
+			}
 		}
 	}
 }
-- 
2.43.0


From cd1d60e4f3b7f8bc916f7f445a4aa14200c12723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:37 +0000
Subject: [PATCH 29/55] fix: output or a call after Close could panic while a
 line was taken from the buffer

---
 operation.go | 16 ++++++----------
 runebuf.go   |  2 ++
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/operation.go b/operation.go
index 8da2de9..e35515f 100644
--- a/operation.go
+++ b/operation.go
@@ -238,15 +238,14 @@ func (o *Operation) ioloop() {
 				o.ExitSearchMode(false)
 			}
 			o.buf.MoveToLineEnd()
-			var data []rune
+			// after Close the next call may already change the buffer
+			data := o.buf.Runes()
 			if !o.GetConfig().UniqueEditLine {
 				o.buf.WriteRune('\n')
-				data = o.buf.Reset()
-				data = data[:len(data)-1] // trim \n
 			} else {
 				o.buf.Clean()
-				data = o.buf.Reset()
 			}
+			o.buf.Reset()
 			if !o.GetConfig().DisableAutoSaveHistory {
 				// ignore IO error
 				_ = o.history.New(data)
@@ -310,14 +309,11 @@ func (o *Operation) ioloop() {
 			}
 			o.buf.MoveToLineEnd()
 			o.buf.Refresh(nil)
-			hint := o.GetConfig().InterruptPrompt + "\n"
-			if !o.GetConfig().UniqueEditLine {
-				o.buf.WriteString(hint)
-			}
-			remain := o.buf.Reset()
+			remain := o.buf.Runes()
 			if !o.GetConfig().UniqueEditLine {
-				remain = remain[:len(remain)-len([]rune(hint))]
+				o.buf.WriteString(o.GetConfig().InterruptPrompt + "\n")
 			}
+			o.buf.Reset()
 			isUpdateHistory = false
 			o.history.Revert()
 			finish = func() { o.fail(&InterruptError{remain}) }
diff --git a/runebuf.go b/runebuf.go
index 5c66e2f..0df9ab6 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -600,6 +600,8 @@ func (r *RuneBuffer) output() []byte {
 }
 
 func (r *RuneBuffer) Reset() []rune {
+	r.Lock()
+	defer r.Unlock()
 	ret := runes.Copy(r.buf)
 	r.buf = r.buf[:0]
 	r.idx = 0
-- 
2.43.0


From 410007248f6d1b76fdfe38660b75ff4a7f090aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:31 +0000
Subject: [PATCH 30/55] fix: recalled entries turned empty while the history
 was disabled, and were not left after a line that is not saved

---
 history.go   | 2 ++
 operation.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/history.go b/history.go
index edba043..4880056 100644
--- a/history.go
+++ b/history.go
@@ -267,6 +267,8 @@ func (o *opHistory) New(current []rune) (err error) {
 
 	// history deactivated
 	if !o.enable {
+		// the next line starts at the newest entry all the same
+		o.Revert()
 		return nil
 	}
 
diff --git a/operation.go b/operation.go
index e35515f..93bb8ba 100644
--- a/operation.go
+++ b/operation.go
@@ -251,6 +251,7 @@ func (o *Operation) ioloop() {
 				_ = o.history.New(data)
 			} else {
 				isUpdateHistory = false
+				o.history.Revert()
 			}
 			finish = func() {
 				select {
-- 
2.43.0


From f0f6c0a133c04e0b12a34802cd0de99f6faf1d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:31 +0000
Subject: [PATCH 31/55] fix: a line was glued to the last one of a history file
 that could not be read to its end

---
 history.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/history.go b/history.go
index 4880056..9dd0bf7 100644
--- a/history.go
+++ b/history.go
@@ -98,6 +98,10 @@ func (o *opHistory) historyUpdatePath(path string) {
 		o.Push([]rune(line))
 		o.Compact()
 	}
+	if err != io.EOF {
+		// the end was not seen, it may lack its newline
+		o.torn = true
+	}
 	// don't replace a file which could not be read to its end
 	if err == io.EOF && total > o.cfg.HistoryLimit {
 		o.rewriteLocked()
-- 
2.43.0


From 26b5731bf06e774e471bd2d5aac9b1a75348771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:16 +0000
Subject: [PATCH 32/55] fix: an interrupted line of several rows was left on
 the screen with UniqueEditLine

---
 operation.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/operation.go b/operation.go
index 93bb8ba..91105e9 100644
--- a/operation.go
+++ b/operation.go
@@ -313,6 +313,8 @@ func (o *Operation) ioloop() {
 			remain := o.buf.Runes()
 			if !o.GetConfig().UniqueEditLine {
 				o.buf.WriteString(o.GetConfig().InterruptPrompt + "\n")
+			} else {
+				o.buf.Clean()
 			}
 			o.buf.Reset()
 			isUpdateHistory = false
-- 
2.43.0


From 81d3efcb48ff9e2c4546412852a8e1dc029f7619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:16 +0000
Subject: [PATCH 33/55] fix: a prompt of several rows erased the rows above it
 when a call started

---
 operation.go |  6 +++---
 runebuf.go   | 12 +++++++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/operation.go b/operation.go
index 91105e9..d2fbd2d 100644
--- a/operation.go
+++ b/operation.go
@@ -291,12 +291,12 @@ func (o *Operation) ioloop() {
 			if !o.GetConfig().UniqueEditLine {
 				o.buf.WriteString(o.GetConfig().EOFPrompt + "\n")
 			}
-			o.buf.Reset()
-			isUpdateHistory = false
-			o.history.Revert()
 			if o.GetConfig().UniqueEditLine {
 				o.buf.Clean()
 			}
+			o.buf.Reset()
+			isUpdateHistory = false
+			o.history.Revert()
 			finish = func() { o.fail(io.EOF) }
 		case CharInterrupt:
 			if o.IsSearchMode() {
diff --git a/runebuf.go b/runebuf.go
index 0df9ab6..72031ed 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -21,6 +21,8 @@ type RuneBuffer struct {
 	w      io.Writer
 
 	hadClean    bool
+	row         int  // of the cursor, counted from the start of the prompt
+	shown       bool // the prompt and the buffer are on the screen
 	interactive bool
 	cfg         *Config
 
@@ -42,6 +44,9 @@ func (r *RuneBuffer) pushKill(text []rune) {
 func (r *RuneBuffer) OnWidthChange(newWidth int) {
 	r.Lock()
 	r.width = newWidth
+	if r.shown {
+		r.row = r.idxLine(newWidth)
+	}
 	r.Unlock()
 }
 
@@ -568,6 +573,8 @@ func (r *RuneBuffer) SetOffset(offset string) {
 func (r *RuneBuffer) print() {
 	r.w.Write(r.output())
 	r.hadClean = false
+	r.shown = true
+	r.row = r.idxLine(r.width)
 }
 
 func (r *RuneBuffer) output() []byte {
@@ -605,6 +612,9 @@ func (r *RuneBuffer) Reset() []rune {
 	ret := runes.Copy(r.buf)
 	r.buf = r.buf[:0]
 	r.idx = 0
+	// what is on the screen is not to be cleaned with the next line
+	r.shown = false
+	r.row = 0
 	return ret
 }
 
@@ -674,7 +684,7 @@ func (r *RuneBuffer) Clean() {
 }
 
 func (r *RuneBuffer) clean() {
-	r.cleanWithIdxLine(r.idxLine(r.width))
+	r.cleanWithIdxLine(r.row)
 }
 
 func (r *RuneBuffer) cleanWithIdxLine(idxLine int) {
-- 
2.43.0


From 66c6dd32b26d0811a666afa941ba4f80bcf7c0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:16 +0000
Subject: [PATCH 34/55] fix: the search line and the menu were drawn in the
 wrong row when wide characters wrapped

---
 complete.go |  6 +++++-
 runebuf.go  | 11 ++++++++---
 search.go   |  6 +++++-
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/complete.go b/complete.go
index 0dd1712..1fbd26a 100644
--- a/complete.go
+++ b/complete.go
@@ -244,7 +244,11 @@ func (o *opCompleter) CompleteRefresh() {
 		if cellWidth < colWidth {
 			buf.Write(bytes.Repeat([]byte(" "), colWidth-cellWidth))
 		} else if cellWidth > o.width {
-			lines += LineCount(o.width, cellWidth) - 1
+			wrapped, _, edge := layout(append(runes.Copy(same), c...), o.width)
+			if edge {
+				wrapped--
+			}
+			lines += wrapped
 		}
 
 		if inSelect {
diff --git a/runebuf.go b/runebuf.go
index 72031ed..2ab4eb3 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -461,7 +461,12 @@ func (r *RuneBuffer) displayed() []rune {
 // column of the n-th rune. edge is true if that is the start of a line which
 // the terminal only goes to when there is more output.
 func (r *RuneBuffer) position(n int) (line, col int, edge bool) {
-	rs := append(runes.ColorFilter(r.prompt), r.displayed()[:n]...)
+	return layout(append(runes.ColorFilter(r.prompt), r.displayed()[:n]...), r.width)
+}
+
+// layout returns the line and the column at which a terminal of that width is
+// after it wrote rs, see position.
+func layout(rs []rune, width int) (line, col int, edge bool) {
 	for _, e := range rs {
 		if e == '\n' {
 			line++
@@ -474,14 +479,14 @@ func (r *RuneBuffer) position(n int) (line, col int, edge bool) {
 		}
 		for ; times > 0; times-- {
 			// a wide rune does not start in the last column
-			if w > 0 && r.width > 0 && col+w > r.width {
+			if w > 0 && width > 0 && col+w > width {
 				line++
 				col = 0
 			}
 			col += w
 		}
 	}
-	if r.width > 0 && col >= r.width {
+	if width > 0 && col >= width {
 		return line + 1, 0, true
 	}
 	return line, col, false
diff --git a/search.go b/search.go
index a022d9c..732d4cd 100644
--- a/search.go
+++ b/search.go
@@ -155,7 +155,11 @@ func (o *opSearch) SearchRefresh(x int) {
 	buf.WriteString(line)
 	buf.WriteString("\033[4m \033[0m") // _
 	// move prev, the search line may have been wrapped
-	lineCnt += LineCount(o.width, runes.WidthAll([]rune(line))+1) - 1
+	wrapped, _, edge := layout([]rune(line+" "), o.width)
+	if edge {
+		wrapped--
+	}
+	lineCnt += wrapped
 	fmt.Fprintf(buf, "\r\033[%dA", lineCnt)
 	if x > 0 {
 		fmt.Fprintf(buf, "\033[%dC", x) // move forward
-- 
2.43.0


From 3c58c421ea5cb10b6afcd9bddc1f799783e486db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:16 +0000
Subject: [PATCH 35/55] fix: a search after the window was resized during a
 password call was drawn with the old width

---
 operation.go | 2 ++
 runebuf.go   | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index d2fbd2d..6d09646 100644
--- a/operation.go
+++ b/operation.go
@@ -545,6 +545,8 @@ func (op *Operation) SetConfig(cfg *Config) (*Config, error) {
 	}
 
 	op.opSearch = cfg.opSearch
+	// it may have changed while another configuration was in use
+	op.opSearch.OnWidthChange(width)
 	return old, nil
 }
 
diff --git a/runebuf.go b/runebuf.go
index 2ab4eb3..cce7b78 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -637,7 +637,8 @@ func (r *RuneBuffer) SetStyle(start, end int, style string) {
 	r.w.Write([]byte("\033[" + style + "m"))
 	r.w.Write([]byte(string(r.buf[start:end])))
 	r.w.Write([]byte("\033[0m"))
-	if _, _, edge := r.position(end); edge {
+	startLine, startCol, _ := r.position(start)
+	if line, col, edge := r.position(end); edge && (line != startLine || col != startCol) {
 		r.w.Write([]byte("\r\n"))
 	}
 	r.w.Write(r.moveCursor(end, r.idx))
-- 
2.43.0


From c5db7c1e3db4bae88562b1449cf1f4a13801965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:50 +0000
Subject: [PATCH 36/55] fix: completion overwrote the candidates of a segment
 completer

---
 complete_segment.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/complete_segment.go b/complete_segment.go
index 5ceadd8..a66e69e 100644
--- a/complete_segment.go
+++ b/complete_segment.go
@@ -46,7 +46,8 @@ func RetSegment(segments [][]rune, cands [][]rune, idx int) ([][]rune, int) {
 		if !runes.HasPrefix(cand, lastSegment) {
 			continue
 		}
-		ret = append(ret, cand[len(lastSegment):])
+		// the completer may keep its candidates, they are not to be appended to
+		ret = append(ret, cand[len(lastSegment):len(cand):len(cand)])
 	}
 	return ret, idx
 }
-- 
2.43.0


From f5d10e24b59b46384d4c48d4c27955f639d0bfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:51 +0000
Subject: [PATCH 37/55] fix: the menu was not shown after Tab in a history
 search, nor the search line after the menu

---
 operation.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index 6d09646..940a133 100644
--- a/operation.go
+++ b/operation.go
@@ -345,10 +345,14 @@ func (o *Operation) ioloop() {
 		if !keepInSearchMode && o.IsSearchMode() {
 			o.ExitSearchMode(false)
 			o.buf.Refresh(nil)
-		} else if o.IsInCompleteMode() {
+		}
+		if o.IsInCompleteMode() {
 			if !keepInCompleteMode {
 				o.ExitCompleteMode(false)
 				o.Refresh()
+				if o.IsSearchMode() {
+					o.SearchRefresh(-1)
+				}
 			} else {
 				o.buf.Refresh(nil)
 				o.CompleteRefresh()
-- 
2.43.0


From f0f69980d8510b200628df06582ec4b87b0e42e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:51 +0000
Subject: [PATCH 38/55] fix: the completion menu glued candidates together
 after wide shared text

---
 complete.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/complete.go b/complete.go
index 1fbd26a..1bf7ca7 100644
--- a/complete.go
+++ b/complete.go
@@ -207,11 +207,8 @@ func (o *opCompleter) CompleteRefresh() {
 			colWidth = w
 		}
 	}
-	colWidth += candidateOff + 1
-	if colWidth < 1 {
-		colWidth = 1
-	}
 	same := o.op.buf.RuneSlice(-candidateOff)
+	colWidth += runes.WidthAll(same) + 1
 
 	// -1 to avoid reach the end of line
 	width := o.width - 1
-- 
2.43.0


From b9584f9c0de29208315506ca34575927254637f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:35 +0000
Subject: [PATCH 39/55] fix: a history file opened late was put after the lines
 of the session

---
 history.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/history.go b/history.go
index 9dd0bf7..161b7d0 100644
--- a/history.go
+++ b/history.go
@@ -80,6 +80,9 @@ func (o *opHistory) historyUpdatePath(path string) {
 		return
 	}
 	o.loaded = true
+	// not empty if the file could not be opened when the session started
+	session := o.history
+	o.history = list.New()
 	r := bufio.NewReader(o.fd)
 	total := 0
 	for ; err == nil; total++ {
@@ -106,6 +109,12 @@ func (o *opHistory) historyUpdatePath(path string) {
 	if err == io.EOF && total > o.cfg.HistoryLimit {
 		o.rewriteLocked()
 	}
+	for elem := session.Front(); elem != nil; elem = elem.Next() {
+		if s := elem.Value.(*hisItem).Source; len(s) > 0 {
+			o.Push(s)
+		}
+	}
+	o.Compact()
 	o.historyVer++
 	o.Push(nil)
 	return
-- 
2.43.0


From ebe9c652bda9ee67af5458bb72dbc840b06f00ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:29 +0000
Subject: [PATCH 40/55] fix: an in-place Painter changed the text of the line

---
 runebuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index cce7b78..ff5d591 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -593,7 +593,7 @@ func (r *RuneBuffer) output() []byte {
 			buf.Write([]byte(string(r.cfg.MaskRune)))
 		}
 	} else {
-		for _, e := range r.cfg.Painter.Paint(r.buf, r.idx) {
+		for _, e := range r.cfg.Painter.Paint(runes.Copy(r.buf), r.idx) {
 			if e == '\t' {
 				buf.WriteString(strings.Repeat(" ", TabWidth))
 			} else {
-- 
2.43.0


From b1303c8e0e19ae30fd5544ec9121fae14630729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:29 +0000
Subject: [PATCH 41/55] fix: the editor modified the line a Listener had
 returned

---
 runebuf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index ff5d591..e8fd47c 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -646,7 +646,8 @@ func (r *RuneBuffer) SetStyle(start, end int, style string) {
 
 func (r *RuneBuffer) SetWithIdx(idx int, buf []rune) {
 	r.Refresh(func() {
-		r.buf = buf
+		// it belongs to the caller, which may use it again
+		r.buf = runes.Copy(buf)
 		r.idx = idx
 	})
 }
-- 
2.43.0


From 08b6a89da91234091dad011a0a7375e7b45806be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:30 +0000
Subject: [PATCH 42/55] fix: VimMode of a new configuration had no effect,
 SetVimMode changed the old one

---
 readline.go | 1 +
 vim.go      | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/readline.go b/readline.go
index 69bad93..c195170 100644
--- a/readline.go
+++ b/readline.go
@@ -318,6 +318,7 @@ func (i *Instance) SetConfig(cfg *Config) *Config {
 	old := i.Config
 	i.Config = cfg
 	i.Operation.SetConfig(cfg)
+	i.Operation.opVim.setConfig(cfg)
 	i.Terminal.SetConfig(cfg)
 	return old
 }
diff --git a/vim.go b/vim.go
index 34d446c..64d8e69 100644
--- a/vim.go
+++ b/vim.go
@@ -29,6 +29,13 @@ func (o *opVim) SetVimMode(on bool) {
 	o.vimMode = VIM_INSERT
 }
 
+// setConfig follows the configuration of the terminal, which decides what the
+// escape key is.
+func (o *opVim) setConfig(cfg *Config) {
+	o.cfg = cfg
+	o.vimMode = VIM_INSERT
+}
+
 func (o *opVim) ExitVimMode() {
 	o.vimMode = VIM_INSERT
 }
-- 
2.43.0


From 15a4f486815dda47b97d0b6355299ff5ea1c7934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:30 +0000
Subject: [PATCH 43/55] fix: SetAutoComplete forgot the history of the session

---
 std.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/std.go b/std.go
index 3ba75a4..3f227fe 100644
--- a/std.go
+++ b/std.go
@@ -44,6 +44,8 @@ func SetAutoComplete(completer AutoCompleter) {
 	ins := getInstance()
 	cfg := ins.Config.Clone()
 	cfg.AutoComplete = completer
+	// only the completer changes
+	cfg.opHistory, cfg.opSearch = ins.Config.opHistory, ins.Config.opSearch
 	ins.SetConfig(cfg)
 }
 
-- 
2.43.0


From 9dcd0478a9257e123c5736a89e69f20d1b8204c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:08 +0000
Subject: [PATCH 44/55] fix: ReadPassword on a file descriptor left the
 terminal without echo

---
 term.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/term.go b/term.go
index ea5db93..062b668 100644
--- a/term.go
+++ b/term.go
@@ -85,11 +85,11 @@ func ReadPassword(fd int) ([]byte, error) {
 		return nil, err
 	}
 
-	newState := oldState
+	newState := *oldState
 	newState.Lflag &^= syscall.ECHO
 	newState.Lflag |= syscall.ICANON | syscall.ISIG
 	newState.Iflag |= syscall.ICRNL
-	if err := setTermios(fd, newState); err != nil {
+	if err := setTermios(fd, &newState); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From c8e2b66c3bd7875d3f327beba07ad7789e39e2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:23 +0000
Subject: [PATCH 45/55] fix: completing or telling a Listener could mix the
 runes of one line with the cursor of another

The runes and the cursor were read one after the other: when the line was set
in between (a line given up by Close, the default text of the next call), the
completer got a cursor beyond its line and paniced in the key loop.
---
 complete.go  | 4 ++--
 operation.go | 3 ++-
 runebuf.go   | 9 +++++++++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/complete.go b/complete.go
index 1bf7ca7..8c4a352 100644
--- a/complete.go
+++ b/complete.go
@@ -79,7 +79,7 @@ func (o *opCompleter) OnComplete() bool {
 	}
 
 	buf := o.op.buf
-	rs := buf.Runes()
+	rs, pos := buf.line()
 
 	if o.IsInCompleteMode() && o.candidateSource != nil && runes.Equal(rs, o.candidateSource) {
 		o.EnterCompleteSelectMode()
@@ -89,7 +89,7 @@ func (o *opCompleter) OnComplete() bool {
 
 	o.ExitCompleteSelectMode()
 	o.candidateSource = rs
-	newLines, offset := o.op.cfg.AutoComplete.Do(rs, buf.idx)
+	newLines, offset := o.op.cfg.AutoComplete.Do(rs, pos)
 	if len(newLines) == 0 {
 		o.ExitCompleteMode(false)
 		return true
diff --git a/operation.go b/operation.go
index 940a133..5d5ac5b 100644
--- a/operation.go
+++ b/operation.go
@@ -335,7 +335,8 @@ func (o *Operation) ioloop() {
 
 		listener := o.GetConfig().Listener
 		if listener != nil {
-			newLine, newPos, ok := listener.OnChange(o.buf.Runes(), o.buf.Pos(), r)
+			line, pos := o.buf.line()
+			newLine, newPos, ok := listener.OnChange(line, pos, r)
 			if ok {
 				o.buf.SetWithIdx(newPos, newLine)
 			}
diff --git a/runebuf.go b/runebuf.go
index e8fd47c..0c1d355 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -145,6 +145,15 @@ func (r *RuneBuffer) Runes() []rune {
 	return newr
 }
 
+// line returns the line and the position of the cursor in it. Runes and Pos one
+// after the other may belong to two different lines, when the line is set
+// meanwhile.
+func (r *RuneBuffer) line() ([]rune, int) {
+	r.Lock()
+	defer r.Unlock()
+	return runes.Copy(r.buf), r.idx
+}
+
 func (r *RuneBuffer) Pos() int {
 	r.Lock()
 	defer r.Unlock()
-- 
2.43.0


From 1d8edd3af60b3e901b616e7613d8181267ecc4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 46/55] fix: a read interrupted by a signal inside a key of
 several bytes garbled the key

Only an interruption between two keys was handled: inside an escape sequence the
rest of it was typed into the line, inside a character the character was lost.
---
 terminal.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/terminal.go b/terminal.go
index 9fd7a10..d3ce879 100644
--- a/terminal.go
+++ b/terminal.go
@@ -147,6 +147,24 @@ func stopsReading(r rune) bool {
 	return false
 }
 
+// interruptible reads again when a signal interrupted a read, which may happen
+// in the middle of a key of several bytes.
+type interruptible struct {
+	r io.Reader
+}
+
+func (i interruptible) Read(b []byte) (n int, err error) {
+	for {
+		n, err = i.r.Read(b)
+		if err == nil || !strings.Contains(err.Error(), "interrupted system call") {
+			return n, err
+		}
+		if n > 0 {
+			return n, nil
+		}
+	}
+}
+
 func (t *Terminal) ioloop() {
 	defer func() {
 		t.wg.Done()
@@ -160,7 +178,7 @@ func (t *Terminal) ioloop() {
 		expectNextChar bool
 	)
 
-	buf := bufio.NewReader(t.stdin)
+	buf := bufio.NewReader(interruptible{t.stdin})
 	for {
 		if !expectNextChar {
 			atomic.StoreInt32(&t.isReading, 0)
@@ -174,10 +192,6 @@ func (t *Terminal) ioloop() {
 		expectNextChar = false
 		r, _, err := buf.ReadRune()
 		if err != nil {
-			if strings.Contains(err.Error(), "interrupted system call") {
-				expectNextChar = true
-				continue
-			}
 			break
 		}
 
-- 
2.43.0


From 319bfb948ca235735591ef6994ae40aa4dad322a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:04 +0000
Subject: [PATCH 47/55] fix: an unknown width of a remote terminal arrived as
 65535 columns

---
 remote.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/remote.go b/remote.go
index e1e4158..c50c85f 100644
--- a/remote.go
+++ b/remote.go
@@ -256,7 +256,8 @@ func (r *RemoteSvr) GotReportWidth(data []byte) {
 	if len(data) < 2 {
 		return
 	}
-	atomic.StoreInt32(&r.width, int32(binary.BigEndian.Uint16(data)))
+	// -1 stands for a width that is not known
+	atomic.StoreInt32(&r.width, int32(int16(binary.BigEndian.Uint16(data))))
 	r.widthM.Lock()
 	f := r.funcWidthChan
 	r.widthM.Unlock()
-- 
2.43.0


From b6bff4ecd9def55fef0283e9e6b2d352f7ce7669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:41 +0000
Subject: [PATCH 48/55] fix: output and Refresh drew a stray prompt, or over
 the line, at the start and the end of a call

Whether a line is shown was guessed from the state of the terminal's reading
goroutine, which lags behind what is on the screen: output after the end of the
input or just after a call was followed by another prompt, output just after
the prompt was drawn went over it. The buffer knows what is shown.

Close and the end of the input no longer leave the line of an ended call to be
drawn over by what the application writes next.
---
 operation.go | 58 +++++++++++++++++++++++++++++++++++++---------------
 runebuf.go   | 29 ++++++++++++++++++++++++++
 2 files changed, 71 insertions(+), 16 deletions(-)

diff --git a/operation.go b/operation.go
index 5d5ac5b..ccc2b8a 100644
--- a/operation.go
+++ b/operation.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"io"
 	"sync"
+	"sync/atomic"
 )
 
 var (
@@ -27,7 +28,8 @@ type Operation struct {
 	errchan chan error
 	done    chan struct{} // closed by Close and at the end of the input
 	endOnce sync.Once
-	stopped bool // the terminal waits to be kicked, only used by ioloop
+	stopped bool  // the terminal waits to be kicked, only used by ioloop
+	flushed int32 // the input ended and what was left of it is returned
 	w       io.Writer
 
 	history *opHistory
@@ -48,17 +50,16 @@ type wrapWriter struct {
 }
 
 func (w *wrapWriter) Write(b []byte) (int, error) {
-	if !w.t.IsReading() {
-		return w.target.Write(b)
-	}
-
 	var (
 		n   int
 		err error
 	)
-	w.r.buf.Refresh(func() {
+	shown := w.r.buf.refreshShown(func() {
 		n, err = w.target.Write(b)
 	})
+	if !shown {
+		return n, err
+	}
 
 	if w.r.IsSearchMode() {
 		w.r.SearchRefresh(-1)
@@ -116,8 +117,14 @@ func (o *Operation) ioloop() {
 
 		isEOF := r == 0
 		if isEOF {
+			select {
+			case <-o.done:
+				// the call has ended already
+				return
+			default:
+			}
 			if o.buf.Len() == 0 {
-				o.buf.Clean()
+				o.buf.remove()
 				o.end()
 				break
 			} else {
@@ -243,7 +250,7 @@ func (o *Operation) ioloop() {
 			if !o.GetConfig().UniqueEditLine {
 				o.buf.WriteRune('\n')
 			} else {
-				o.buf.Clean()
+				o.buf.remove()
 			}
 			o.buf.Reset()
 			if !o.GetConfig().DisableAutoSaveHistory {
@@ -292,7 +299,7 @@ func (o *Operation) ioloop() {
 				o.buf.WriteString(o.GetConfig().EOFPrompt + "\n")
 			}
 			if o.GetConfig().UniqueEditLine {
-				o.buf.Clean()
+				o.buf.remove()
 			}
 			o.buf.Reset()
 			isUpdateHistory = false
@@ -314,7 +321,7 @@ func (o *Operation) ioloop() {
 			if !o.GetConfig().UniqueEditLine {
 				o.buf.WriteString(o.GetConfig().InterruptPrompt + "\n")
 			} else {
-				o.buf.Clean()
+				o.buf.remove()
 			}
 			o.buf.Reset()
 			isUpdateHistory = false
@@ -367,6 +374,9 @@ func (o *Operation) ioloop() {
 
 		if finish != nil {
 			o.stopped = false
+			if isEOF {
+				atomic.StoreInt32(&o.flushed, 1)
+			}
 			finish()
 			if isEOF {
 				// what was left is flushed, a text later calls
@@ -413,6 +423,16 @@ func (o *Operation) end() {
 	o.endOnce.Do(func() { close(o.done) })
 }
 
+// isEnded tells whether a call that begins returns io.EOF.
+func (o *Operation) isEnded() bool {
+	select {
+	case <-o.done:
+		return true
+	default:
+		return atomic.LoadInt32(&o.flushed) != 0
+	}
+}
+
 // keepEdit stores the line as it is before another history entry replaces it:
 // a default text or a vi command has not been stored yet.
 func (o *Operation) keepEdit() {
@@ -435,10 +455,11 @@ func (o *Operation) String() (string, error) {
 }
 
 func (o *Operation) Runes() ([]rune, error) {
-	select {
-	case <-o.done:
+	if o.isEnded() {
+		// there may be a text the call would start with
+		o.buf.remove()
+		o.buf.Reset()
 		return nil, io.EOF
-	default:
 	}
 	o.t.EnterRawMode()
 	defer o.t.ExitRawMode()
@@ -459,6 +480,13 @@ func (o *Operation) Runes() ([]rune, error) {
 		}
 		return nil, err
 	case <-o.done:
+		if o.buf.Len() == 0 || o.GetConfig().UniqueEditLine {
+			o.buf.remove()
+		} else {
+			o.buf.MoveToLineEnd()
+			o.buf.WriteRune('\n')
+		}
+		o.buf.Reset()
 		return nil, io.EOF
 	}
 }
@@ -566,9 +594,7 @@ func (o *Operation) SaveHistory(content string) error {
 }
 
 func (o *Operation) Refresh() {
-	if o.t.IsReading() {
-		o.buf.Refresh(nil)
-	}
+	o.buf.refreshShown(nil)
 }
 
 func (o *Operation) Clean() {
diff --git a/runebuf.go b/runebuf.go
index 0c1d355..120e1f5 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -578,6 +578,24 @@ func (r *RuneBuffer) Refresh(f func()) {
 	r.print()
 }
 
+// refreshShown is Refresh if the prompt and the buffer are on the screen, where
+// f must not draw over them. Otherwise it only calls f.
+func (r *RuneBuffer) refreshShown(f func()) (shown bool) {
+	r.Lock()
+	defer r.Unlock()
+	shown = r.shown && r.interactive
+	if shown {
+		r.clean()
+	}
+	if f != nil {
+		f()
+	}
+	if shown {
+		r.print()
+	}
+	return shown
+}
+
 func (r *RuneBuffer) SetOffset(offset string) {
 	r.Lock()
 	r.offset = offset
@@ -632,6 +650,17 @@ func (r *RuneBuffer) Reset() []rune {
 	return ret
 }
 
+// remove takes the prompt and the buffer off the screen.
+func (r *RuneBuffer) remove() {
+	r.Lock()
+	defer r.Unlock()
+	if r.shown {
+		r.clean()
+		r.shown = false
+		r.row = 0
+	}
+}
+
 func (r *RuneBuffer) SetStyle(start, end int, style string) {
 	if end < start {
 		panic("end < start")
-- 
2.43.0


From 28cf2733afd194c87d2a06196a25ca464e564c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:10 +0000
Subject: [PATCH 49/55] fix: the search line or the menu vanished when a
 Listener changed the line or a filter dropped a key

---
 operation.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/operation.go b/operation.go
index ccc2b8a..e36bf68 100644
--- a/operation.go
+++ b/operation.go
@@ -346,6 +346,9 @@ func (o *Operation) ioloop() {
 			newLine, newPos, ok := listener.OnChange(line, pos, r)
 			if ok {
 				o.buf.SetWithIdx(newPos, newLine)
+				if keepInSearchMode {
+					o.SearchRefresh(-1)
+				}
 			}
 		}
 
@@ -407,6 +410,12 @@ func (o *Operation) readKey() rune {
 			return r
 		}
 		o.buf.Refresh(nil) // to refresh the line
+		if o.IsSearchMode() {
+			o.SearchRefresh(-1)
+		}
+		if o.IsInCompleteMode() {
+			o.CompleteRefresh()
+		}
 	}
 }
 
-- 
2.43.0


From c8924e62a22a433ee68e1cf4f087b04c91913f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:21 +0000
Subject: [PATCH 50/55] fix: GetOffset missed the terminal's answer, or was
 given an older one

---
 terminal.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/terminal.go b/terminal.go
index d3ce879..7a271e7 100644
--- a/terminal.go
+++ b/terminal.go
@@ -26,7 +26,8 @@ type Terminal struct {
 	// leaves the raw mode that was entered last
 	exitRaw func() error
 
-	sizeChan chan string
+	offsetM sync.Mutex
+	offsets []func(string) // who asked for the place of the cursor
 }
 
 func NewTerminal(cfg *Config) (*Terminal, error) {
@@ -40,7 +41,6 @@ func NewTerminal(cfg *Config) (*Terminal, error) {
 		kickChan:    make(chan struct{}, 1),
 		outchan:     make(chan rune),
 		stopChan:    make(chan struct{}, 1),
-		sizeChan:    make(chan string, 1),
 	}
 
 	t.wg.Add(1)
@@ -99,9 +99,9 @@ type termSize struct {
 }
 
 func (t *Terminal) GetOffset(f func(offset string)) {
-	go func() {
-		f(<-t.sizeChan)
-	}()
+	t.offsetM.Lock()
+	t.offsets = append(t.offsets, f)
+	t.offsetM.Unlock()
 	t.Write([]byte("\033[6n"))
 }
 
@@ -216,10 +216,12 @@ func (t *Terminal) ioloop() {
 				// offset
 				if key.typ == 'R' {
 					if _, _, ok := key.Get2(); ok {
-						select {
-						case t.sizeChan <- key.attr:
-						default:
+						t.offsetM.Lock()
+						if len(t.offsets) > 0 {
+							go t.offsets[0](key.attr)
+							t.offsets = t.offsets[1:]
 						}
+						t.offsetM.Unlock()
 					}
 					expectNextChar = true
 					continue
-- 
2.43.0


From 795c6923982634d34f537d11bf29efcf303f167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:01 +0000
Subject: [PATCH 51/55] fix: the menu stayed on the screen when Tab found no
 candidates for a line a Listener had changed

---
 complete.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/complete.go b/complete.go
index 8c4a352..9fd3582 100644
--- a/complete.go
+++ b/complete.go
@@ -91,7 +91,12 @@ func (o *opCompleter) OnComplete() bool {
 	o.candidateSource = rs
 	newLines, offset := o.op.cfg.AutoComplete.Do(rs, pos)
 	if len(newLines) == 0 {
+		menu := o.IsInCompleteMode()
 		o.ExitCompleteMode(false)
+		if menu {
+			// take it off the screen
+			buf.Refresh(nil)
+		}
 		return true
 	}
 
-- 
2.43.0


From 0f1cf010d80a52a1c861449233e9f8304a15eb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:56 +0000
Subject: [PATCH 52/55] fix: a Read of a CancelableStdin ended by Close went on
 writing into the caller's buffer

---
 std.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/std.go b/std.go
index 3f227fe..960baec 100644
--- a/std.go
+++ b/std.go
@@ -113,7 +113,11 @@ func (c *CancelableStdin) Read(b []byte) (n int, err error) {
 		return 0, io.EOF
 	}
 
-	c.data = b
+	// a canceled read may still be filling its buffer, so not the caller's
+	if cap(c.data) < len(b) {
+		c.data = make([]byte, len(b))
+	}
+	c.data = c.data[:len(b)]
 	select {
 	case c.notify <- struct{}{}:
 	case <-c.stop:
@@ -121,6 +125,7 @@ func (c *CancelableStdin) Read(b []byte) (n int, err error) {
 	}
 	select {
 	case <-c.notify:
+		copy(b, c.data[:c.read])
 		return c.read, c.err
 	case <-c.stop:
 		return 0, io.EOF
-- 
2.43.0


From a6712c3a3f9efadb47d77564ca3ec786f8431246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:36 +0000
Subject: [PATCH 53/55] fix: a resize while a remote client started was never
 reported to the server

---
 remote.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/remote.go b/remote.go
index c50c85f..0afac4a 100644
--- a/remote.go
+++ b/remote.go
@@ -351,15 +351,11 @@ func (r *RemoteCli) init() error {
 		return err
 	}
 
-	if err := r.reportWidth(); err != nil {
-		return err
-	}
-
-	// register sig for width changed
+	// register sig for width changed, before the width is looked at
 	DefaultOnWidthChanged(func() {
 		r.reportWidth()
 	})
-	return nil
+	return r.reportWidth()
 }
 
 func (r *RemoteCli) writeMsg(m *Message) error {
@@ -378,15 +374,14 @@ func (r *RemoteCli) Write(b []byte) (int, error) {
 }
 
 func (r *RemoteCli) reportWidth() error {
+	// the last report must be of the last width
+	r.dataM.Lock()
+	defer r.dataM.Unlock()
 	screenWidth := GetScreenWidth()
 	data := make([]byte, 2)
 	binary.BigEndian.PutUint16(data, uint16(screenWidth))
-	msg := NewMessage(T_WIDTH_REPORT, data)
-
-	if err := r.writeMsg(msg); err != nil {
-		return err
-	}
-	return nil
+	_, err := NewMessage(T_WIDTH_REPORT, data).WriteTo(r.conn)
+	return err
 }
 
 func (r *RemoteCli) reportIsTerminal() error {
-- 
2.43.0


From e6452028143920adcead169dd60375406999f812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:11 +0000
Subject: [PATCH 54/55] fix: a resize while an instance was made was lost

---
 operation.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/operation.go b/operation.go
index e36bf68..355ed3a 100644
--- a/operation.go
+++ b/operation.go
@@ -37,6 +37,8 @@ type Operation struct {
 	*opCompleter
 	*opPassword
 	*opVim
+
+	widthM sync.Mutex // held while the width is read and told to the parts
 }
 
 func (o *Operation) SetBuffer(what string) {
@@ -84,12 +86,17 @@ func NewOperation(t *Terminal, cfg *Config) *Operation {
 	op.opVim = newVimMode(op)
 	op.opCompleter = newOpCompleter(op.buf.w, op, width)
 	op.opPassword = newOpPassword(op)
-	op.cfg.FuncOnWidthChanged(func() {
+	onWidthChanged := func() {
+		op.widthM.Lock()
+		defer op.widthM.Unlock()
 		newWidth := cfg.FuncGetWidth()
 		op.opCompleter.OnWidthChange(newWidth)
 		op.opSearch.OnWidthChange(newWidth)
 		op.buf.OnWidthChange(newWidth)
-	})
+	}
+	op.cfg.FuncOnWidthChanged(onWidthChanged)
+	// it may have changed before anybody listened
+	onWidthChanged()
 	go op.ioloop()
 	return op
 }
@@ -569,6 +576,9 @@ func (op *Operation) SetConfig(cfg *Config) (*Config, error) {
 	op.SetPrompt(cfg.Prompt)
 	op.buf.SetConfig(cfg)
 	op.SetMaskRune(cfg.MaskRune)
+	// a change of the width must not be undone by what was read before it
+	op.widthM.Lock()
+	defer op.widthM.Unlock()
 	width := op.cfg.FuncGetWidth()
 
 	if cfg.opHistory == nil {
-- 
2.43.0


From 4b9400759bc5fdcdeeec5c4a0a7fa84474bdbbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:55 +0000
Subject: [PATCH 55/55] fix: deleting a word crashed when the line was set from
 another task meanwhile

---
 runebuf.go | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/runebuf.go b/runebuf.go
index 120e1f5..f4ee046 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -245,23 +245,24 @@ func (r *RuneBuffer) Delete() (success bool) {
 }
 
 func (r *RuneBuffer) DeleteWord() {
-	if r.idx == len(r.buf) {
-		return
-	}
-	init := r.idx
-	for init < len(r.buf) && IsWordBreak(r.buf[init]) {
-		init++
-	}
-	for i := init + 1; i < len(r.buf); i++ {
-		if !IsWordBreak(r.buf[i]) && IsWordBreak(r.buf[i-1]) {
-			r.pushKill(r.buf[r.idx : i-1])
-			r.Refresh(func() {
-				r.buf = append(r.buf[:r.idx], r.buf[i-1:]...)
-			})
+	r.Refresh(func() {
+		if r.idx == len(r.buf) {
 			return
 		}
-	}
-	r.Kill()
+		init := r.idx
+		for init < len(r.buf) && IsWordBreak(r.buf[init]) {
+			init++
+		}
+		for i := init + 1; i < len(r.buf); i++ {
+			if !IsWordBreak(r.buf[i]) && IsWordBreak(r.buf[i-1]) {
+				r.pushKill(r.buf[r.idx : i-1])
+				r.buf = append(r.buf[:r.idx], r.buf[i-1:]...)
+				return
+			}
+		}
+		r.pushKill(r.buf[r.idx:])
+		r.buf = r.buf[:r.idx]
+	})
 }
 
 func (r *RuneBuffer) MoveToPrevWord() (success bool) {
-- 
2.43.0

