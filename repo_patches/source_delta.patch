From 13e9ba2cc5646bb54d1a0a7cfc326b52e97e4f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 01/67] fix: hold back a partial UTF-8 rune until more input is
 read

Input.Decode turned a rune that was cut by a read boundary into several
U+FFFD runes.
---
 input.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/input.go b/input.go
index d7e20a4..06bf2c3 100644
--- a/input.go
+++ b/input.go
@@ -154,6 +154,9 @@ func (in *Input) decodeRune() (rune, bool) {
 	}
 	r, n := utf8.DecodeRune(in.buf.Bytes())
 	if !in.ateof {
+		if !utf8.FullRune(in.buf.Bytes()) {
+			return 0, false
+		}
 		switch r {
 		case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
 			return 0, false
-- 
2.43.0


From f77a6aa9397287335de3a316c268f44ac6388f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 02/67] fix: let input file flags be cleared, and restored to
 their original value

ReadMore spun on (or returned) EWOULDBLOCK after ReadAny, since O_NONBLOCK
was never cleared; Notify(nil) left O_ASYNC on; Exit restored flags already
changed by Notify; ReadAny blocked after Exit or a failed fcntl.
---
 input.go | 53 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/input.go b/input.go
index 06bf2c3..84fb6ae 100644
--- a/input.go
+++ b/input.go
@@ -26,6 +26,7 @@ type Input struct {
 	MinReadSize int
 
 	oldFlags uintptr
+	oldSaved bool
 	ateof    bool
 	nonblock bool
 	async    bool
@@ -195,14 +196,15 @@ func (in *Input) ReadMore() (int, error) {
 
 		case syscall.EWOULDBLOCK:
 			in.ateof = false
-			if n > 0 {
-				return n, nil
-			}
-			if err := in.setNonblock(false); err != nil {
-				return 0, err
+			in.nonblock = true
+			if err = nil; n == 0 {
+				if err := in.setNonblock(false); err != nil {
+					return 0, err
+				}
+				continue
 			}
 
-		case nil:
+		default:
 			in.ateof = false
 		}
 
@@ -276,24 +278,23 @@ func (in *Input) ReadAny() (n int, err error) {
 	return n, err
 }
 
-// Enter gets the current fcntl flags for restoration during Exit(), and sets
+// Enter gets the current fcntl flags for restoration during Exit() (unless
+// they've already been changed by Notify() or a read), and sets
 // non-blocking/async modes if needed.
 func (in *Input) Enter(term *Term) error {
-	prior, err := in.setFlags()
-	if err == nil {
-		in.oldFlags = prior
-	}
-	return err
+	return in.setFlags()
 }
 
-// Exit restores fcntl flags to their Enter() time value.
+// Exit restores fcntl flags to the value that they had before Enter().
 func (in *Input) Exit(term *Term) error {
-	if in.File == nil {
+	if in.File == nil || !in.oldSaved {
 		return nil
 	}
 	if _, _, err := in.fcntl(syscall.F_SETFL, in.oldFlags); err != nil {
 		return fmt.Errorf("failed to set input file flags: %v", err)
 	}
+	in.oldSaved = false
+	in.nonblock = in.oldFlags&syscall.O_NONBLOCK != 0
 	return nil
 }
 
@@ -351,7 +352,8 @@ func (in *Input) setAsync(async bool) error {
 		return nil
 	}
 	in.async = async
-	if _, err := in.setFlags(); err != nil {
+	if err := in.setFlags(); err != nil {
+		in.async = !async
 		return err
 	}
 	if in.async && in.File != nil {
@@ -368,28 +370,35 @@ func (in *Input) setNonblock(nonblock bool) error {
 		return nil
 	}
 	in.nonblock = nonblock
-	_, err := in.setFlags()
+	err := in.setFlags()
+	if err != nil {
+		in.nonblock = !nonblock
+	}
 	return err
 }
 
-func (in *Input) setFlags() (prior uintptr, _ error) {
+func (in *Input) setFlags() error {
 	if in.File == nil {
-		return 0, nil
+		return nil
 	}
 	flags, _, err := in.fcntl(syscall.F_GETFL, 0)
 	if err != nil {
-		return 0, fmt.Errorf("failed to get input file flags: %v", err)
+		return fmt.Errorf("failed to get input file flags: %v", err)
 	}
-	prior = flags
+	prior := flags
 	flags = in.buildFlags(flags)
 	_, _, err = in.fcntl(syscall.F_SETFL, flags)
 	if err != nil {
-		return prior, fmt.Errorf("failed to set input file flags: %v", err)
+		return fmt.Errorf("failed to set input file flags: %v", err)
+	}
+	if !in.oldSaved {
+		in.oldFlags, in.oldSaved = prior, true
 	}
-	return prior, nil
+	return nil
 }
 
 func (in *Input) buildFlags(flags uintptr) uintptr {
+	flags &^= syscall.O_NONBLOCK | syscall.O_ASYNC
 	if in.nonblock {
 		flags |= syscall.O_NONBLOCK
 	}
-- 
2.43.0


From f28120421bf2efbec3ac66e4ee095cc5fec4a8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 03/67] fix: let control strings contain U+FFFD and invalid
 UTF-8

A string sequence with such content never ended, holding back all further
input.
---
 ansi/decode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index 6a80a96..8d4aa1f 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -207,7 +207,9 @@ func decodeString(p []byte) (a []byte, n int) {
 	for {
 		switch r {
 		case utf8.RuneError:
-			return nil, 0
+			if !utf8.FullRune(p[n:]) {
+				return nil, 0
+			}
 		case 0x9C:
 			return p[:n], n + m
 		}
-- 
2.43.0


From d07487e860b73c7b867a2e0d0c650f811b0d6086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 04/67] fix: decode sequences after a canceled one, and don't
 hold back complete ESC keys

After a canceled escape sequence the next one was split into runes; with a
full read buffer, an ESC was held back even though it was already followed by
something else.
---
 input.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/input.go b/input.go
index 84fb6ae..7a15ee4 100644
--- a/input.go
+++ b/input.go
@@ -139,14 +139,17 @@ func (in *Input) Decode() (e ansi.Escape, a []byte, ok bool) {
 }
 
 func (in *Input) decodeEscape() (e ansi.Escape, a []byte) {
-	if in.buf.Len() == 0 {
-		return 0, nil
-	}
-	e, a, n := ansi.DecodeEscape(in.buf.Bytes())
-	if n > 0 {
-		in.buf.Next(n)
+	for in.buf.Len() > 0 {
+		e, a, n := ansi.DecodeEscape(in.buf.Bytes())
+		if n > 0 {
+			in.buf.Next(n)
+		}
+		if e != 0 || n == 0 {
+			return e, a
+		}
+		// a sequence was canceled, there may be another one after it
 	}
-	return e, a
+	return 0, nil
 }
 
 func (in *Input) decodeRune() (rune, bool) {
@@ -162,7 +165,7 @@ func (in *Input) decodeRune() (rune, bool) {
 		case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
 			return 0, false
 		case 0x1B: // ESC
-			if p := in.buf.Bytes(); len(p) == cap(p) && !in.ateof {
+			if p := in.buf.Bytes(); len(p) == cap(p) && isPartialEscape(p) {
 				return 0, false
 			}
 		}
@@ -171,6 +174,17 @@ func (in *Input) decodeRune() (rune, bool) {
 	return r, true
 }
 
+// isPartialEscape returns true only if p contains just an ESCape and any
+// intermediate bytes, and so may be completed by further input.
+func isPartialEscape(p []byte) bool {
+	for _, c := range p[1:] {
+		if c < 0x20 || c > 0x2F {
+			return false
+		}
+	}
+	return true
+}
+
 // ReadMore from the underlying file into the internal byte buffer; it
 // may block until at least one new byte has been read. Returns the
 // number of bytes read and any error.
-- 
2.43.0


From 23cc62af788051519d5b5e7be311675cd38bea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:18 +0000
Subject: [PATCH 05/67] fix: move the cursor vertically when only the row
 changes

---
 state.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/state.go b/state.go
index 5104884..f631c6b 100644
--- a/state.go
+++ b/state.go
@@ -144,7 +144,7 @@ func (cs *Cursor) To(pt ansi.Point) ansi.Seq {
 		return ansi.CUP.WithPoint(pt)
 	}
 
-	dx := pt.X - cs.X
+	dx, dy := pt.X-cs.X, pt.Y-cs.Y
 	cs.X = pt.X
 	switch {
 	case dx == 0:
@@ -158,7 +158,6 @@ func (cs *Cursor) To(pt ansi.Point) ansi.Seq {
 		return ansi.CUB.WithInts(-dx)
 	}
 
-	dy := pt.X - cs.X
 	cs.Y = pt.Y
 	switch {
 	case dy == 0:
-- 
2.43.0


From 92325dc94b6eec2a89dacfc81af51e903c85fb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:46 +0000
Subject: [PATCH 06/67] fix: process buffered output independently of how
 writes are split

---
 buffer.go | 45 +++++++++++++++++++++++++++++++++++----------
 input.go  | 11 ++++++-----
 2 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/buffer.go b/buffer.go
index 9f85fb6..22c33d1 100644
--- a/buffer.go
+++ b/buffer.go
@@ -12,8 +12,9 @@ import (
 // convenience methods for writing various ansi escape sequences, and keeping
 // an observant processor up to date.
 type Buffer struct {
-	buf bytes.Buffer
-	off int
+	buf  bytes.Buffer
+	off  int
+	part []byte // processed bytes that await completion by further ones
 }
 
 // Len returns the number of unwritten bytes in the buffer.
@@ -36,6 +37,7 @@ func (b *Buffer) Bytes() []byte {
 func (b *Buffer) Reset() {
 	b.buf.Reset()
 	b.off = 0
+	b.part = b.part[:0]
 }
 
 // WriteTo writes all bytes from the internal buffer to the given io.Writer.
@@ -129,7 +131,10 @@ func (b *Buffer) WriteByte(c byte) error {
 // processor wants to intermediate a buffer write, handling its own semantic
 // update and avoiding (re)parsing the written bytes.
 func (b *Buffer) Skip(n int) {
-	b.off += n
+	if n > 0 {
+		b.off += n
+		b.part = b.part[:0]
+	}
 }
 
 // Discard processed bytes, re-using internal buffer space during the next Write*.
@@ -141,24 +146,44 @@ func (b *Buffer) Discard() {
 }
 
 // Process bytes written to the internal buffer, decoding runes and escape
-// sequences, and passing them to the given processor.
+// sequences, and passing them to the given processor. A rune or escape
+// sequence that is still incomplete is kept aside until it has been completed
+// by further written bytes.
 func (b *Buffer) Process(proc Processor) {
-	b.off += Process(proc, b.buf.Bytes()[b.off:])
+	// decode a copy, since decoding normalizes bytes in place
+	b.part = append(b.part, b.buf.Bytes()[b.off:]...)
+	b.off = b.buf.Len()
+	n := Process(proc, b.part)
+	b.part = b.part[:copy(b.part, b.part[n:])]
 }
 
 // Process decodes ansi escapes and utf8 runes from p, passing them to proc.
+// Returns the number of bytes processed, stopping at any final rune or escape
+// sequence that may be completed by further bytes. The bytes in p may be
+// normalized by decoding.
 func Process(proc Processor, p []byte) (n int) {
 	for n < len(p) {
+		esc := p[n] == 0x1B
 		e, a, m := ansi.DecodeEscape(p[n:])
 		n += m
 		if e == 0 {
-			switch r, m := utf8.DecodeRune(p[n:]); r {
-			case '\x1b':
+			if m > 0 || (esc && p[n] != 0x1B) {
+				continue // a sequence was canceled or normalized, decode again
+			}
+			if !utf8.FullRune(p[n:]) {
+				return n
+			}
+			r, m := utf8.DecodeRune(p[n:])
+			switch r {
+			case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
 				return n
-			default:
-				n += m
-				e = ansi.Escape(r)
+			case 0x1B: // ESC
+				if isPartialEscape(p[n:]) {
+					return n
+				}
 			}
+			n += m
+			e = ansi.Escape(r)
 		}
 		proc.ProcessANSI(e, a)
 	}
diff --git a/input.go b/input.go
index 7a15ee4..5225cae 100644
--- a/input.go
+++ b/input.go
@@ -174,12 +174,13 @@ func (in *Input) decodeRune() (rune, bool) {
 	return r, true
 }
 
-// isPartialEscape returns true only if p contains just an ESCape and any
-// intermediate bytes, and so may be completed by further input.
+// isPartialEscape returns true only if p contains just an ESCape, any
+// intermediate bytes, and at most part of a rune, and so may be completed by
+// further input.
 func isPartialEscape(p []byte) bool {
-	for _, c := range p[1:] {
-		if c < 0x20 || c > 0x2F {
-			return false
+	for p = p[1:]; len(p) > 0; p = p[1:] {
+		if c := p[0]; c < 0x20 || c > 0x2F {
+			return !utf8.FullRune(p)
 		}
 	}
 	return true
-- 
2.43.0


From 523e9e93d066cca4a20a4f1846aba11cd3c4697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:00 +0000
Subject: [PATCH 07/67] fix: don't hang on malformed mode arguments

---
 state.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/state.go b/state.go
index f631c6b..233136d 100644
--- a/state.go
+++ b/state.go
@@ -316,7 +316,7 @@ func (cs *Cursor) processEscape(
 			for n < len(a) {
 				mode, m, err := ansi.DecodeMode(true, a[n:])
 				n += m
-				if err != nil {
+				if err != nil || m == 0 {
 					return
 				}
 				switch mode {
@@ -332,7 +332,7 @@ func (cs *Cursor) processEscape(
 			for n < len(a) {
 				mode, m, err := ansi.DecodeMode(true, a[n:])
 				n += m
-				if err != nil {
+				if err != nil || m == 0 {
 					return
 				}
 				switch mode {
-- 
2.43.0


From d5ecf441153a404b12963eebf7837c5ef3f1f761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 08/67] fix: recognize all intermediates when holding back a
 partial escape

---
 input.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/input.go b/input.go
index 5225cae..004e989 100644
--- a/input.go
+++ b/input.go
@@ -175,13 +175,18 @@ func (in *Input) decodeRune() (rune, bool) {
 }
 
 // isPartialEscape returns true only if p contains just an ESCape, any
-// intermediate bytes, and at most part of a rune, and so may be completed by
+// intermediates, and at most part of a rune, and so may be completed by
 // further input.
 func isPartialEscape(p []byte) bool {
-	for p = p[1:]; len(p) > 0; p = p[1:] {
-		if c := p[0]; c < 0x20 || c > 0x2F {
-			return !utf8.FullRune(p)
+	for p = p[1:]; utf8.FullRune(p); {
+		r, n := utf8.DecodeRune(p)
+		if 0x80 <= r && r <= 0xFF {
+			r &= 0x7F // treated the same as its 7-bit counterpart
 		}
+		if r < 0x20 || r > 0x2F {
+			return false
+		}
+		p = p[n:]
 	}
 	return true
 }
-- 
2.43.0


From d8e1adbb69a4386f6661e8e2a2763b2ecd4c4753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 09/67] fix: decode the control that a DEL inside an escape
 precedes

---
 ansi/decode.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index 8d4aa1f..63a6ef3 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -130,13 +130,15 @@ func decodeESC(p []byte) (e Escape, a []byte, n int) {
 			continue
 
 		case r == 0x7F: // Delete: Ignore it, and continue interpreting the ESCape sequence
-			r = 0
 			rshift(m)
 			ei += m
 			ni += m
-			if ai != 0 {
-				ai += m
+			if ai == 0 {
+				// what follows may make it a C1 control
+				e, a, n = DecodeEscape(p[ei:])
+				return e, a, ei + n
 			}
+			ai += m
 			continue
 
 		case r == 0x18: // CANcel the current ESCape sequence
-- 
2.43.0


From d51ce08906240b9f2eb36f78225bb45ebfb710cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:56 +0000
Subject: [PATCH 10/67] fix: keep screen output and its state apart from
 drawing until written

ScreenDiffer assembled its output in the same buffer that drawing is processed
in, and took the prior real state for the new one when finishing a stalled
write; after a failed write it kept on relying on cursor state.
---
 screen.go | 87 ++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 57 insertions(+), 30 deletions(-)

diff --git a/screen.go b/screen.go
index dd4a073..c910374 100644
--- a/screen.go
+++ b/screen.go
@@ -24,6 +24,10 @@ type ScreenDiffer struct {
 
 	VirtualScreen
 	Real Screen
+
+	out  Buffer // assembled output, not fully written yet
+	next Screen // what Real becomes once out has been written
+	lost bool   // true after a failed write: any terminal state is unknown
 }
 
 // VirtualScreen implements minimal terminal emulation around ScreenState.
@@ -47,7 +51,9 @@ func (sc *ScreenDiffer) Reset() {
 	sc.VirtualScreen.Cursor = sc.Real.Cursor
 }
 
-// Clear the virtual screen, user cursor state, and internal buffer.
+// Clear the virtual screen, user cursor state, and internal buffer. Any output
+// that a prior WriteTo() could not finish writing is kept, since the terminal
+// may already have received part of it.
 func (sc *ScreenDiffer) Clear() {
 	sc.VirtualScreen.Clear()
 	sc.UserCursor = Cursor{}
@@ -66,6 +72,7 @@ func (sc *ScreenDiffer) Resize(size image.Point) bool {
 // Invalidate forces the next WriteTo() to perform a full redraw.
 func (sc *ScreenDiffer) Invalidate() {
 	sc.Real.Resize(image.ZP)
+	sc.next.Resize(image.ZP)
 }
 
 // TODO support sub-screen diffs
@@ -87,32 +94,16 @@ func (sc *ScreenDiffer) WriteTo(w io.Writer) (n int64, err error) {
 		return 0, errSubScreenDiff
 	}
 
-	state := sc.Real
-	defer func() {
-		if err == nil {
-			sc.Real = state
-		}
-	}()
-
-	aw, haveAW := w.(ansiWriter)
+	// continue prior write (e.g. after isEWouldBlock(err) in writeOut)
+	if sc.out.Len() > 0 {
+		return sc.writeOut(w)
+	}
 
 	// if caller didn't pass a buffered ansi writer, use internal buffer and
 	// then flush to the given io.Writer
+	aw, haveAW := w.(ansiWriter)
 	if !haveAW {
-		defer func() {
-			n, err = sc.buf.WriteTo(w)
-			if err != nil && unwrapOSError(err) != syscall.EWOULDBLOCK {
-				sc.Reset()
-				sc.Invalidate()
-			}
-		}()
-
-		// continue prior write (e.g. after isEWouldBlock(err) above)
-		if sc.buf.Len() > 0 {
-			return
-		}
-
-		aw = &sc.buf
+		aw = &sc.out
 	}
 
 	// enforce final user cursor state
@@ -120,8 +111,37 @@ func (sc *ScreenDiffer) WriteTo(w io.Writer) (n int64, err error) {
 
 	// perform (full or differential) update
 	var m int
-	m, state = sc.VirtualScreen.update(aw, state)
-	return int64(m), err
+	state := sc.Real
+	if sc.lost {
+		m = aw.WriteSGR(state.Cursor.MergeSGR(0))
+		sc.lost = false
+	}
+	k, state := sc.VirtualScreen.update(aw, state)
+	m += k
+	if haveAW {
+		sc.Real = state
+		return int64(m), nil
+	}
+
+	sc.next = state
+	return sc.writeOut(w)
+}
+
+// writeOut writes assembled output, updating Real state once all of it has
+// been written. After any error other than EWOULDBLOCK, the remaining output
+// is dropped, and nothing is known about the terminal any more.
+func (sc *ScreenDiffer) writeOut(w io.Writer) (n int64, err error) {
+	n, err = sc.out.WriteTo(w)
+	if err == nil {
+		sc.Real = sc.next
+	} else if unwrapOSError(err) != syscall.EWOULDBLOCK {
+		sc.out.Reset()
+		sc.lost = true
+		sc.Real.Cursor = Cursor{}
+		sc.Reset()
+		sc.Invalidate()
+	}
+	return n, err
 }
 
 // Write writes bytes to the internal buffer, updating screen state as describe
@@ -200,15 +220,22 @@ func (tsc *TermScreen) Enter(term *Term) error { return tsc.SizeToTerm(term) }
 func (tsc *TermScreen) Exit(term *Term) error {
 	// discard all virtual state...
 	tsc.Reset()
-	// ...and restore real cursor state
-	n := tsc.buf.WriteSGR(tsc.Real.Cursor.MergeSGR(0))
-	n += tsc.buf.WriteSeq(tsc.Real.Cursor.Show())
-	if n > 0 {
-		return term.Flush(&tsc.buf)
+	// ...and restore real cursor state, after any unfinished output
+	if tsc.out.Len() == 0 {
+		tsc.next = tsc.Real
+	}
+	tsc.out.WriteSGR(tsc.next.Cursor.MergeSGR(0))
+	tsc.out.WriteSeq(tsc.next.Cursor.Show())
+	if tsc.out.Len() > 0 {
+		return term.Flush(writerToFunc(tsc.writeOut))
 	}
 	return nil
 }
 
+type writerToFunc func(w io.Writer) (n int64, err error)
+
+func (f writerToFunc) WriteTo(w io.Writer) (n int64, err error) { return f(w) }
+
 // SizeToTerm invalidates and resizes the screen to match the passed terminal's
 // current size.
 func (tsc *TermScreen) SizeToTerm(term *Term) error {
-- 
2.43.0


From 313d3a6605da73fbf0275d7da273e744242f350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:54 +0000
Subject: [PATCH 11/67] fix: move reliably after writing in the last column

---
 render.go |  4 ++--
 state.go  | 13 +++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/render.go b/render.go
index 3157ac4..d994fd0 100644
--- a/render.go
+++ b/render.go
@@ -46,7 +46,7 @@ func writeGridFull(aw ansiWriter, cur Cursor, g Grid, style Style) (int, Cursor)
 	// TODO support writing a sub-grid
 	for i, pt := 0, ansi.Pt(1, 1); i < len(g.Rune); {
 		if gr, ga := style.Style(pt, 0, g.Rune[i], 0, g.Attr[i]); gr != 0 {
-			mv := cur.To(pt)
+			mv := cur.toWithin(pt, g.Rect)
 			ad := cur.MergeSGR(ga)
 			n += aw.WriteSeq(mv)
 			n += aw.WriteSGR(ad)
@@ -95,7 +95,7 @@ func writeGridDiff(aw ansiWriter, g Grid, prior Screen, style Style) (int, Scree
 		}
 
 		if gr != 0 {
-			mv := prior.Cursor.To(pt)
+			mv := prior.Cursor.toWithin(pt, g.Rect)
 			ad := prior.Cursor.MergeSGR(ga)
 			n += aw.WriteSeq(mv)
 			n += aw.WriteSGR(ad)
diff --git a/state.go b/state.go
index 233136d..95298bb 100644
--- a/state.go
+++ b/state.go
@@ -174,6 +174,16 @@ func (cs *Cursor) To(pt ansi.Point) ansi.Seq {
 	return ansi.Seq{}
 }
 
+// toWithin is like To, but copes with a rune having been written in the last
+// column of the given bounds: that leaves the terminal cursor either in or past
+// that column, so no relative motion other than a new line is reliable.
+func (cs *Cursor) toWithin(pt ansi.Point, bounds ansi.Rectangle) ansi.Seq {
+	if cs.X >= bounds.Max.X && (pt.X != 1 || pt.Y != cs.Y+1) {
+		cs.Point = ansi.ZP
+	}
+	return cs.To(pt)
+}
+
 // NewLine moves the cursor to the start of the next line, returning the
 // necessary ansi sequence.
 func (cs *Cursor) NewLine() ansi.Seq {
@@ -235,6 +245,9 @@ func (sc *Screen) update(aw ansiWriter, prior Screen) (int, Screen) {
 	n += aw.WriteSeq(prior.Cursor.Hide())
 	m, prior = writeGrid(aw, sc.Grid, prior, NoopStyle)
 	n += m
+	if sc.Cursor.Visible && sc.Cursor.Point.Valid() {
+		n += aw.WriteSeq(prior.Cursor.toWithin(sc.Cursor.Point, sc.Grid.Rect))
+	}
 	m, prior.Cursor = sc.Cursor.applyTo(aw, prior.Cursor)
 	n += m
 	prior.Resize(sc.Grid.Bounds().Size())
-- 
2.43.0


From cd2ebf5307624e3810b65c295e03391f73e0011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:17 +0000
Subject: [PATCH 12/67] fix: don't erase the screen with a leftover background
 color

---
 render.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/render.go b/render.go
index d994fd0..158c987 100644
--- a/render.go
+++ b/render.go
@@ -42,7 +42,12 @@ func writeGridFull(aw ansiWriter, cur Cursor, g Grid, style Style) (int, Cursor)
 		style = Styles(style, ZeroRuneStyle(empty))
 	}
 	style = Styles(style, DefaultRuneStyle(empty))
-	n := aw.WriteSeq(ansi.ED.With('2'))
+	n := 0
+	if _, set := cur.Attr.BG(); set && cur.attrKnown {
+		// terminals may erase with the current background color
+		n += aw.WriteSGR(cur.MergeSGR(0))
+	}
+	n += aw.WriteSeq(ansi.ED.With('2'))
 	// TODO support writing a sub-grid
 	for i, pt := 0, ansi.Pt(1, 1); i < len(g.Rune); {
 		if gr, ga := style.Style(pt, 0, g.Rune[i], 0, g.Attr[i]); gr != 0 {
-- 
2.43.0


From 97d590bb9c0e0dfe20ddb13eac85d9c3553e43e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:19 +0000
Subject: [PATCH 13/67] fix: keep an unknown cursor position unknown until
 moved absolutely

---
 state.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/state.go b/state.go
index 95298bb..2dc899e 100644
--- a/state.go
+++ b/state.go
@@ -187,8 +187,10 @@ func (cs *Cursor) toWithin(pt ansi.Point, bounds ansi.Rectangle) ansi.Seq {
 // NewLine moves the cursor to the start of the next line, returning the
 // necessary ansi sequence.
 func (cs *Cursor) NewLine() ansi.Seq {
-	cs.Y++
-	cs.X = 1
+	if cs.Point.Valid() {
+		cs.Y++
+		cs.X = 1
+	}
 	return ansi.Escape('\r').With('\n')
 }
 
@@ -273,7 +275,9 @@ func (sc *Screen) update(aw ansiWriter, prior Screen) (int, Screen) {
 func (cs *Cursor) ProcessANSI(e ansi.Escape, a []byte) {
 	switch {
 	case e.IsEscape():
-		cs.processEscape(e, a, ptID)
+		cs.processEscape(e, a, clampOrigin)
+	case !cs.Point.Valid():
+		// position is unknown, and remains so until moved absolutely
 	case e == '\x0A': // LF
 		cs.Y++
 	case e == '\x0D': // CR
@@ -284,16 +288,28 @@ func (cs *Cursor) ProcessANSI(e ansi.Escape, a []byte) {
 	}
 }
 
-func ptID(pt ansi.Point) ansi.Point { return pt }
+// clampOrigin clamps to the top left of an otherwise unbounded screen.
+func clampOrigin(pt ansi.Point) ansi.Point {
+	if pt.X < 1 {
+		pt.X = 1
+	}
+	if pt.Y < 1 {
+		pt.Y = 1
+	}
+	return pt
+}
 
 // processEscape implements cursor escape processing shared with ScreenState,
-// which passes a non-identity clamp function.
+// which passes a clamp function for its bounds.
 func (cs *Cursor) processEscape(
 	e ansi.Escape, a []byte,
 	clamp func(pt ansi.Point) ansi.Point,
 ) {
 	switch e {
 	case ansi.CUU, ansi.CUD, ansi.CUF, ansi.CUB: // relative cursor motion
+		if !cs.Point.Valid() {
+			return // still unknown
+		}
 		b, _ := e.CSI()
 		d := cursorMoves[b-'A']
 		if len(a) > 0 {
-- 
2.43.0


From 0f36161266b995450a62425977b71aa37c46d937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:42 +0000
Subject: [PATCH 14/67] fix: don't process applied cursor state a second time

---
 cursor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cursor.go b/cursor.go
index 815ba18..a872943 100644
--- a/cursor.go
+++ b/cursor.go
@@ -124,7 +124,9 @@ func (c *VirtualCursor) Hide() {
 // Apply the given cursor state, writing any necessary escape sequences into
 // the internal buffer.
 func (c *VirtualCursor) Apply(cs Cursor) {
-	_, c.Cursor = cs.applyTo(&c.buf, c.Cursor)
+	n, cur := cs.applyTo(&c.buf, c.Cursor)
+	c.Cursor = cur
+	c.buf.Skip(n)
 }
 
 var _ ansiWriter = &VirtualCursor{}
-- 
2.43.0


From 19a09dd0f3ceeec638cc03f190aa01bac9036ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:19 +0000
Subject: [PATCH 15/67] fix: treat a zero cursor motion count as one

---
 state.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/state.go b/state.go
index 2dc899e..ec0ca20 100644
--- a/state.go
+++ b/state.go
@@ -317,6 +317,9 @@ func (cs *Cursor) processEscape(
 			if err != nil {
 				return
 			}
+			if n == 0 {
+				n = 1 // as terminals do
+			}
 			d = d.Mul(n)
 		}
 		cs.Point = clamp(cs.Point.Add(d))
-- 
2.43.0


From 035b4edb75faba91f3e6c13783c13993847df22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:20 +0000
Subject: [PATCH 16/67] fix: write mode strings fully to a slow non-blocking
 terminal

---
 mode.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mode.go b/mode.go
index c3f6a18..72833a0 100644
--- a/mode.go
+++ b/mode.go
@@ -1,6 +1,7 @@
 package anansi
 
 import (
+	"bytes"
 	"fmt"
 
 	"github.com/jcorbin/anansi/ansi"
@@ -16,20 +17,16 @@ type Mode struct {
 
 // Enter writes the modes' Set() string to the terminal's output file.
 func (mode *Mode) Enter(term *Term) error {
-	if term.Output.File != nil {
-		if _, err := term.Output.File.Write(mode.Set); err != nil {
-			return fmt.Errorf("failed to write mode set string: %v", err)
-		}
+	if err := term.Output.Flush(bytes.NewReader(mode.Set)); err != nil {
+		return fmt.Errorf("failed to write mode set string: %v", err)
 	}
 	return nil
 }
 
 // Exit writes the modes' Reset() string to the terminal's output file.
 func (mode *Mode) Exit(term *Term) error {
-	if term.Output.File != nil {
-		if _, err := term.Output.File.Write(mode.Reset); err != nil {
-			return fmt.Errorf("failed to write mode reset string: %v", err)
-		}
+	if err := term.Output.Flush(bytes.NewReader(mode.Reset)); err != nil {
+		return fmt.Errorf("failed to write mode reset string: %v", err)
 	}
 	return nil
 }
-- 
2.43.0


From 3f375366dc3460c7c1ac66a5f466c09cc1e6d064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:20 +0000
Subject: [PATCH 17/67] fix: keep notifying an input channel that is passed to
 Notify again

---
 input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input.go b/input.go
index 004e989..b4dacdb 100644
--- a/input.go
+++ b/input.go
@@ -97,7 +97,7 @@ func (in *Input) Notify(sigio chan os.Signal) error {
 	if sigio != nil {
 		signal.Notify(in.sigio, syscall.SIGIO)
 	}
-	if prior != nil {
+	if prior != nil && prior != sigio {
 		signal.Stop(prior)
 	}
 	return in.setAsync(sigio != nil)
-- 
2.43.0


From 301025427b67a4fa7a07893efabf49faeea39a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 18/67] fix: don't apply unread termios attributes when getting
 them failed

---
 attr.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/attr.go b/attr.go
index bbf46c0..2d30f79 100644
--- a/attr.go
+++ b/attr.go
@@ -122,10 +122,14 @@ func (at *Attr) Enter(term *Term) (err error) {
 	if at.file == nil {
 		return nil
 	}
-	at.orig, err = at.getAttr()
+	orig, err := at.getAttr()
 	if err != nil {
+		if !at.ownFile {
+			at.file = nil
+		}
 		return fmt.Errorf("failed to get termios attrs: %v", err)
 	}
+	at.orig = orig
 	at.cur = at.modifyTermios(at.orig)
 	if err = at.setAttr(at.cur); err != nil {
 		return fmt.Errorf("failed to set termios attr: %v", err)
-- 
2.43.0


From 9ac964d061125069060a244b27a359534a1d2d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 19/67] fix: retry setting the input file owner after it failed

---
 input.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/input.go b/input.go
index b4dacdb..358e7e1 100644
--- a/input.go
+++ b/input.go
@@ -371,18 +371,18 @@ func (in *Input) setAsync(async bool) error {
 	if async == in.async {
 		return nil
 	}
-	in.async = async
-	if err := in.setFlags(); err != nil {
-		in.async = !async
-		return err
-	}
-	if in.async && in.File != nil {
+	if async && in.File != nil {
 		_, _, err := in.fcntl(syscall.F_SETOWN, uintptr(syscall.Getpid()))
 		if err != nil && runtime.GOOS != "darwin" {
 			return fmt.Errorf("failed to set input file owner: %v", err)
 		}
 	}
-	return nil
+	in.async = async
+	err := in.setFlags()
+	if err != nil {
+		in.async = !async
+	}
+	return err
 }
 
 func (in *Input) setNonblock(nonblock bool) error {
-- 
2.43.0


From d47e87e57dfd67220e0e8e150c3e301aecb4caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:47 +0000
Subject: [PATCH 20/67] fix: don't miss the continue signal when suspending

---
 term.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/term.go b/term.go
index 13481b8..f550f6b 100644
--- a/term.go
+++ b/term.go
@@ -174,7 +174,7 @@ func (term *Term) Suspend() error {
 		return term.RunWithout((*Term).Suspend)
 	}
 
-	cont := make(chan os.Signal)
+	cont := make(chan os.Signal, 1)
 	signal.Notify(cont, syscall.SIGCONT)
 	defer signal.Stop(cont)
 	log.Printf("suspending")
-- 
2.43.0


From 60ffc3c7a7940c30ca54817471efbd1259651bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:23 +0000
Subject: [PATCH 21/67] fix: record the size of each input frame so that input
 replays exactly

---
 input.go | 160 ++++++++++++++++++++++++-------------------------------
 1 file changed, 70 insertions(+), 90 deletions(-)

diff --git a/input.go b/input.go
index 358e7e1..a81c71d 100644
--- a/input.go
+++ b/input.go
@@ -5,9 +5,11 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 	"os/signal"
 	"runtime"
+	"strconv"
 	"syscall"
 	"time"
 	"unicode/utf8"
@@ -44,19 +46,19 @@ var errNoFd = errors.New("non-blocking io not supported by underlying reader")
 // timing marks.
 //
 // Timing marks are encoded as an ANSI Application Program Command (APC)
-// string; schematically:
+// string, and hold the number of read bytes that follow; schematically:
 //
-// 	APC "recTime:" RFC3339Nano ST
+// 	APC "recTime:" RFC3339Nano " " size ST
 //
 // For example:
 //
-// 	"\x1b_recTime:12345\x1b\\any bytes read at that time"
+// 	"\x1b_recTime:12345 27\x1b\\any bytes read at that time"
 //
 // In specific: ReadAny() records the time it was called (even if no bytes were
 // available to be read); ReadMore() records the time that its blocking read
 // call returned non-zero bytes (modulo go scheduler lag of course).
 //
-// Any read error(s) are recorded similiarly:
+// Any read error(s) are recorded similiarly, after any bytes read with them:
 //
 // 	APC "recReadErr:" error-string ST
 func (in *Input) SetRecording(dest io.Writer) {
@@ -72,7 +74,7 @@ func (in *Input) IsRecording(dest *os.File) bool {
 const (
 	recMarkStart = "\x1b_recTime:" // APC "recTime:"
 	recMarkEnd   = "\x1b\\"        // ST
-	recMarkSize  = 2 + 8 + len(time.RFC3339Nano) + 2
+	recMarkSize  = 2 + 8 + len(time.RFC3339Nano) + 1 + 20 + 2
 
 	recReadErrStart = "\x1b_recReadErr:" // APC "recReadErr:"
 	recReadErrEnd   = "\x1b\\"           // ST
@@ -335,24 +337,18 @@ func (in *Input) recordFrame(frm InputFrame) error {
 }
 
 func (frm InputFrame) writeIntoBuffer(buf *bytes.Buffer) {
-	if frm.E == nil {
-		buf.Grow(recMarkSize + len(frm.B))
-		_, _ = buf.WriteString(recMarkStart)
-		b := buf.Bytes()
-		_, _ = buf.Write(frm.T.AppendFormat(b[len(b):], time.RFC3339Nano))
-		_, _ = buf.WriteString(recMarkEnd)
-	} else {
-		buf.Grow(recMarkSize + recReadErrSize + len(frm.B))
-		_, _ = buf.WriteString(recMarkStart)
-		b := buf.Bytes()
-		_, _ = buf.Write(frm.T.AppendFormat(b[len(b):], time.RFC3339Nano))
-		_, _ = buf.WriteString(recMarkEnd)
+	buf.Grow(recMarkSize + len(frm.B) + recReadErrSize)
+	_, _ = buf.WriteString(recMarkStart)
+	b := buf.Bytes()
+	_, _ = buf.Write(frm.T.AppendFormat(b[len(b):], time.RFC3339Nano))
+	_, _ = fmt.Fprintf(buf, " %d", len(frm.B))
+	_, _ = buf.WriteString(recMarkEnd)
+	_, _ = buf.Write(frm.B)
+	if frm.E != nil {
 		_, _ = buf.WriteString(recReadErrStart)
-		b = buf.Bytes()
 		_, _ = buf.WriteString(frm.E.Error())
 		_, _ = buf.WriteString(recReadErrEnd)
 	}
-	_, _ = buf.Write(frm.B)
 }
 
 // readBuf returns a slice into the internal byte buffer with enough space to
@@ -486,92 +482,76 @@ func (frm InputFrame) String() string {
 
 // ReadInputReplay reads an InputReplay from the provided file.
 func ReadInputReplay(f *os.File) (InputReplay, error) {
-	fi, err := f.Stat()
+	buf, err := ioutil.ReadAll(f)
 	if err != nil {
 		return nil, err
 	}
 
-	estBytes := int(fi.Size())
-	estFrames := estBytes / recMarkSize
-
-	type protoFrame struct {
-		InputFrame
-		e [2]int
-		b [2]int
-		m [2]int
-	}
-
-	var (
-		in     = Input{File: f, MinReadSize: 1024}
-		frames = make([]protoFrame, 0, estFrames)
-		bs     = make([]byte, 0, estBytes)
-		off    int
-		prot   protoFrame
-	)
-
-	push := func() {
-		if prot.m != [2]int{} || !prot.T.IsZero() || off < len(bs) {
-			prot.b = [2]int{off, len(bs)}
-			frames = append(frames, prot)
-			prot = protoFrame{}
-			off = len(bs)
-		}
-	}
-
-	for {
-		e, a, ok := in.Decode()
+	result := make(InputReplay, 0, len(buf)/recMarkSize)
+	unsized := false // last frame had no size recorded
+	for len(buf) > 0 {
+		mess, rest, ok := cutAPC(buf)
 		if !ok {
-			if _, err := in.ReadMore(); err == io.EOF {
-				push()
-				break
-			} else if err != nil {
-				return nil, err
+			// bytes of a frame without a recorded size end at the next mark;
+			// otherwise there is only (part of) an incomplete mark
+			n := len(buf)
+			if i := bytes.Index(buf[1:], []byte("\x1b_")); i >= 0 {
+				n = i + 1
+			}
+			if unsized {
+				last := &result[len(result)-1]
+				last.B = append(last.B, buf[:n]...)
 			}
+			buf = buf[n:]
+			continue
 		}
-
-		if e == 0x9F { // APC
-			switch {
-			case bytes.HasPrefix(a, []byte("recTime:")):
-				push()
-				if parseErr := prot.T.UnmarshalText(a[8:]); parseErr != nil {
-					return nil, fmt.Errorf("invalid recTime value %q", a[8:])
+		buf = rest
+
+		switch {
+		case bytes.HasPrefix(mess, []byte("recTime:")):
+			var frm InputFrame
+			mark, size := mess[8:], 0
+			i := bytes.IndexByte(mark, ' ')
+			if unsized = i < 0; !unsized {
+				if size, err = strconv.Atoi(string(mark[i+1:])); err != nil || size < 0 {
+					return nil, fmt.Errorf("invalid recTime value %q", mark)
 				}
-			case bytes.HasPrefix(a, []byte("recReadErr:")):
-				bs = append(bs, a[11:]...)
-				prot.m = [2]int{off, len(bs)}
-				off = len(bs)
-				push()
-			default:
-				push()
-				bs = append(bs, a...)
-				prot.m = [2]int{off, len(bs)}
-				off = len(bs)
+				mark = mark[:i]
 			}
-		} else if e.IsEscape() {
-			bs = e.AppendWith(bs, a...)
-		} else {
-			var tmp [4]byte
-			n := utf8.EncodeRune(tmp[:], rune(e))
-			bs = append(bs, tmp[:n]...)
-		}
-	}
+			if parseErr := frm.T.UnmarshalText(mark); parseErr != nil {
+				return nil, fmt.Errorf("invalid recTime value %q", mark)
+			}
+			if size > len(buf) {
+				size = len(buf)
+			}
+			frm.B, buf = buf[:size:size], buf[size:]
+			result = append(result, frm)
 
-	result := make(InputReplay, len(frames))
-	for i, frm := range frames {
-		if frm.e != [2]int{} {
-			prot.E = InputError(bs[frm.e[0]:frm.e[1]])
-		}
-		if frm.b != [2]int{} {
-			frm.B = bs[frm.b[0]:frm.b[1]]
-		}
-		if frm.m != [2]int{} {
-			frm.M = bs[frm.m[0]:frm.m[1]]
+		case bytes.HasPrefix(mess, []byte("recReadErr:")) && len(result) > 0:
+			result[len(result)-1].E = InputError(mess[11:])
+
+		default:
+			unsized = false
+			result = append(result, InputFrame{M: mess})
 		}
-		result[i] = frm.InputFrame
 	}
 	return result, nil
 }
 
+// cutAPC returns the content of, and the rest after, the complete APC string
+// that b starts with, if any.
+func cutAPC(b []byte) (content, rest []byte, ok bool) {
+	if !bytes.HasPrefix(b, []byte("\x1b_")) {
+		return nil, nil, false
+	}
+	b = b[2:]
+	i := bytes.IndexByte(b, 0x1b)
+	if i < 0 || i+1 >= len(b) || b[i+1] != '\\' {
+		return nil, nil, false
+	}
+	return b[:i:i], b[i+2:], true
+}
+
 func unwrapOSError(err error) error {
 	for {
 		switch val := err.(type) {
-- 
2.43.0


From 29717e61547c9941a10490c0dff64d2b627a8f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:38 +0000
Subject: [PATCH 22/67] fix: don't hang, race, or lose log output in background
 workers

---
 x/platform/bg.go   | 19 +++++++--
 x/platform/diag.go | 24 +++---------
 x/platform/log.go  | 97 ++++++++++++++++++++++++++--------------------
 3 files changed, 77 insertions(+), 63 deletions(-)

diff --git a/x/platform/bg.go b/x/platform/bg.go
index 28f4d68..cb9aeb3 100644
--- a/x/platform/bg.go
+++ b/x/platform/bg.go
@@ -65,10 +65,21 @@ type bgWorkerCore struct {
 	e chan error
 }
 
-func (core *bgWorkerCore) Start() error {
-	core.w = make(chan struct{}, 1)
-	core.e = make(chan error, 1)
-	return nil
+// start a goroutine that calls the given work function after every Notify(),
+// and a final time for Stop(). It ends after the first error.
+func (core *bgWorkerCore) start(work func() error) {
+	w, e := make(chan struct{}, 1), make(chan error, 1)
+	core.w, core.e = w, e
+	go func() {
+		defer close(e)
+		for open := true; open; {
+			_, open = <-w
+			if err := work(); err != nil {
+				e <- err
+				return
+			}
+		}
+	}()
 }
 
 func (core *bgWorkerCore) Stop() error {
diff --git a/x/platform/diag.go b/x/platform/diag.go
index ff16794..b3a2ba6 100644
--- a/x/platform/diag.go
+++ b/x/platform/diag.go
@@ -220,7 +220,7 @@ func (tel *Telemetry) update(p *Platform) error {
 		}
 		if stalls := p.term.Stalls(consumeStalls); stalls != nil {
 			if tel.LogStallData {
-				tel.coll.stalls = stalls
+				tel.coll.stalls = append([]time.Duration(nil), stalls...)
 			}
 			if tel.StallDataEnabled {
 				tel.Stalls.update(p, stalls)
@@ -353,23 +353,12 @@ func (coll *telemetryCollector) create(fn string) error {
 }
 
 func (coll *telemetryCollector) Start() error {
-	if err := coll.bgWorkerCore.Start(); err != nil {
-		return err
-	}
-	go coll.worker()
 	coll.buf.Grow(64 * 1024)
+	coll.start(coll.logData)
 	return nil
 }
 
-func (coll *telemetryCollector) worker() {
-	defer close(coll.e)
-	for open := true; open; {
-		_, open = <-coll.w
-		coll.logData()
-	}
-}
-
-func (coll *telemetryCollector) logData() {
+func (coll *telemetryCollector) logData() error {
 	coll.Lock()
 	defer coll.Unlock()
 
@@ -425,10 +414,8 @@ func (coll *telemetryCollector) logData() {
 			coll.stalls = nil
 		}
 
-		if _, err := coll.buf.WriteTo(coll.f); err != nil {
-			coll.e <- err
-		}
-		return
+		_, err := coll.buf.WriteTo(coll.f)
+		return err
 	}
 
 	if coll.timing != nil {
@@ -439,6 +426,7 @@ func (coll *telemetryCollector) logData() {
 		log.Printf("output stalls %v", coll.stalls)
 		coll.stalls = nil
 	}
+	return nil
 }
 
 func appendDurationsTo(buf *bytes.Buffer, ds []time.Duration) {
diff --git a/x/platform/log.go b/x/platform/log.go
index 5aaf33e..5ccb41f 100644
--- a/x/platform/log.go
+++ b/x/platform/log.go
@@ -31,15 +31,22 @@ type LogSink struct {
 // Contents all in-memory buffered bytes and a slice containing the index of
 // all newlines within those bytes.
 func (logs *LogSink) Contents() ([]byte, []int) {
+	logs.Lock()
+	defer logs.Unlock()
 	return logs.buf.Bytes(), logs.bufEOLs
 }
 
 func (logs *LogSink) Read(p []byte) (n int, err error) {
+	logs.Lock()
+	defer logs.Unlock()
 	n, err = logs.buf.Read(p)
 	i := 0
 	for ; i < len(logs.bufEOLs) && n > logs.bufEOLs[i]; i++ {
 	}
-	logs.bufEOLs = logs.bufEOLs[:copy(logs.bufEOLs, logs.bufEOLs[i:])]
+	if logs.buf.Len() == 0 {
+		i = len(logs.bufEOLs) // any implicit EOL-at-EOF has been read too
+	}
+	logs.bufEOLs = append([]int(nil), logs.bufEOLs[i:]...)
 	for i = 0; i < len(logs.bufEOLs); i++ {
 		logs.bufEOLs[i] -= n
 	}
@@ -50,20 +57,13 @@ func (logs *LogSink) Write(p []byte) (n int, _ error) {
 	if len(p) == 0 {
 		return 0, nil
 	}
-	if logs.f != nil {
-		if logs.direct {
-			if n, err := logs.f.Write(p); err != nil {
-				return n, err
-			}
-		} else {
-			_, _ = logs.fbuf.Write(p)
-		}
-	}
+	logs.Lock()
+	defer logs.Unlock()
 
 	b := logs.buf.Bytes()
-	// unwind any implicit EOL-at-EOF
-	if i := len(logs.bufEOLs) - 1; i >= 0 && b[logs.bufEOLs[i]] != '\n' {
-		logs.bufEOLs = logs.bufEOLs[:i]
+	// unwind any implicit EOL-at-EOF; without changing any prior Contents()
+	if i := len(logs.bufEOLs) - 1; i >= 0 && logs.bufEOLs[i] == len(b) {
+		logs.bufEOLs = logs.bufEOLs[:i:i]
 	}
 	for off := 0; off < len(p); off++ {
 		i := bytes.IndexByte(p[off:], '\n')
@@ -76,6 +76,12 @@ func (logs *LogSink) Write(p []byte) (n int, _ error) {
 	}
 
 	n, _ = logs.buf.Write(p)
+	if logs.f != nil {
+		_, _ = logs.fbuf.Write(p)
+		if logs.direct {
+			return n, logs.flush()
+		}
+	}
 	return n, nil
 }
 
@@ -86,36 +92,37 @@ func (logs *LogSink) Start() error {
 	if logs.f == nil || logs.w != nil {
 		return nil
 	}
-	err := logs.bgWorkerCore.Start()
-	if err == nil {
-		logs.direct = false
-		go logs.flushWorker()
-	}
-	return err
+	logs.Lock()
+	logs.direct = false
+	logs.Unlock()
+	logs.start(logs.flushDeferred)
+	return nil
 }
 
 // Stop the any background file-writing goroutine, transitioning back to direct
 // file writes.
 func (logs *LogSink) Stop() error {
-	if logs.f == nil || logs.w == nil {
+	if logs.f == nil {
 		return nil
 	}
 	err := logs.bgWorkerCore.Stop()
+	logs.Lock()
+	defer logs.Unlock()
 	logs.direct = true
-	return err
+	return errOr(err, logs.flush())
 }
 
-func (logs *LogSink) flushWorker() {
-	defer close(logs.e)
-	for open := true; open; {
-		_, open = <-logs.w
-		if logs.f == nil {
-			break
-		}
-		if err := logs.flush(); err != nil {
-			logs.e <- err
-		}
-	}
+// flushDeferred writes any deferred content in the background, without
+// holding up any Write().
+func (logs *LogSink) flushDeferred() error {
+	logs.Lock()
+	b := append([]byte(nil), logs.fbuf.Bytes()...)
+	logs.Unlock()
+	n, err := logs.f.Write(b)
+	logs.Lock()
+	logs.fbuf.Next(n)
+	logs.Unlock()
+	return err
 }
 
 func (logs *LogSink) flush() error {
@@ -129,20 +136,28 @@ func (logs *LogSink) SetFile(f *os.File) error {
 	if logs.f == f {
 		return nil
 	}
-	if logs.f != nil {
-		if err := logs.f.Close(); err != nil {
-			return fmt.Errorf("failed to close log file %q: %v", logs.f.Name(), err)
+	if prior := logs.f; prior != nil {
+		if f == nil {
+			log.Printf("disabling log file output")
+		}
+		err := logs.Stop()
+		logs.Lock()
+		logs.f = nil
+		logs.fbuf.Reset()
+		logs.Unlock()
+		if cerr := prior.Close(); err == nil && cerr != nil {
+			err = fmt.Errorf("failed to close log file %q: %v", prior.Name(), cerr)
+		}
+		if err != nil {
+			return err
 		}
 	}
 	if f != nil {
-		log.Printf("logging to %q", f.Name())
+		logs.Lock()
 		logs.f = f
+		logs.Unlock()
+		log.Printf("logging to %q", f.Name())
 		return logs.Start()
 	}
-	if logs.f != nil {
-		log.Printf("disabling log file output")
-		logs.f = nil
-		return logs.Stop()
-	}
 	return nil
 }
-- 
2.43.0


From 74ed84ec5a7b16c6349a94e1b29a1e159aa7af5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:59 +0000
Subject: [PATCH 23/67] fix: don't block in Wait on a ticker that isn't active

---
 x/platform/tick.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/x/platform/tick.go b/x/platform/tick.go
index 2bee957..54a8ace 100644
--- a/x/platform/tick.go
+++ b/x/platform/tick.go
@@ -1,6 +1,7 @@
 package platform
 
 import (
+	"sync"
 	"time"
 
 	"github.com/jcorbin/anansi"
@@ -9,16 +10,19 @@ import (
 // Ticker implements a contextual time.Ticker, start/stopping it during
 // terminal enter/exit.
 type Ticker struct {
-	d time.Duration
-	t *time.Ticker
-	c chan struct{}
+	mu sync.Mutex
+	d  time.Duration
+	t  *time.Ticker
+	c  chan struct{}
 	// TODO useful to indirect t.C so that Enter can provide an immediate initial tick?
 }
 
 // Enter starts a new ticker, after stopping any prior one for good measure;
 // always returns nil error.
 func (ct *Ticker) Enter(term *anansi.Term) error {
-	_ = ct.Exit(term)
+	ct.mu.Lock()
+	defer ct.mu.Unlock()
+	ct.stop()
 	if ct.d == 0 {
 		ct.d = time.Second / defaultFrameRate
 	}
@@ -29,6 +33,13 @@ func (ct *Ticker) Enter(term *anansi.Term) error {
 
 // Exit stops any running ticker; always returns nil error.
 func (ct *Ticker) Exit(term *anansi.Term) error {
+	ct.mu.Lock()
+	defer ct.mu.Unlock()
+	ct.stop()
+	return nil
+}
+
+func (ct *Ticker) stop() {
 	if ct.t != nil {
 		ct.t.Stop()
 		ct.t = nil
@@ -37,20 +48,22 @@ func (ct *Ticker) Exit(term *anansi.Term) error {
 		close(ct.c)
 		ct.c = nil
 	}
-	return nil
 }
 
 // Wait blocks for the next ticker time, returning zero time if the Ticker
 // isn't active, or is Exit-ed first.
 func (ct *Ticker) Wait() time.Time {
-	var tc <-chan time.Time
-	if ct.t != nil {
-		tc = ct.t.C
+	ct.mu.Lock()
+	if ct.t == nil {
+		ct.mu.Unlock()
+		return time.Time{}
 	}
+	tc, c := ct.t.C, ct.c
+	ct.mu.Unlock()
 	select {
 	case t := <-tc:
 		return t
-	case <-ct.c:
+	case <-c:
 	}
 	return time.Time{}
 }
-- 
2.43.0


From d233f515e0e6819b3819da68ae9b607d4ceab342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:59 +0000
Subject: [PATCH 24/67] fix: support frame rates below 4

---
 x/platform/options.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/x/platform/options.go b/x/platform/options.go
index e0794ce..6cc61e4 100644
--- a/x/platform/options.go
+++ b/x/platform/options.go
@@ -1,6 +1,7 @@
 package platform
 
 import (
+	"fmt"
 	"time"
 )
 
@@ -16,7 +17,13 @@ func (f optionFunc) apply(p *Platform) error { return f(p) }
 // FrameRate changes the platform's Frames-Per-Second rate, which defaults to 60.
 func FrameRate(fps int) Option {
 	return optionFunc(func(p *Platform) error {
+		if fps < 1 {
+			return fmt.Errorf("invalid frame rate %v", fps)
+		}
 		timingPeriod := fps / 4
+		if timingPeriod < 1 {
+			timingPeriod = 1
+		}
 		p.ticker.d = time.Second / time.Duration(fps)
 		p.FPSEstimate.data = make([]float64, fps)
 		p.Timing.ts = make([]time.Time, timingPeriod)
-- 
2.43.0


From c72339f75d248277d1c906305b8ebb2ed842e2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:20 +0000
Subject: [PATCH 25/67] fix: make the timing, and timing log options take
 effect

---
 x/platform/config.go | 6 +++++-
 x/platform/diag.go   | 2 +-
 x/platform/hud.go    | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/x/platform/config.go b/x/platform/config.go
index d715f5b..2a248cd 100644
--- a/x/platform/config.go
+++ b/x/platform/config.go
@@ -74,6 +74,9 @@ func (cfg *Config) Merge(other Config) {
 	if other.MemProfileName != "" && cfg.MemProfileName == "" {
 		cfg.MemProfileName = other.MemProfileName
 	}
+	if other.StartTiming {
+		cfg.StartTiming = true
+	}
 	if other.LogTiming {
 		cfg.LogTiming = true
 	}
@@ -83,7 +86,8 @@ func (cfg *Config) Merge(other Config) {
 }
 
 func (cfg *Config) setup(p *Platform) error {
-	p.SetTimingEnabled(cfg.LogTiming)
+	p.Telemetry.LogTiming = cfg.LogTiming
+	p.SetTimingEnabled(cfg.StartTiming || cfg.LogTiming)
 
 	if cfg.TelemetryLogFileName != "" {
 		if err := p.Telemetry.coll.create(cfg.TelemetryLogFileName); err != nil {
diff --git a/x/platform/diag.go b/x/platform/diag.go
index b3a2ba6..c7453d2 100644
--- a/x/platform/diag.go
+++ b/x/platform/diag.go
@@ -170,7 +170,7 @@ func (tel *Telemetry) FPS() float64 {
 func (p *Platform) SetTimingEnabled(enabled bool) {
 	if p.TimingEnabled != enabled {
 		p.TimingEnabled = enabled
-		if !p.TimingEnabled && !p.LogTiming {
+		if !p.TimingEnabled && !p.Telemetry.LogTiming {
 			p.Timing.reset()
 		}
 	}
diff --git a/x/platform/hud.go b/x/platform/hud.go
index 3fe3570..1ed1c66 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -386,7 +386,7 @@ func (hud *HUD) drawFPSDetail(ctx *Context) {
 func (hud *HUD) drawTelemetry(ctx *Context) {
 	hud.detailHeader(ctx, "# Telemetry:")
 	hud.drawFileEditRow(ctx, &ctx.Telemetry.coll, "Go Log")
-	hud.drawToggleRow(ctx, "Log Timing", &ctx.LogTiming)
+	hud.drawToggleRow(ctx, "Log Timing", &ctx.Telemetry.LogTiming)
 	hud.drawToggleRow(ctx, "Log Stalls", &ctx.Telemetry.LogStallData)
 }
 
-- 
2.43.0


From fd6d8792f27e5e860115fddc626af91ac8f30c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:04 +0000
Subject: [PATCH 26/67] fix: present each input event in exactly one frame

A second SIGIO within a frame dropped the events read for the first one, events
stayed in the queue for later frames until more input arrived, and event
arguments were overwritten by later input.
---
 x/platform/event.go    |  2 +-
 x/platform/platform.go | 10 ++++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/x/platform/event.go b/x/platform/event.go
index 5baed5c..821137c 100644
--- a/x/platform/event.go
+++ b/x/platform/event.go
@@ -225,6 +225,6 @@ func (es *Events) add(e ansi.Escape, a []byte) {
 
 	es.Type = append(es.Type, kind)
 	es.esc = append(es.esc, e)
-	es.arg = append(es.arg, a)
+	es.arg = append(es.arg, append([]byte(nil), a...)) // NOTE only valid until next decode
 	es.mouse = append(es.mouse, m)
 }
diff --git a/x/platform/platform.go b/x/platform/platform.go
index d8e1cac..6364d5b 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -195,7 +195,8 @@ func (p *Platform) Run(client Client) (err error) {
 
 		ctx := p.Context()
 
-		// poll for signals
+		// poll for signals, and input
+		p.events.Clear()
 		for polling := true; polling; {
 			select {
 			case sig := <-p.stop.C:
@@ -203,11 +204,8 @@ func (p *Platform) Run(client Client) (err error) {
 			case <-p.resize.C:
 				ctx.Err = errOr(ctx.Err, p.screen.SizeToTerm(p.term))
 			case <-p.sigio.C:
-				p.events.Clear()
-				n, err := p.term.ReadAny()
-				if n > 0 {
-					p.events.DecodeInput(&p.term.Input)
-				}
+				_, err := p.term.ReadAny()
+				p.events.DecodeInput(&p.term.Input)
 				ctx.Err = errOr(ctx.Err, err)
 			default:
 				polling = false
-- 
2.43.0


From d494a93369b766c7196e25d678f27152f0d9f5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:05 +0000
Subject: [PATCH 27/67] fix: don't let frame time go backwards

The first frame of a Run has the current time, a tick that was already pending
then is older.
---
 x/platform/platform.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index 6364d5b..6aa5ce3 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -187,7 +187,7 @@ func (p *Platform) Run(client Client) (err error) {
 		log.Printf("run done: %v", err)
 	}()
 
-	for p.Time = time.Now(); !p.Time.IsZero(); p.Time = p.ticker.Wait() {
+	for p.Time = time.Now(); !p.Time.IsZero(); p.Time = p.nextTime() {
 		// update performance data
 		if err := p.Telemetry.update(p); err != nil {
 			return err
@@ -229,6 +229,16 @@ func (p *Platform) Run(client Client) (err error) {
 	return nil
 }
 
+// nextTime waits for the next frame tick, skipping any tick that was left over
+// from before the current frame.
+func (p *Platform) nextTime() time.Time {
+	t := p.ticker.Wait()
+	for !t.IsZero() && t.Before(p.Time) {
+		t = p.ticker.Wait()
+	}
+	return t
+}
+
 // Context returns a new Context bound to the platform.
 func (p *Platform) Context() Context {
 	return Context{
-- 
2.43.0


From f64230480a7c4aca1cbb89f156f40531cea58cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:05 +0000
Subject: [PATCH 28/67] fix: don't lose a signal or I/O error during a replay

---
 x/platform/replay.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/platform/replay.go b/x/platform/replay.go
index 95a0854..1553da4 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -36,7 +36,7 @@ type replay struct {
 
 func (rep *replay) update(ctx *Context) {
 	if len(rep.cur) == 0 {
-		ctx.Err = errReplayDone
+		ctx.Err = errOr(ctx.Err, errReplayDone)
 		return
 	}
 
@@ -86,7 +86,7 @@ func (rep *replay) update(ctx *Context) {
 			}
 		}
 		if rep.frame.T.IsZero() {
-			ctx.Err = errReplayDone
+			ctx.Err = errOr(ctx.Err, errReplayDone)
 			return
 		}
 
@@ -105,7 +105,7 @@ func (rep *replay) update(ctx *Context) {
 		}
 	}
 
-	ctx.Err = rep.runClient(ctx)
+	ctx.Err = errOr(ctx.Err, rep.runClient(ctx))
 }
 
 func (rep *replay) runClient(ctx *Context) error {
-- 
2.43.0


From 00aa80170a2f46005a6e76230aeef066202ecc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:06 +0000
Subject: [PATCH 29/67] fix: go back to the terminal size after a replay is
 stopped

---
 x/platform/replay.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/platform/replay.go b/x/platform/replay.go
index 1553da4..5cc670f 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -44,6 +44,7 @@ func (rep *replay) update(ctx *Context) {
 	if ctx.Input.HasTerminal('\x03') {
 		log.Printf("stopping replay")
 		ctx.Platform.replay = nil
+		ctx.Redraw = true // since the output was sized by the replay
 		return
 	}
 
-- 
2.43.0


From d82b43b6d9ab977340b19ed5bc35a8acef37ebb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:30 +0000
Subject: [PATCH 30/67] fix: keep the session running when recording or
 replaying fails

A recording write error ended the session as if reading input had failed, and
so did a recording that could not be loaded. Failing to create a recording file
was silent, and a recording with truncated state was accepted.
---
 x/platform/platform.go | 12 ++++++++++--
 x/platform/replay.go   | 33 ++++++++++++++++++++++++++++-----
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index 6aa5ce3..8a916ee 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -109,6 +109,7 @@ type Platform struct {
 	ticker Ticker
 
 	recording *os.File
+	recErr    error // first recording write error
 	replay    *replay
 	bg        BackgroundWorkers
 
@@ -177,9 +178,11 @@ func (p *Platform) Run(client Client) (err error) {
 
 	if p.replay != nil {
 		if err := p.readState(bytes.NewReader(p.replay.cereal)); err != nil {
-			return err
+			log.Printf("failed to decode replay state (abandoning replay): %v", err)
+			p.replay = nil
+		} else {
+			p.replay.cur = p.replay.input
 		}
-		p.replay.cur = p.replay.input
 	}
 
 	log.Printf("running %T", p.client)
@@ -285,6 +288,11 @@ func (ctx *Context) Update() {
 		ctx.Err = errOr(ctx.Err, ctx.Output.SizeToTerm(ctx.term))
 	}
 
+	if ctx.recErr != nil {
+		log.Printf("failed to record input (aborting recording): %v", ctx.recErr)
+		ctx.setRecording(nil, nil)
+	}
+
 	// recording / replaying toggle on Ctrl-R
 	if ctx.Input.CountRune('\x12')%2 == 1 {
 		ctx.Err = errOr(ctx.Err, ctx.toggleRecRep())
diff --git a/x/platform/replay.go b/x/platform/replay.go
index 5cc670f..866532a 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -153,14 +153,29 @@ func (rep *replay) next() bool {
 	return true
 }
 
+// recordWriter writes to the recording file, keeping any error from disturbing
+// the reading of the input that is being recorded.
+type recordWriter struct{ *Platform }
+
+func (p recordWriter) Write(b []byte) (int, error) {
+	if p.recErr == nil {
+		_, p.recErr = p.recording.Write(b)
+	}
+	return len(b), nil
+}
+
 func (p *Platform) setRecording(f *os.File, err error) {
 	p.term.Input.SetRecording(nil)
+	p.recErr = nil
 	if p.recording != nil {
 		if err := p.recording.Close(); err != nil {
 			log.Printf("failed to close record file %q: %v", p.recording.Name(), err)
 		}
 		p.recording = nil
 	}
+	if f == nil && err != nil {
+		log.Printf("failed to create record file: %v", err)
+	}
 	if f != nil {
 		sw := sizedWriter{ws: f}
 		if err == nil {
@@ -182,7 +197,7 @@ func (p *Platform) setRecording(f *os.File, err error) {
 			return
 		}
 
-		p.term.Input.SetRecording(f)
+		p.term.Input.SetRecording(recordWriter{p})
 		log.Printf("recording input to %q", f.Name())
 	}
 }
@@ -211,9 +226,13 @@ func (p *Platform) toggleRecRep() error {
 	f, err := os.Open(name)
 	if err == nil {
 		err = p.loadReplay(f)
-		err = errOr(err, f.Close())
+		_ = f.Close()
 	}
-	return errOr(err, errReplayDone)
+	if err != nil {
+		log.Printf("failed to load replay (abandoning recording): %v", err)
+		return nil
+	}
+	return errReplayDone
 }
 
 func (p *Platform) recordSize() error {
@@ -256,11 +275,15 @@ func readReplay(f *os.File) (_ *replay, err error) {
 
 func readSized(r io.Reader) ([]byte, error) {
 	var tmp [8]byte
-	if _, err := r.Read(tmp[:]); err != nil {
+	if _, err := io.ReadFull(r, tmp[:]); err != nil {
 		return nil, err
 	}
 	size := binary.BigEndian.Uint64(tmp[:])
-	return ioutil.ReadAll(io.LimitReader(r, int64(size)))
+	b, err := ioutil.ReadAll(io.LimitReader(r, int64(size)))
+	if err == nil && uint64(len(b)) != size {
+		err = io.ErrUnexpectedEOF
+	}
+	return b, err
 }
 
 func readerName(r io.Reader) string {
-- 
2.43.0


From dd2c48422bf11983cb136a470a4ce90abf8d50ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:35 +0000
Subject: [PATCH 31/67] fix: replay the same frames as were recorded

A recording holds what each read returned, but nothing of which reads made up a
frame, of frames without input, of frame times, nor of any later resize; so the
client saw different frames during replay. A rune or sequence cut by a read was
decoded wrongly, a stopped or paused replay was not started afresh by the next
run, the state was recorded half way through a frame, and typed input was
presented to the client while a replay is paused.
---
 input.go               |  8 ++++
 x/platform/platform.go | 14 ++++++-
 x/platform/replay.go   | 94 +++++++++++++++++++++++++++---------------
 3 files changed, 81 insertions(+), 35 deletions(-)

diff --git a/input.go b/input.go
index a81c71d..799add6 100644
--- a/input.go
+++ b/input.go
@@ -300,6 +300,14 @@ func (in *Input) ReadAny() (n int, err error) {
 	return n, err
 }
 
+// Feed adds bytes to the internal buffer for Decode, as if they had been read
+// by ReadAny, but without recording them; useful to replay recorded input.
+func (in *Input) Feed(p []byte) {
+	in.ateof = false
+	_, _ = in.buf.Write(p)
+	in.buf.Grow(1)
+}
+
 // Enter gets the current fcntl flags for restoration during Exit() (unless
 // they've already been changed by Notify() or a read), and sets
 // non-blocking/async modes if needed.
diff --git a/x/platform/platform.go b/x/platform/platform.go
index 8a916ee..c5269b9 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -110,6 +110,8 @@ type Platform struct {
 
 	recording *os.File
 	recErr    error // first recording write error
+	recSize   image.Point
+	recStart  bool // start recording after the current frame
 	replay    *replay
 	bg        BackgroundWorkers
 
@@ -181,7 +183,7 @@ func (p *Platform) Run(client Client) (err error) {
 			log.Printf("failed to decode replay state (abandoning replay): %v", err)
 			p.replay = nil
 		} else {
-			p.replay.cur = p.replay.input
+			p.replay.start()
 		}
 	}
 
@@ -298,7 +300,17 @@ func (ctx *Context) Update() {
 		ctx.Err = errOr(ctx.Err, ctx.toggleRecRep())
 	}
 
+	// mark the end of this frame's input in any recording
+	ctx.recordFrame()
+
 	ctx.Err = errOr(ctx.Err, ctx.runClient())
+
+	// any new recording starts with the next frame
+	if ctx.recStart {
+		ctx.recStart = false
+		// TODO better filename selection
+		ctx.setRecording(os.Create("auto.rec"))
+	}
 }
 
 func (ctx *Context) runClient() error {
diff --git a/x/platform/replay.go b/x/platform/replay.go
index 866532a..73f8171 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -25,6 +25,7 @@ type replay struct {
 	cereal []byte
 	input  anansi.InputReplay
 	cur    anansi.InputReplay
+	in     anansi.Input
 	frame  anansi.InputFrame
 	pause  time.Time
 	size   image.Point
@@ -34,6 +35,11 @@ type replay struct {
 	}
 }
 
+// start replaying from the beginning.
+func (rep *replay) start() {
+	*rep = replay{cereal: rep.cereal, input: rep.input, cur: rep.input}
+}
+
 func (rep *replay) update(ctx *Context) {
 	if len(rep.cur) == 0 {
 		ctx.Err = errOr(ctx.Err, errReplayDone)
@@ -70,30 +76,13 @@ func (rep *replay) update(ctx *Context) {
 		fallthrough
 
 	case rep.pause.IsZero():
-		// next non-message frame
-		for rep.next() {
-			switch m := rep.frame.M; {
-			case bytes.HasPrefix(m, []byte("resize:")):
-				if sz, err := parseSize(m[7:]); err != nil {
-					log.Printf("invalid resize message %q in replay", m)
-				} else {
-					rep.size = sz
-				}
-			case len(m) > 0:
-				log.Printf("unrecognized replay message %q", m)
-			}
-			if !rep.frame.T.IsZero() {
-				break
-			}
-		}
-		if rep.frame.T.IsZero() {
+		// load next frame
+		if !rep.next(&ctx.events) {
 			ctx.Err = errOr(ctx.Err, errReplayDone)
 			return
 		}
-
-		// load replay frame input
-		ctx.events.Clear()
-		ctx.events.DecodeBytes(rep.frame.B)
+		ctx.Redraw = ctx.events.CountRune('\x0c') > 0 || rep.size != ctx.LastSize
+		ctx.events.CountRune('\x12')
 
 		// update mouse cursor state
 		if m, have := ctx.events.LastMouse(false); have {
@@ -104,6 +93,9 @@ func (rep *replay) update(ctx *Context) {
 				rep.mouse.State = ansi.MouseNoButton
 			}
 		}
+
+	default:
+		ctx.events.Clear() // paused
 	}
 
 	ctx.Err = errOr(ctx.Err, rep.runClient(ctx))
@@ -144,13 +136,36 @@ func (rep *replay) drawOverlay(ctx *Context) {
 	ctx.Output.WriteESC(ansi.DECRC)
 }
 
-func (rep *replay) next() bool {
-	if len(rep.cur) == 0 {
-		return false
+// next loads the next frame, replacing any events by those of its input, and
+// returns true; returns false if there is no other frame, ignoring any input
+// that was recorded for a frame that never came.
+func (rep *replay) next(events *Events) bool {
+	events.Clear()
+	rep.frame = anansi.InputFrame{}
+	for len(rep.cur) > 0 {
+		frm := rep.cur[0]
+		rep.cur = rep.cur[1:]
+		switch m := frm.M; {
+		case bytes.HasPrefix(m, []byte("resize:")):
+			if sz, err := parseSize(m[7:]); err != nil {
+				log.Printf("invalid resize message %q in replay", m)
+			} else {
+				rep.size = sz
+			}
+		case bytes.HasPrefix(m, []byte("frame:")):
+			if err := rep.frame.T.UnmarshalText(m[6:]); err == nil {
+				return true
+			}
+			log.Printf("invalid frame message %q in replay", m)
+		case len(m) > 0:
+			log.Printf("unrecognized replay message %q", m)
+		default:
+			rep.frame.E = errOr(rep.frame.E, frm.E)
+			rep.in.Feed(frm.B)
+			events.DecodeInput(&rep.in)
+		}
 	}
-	rep.frame = rep.cur[0]
-	rep.cur = rep.cur[1:]
-	return true
+	return false
 }
 
 // recordWriter writes to the recording file, keeping any error from disturbing
@@ -184,7 +199,8 @@ func (p *Platform) setRecording(f *os.File, err error) {
 				err = sw.Finish()
 				p.recording = f
 				if err == nil {
-					err = p.recordSize()
+					p.recSize = image.ZP
+					err = p.recordSize(f)
 				}
 			}
 		}
@@ -216,8 +232,7 @@ func (p *Platform) loadReplay(f *os.File) error {
 
 func (p *Platform) toggleRecRep() error {
 	if p.recording == nil {
-		// TODO better filename selection
-		p.setRecording(os.Create("auto.rec"))
+		p.recStart = true
 		return nil
 	}
 	name := p.recording.Name()
@@ -235,17 +250,28 @@ func (p *Platform) toggleRecRep() error {
 	return errReplayDone
 }
 
-func (p *Platform) recordSize() error {
+// recordSize records any change of the output size.
+func (p *Platform) recordSize(w io.Writer) error {
 	// APC "resize:" width "," height ST
-	if p.recording != nil {
-		sz := p.screen.Bounds().Size()
-		if _, err := fmt.Fprintf(p.recording, "\x1b_resize:%d,%d\x1b\\", sz.X, sz.Y); err != nil {
+	if sz := p.screen.Bounds().Size(); sz != p.recSize {
+		p.recSize = sz
+		if _, err := fmt.Fprintf(w, "\x1b_resize:%d,%d\x1b\\", sz.X, sz.Y); err != nil {
 			return fmt.Errorf("failed to record size: %v", err)
 		}
 	}
 	return nil
 }
 
+// recordFrame records the end of the input for a frame, and its time.
+func (ctx *Context) recordFrame() {
+	// APC "frame:" RFC3339Nano ST
+	if ctx.recording != nil {
+		w := recordWriter{ctx.Platform}
+		_ = ctx.recordSize(w)
+		_, _ = fmt.Fprintf(w, "\x1b_frame:%s\x1b\\", ctx.Time.Format(time.RFC3339Nano))
+	}
+}
+
 func parseSize(b []byte) (pt image.Point, err error) {
 	i := bytes.IndexByte(b, ',')
 	if i < 0 {
-- 
2.43.0


From 2c3c339366f8fce1700c187d2104c0f68d355804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 32/67] fix: ignore pass through messages in the duration of an
 input replay

---
 input.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/input.go b/input.go
index 799add6..2f0df38 100644
--- a/input.go
+++ b/input.go
@@ -459,10 +459,16 @@ func (ie InputError) Error() string  { return string(ie) }
 
 // Duration returns the total elapsed time of the replay.
 func (rs InputReplay) Duration() time.Duration {
-	if len(rs) == 0 {
-		return 0
+	var first, last time.Time
+	for _, frm := range rs {
+		if frm.T.IsZero() {
+			continue // pass through message
+		}
+		if last = frm.T; first.IsZero() {
+			first = last
+		}
 	}
-	return rs[len(rs)-1].T.Sub(rs[0].T)
+	return last.Sub(first)
 }
 
 func (frm InputFrame) String() string {
-- 
2.43.0


From 14ca773fb68cc6ce573c2ebb3e4db6ace91ad809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:05 +0000
Subject: [PATCH 33/67] fix: don't panic when the HUD doesn't fit the screen

---
 x/platform/hud.go | 54 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index 1ed1c66..0a0ffbd 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -93,7 +93,7 @@ func (hud *HUD) Update(ctx *Context, client Client) error {
 
 	ctx.Output.WriteESC(ansi.DECSC)
 
-	ctx.Output.To(ansi.Pt(outBounds.Max.X, 1))
+	ctx.Output.To(hudPt(outBounds.Max.X, 1))
 
 	box := hud.rightSegment(ctx, ctx.Time.Format(hudTimeFmt))
 	if box != hud.bla {
@@ -134,7 +134,7 @@ func (hud *HUD) Update(ctx *Context, client Client) error {
 
 	if hud.TimeDetail || hud.ProfDetail || hud.FPSDetail {
 		var derr error
-		ctx.Output.To(ansi.Pt(outBounds.Max.X, 2))
+		ctx.Output.To(hudPt(outBounds.Max.X, 2))
 		derr = hud.drawTimingDetail(ctx)
 
 		if hud.TimeDetail || hud.FPSDetail {
@@ -176,13 +176,28 @@ func (hud *HUD) updateProfilers(p *Platform) {
 	}
 }
 
+// hudPt constructs a point, clamping it to the top-left of the screen, since
+// HUD elements may not fit within a small screen.
+func hudPt(x, y int) ansi.Point {
+	if x < 1 {
+		x = 1
+	}
+	if y < 1 {
+		y = 1
+	}
+	return ansi.Pt(x, y)
+}
+
 func (hud *HUD) calcKVBox(ctx *Context, key string) (kbox, vbox ansi.Rectangle) {
 	outBounds := ctx.Output.Bounds()
 	n := utf8.RuneCountInString(key)
-	kbox.Min = ansi.Pt(outBounds.Max.X-hud.detailWidth-n-1, ctx.Output.Cursor.Y)
-	vbox.Min = ansi.Pt(outBounds.Max.X-hud.detailWidth, ctx.Output.Cursor.Y)
-	kbox.Max = ansi.Pt(kbox.Min.X+n, ctx.Output.Cursor.Y+1)
-	vbox.Max = ansi.Pt(vbox.Min.X+hud.detailWidth, ctx.Output.Cursor.Y+1)
+	kbox.Min = hudPt(outBounds.Max.X-hud.detailWidth-n-1, ctx.Output.Cursor.Y)
+	vbox.Min = hudPt(outBounds.Max.X-hud.detailWidth, ctx.Output.Cursor.Y)
+	kbox.Max = hudPt(kbox.Min.X+n, ctx.Output.Cursor.Y+1)
+	vbox.Max = hudPt(vbox.Min.X+hud.detailWidth, ctx.Output.Cursor.Y+1)
+	if vbox.Max.X > outBounds.Max.X {
+		vbox.Max.X = outBounds.Max.X
+	}
 	return kbox, vbox
 }
 
@@ -204,7 +219,7 @@ func (hud *HUD) detailRow(ctx *Context, key string, val string) (box ansi.Rectan
 	box.Min = kbox.Min
 	box.Max = vbox.Max
 	n := utf8.RuneCountInString(key) + 2 + hud.detailWidth
-	ctx.Output.To(ansi.Pt(ctx.Output.Cursor.X-n+1, ctx.Output.Cursor.Y))
+	ctx.Output.To(hudPt(ctx.Output.Cursor.X-n+1, ctx.Output.Cursor.Y))
 	ctx.Output.WriteString(key)
 	ctx.Output.WriteRune(' ')
 	for i := utf8.RuneCountInString(val); i < hud.detailWidth; i++ {
@@ -221,8 +236,8 @@ func (hud *HUD) rightSegment(ctx *Context, s string) (box ansi.Rectangle) {
 	if box.Min.X+1 < outBounds.Max.X {
 		box.Min.X--
 	}
-	box.Max = ansi.Pt(box.Min.X, box.Min.Y+1)
-	box.Min.X -= utf8.RuneCountInString(s)
+	box.Max = hudPt(box.Min.X, box.Min.Y+1)
+	box.Min = hudPt(box.Min.X-utf8.RuneCountInString(s), box.Min.Y)
 	ctx.Output.To(box.Min)
 	ctx.Output.WriteString(s)
 	ctx.Output.To(box.Min)
@@ -343,9 +358,11 @@ func (hud *HUD) drawPProfSelector(ctx *Context) {
 					hud.ButtonAttr, hud.SelectAttr,
 					func(ctx *Context, _ bool) {
 						ctx.Output.WriteString(prof.Name())
-						ctx.Output.WriteString(strings.Repeat(" ", outBounds.Max.X-1-ctx.Output.Cursor.X))
+						for ctx.Output.Cursor.X < outBounds.Max.X-1 {
+							ctx.Output.WriteRune(' ')
+						}
 					})
-				ctx.Output.To(ansi.Pt(box.Min.X, ctx.Output.Cursor.Y+1))
+				ctx.Output.To(hudPt(box.Min.X, ctx.Output.Cursor.Y+1))
 				box.Max.Y = ctx.Output.Cursor.Y
 			}
 		})
@@ -356,8 +373,7 @@ func (hud *HUD) drawPProfSelector(ctx *Context) {
 				m := ctx.Input.Mouse(eid)
 				sid, pressed := m.State.IsPress()
 				if pressed && sid == 1 {
-					if m.Point.In(box) {
-						rel := m.Point.Diff(box.Min)
+					if rel := m.Point.Diff(box.Min); m.Point.In(box) && rel.Y < len(pprofs) {
 						ctx.Platform.pprofProfiles = append(ctx.Platform.pprofProfiles, pprofProfileContext{
 							profile: pprofs[rel.Y],
 							debug:   1,
@@ -451,7 +467,7 @@ func (hud *HUD) drawButton(ctx *Context, box ansi.Rectangle, label string) {
 				ctx.Output.WriteString(" ]")
 			})
 	})
-	ctx.Output.To(ansi.Pt(box.Max.X-1, box.Max.Y))
+	ctx.Output.To(hudPt(box.Max.X-1, box.Max.Y))
 }
 
 func (hud *HUD) underActivation(ctx *Context, box ansi.Rectangle, f func(*Context, ansi.Rectangle, UIID, bool)) bool {
@@ -613,22 +629,22 @@ func (lv *LogView) Update(ctx *Context) error {
 	}
 	height := viewLines
 
-	topLeft := ansi.Pt(1, outBounds.Max.Y-1)
+	top := outBounds.Max.Y - 1
 	if lv.Expanded {
 		height++
-		topLeft.Y -= height - 1
+		top -= height - 1
 	} else {
 		height = 1
 	}
+	topLeft := hudPt(1, top)
 
 	// TODO drag resizing
 	if n := ctx.Input.CountPressesIn(ansi.Rect(topLeft.X, topLeft.Y, outBounds.Max.X, topLeft.Y+1), 1); n%2 == 1 {
-		topLeft.Y = outBounds.Max.Y - 1
 		height = 1
 		if lv.Expanded = !lv.Expanded; lv.Expanded {
 			height += viewLines
 		}
-		topLeft.Y -= height - 1
+		topLeft = hudPt(1, outBounds.Max.Y-height)
 	}
 
 	if !lv.Expanded {
@@ -661,7 +677,7 @@ func (lv *LogView) Update(ctx *Context) error {
 		off = eolOffsets[start-2] + 1
 	}
 	for _, eol := range eolOffsets[start-1 : end] {
-		ctx.Output.To(ansi.Pt(1, ctx.Output.Cursor.Y+1))
+		ctx.Output.To(hudPt(1, ctx.Output.Cursor.Y+1))
 		w := bounds.Max.X - ctx.Output.Cursor.X
 		writeTruncated(ctx, w, content[off:eol])
 		off = eol + 1
-- 
2.43.0


From b058f6494e21183a174736d35f08b3936fd3ba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:17 +0000
Subject: [PATCH 34/67] fix: rewind the platform time during a replay

---
 x/platform/platform.go | 8 +++++---
 x/platform/replay.go   | 1 +
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index c5269b9..2d7550e 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -192,7 +192,9 @@ func (p *Platform) Run(client Client) (err error) {
 		log.Printf("run done: %v", err)
 	}()
 
-	for p.Time = time.Now(); !p.Time.IsZero(); p.Time = p.nextTime() {
+	for t := time.Now(); !t.IsZero(); t = p.nextTime(t) {
+		p.Time = t
+
 		// update performance data
 		if err := p.Telemetry.update(p); err != nil {
 			return err
@@ -236,9 +238,9 @@ func (p *Platform) Run(client Client) (err error) {
 
 // nextTime waits for the next frame tick, skipping any tick that was left over
 // from before the current frame.
-func (p *Platform) nextTime() time.Time {
+func (p *Platform) nextTime(cur time.Time) time.Time {
 	t := p.ticker.Wait()
-	for !t.IsZero() && t.Before(p.Time) {
+	for !t.IsZero() && t.Before(cur) {
 		t = p.ticker.Wait()
 	}
 	return t
diff --git a/x/platform/replay.go b/x/platform/replay.go
index 73f8171..90480ac 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -103,6 +103,7 @@ func (rep *replay) update(ctx *Context) {
 
 func (rep *replay) runClient(ctx *Context) error {
 	ctx.Time = rep.frame.T
+	ctx.Platform.Time = rep.frame.T
 	ctx.Output.Resize(rep.size) // TODO better afford size difference
 	err := rep.frame.E          // TODO wrap so that it can be non-fatal to looper?
 	return errOr(err, ctx.runClient())
-- 
2.43.0


From 91ddb226f36c921b1882864d8c81f1df0dc89d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:17 +0000
Subject: [PATCH 35/67] fix: don't replay a recording that has no frames

---
 x/platform/replay.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/platform/replay.go b/x/platform/replay.go
index 90480ac..b461385 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -19,6 +19,7 @@ import (
 var (
 	errReplayDone = errors.New("replay done")
 	errReplayStop = errors.New("replay stop")
+	errNoFrames   = errors.New("no frames recorded")
 )
 
 type replay struct {
@@ -54,6 +55,11 @@ func (rep *replay) update(ctx *Context) {
 		return
 	}
 
+	if len(rep.cur) == 0 {
+		ctx.Err = errOr(ctx.Err, errReplayDone)
+		return
+	}
+
 	defer func() {
 		if ctx.Err == nil {
 			rep.drawOverlay(ctx)
-- 
2.43.0


From 50acf2471d2c888ee54a92abe2c91be4509c7598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:17 +0000
Subject: [PATCH 36/67] fix: let Ctrl-C stop a replay in its last frame

---
 x/platform/replay.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/x/platform/replay.go b/x/platform/replay.go
index b461385..bc98e62 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -42,11 +42,6 @@ func (rep *replay) start() {
 }
 
 func (rep *replay) update(ctx *Context) {
-	if len(rep.cur) == 0 {
-		ctx.Err = errOr(ctx.Err, errReplayDone)
-		return
-	}
-
 	// Ctrl-C stops replay
 	if ctx.Input.HasTerminal('\x03') {
 		log.Printf("stopping replay")
@@ -303,7 +298,12 @@ func readReplay(f *os.File) (_ *replay, err error) {
 	if rep.input, err = anansi.ReadInputReplay(f); err != nil {
 		return nil, err
 	}
-	return &rep, nil
+	for _, frm := range rep.input {
+		if bytes.HasPrefix(frm.M, []byte("frame:")) {
+			return &rep, nil
+		}
+	}
+	return nil, errNoFrames
 }
 
 func readSized(r io.Reader) ([]byte, error) {
-- 
2.43.0


From 14dcb689b5dd2f7da5a350ba4e284be64c30e78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 37/67] fix: Contexts() overwrote members of other groups
 sharing the same prefix

Appending to a given group in-place may write into spare capacity that is
shared with another group that was built from it.
---
 context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/context.go b/context.go
index 7c6da8d..d8e98f4 100644
--- a/context.go
+++ b/context.go
@@ -37,6 +37,9 @@ func Contexts(cs ...Context) Context {
 		}
 		as, haveAs := a.(contexts)
 		bs, haveBs := b.(contexts)
+		if haveAs {
+			as = as[:len(as):len(as)] // never append to the given group in-place
+		}
 		if haveAs && haveBs {
 			a = append(as, bs...)
 		} else if haveAs {
-- 
2.43.0


From 0f2e3a1d43d6465097f7692e3bcf28928dbe4e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 38/67] fix: a failed SetRaw or SetEcho was remembered as in
 effect

---
 attr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/attr.go b/attr.go
index 2d30f79..ab09f26 100644
--- a/attr.go
+++ b/attr.go
@@ -56,12 +56,14 @@ func (at *Attr) SetRaw(raw bool) error {
 	if raw == at.raw {
 		return nil
 	}
+	prior := *at
 	at.raw = raw
 	if at.file == nil {
 		return nil
 	}
 	at.cur = at.modifyTermios(at.orig)
 	if err := at.setAttr(at.cur); err != nil {
+		*at = prior // not in effect, so that it can be tried again
 		return fmt.Errorf("failed to set termios attr: %v", err)
 	}
 	return nil
@@ -73,6 +75,7 @@ func (at *Attr) SetEcho(echo bool) error {
 	if echo == at.echo {
 		return nil
 	}
+	prior := *at
 	at.echo = echo
 	if at.file == nil {
 		return nil
@@ -83,6 +86,7 @@ func (at *Attr) SetEcho(echo bool) error {
 		at.cur.Lflag &^= syscall.ECHO
 	}
 	if err := at.setAttr(at.cur); err != nil {
+		*at = prior // not in effect, so that it can be tried again
 		return fmt.Errorf("failed to set termios attr: %v", err)
 	}
 	return nil
-- 
2.43.0


From c5b0944d26dba8347d753502fd39c61c81c78a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 39/67] fix: don't corrupt runes and sequences cut at a read
 boundary in to24bit

---
 cmd/to24bit/main.go | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/cmd/to24bit/main.go b/cmd/to24bit/main.go
index cd9b39b..45b23a2 100644
--- a/cmd/to24bit/main.go
+++ b/cmd/to24bit/main.go
@@ -34,11 +34,9 @@ func readMore() (err error) {
 		var n int
 		n, err = os.Stdin.Read(b)
 		ateof := err == io.EOF
-		if err == nil || ateof {
-			readBuf.Write(b[:n])
-			if perr := processMore(ateof); err == nil {
-				err = perr
-			}
+		readBuf.Write(b[:n])
+		if perr := processMore(ateof); perr != nil && (err == nil || ateof) {
+			err = perr
 		}
 	}
 	if err != io.EOF {
@@ -52,11 +50,13 @@ func processMore(ateof bool) (err error) {
 		e, a, n := ansi.DecodeEscape(readBuf.Bytes())
 		readBuf.Next(n)
 		if e == 0 {
-			r, n := utf8.DecodeRune(readBuf.Bytes())
-			const esc = 0x1b
-			if r == esc && readBuf.Len() == 1 && !ateof {
-				break // readMore, try to complete escape sequence
+			if n > 0 {
+				continue // a sequence was canceled, there may be another one after it
+			}
+			if !ateof && isPartial(readBuf.Bytes()) {
+				break // readMore, try to complete rune or escape sequence
 			}
+			r, n := utf8.DecodeRune(readBuf.Bytes())
 			readBuf.Next(n)
 			e = ansi.Escape(r)
 		}
@@ -65,6 +65,31 @@ func processMore(ateof bool) (err error) {
 	return err
 }
 
+// isPartial returns true only if p, which ansi.DecodeEscape didn't decode,
+// starts with a rune or escape sequence that may be completed by further bytes.
+func isPartial(p []byte) bool {
+	if !utf8.FullRune(p) {
+		return true
+	}
+	r, n := utf8.DecodeRune(p)
+	switch r {
+	case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
+		return true
+	case 0x1B: // ESC, followed by any intermediates
+		for p = p[n:]; utf8.FullRune(p); p = p[n:] {
+			r, n = utf8.DecodeRune(p)
+			if 0x80 <= r && r <= 0xFF {
+				r &= 0x7F // treated the same as its 7-bit counterpart
+			}
+			if r < 0x20 || r > 0x2F {
+				return false
+			}
+		}
+		return true
+	}
+	return false
+}
+
 func process(e ansi.Escape, a []byte) error {
 	if !e.IsEscape() {
 		_, err := outBuf.WriteRune(rune(e))
-- 
2.43.0


From 9350ff20e2d35c17d7ec2e47f83433ea0c5d5e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 40/67] fix: convert background colors in to24bit

---
 cmd/to24bit/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/to24bit/main.go b/cmd/to24bit/main.go
index 45b23a2..0168e60 100644
--- a/cmd/to24bit/main.go
+++ b/cmd/to24bit/main.go
@@ -114,7 +114,7 @@ func process(e ansi.Escape, a []byte) error {
 
 			// maybe convert background
 			if bg, hasBG := attr.BG(); hasBG {
-				if newc := bg.To24Bit(); newc != bg.To24Bit() {
+				if newc := bg.To24Bit(); newc != bg {
 					attr = attr.SansBG() | newc.BG()
 					needed = true
 				}
-- 
2.43.0


From abd89c3d3fd14b4ef9ff75099b47d9e33e2cb444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 41/67] fix: decode runes and sequences cut at a read boundary,
 and succeed at the end of input

---
 cmd/decode/main.go | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/cmd/decode/main.go b/cmd/decode/main.go
index 5692913..9c820b4 100644
--- a/cmd/decode/main.go
+++ b/cmd/decode/main.go
@@ -70,13 +70,16 @@ func runBatch(in, out *os.File) (err error) {
 	for err == nil {
 		buf.Grow(readSize)
 		err = readMore(&buf, in)
-		if perr := processBatch(&buf, bufw); err == nil {
+		if perr := processBatch(&buf, bufw); perr != nil && (err == nil || err == io.EOF) {
 			err = perr
 		}
 	}
 	if buf.Len() > 0 {
 		log.Printf("undecoded trailer content: %q", buf.Bytes())
 	}
+	if err == io.EOF {
+		err = nil
+	}
 	return err
 }
 
@@ -98,15 +101,13 @@ func processBatch(buf *bytes.Buffer, w io.Writer) (err error) {
 			buf.Next(n)
 		}
 		if e == 0 {
-			r, n := utf8.DecodeRune(buf.Bytes())
-			switch r {
-			case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
+			if n > 0 {
+				continue // a sequence was canceled, there may be another one after it
+			}
+			if isPartial(buf.Bytes()) {
 				return
-			case 0x1B: // ESC
-				if p := buf.Bytes(); len(p) == cap(p) {
-					return
-				}
 			}
+			r, n := utf8.DecodeRune(buf.Bytes())
 			buf.Next(n)
 			_, err = writeRune(r)
 		} else if !*stripMode {
@@ -127,6 +128,31 @@ func processBatch(buf *bytes.Buffer, w io.Writer) (err error) {
 	return err
 }
 
+// isPartial returns true only if p, which ansi.DecodeEscape didn't decode,
+// starts with a rune or escape sequence that may be completed by further bytes.
+func isPartial(p []byte) bool {
+	if !utf8.FullRune(p) {
+		return true
+	}
+	r, n := utf8.DecodeRune(p)
+	switch r {
+	case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
+		return true
+	case 0x1B: // ESC, followed by any intermediates
+		for p = p[n:]; utf8.FullRune(p); p = p[n:] {
+			r, n = utf8.DecodeRune(p)
+			if 0x80 <= r && r <= 0xFF {
+				r &= 0x7F // treated the same as its 7-bit counterpart
+			}
+			if r < 0x20 || r > 0x2F {
+				return false
+			}
+		}
+		return true
+	}
+	return false
+}
+
 func readMore(buf *bytes.Buffer, r io.Reader) error {
 	b := buf.Bytes()
 	b = b[len(b):cap(b)]
-- 
2.43.0


From 394a75d1ef1c80fd80a06d85c6993d064be6ff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 42/67] fix: don't return damaged terminfo, fall back to the
 next file or builtin

---
 terminfo/terminfo.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/terminfo/terminfo.go b/terminfo/terminfo.go
index df62ccc..d063bbd 100644
--- a/terminfo/terminfo.go
+++ b/terminfo/terminfo.go
@@ -2,6 +2,7 @@ package terminfo
 
 import (
 	"encoding/hex"
+	"fmt"
 	"os"
 	"os/user"
 	"path/filepath"
@@ -136,9 +137,13 @@ func SearchPath() []string {
 // provided for common terminals, and will be used if reading from the terminfo
 // database fails.
 func Load(term string) (*Terminfo, error) {
+	if term == "" {
+		return GetBuiltin(term)
+	}
 	if ti, def := cache[term]; def {
 		return ti, nil
 	}
+	var readErr error // first one met
 	paths := SearchPath()
 	for _, path := range paths {
 		for _, fp := range []string{
@@ -155,12 +160,19 @@ func Load(term string) (*Terminfo, error) {
 				}
 				if err == nil {
 					cache[term] = &ti
+					return &ti, nil
+				}
+				if readErr == nil {
+					readErr = fmt.Errorf("failed to read %q: %v", fp, err)
 				}
-				return &ti, err
 			}
 		}
 	}
-	return GetBuiltin(term)
+	ti, err := GetBuiltin(term)
+	if err != nil && readErr != nil {
+		err = readErr
+	}
+	return ti, err
 }
 
 // FuncMap builds and returns a string-string map of the control sequence
-- 
2.43.0


From f41294e5e407b36d09be9a3dc6daf0a3c6bda07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 43/67] fix: read terminfo in full, with absent capabilities
 empty instead of garbage

---
 terminfo/read.go | 74 +++++++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 36 deletions(-)

diff --git a/terminfo/read.go b/terminfo/read.go
index 0b20719..a66aec7 100644
--- a/terminfo/read.go
+++ b/terminfo/read.go
@@ -1,6 +1,7 @@
 package terminfo
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -84,16 +85,33 @@ func (ti *Terminfo) ReadFrom(rs io.ReadSeeker) error {
 		return fmt.Errorf("invalid magic number %07o", header[0])
 	}
 
+	for _, size := range header[1:] {
+		if size < 0 {
+			return fmt.Errorf("invalid header %v", header[1:])
+		}
+	}
+
+	// skip names, booleans, and numbers
+	skip := int64(header[1]) + int64(header[2]) + 2*int64(header[3])
 	if (header[1]+header[2])%2 != 0 {
 		// old quirk to align everything on word boundaries
-		header[2]++
+		skip++
+	}
+	if _, err := rs.Seek(headerLength+skip, io.SeekStart); err != nil {
+		return err
 	}
 
-	strOffset := headerLength + uint16(header[1]+header[2]+2*header[3])
-	tableOffset := strOffset + 2*uint16(header[4])
+	offsets := make([]int16, header[4])
+	if err := binary.Read(rs, binary.LittleEndian, offsets); err != nil {
+		return noEOF(err)
+	}
+	table := make([]byte, header[5])
+	if _, err := io.ReadFull(rs, table); err != nil {
+		return noEOF(err)
+	}
 
 	for i := 1; i < len(tiKeys); i++ {
-		key, err := readTableString(rs, strOffset+2*tiKeys[i], tableOffset)
+		key, err := tableString(offsets, table, tiKeys[i])
 		if err != nil {
 			return err
 		}
@@ -101,7 +119,7 @@ func (ti *Terminfo) ReadFrom(rs io.ReadSeeker) error {
 	}
 
 	for i := 1; i < len(tiFuncs); i++ {
-		fnc, err := readTableString(rs, strOffset+2*tiFuncs[i], tableOffset)
+		fnc, err := tableString(offsets, table, tiFuncs[i])
 		if err != nil {
 			return err
 		}
@@ -114,41 +132,25 @@ func (ti *Terminfo) ReadFrom(rs io.ReadSeeker) error {
 	return nil
 }
 
-func readTableString(rs io.ReadSeeker, off, table uint16) (s string, err error) {
-	index, err := readUint16(rs, off)
-	if err != nil {
-		return "", err
+// noEOF turns an io.EOF met before everything was read into an
+// io.ErrUnexpectedEOF.
+func noEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
 	}
-	if _, err := rs.Seek(int64(table+index), 0); err != nil {
-		return "", err
-	}
-	return readNullString(rs)
+	return err
 }
 
-func readUint16(rs io.ReadSeeker, off uint16) (uint16, error) {
-	if _, err := rs.Seek(int64(off), 0); err != nil {
-		return 0, err
-	}
-	if err := binary.Read(rs, binary.LittleEndian, &off); err != nil {
-		return 0, err
+// tableString returns a string capability, empty if it is absent.
+func tableString(offsets []int16, table []byte, i uint16) (string, error) {
+	if int(i) >= len(offsets) || offsets[i] < 0 {
+		return "", nil
 	}
-	return off, nil
-}
-
-func readNullString(r io.Reader) (s string, err error) {
-	var bs []byte
-	var buf [8]byte
-	for {
-		n, err := r.Read(buf[:])
-		if err != nil {
-			return "", err
-		}
-		for i, b := range buf[:n] {
-			if b == 0 {
-				bs = append(bs, buf[:i]...)
-				return string(bs), nil
-			}
+	off := int(offsets[i])
+	if off < len(table) {
+		if n := bytes.IndexByte(table[off:], 0); n >= 0 {
+			return string(table[off : off+n]), nil
 		}
-		bs = append(bs, buf[:n]...)
 	}
+	return "", fmt.Errorf("invalid string capability %v offset %v", i, off)
 }
-- 
2.43.0


From d9071ad073876de9e6d21f0ab6d8b6bfad0f244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 44/67] fix: encode character set selections and controls at
 the ends of their ranges as they are decoded

---
 ansi/control.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ansi/control.go b/ansi/control.go
index 960eaa4..1786067 100644
--- a/ansi/control.go
+++ b/ansi/control.go
@@ -122,11 +122,11 @@ func (seq Seq) WithPoint(p Point) Seq { return seq.WithInts(p.Y, p.X) }
 func (id Escape) AppendTo(p []byte) []byte {
 	// TODO stricter
 	switch {
-	case 0x0000 < id && id < 0x001F: // C0 controls
+	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return append(p, byte(id&0x1F))
-	case 0x0080 < id && id < 0x009F: // C1 controls
+	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return append(p, '\x1b', byte(0x40|id&0x1F))
-	case 0xEF20 < id && id < 0xEF7E: // ESC + byte
+	case 0xEF20 <= id && id <= 0xEF7E: // ESC + byte
 		return append(p, '\x1b', byte(id&0x7F))
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
 		return append(p, '\x1b', '[', byte(id&0x7F))
@@ -141,9 +141,11 @@ func (id Escape) AppendWith(p []byte, arg ...byte) []byte {
 	switch {
 	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return append(p, byte(id&0x1F))
-	case 0x0080 < id && id <= 0x009F: // C1 controls
+	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return append(p, '\x1b', byte(0x40|id&0x1F))
-	case 0xEF20 < id && id < 0xEF7E: // ESC + byte
+	case 0xEF20 <= id && id <= 0xEF2F && len(arg) > 0: // ESC character set control
+		return append(append(p, '\x1b', byte(id&0x7F)), arg...)
+	case 0xEF20 <= id && id <= 0xEF7E: // ESC + byte
 		return append(append(append(p, '\x1b'), arg...), byte(id&0x7F))
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
 		return append(append(append(p, '\x1b', '['), arg...), byte(id&0x7F))
-- 
2.43.0


From 638a6993e33b72c966a79757a6f42a2e3a768efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 45/67] fix: don't drop the content of control strings in
 to24bit

---
 cmd/to24bit/main.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/to24bit/main.go b/cmd/to24bit/main.go
index 0168e60..1f3c357 100644
--- a/cmd/to24bit/main.go
+++ b/cmd/to24bit/main.go
@@ -91,14 +91,20 @@ func isPartial(p []byte) bool {
 }
 
 func process(e ansi.Escape, a []byte) error {
+	var b [4096]byte
+	p := b[:0]
+
 	if !e.IsEscape() {
+		if a != nil { // control string
+			p = append(e.AppendTo(p), a...)
+			p = append(p, "\x1b\\"...)
+			_, err := outBuf.Write(p)
+			return err
+		}
 		_, err := outBuf.WriteRune(rune(e))
 		return err
 	}
 
-	var b [4096]byte
-	p := b[:0]
-
 	// try to convert legacy SGR colors to 24-bit; TODO palette selection
 	if e == ansi.CSI('m') {
 		if attr, _, err := ansi.DecodeSGR(a); err == nil {
-- 
2.43.0


From 058f80a78a951050e1eea1942d6f4d10d2464f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 46/67] fix: log the timing data that was collected, even if it
 is reset meanwhile

The telemetry collector shared the timing data slice, so that disabling
frame timing in the frame that completed a period of it caused zeroes to be
logged (and raced with the background worker).
---
 x/platform/diag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/platform/diag.go b/x/platform/diag.go
index c7453d2..3981485 100644
--- a/x/platform/diag.go
+++ b/x/platform/diag.go
@@ -216,7 +216,7 @@ func (tel *Telemetry) update(p *Platform) error {
 		timingFrame := tel.Timing.update(p)
 		consumeStalls := timingFrame
 		if tel.LogTiming && timingFrame {
-			tel.coll.timing = tel.Timing.ds
+			tel.coll.timing = append([]time.Duration(nil), tel.Timing.ds...)
 		}
 		if stalls := p.term.Stalls(consumeStalls); stalls != nil {
 			if tel.LogStallData {
-- 
2.43.0


From afa5586b1f395e1158dac1f0593e883334ce1b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 47/67] fix: don't leave the terminal in async mode when
 platform setup fails

---
 x/platform/platform.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index 2d7550e..e6d705a 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -47,11 +47,6 @@ func New(in, out *os.File, opts ...Option) (*Platform, error) {
 		&p.bg,
 	)
 
-	p.sigio.C = make(chan os.Signal, 1)
-	if err := p.term.Notify(p.sigio.C); err != nil {
-		return nil, err
-	}
-
 	_ = p.term.SetRaw(true)
 	p.term.AddMode(
 		ansi.ModeAlternateScreen,
@@ -92,6 +87,11 @@ func New(in, out *os.File, opts ...Option) (*Platform, error) {
 		return nil, err
 	}
 
+	p.sigio.C = make(chan os.Signal, 1)
+	if err := p.term.Notify(p.sigio.C); err != nil {
+		return nil, err
+	}
+
 	return p, nil
 }
 
-- 
2.43.0


From 71a252a59167f38af15394053171368c1d2c24d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 48/67] fix: write out the log file when platform setup fails

---
 x/platform/platform.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index e6d705a..a286d62 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -83,12 +83,13 @@ func New(in, out *os.File, opts ...Option) (*Platform, error) {
 		}
 	}
 
-	if err := p.Config.setup(p); err != nil {
-		return nil, err
+	err := p.Config.setup(p)
+	if err == nil {
+		p.sigio.C = make(chan os.Signal, 1)
+		err = p.term.Notify(p.sigio.C)
 	}
-
-	p.sigio.C = make(chan os.Signal, 1)
-	if err := p.term.Notify(p.sigio.C); err != nil {
+	if err != nil {
+		_ = p.bg.Exit(p.term) // write out what has been logged
 		return nil, err
 	}
 
-- 
2.43.0


From b98516b316c8801cb76de81a2366a7d81e169019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:16 +0000
Subject: [PATCH 49/67] fix: keep editing the same file name when the HUD's
 telemetry section is toggled

---
 x/platform/hud.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index 0a0ffbd..1226764 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -139,6 +139,8 @@ func (hud *HUD) Update(ctx *Context, client Client) error {
 
 		if hud.TimeDetail || hud.FPSDetail {
 			hud.drawTelemetry(ctx)
+		} else {
+			hud.nextID() // so that any active component below keeps its ID
 		}
 
 		hud.drawProfDetail(ctx)
-- 
2.43.0


From e0217c2cbba9292de29c148a17cbb5c15b05867e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 50/67] fix: delete the rune before the cursor while editing a
 line

---
 x/platform/editline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/platform/editline.go b/x/platform/editline.go
index e87a76c..8954224 100644
--- a/x/platform/editline.go
+++ b/x/platform/editline.go
@@ -179,7 +179,7 @@ func (edl *EditLine) handleControlRune(ctx *Context, eid int) {
 		if edl.Cur > 0 {
 			if edl.Cur < utf8.RuneCount(edl.Buf) {
 				in := edl.Buf
-				for j := 0; j < edl.Cur; j++ {
+				for j := 0; j < edl.Cur-1; j++ {
 					_, n := utf8.DecodeRune(in)
 					in = in[n:]
 				}
-- 
2.43.0


From 89c5e32f531c02b91b8c8c16bcd79f5ffcacda37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 51/67] fix: show all lines in the HUD's log view

---
 x/platform/hud.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index 1226764..c7bc7af 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -661,7 +661,7 @@ func (lv *LogView) Update(ctx *Context) error {
 	if lines <= 0 {
 		return nil
 	}
-	if diff := bounds.Dy() - lines + 1; diff > 0 {
+	if diff := bounds.Dy() - lines - 2; diff > 0 {
 		bounds.Min.Y += diff
 	}
 	if delta := ctx.Input.TotalScrollIn(bounds); delta != 0 {
@@ -678,8 +678,10 @@ func (lv *LogView) Update(ctx *Context) error {
 	if start > 1 {
 		off = eolOffsets[start-2] + 1
 	}
+	y := bounds.Min.Y
 	for _, eol := range eolOffsets[start-1 : end] {
-		ctx.Output.To(hudPt(1, ctx.Output.Cursor.Y+1))
+		y++ // NOTE the cursor may have wrapped after the last line
+		ctx.Output.To(hudPt(1, y))
 		w := bounds.Max.X - ctx.Output.Cursor.X
 		writeTruncated(ctx, w, content[off:eol])
 		off = eol + 1
-- 
2.43.0


From 27bbf583bb14891253fb372c0e7bd06a4cc59e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 52/67] fix: a profiler that was stopped is inactive, even if
 its file can't be synced

---
 x/platform/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/platform/config.go b/x/platform/config.go
index 2a248cd..8ca4e11 100644
--- a/x/platform/config.go
+++ b/x/platform/config.go
@@ -321,10 +321,10 @@ func (cpu *cpuProfileContext) stop() error {
 		return nil
 	}
 	pprof.StopCPUProfile()
+	cpu.active = false
 	if err := cpu.f.Sync(); err != nil {
 		return err
 	}
-	cpu.active = false
 	log.Printf("Flushed CPU profiling to %q", cpu.f.Name())
 	return nil
 }
@@ -360,10 +360,10 @@ func (trc *traceProfileContext) stop() (err error) {
 		return nil
 	}
 	trace.Stop()
+	trc.active = false
 	if err := trc.f.Sync(); err != nil {
 		return err
 	}
-	trc.active = false
 	log.Printf("Flushed execution trace execution to %q", trc.f.Name())
 	return nil
 }
-- 
2.43.0


From ea3e7a612b33d7e8e712b88e5b4fb5ed3470459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 53/67] fix: open the log file before the telemetry log

---
 x/platform/config.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/x/platform/config.go b/x/platform/config.go
index 8ca4e11..257cef2 100644
--- a/x/platform/config.go
+++ b/x/platform/config.go
@@ -89,12 +89,6 @@ func (cfg *Config) setup(p *Platform) error {
 	p.Telemetry.LogTiming = cfg.LogTiming
 	p.SetTimingEnabled(cfg.StartTiming || cfg.LogTiming)
 
-	if cfg.TelemetryLogFileName != "" {
-		if err := p.Telemetry.coll.create(cfg.TelemetryLogFileName); err != nil {
-			return err
-		}
-	}
-
 	if cfg.LogFileName != "" && p.logFile == nil {
 		f, err := os.Create(cfg.LogFileName)
 		if err != nil {
@@ -105,6 +99,12 @@ func (cfg *Config) setup(p *Platform) error {
 		}
 	}
 
+	if cfg.TelemetryLogFileName != "" {
+		if err := p.Telemetry.coll.create(cfg.TelemetryLogFileName); err != nil {
+			return err
+		}
+	}
+
 	if cfg.CPUProfileName != "" {
 		f, err := os.Create(cfg.CPUProfileName)
 		if err != nil {
-- 
2.43.0


From 08604619c8fba72d39c5518e3ef89e35721b93cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 54/67] fix: record input pending when a recording starts

---
 input.go             | 10 ++++++++++
 x/platform/replay.go |  1 +
 2 files changed, 11 insertions(+)

diff --git a/input.go b/input.go
index 2f0df38..211a385 100644
--- a/input.go
+++ b/input.go
@@ -65,6 +65,16 @@ func (in *Input) SetRecording(dest io.Writer) {
 	in.rec = dest
 }
 
+// RecordPending records any bytes that have been read, but not yet decoded, as
+// if they had been read just now; useful so that a recording started in the
+// middle of an escape sequence has all of it.
+func (in *Input) RecordPending() error {
+	if in.rec == nil || in.buf.Len() == 0 {
+		return nil
+	}
+	return in.recordFrame(InputFrame{T: time.Now(), B: in.buf.Bytes()})
+}
+
 // IsRecording returns true only if a recording destination is in effect (as
 // given to SetRecording).
 func (in *Input) IsRecording(dest *os.File) bool {
diff --git a/x/platform/replay.go b/x/platform/replay.go
index bc98e62..7a16425 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -216,6 +216,7 @@ func (p *Platform) setRecording(f *os.File, err error) {
 		}
 
 		p.term.Input.SetRecording(recordWriter{p})
+		_ = p.term.RecordPending() // recordWriter keeps any error
 		log.Printf("recording input to %q", f.Name())
 	}
 }
-- 
2.43.0


From 94c522837d562a29b69bf5aff0fc1fd0f69be4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 55/67] fix: demo draws every row where it belongs

The offset of a row was taken while p.X was still past the end of the prior
row, so all rows were drawn over the first one.
---
 cmd/demo/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/demo/main.go b/cmd/demo/main.go
index b2149f6..d430ad5 100644
--- a/cmd/demo/main.go
+++ b/cmd/demo/main.go
@@ -76,8 +76,9 @@ func (d *demo) Update(ctx *platform.Context) (err error) {
 	r := ctx.Output.Bounds()
 	for p := r.Min; p.Y < r.Max.Y; p.Y++ {
 		line := p.Y%16 == 0
+		p.X = r.Min.X
 		i, _ := d.Grid.CellOffset(p)
-		for p.X = r.Min.X; p.X < r.Max.X; p.X++ {
+		for ; p.X < r.Max.X; p.X++ {
 			a := ansi.RGB(0, uint8(p.X), uint8(p.Y)).BG()
 			var r rune
 			if line {
-- 
2.43.0


From 050edae6646a9ffeaeee243ff98e9536e22dd931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 56/67] fix: lolwut reports its errors on standard error

Since it imports the platform package, log output went to the in-memory sink
that only the HUD shows.
---
 cmd/lolwut/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/lolwut/main.go b/cmd/lolwut/main.go
index eab9b47..482c3d2 100644
--- a/cmd/lolwut/main.go
+++ b/cmd/lolwut/main.go
@@ -47,6 +47,9 @@ var sd schotterDemo
 func main() {
 	interactive := flag.Bool("i", false, "interactive mode")
 	flag.Parse()
+	if !*interactive {
+		log.SetOutput(os.Stderr) // importing platform redirects to its in-memory sink
+	}
 	var (
 		// parameter  = parseArg(arg,         "name", default, min, max)
 		cols          = parseArg(flag.Arg(0), "cols", 60, 1)
-- 
2.43.0


From 1718d8ca1b6ca9b4d90e225ff872d2a563364c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 57/67] fix: lolwut redraws to size when only the height of the
 terminal changes

---
 cmd/lolwut/interact.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/lolwut/interact.go b/cmd/lolwut/interact.go
index 65b429c..fa478fb 100644
--- a/cmd/lolwut/interact.go
+++ b/cmd/lolwut/interact.go
@@ -52,7 +52,7 @@ func (sd *schotterDemoUI) Update(ctx *platform.Context) (err error) {
 
 	canvasSize := sd.canvas.Rect.Size()
 
-	if screenSize := ctx.Output.Bounds().Size(); screenSize.X != canvasSize.X/2 || zoomed {
+	if screenSize := ctx.Output.Bounds().Size(); screenSize.X != canvasSize.X/2 || screenSize.Y != canvasSize.Y/4 || zoomed {
 		sd.padding = 0
 		if screenSize.X > 2 {
 			sd.padding = 2
-- 
2.43.0


From f44632e4f08d29a2060ca3295971bf724a5dbfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:46 +0000
Subject: [PATCH 58/67] fix: interact survives a terminal with no line left for
 the command's output

---
 cmd/interact/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/interact/main.go b/cmd/interact/main.go
index 715dfd2..cfac6e2 100644
--- a/cmd/interact/main.go
+++ b/cmd/interact/main.go
@@ -241,7 +241,9 @@ func (in *inspect) Update(ctx *platform.Context) (err error) {
 	p.Y++
 
 	sz := ctx.Output.Bounds().Size()
-	sz.Y -= p.Y
+	if sz.Y -= p.Y; sz.Y < 0 {
+		sz.Y = 0
+	}
 	if !in.cmdOutput.Bounds().Size().Eq(sz) {
 		log.Printf("resize cmd out %v", sz)
 		in.cmdOutput.Resize(sz)
-- 
2.43.0


From c645c3a989431f0ce840fc365707f4830edba1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 59/67] fix: EditLine survives a box that has no width

---
 x/platform/editline.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/x/platform/editline.go b/x/platform/editline.go
index 8954224..2ccb941 100644
--- a/x/platform/editline.go
+++ b/x/platform/editline.go
@@ -78,7 +78,11 @@ func (edl *EditLine) Update(ctx *Context) {
 
 	// ensure cursor within right rune offset
 	hi := edl.View + n
-	if w := edl.Box.Dx(); n > w {
+	w := edl.Box.Dx()
+	if w < 1 {
+		w = 1 // an empty or wrapped box; otherwise the cursor would leave it to the left
+	}
+	if n > w {
 		hi = edl.View + w
 	}
 	if edl.Cur >= hi {
-- 
2.43.0


From 55eee2e65dc14751fbf764a162776169c4fd5874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:46 +0000
Subject: [PATCH 60/67] fix: EditLine: ignore what was typed after Enter or Esc

---
 x/platform/editline.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/platform/editline.go b/x/platform/editline.go
index 2ccb941..163c7f0 100644
--- a/x/platform/editline.go
+++ b/x/platform/editline.go
@@ -57,6 +57,9 @@ func (edl *EditLine) Update(ctx *Context) {
 		edl.handleEvent = defaultBehavior
 	}
 	for eid := range ctx.Input.Type {
+		if edl.State != EditLineReady {
+			break // whatever comes after <Enter> or <Esc> isn't part of the line
+		}
 		edl.handleEvent(edl, ctx, eid)
 	}
 
-- 
2.43.0


From 527e154e705fb91969ef6e3c3924bb3c34dc1d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:46 +0000
Subject: [PATCH 61/67] fix: Input: notice input that arrived before async mode
 was set

---
 input.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/input.go b/input.go
index 211a385..b1af49e 100644
--- a/input.go
+++ b/input.go
@@ -112,7 +112,22 @@ func (in *Input) Notify(sigio chan os.Signal) error {
 	if prior != nil && prior != sigio {
 		signal.Stop(prior)
 	}
-	return in.setAsync(sigio != nil)
+	if err := in.setAsync(sigio != nil); err != nil {
+		return err
+	}
+	in.primeNotify()
+	return nil
+}
+
+// primeNotify notifies of any input that may have arrived before async mode was
+// set, since there'll be no SIGIO for it.
+func (in *Input) primeNotify() {
+	if in.sigio != nil {
+		select {
+		case in.sigio <- syscall.SIGIO:
+		default:
+		}
+	}
 }
 
 // InputSignal is a convenience wrapper for using a Signal and Input.Notify
@@ -322,7 +337,11 @@ func (in *Input) Feed(p []byte) {
 // they've already been changed by Notify() or a read), and sets
 // non-blocking/async modes if needed.
 func (in *Input) Enter(term *Term) error {
-	return in.setFlags()
+	if err := in.setFlags(); err != nil {
+		return err
+	}
+	in.primeNotify()
+	return nil
 }
 
 // Exit restores fcntl flags to the value that they had before Enter().
-- 
2.43.0


From e98bfc9f3c77fb795c654be08ecf496be2cf2b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 62/67] fix: Screen: erase from the cursor on, inclusive, also
 with no parameter

---
 state.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/state.go b/state.go
index ec0ca20..59fc820 100644
--- a/state.go
+++ b/state.go
@@ -417,16 +417,16 @@ func (sc *Screen) ProcessANSI(e ansi.Escape, a []byte) {
 func (sc *Screen) processEscape(e ansi.Escape, a []byte) {
 	switch e {
 	case ansi.ED:
-		var val byte
+		var val byte = '0'
 		if len(a) == 1 {
 			val = a[0]
-		} else {
+		} else if len(a) > 1 {
 			return
 		}
 		switch val {
 		case '0': // Erase from current position to bottom of screen inclusive
 			if i, ok := sc.CellOffset(sc.Cursor.Point); ok {
-				sc.clearRegion(i+1, len(sc.Rune))
+				sc.clearRegion(i, len(sc.Rune))
 			}
 		case '1': // Erase from top of screen to current position inclusive
 			if i, ok := sc.CellOffset(sc.Cursor.Point); ok {
@@ -437,10 +437,10 @@ func (sc *Screen) processEscape(e ansi.Escape, a []byte) {
 		}
 
 	case ansi.EL:
-		var val byte
+		var val byte = '0'
 		if len(a) == 1 {
 			val = a[0]
-		} else {
+		} else if len(a) > 1 {
 			return
 		}
 
-- 
2.43.0


From 7a6d77ecef2c3b2f9a7d023bd3de211f92e9b9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 63/67] fix: forget a cursor past the last column after
 WriteGrid or Screen.Update

---
 render.go |  4 +++-
 state.go  | 14 +++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/render.go b/render.go
index 158c987..39fea5a 100644
--- a/render.go
+++ b/render.go
@@ -20,7 +20,9 @@ func WriteGrid(w io.Writer, g Grid, prior Screen, styles ...Style) (int, Screen,
 		panic("sub-screen update not implemented")
 	}
 	return withAnsiScreenWriter(w, prior, func(aw ansiWriter, sc Screen) (int, Screen) {
-		return writeGrid(aw, g, sc, Styles(styles...))
+		n, sc := writeGrid(aw, g, sc, Styles(styles...))
+		sc.Cursor.forgetPast(g.Rect)
+		return n, sc
 	})
 }
 
diff --git a/state.go b/state.go
index 59fc820..5914a0a 100644
--- a/state.go
+++ b/state.go
@@ -184,6 +184,14 @@ func (cs *Cursor) toWithin(pt ansi.Point, bounds ansi.Rectangle) ansi.Seq {
 	return cs.To(pt)
 }
 
+// forgetPast forgets the cursor position if it is past the last column of the
+// given bounds, for use by callers that don't know them: see toWithin.
+func (cs *Cursor) forgetPast(bounds ansi.Rectangle) {
+	if cs.X >= bounds.Max.X {
+		cs.Point = ansi.ZP
+	}
+}
+
 // NewLine moves the cursor to the start of the next line, returning the
 // necessary ansi sequence.
 func (cs *Cursor) NewLine() ansi.Seq {
@@ -239,7 +247,11 @@ func (cs *Cursor) applyTo(aw ansiWriter, cur Cursor) (n int, _ Cursor) {
 // given writer. Returns the number of bytes written and the final screen state,
 // which will now equal the receiver state.
 func (sc *Screen) Update(w io.Writer, prior Screen) (int, Screen, error) {
-	return withAnsiScreenWriter(w, prior, sc.update)
+	return withAnsiScreenWriter(w, prior, func(aw ansiWriter, prior Screen) (int, Screen) {
+		n, prior := sc.update(aw, prior)
+		prior.Cursor.forgetPast(sc.Grid.Rect)
+		return n, prior
+	})
 }
 
 func (sc *Screen) update(aw ansiWriter, prior Screen) (int, Screen) {
-- 
2.43.0


From 1770ca2cb55a891d1eb93b7bbf4c72dbb106b953 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:27:58 +0000
Subject: [PATCH 64/67] fix: keep on updating a screen that had no columns for
 a while

---
 grid.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grid.go b/grid.go
index c2c3db4..b14418c 100644
--- a/grid.go
+++ b/grid.go
@@ -18,6 +18,9 @@ type Grid struct {
 // Resize the grid to have room for n cells.
 // Returns true only if the resize was a change, false if it was a no-op.
 func (g *Grid) Resize(size image.Point) bool {
+	if size.X == 0 || size.Y == 0 {
+		size = image.ZP // there are no cells, whatever the other dimension
+	}
 	if size == g.Rect.Size() {
 		return false
 	}
-- 
2.43.0


From 2c116d2bfb999f58eab072a2233a165d01ec593c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:31:11 +0000
Subject: [PATCH 65/67] fix: HUD survives a screen that has no cells

---
 x/platform/hud.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index c7bc7af..2edca01 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -66,8 +66,6 @@ func (hud *HUD) nextID() UIID {
 
 // Update the HUD (only if visible).
 func (hud *HUD) Update(ctx *Context, client Client) error {
-	outBounds := ctx.Output.Bounds()
-
 	hud.uicur = 0
 
 	if m, have := ctx.Input.LastMouse(false); have {
@@ -89,6 +87,11 @@ func (hud *HUD) Update(ctx *Context, client Client) error {
 		return err
 	}
 
+	outBounds := ctx.Output.Bounds()
+	if outBounds.Empty() {
+		return err // there's nowhere to draw
+	}
+
 	// TODO why is input broken?
 
 	ctx.Output.WriteESC(ansi.DECSC)
-- 
2.43.0


From d8810574eaff048dbabb61bd666c1bae81ad328a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:40:13 +0000
Subject: [PATCH 66/67] fix: EditLine survives a screen that has no cells

---
 x/platform/editline.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/platform/editline.go b/x/platform/editline.go
index 163c7f0..aedb4df 100644
--- a/x/platform/editline.go
+++ b/x/platform/editline.go
@@ -67,6 +67,10 @@ func (edl *EditLine) Update(ctx *Context) {
 		return
 	}
 
+	if !edl.Box.Min.Valid() {
+		return // there's nowhere to draw, e.g. on a screen that has no cells
+	}
+
 	// TODO clamp to box, showing cursor
 	n := utf8.RuneCount(edl.Buf)
 
-- 
2.43.0


From 96059eb759645cc7c72e83f0c9288c641d5318f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:54 +0000
Subject: [PATCH 67/67] fix: Events.DecodeBytes after a canceled escape
 sequence

It added an event for the rune U+FFFD when nothing came after it, and took
the escape sequence after it apart into runes.
---
 x/platform/event.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/platform/event.go b/x/platform/event.go
index 821137c..0825c8f 100644
--- a/x/platform/event.go
+++ b/x/platform/event.go
@@ -190,6 +190,9 @@ func (es *Events) DecodeBytes(b []byte) {
 		e, a, n := ansi.DecodeEscape(b)
 		b = b[n:]
 		if e == 0 {
+			if n > 0 {
+				continue // a sequence was canceled, there may be another one after it
+			}
 			r, n := utf8.DecodeRune(b)
 			b = b[n:]
 			e = ansi.Escape(r)
-- 
2.43.0

