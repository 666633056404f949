From 4f438b586e1e31b117b0c1909e606de4871f5c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:44 +0000
Subject: [PATCH 01/41] fix: undo of SWAPCHAR at the end of the line panicked

The undo record named the cursor as its position although the two swapped
characters stand before it, so undoing the swap deleted beyond the end of
the line.
---
 gommand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gommand.go b/gommand.go
index 165599a..7845c47 100644
--- a/gommand.go
+++ b/gommand.go
@@ -362,7 +362,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 			return CONTINUE
 		}
 		u := &_Undo{
-			pos:  this.Cursor,
+			pos:  this.Cursor - 2,
 			del:  2,
 			text: cell2string(this.Buffer[this.Cursor-2 : this.Cursor]),
 		}
-- 
2.43.0


From c1efabcf13670f9f28fa3717549a1b1e22c2b19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:47 +0000
Subject: [PATCH 02/41] fix: panic when a character is wider than the view

ResetViewStart moved ViewStart behind the cursor when the character under
the cursor did not fit in the view, and painting then sliced the view with
a negative length.
---
 buffer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/buffer.go b/buffer.go
index 00418e4..d5ba452 100644
--- a/buffer.go
+++ b/buffer.go
@@ -155,8 +155,9 @@ func (B *Buffer) ResetViewStart() {
 	for i := 0; i <= B.Cursor && i < len(B.Buffer); i++ {
 		w += B.Buffer[i].Moji.Width()
 		for w >= B.ViewWidth() {
-			if B.ViewStart >= len(B.Buffer) {
-				// When standard output is redirected.
+			if B.ViewStart >= B.Cursor {
+				// When standard output is redirected
+				// or no character fits in the view.
 				return
 			}
 			w -= B.Buffer[B.ViewStart].Moji.Width()
-- 
2.43.0


From 723b973555aaf976fe96fc425912835edcfac865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:49 +0000
Subject: [PATCH 03/41] fix: edits to the oldest history entry were lost when
 cycling

With HistoryCycling, PREVIOUS_HISTORY moved the history pointer before the
modified line was saved, so the edited oldest entry was stored under a
position that is never read.
---
 history.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/history.go b/history.go
index fda3c69..49b84e0 100644
--- a/history.go
+++ b/history.go
@@ -48,13 +48,13 @@ func cmdPreviousHistory(ctx context.Context, this *Buffer) Result {
 	if this.History.Len() <= 0 {
 		return CONTINUE
 	}
+	this.saveModifiedHistory()
 	if this.historyPointer <= 0 {
 		if !this.HistoryCycling {
 			return CONTINUE
 		}
 		this.historyPointer = this.History.Len() + 1
 	}
-	this.saveModifiedHistory()
 	this.historyPointer--
 	CmdKillWholeLine.Func(ctx, this)
 	if s := this.getHistory(); s != "" {
-- 
2.43.0


From 0c8ee135eb830eaa41e4a507594c0c65facd4e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:51 +0000
Subject: [PATCH 04/41] fix: a history entry edited back to its recorded text
 showed the old edit

The text saved at the earlier visit was kept when the line had become equal
to the recorded entry again, and came back at the next visit.
---
 history.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/history.go b/history.go
index 49b84e0..f027054 100644
--- a/history.go
+++ b/history.go
@@ -25,6 +25,7 @@ var CmdPreviousHistory = NewGoCommand("PREVIOUS_HISTORY", cmdPreviousHistory)
 func (B *Buffer) saveModifiedHistory() {
 	s := B.String()
 	if B.historyPointer < B.History.Len() && B.History.At(B.historyPointer) == s {
+		delete(B.modifiedHistory, B.historyPointer)
 		return
 	}
 	if B.modifiedHistory == nil {
-- 
2.43.0


From 7cffeb5e8e79bf39c2d071ce3b6ce7cdb6ee2f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:53 +0000
Subject: [PATCH 05/41] fix: BindKeySymbol looked up the key name as function
 name

It searched the function list for the key's name, so every call failed
unless both names were the same.
---
 nameutils/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nameutils/main.go b/nameutils/main.go
index cf31273..2699bb2 100644
--- a/nameutils/main.go
+++ b/nameutils/main.go
@@ -25,7 +25,7 @@ func GetFunc(name string) (readline.Command, error) {
 }
 
 func BindKeySymbol(km *readline.KeyMap, key, funcName string) error {
-	f, err := GetFunc(key)
+	f, err := GetFunc(funcName)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d43a6197fac689bd36590f09e26482d8bed96d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:55 +0000
Subject: [PATCH 06/41] fix: CTRL_DOWN and M_BACKSPACE named the keys without
 modifier

---
 keys/naming.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keys/naming.go b/keys/naming.go
index f01d15d..d177246 100644
--- a/keys/naming.go
+++ b/keys/naming.go
@@ -9,7 +9,7 @@ var NameToCode = map[string]Code{
 	"CLEAR":       Clear,
 	"CTRL":        Ctrl,
 	"CTRL_BREAK":  CtrlBreak,
-	"CTRL_DOWN":   Down,
+	"CTRL_DOWN":   CtrlDown,
 	"C_A":         CtrlA,
 	"C_B":         CtrlB,
 	"C_C":         CtrlC,
@@ -77,7 +77,7 @@ var NameToCode = map[string]Code{
 	"LEFT":        Left,
 	"M_A":         AltA,
 	"M_B":         AltB,
-	"M_BACKSPACE": Backspace,
+	"M_BACKSPACE": ALTBackspace,
 	"M_C":         AltC,
 	"M_D":         AltD,
 	"M_E":         AltE,
-- 
2.43.0


From 472b92d533133928a0fc67900c6119731fb6adbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:58 +0000
Subject: [PATCH 07/41] fix: ColorSequence.WriteTo did not count the bytes of
 the introducer

The number returned left out the two bytes of ESC [, and an error of an
earlier write was dropped when the last write succeeded.
---
 color.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/color.go b/color.go
index 642dd0f..13f041b 100644
--- a/color.go
+++ b/color.go
@@ -102,15 +102,18 @@ func (c ColorSequence) WriteTo(w io.Writer) (int64, error) {
 	if c <= 0 {
 		return 0, nil
 	}
-	n := int64(0)
-	io.WriteString(w, "\x1B[")
+	_n, err := io.WriteString(w, "\x1B[")
+	n := int64(_n)
+	if err != nil {
+		return n, err
+	}
 	count := c & colorCodeMask
 	for {
 		c >>= colorCodeBitSize
-		_n, err := fmt.Fprintf(w, "%d", c&colorCodeMask)
+		_n, err = fmt.Fprintf(w, "%d", c&colorCodeMask)
 		n += int64(_n)
 		if err != nil {
-			break
+			return n, err
 		}
 		count--
 		if count <= 0 {
@@ -119,10 +122,10 @@ func (c ColorSequence) WriteTo(w io.Writer) (int64, error) {
 		_n, err = w.Write([]byte{';'})
 		n += int64(_n)
 		if err != nil {
-			break
+			return n, err
 		}
 	}
-	_n, err := w.Write([]byte{'m'})
+	_n, err = w.Write([]byte{'m'})
 	n += int64(_n)
 	return n, err
 }
-- 
2.43.0


From 0299cf252acaf7559a90dd080da0b5de2fab219c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:04 +0000
Subject: [PATCH 08/41] fix: ZERO WIDTH NON-JOINER was rewritten as ZERO WIDTH
 JOINER

U+200C was taken for the joiner, and the sequence wrote U+200D in its place,
so that a pasted or recalled text came back changed.
---
 internal/moji/moji.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 8b5a5bd..9dd3bb3 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -2,7 +2,6 @@ package moji
 
 import (
 	"io"
-	"unicode"
 	"unicode/utf8"
 )
 
@@ -138,7 +137,7 @@ func (s _VariationSequence) PrintTo(w io.Writer) {
 const zeroWidthJoinRune = '\u200D'
 
 func isZeroWidthJoin(r rune) bool {
-	return ZeroWidthJoinSequenceOk && unicode.Is(unicode.Join_Control, r)
+	return ZeroWidthJoinSequenceOk && r == zeroWidthJoinRune
 }
 
 func AreZeroWidthJoin(s string) bool {
-- 
2.43.0


From cad6e80d55e43d93632f516f7876213f304a927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:07 +0000
Subject: [PATCH 09/41] fix: a text ending with ZERO WIDTH JOINER got U+FFFD
 appended

The character to join was decoded from the empty rest of the string.
---
 internal/moji/moji.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 9dd3bb3..4925529 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -157,8 +157,7 @@ func StringToMoji(s string) []Moji {
 		s = s[size:]
 
 		if last != nil {
-			if isZeroWidthJoin(r) {
-				next, nextsize := utf8.DecodeRuneInString(s)
+			if next, nextsize := utf8.DecodeRuneInString(s); isZeroWidthJoin(r) && nextsize > 0 {
 				s = s[nextsize:]
 
 				last = _ZeroWidthJoinSequence([...]Moji{last, _RawCodePoint(next)})
@@ -191,8 +190,7 @@ func MojiWidthAndCountInString(s string) (width WidthT, count int) {
 		s = s[size:]
 
 		if last != nil {
-			if isZeroWidthJoin(r) {
-				next, nextsize := utf8.DecodeRuneInString(s)
+			if next, nextsize := utf8.DecodeRuneInString(s); isZeroWidthJoin(r) && nextsize > 0 {
 				s = s[nextsize:]
 
 				width -= lastWidth
-- 
2.43.0


From def870e59416646929fa57c2d81bce2d7d74b354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:09 +0000
Subject: [PATCH 10/41] fix: control characters in emoji sequences were sent to
 the terminal

A control character followed by a variation selector or a skin tone, or
behind a ZERO WIDTH JOINER, became a part of the sequence, which is printed
as is. A pasted text could thus send escape sequences to the terminal.
Control characters are now always units of their own.
---
 internal/moji/moji.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 4925529..7bced79 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -2,6 +2,7 @@ package moji
 
 import (
 	"io"
+	"unicode"
 	"unicode/utf8"
 )
 
@@ -157,7 +158,7 @@ func StringToMoji(s string) []Moji {
 		s = s[size:]
 
 		if last != nil {
-			if next, nextsize := utf8.DecodeRuneInString(s); isZeroWidthJoin(r) && nextsize > 0 {
+			if next, nextsize := utf8.DecodeRuneInString(s); isZeroWidthJoin(r) && nextsize > 0 && !unicode.IsControl(next) {
 				s = s[nextsize:]
 
 				last = _ZeroWidthJoinSequence([...]Moji{last, _RawCodePoint(next)})
@@ -178,6 +179,10 @@ func StringToMoji(s string) []Moji {
 		last = rune2moji(r, pos)
 		pos += int(last.Width())
 		mojis = append(mojis, last)
+		if unicode.IsControl(r) {
+			// it must not become a part of a sequence, which is printed as is
+			last = nil
+		}
 	}
 	return mojis
 }
@@ -190,7 +195,7 @@ func MojiWidthAndCountInString(s string) (width WidthT, count int) {
 		s = s[size:]
 
 		if last != nil {
-			if next, nextsize := utf8.DecodeRuneInString(s); isZeroWidthJoin(r) && nextsize > 0 {
+			if next, nextsize := utf8.DecodeRuneInString(s); isZeroWidthJoin(r) && nextsize > 0 && !unicode.IsControl(next) {
 				s = s[nextsize:]
 
 				width -= lastWidth
@@ -218,6 +223,9 @@ func MojiWidthAndCountInString(s string) (width WidthT, count int) {
 		lastWidth = last.Width()
 		width += lastWidth
 		count++
+		if unicode.IsControl(r) {
+			last = nil
+		}
 	}
 	return
 }
-- 
2.43.0


From fe64a08b82381d9611e3173e5673d2d88bc57188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:36 +0000
Subject: [PATCH 11/41] fix: wrong width of a tab behind an emoji sequence

StringToMoji did not count the columns that a joined character, a variation
selector or a skin tone adds, so that a tab behind it got a width other than
the one GetStringWidth reports for the same text.
---
 internal/moji/moji.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 7bced79..8fd3b24 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -153,6 +153,7 @@ func StringToMoji(s string) []Moji {
 	mojis := make([]Moji, 0, len(s))
 	var last Moji
 	pos := 0
+	lastPos := 0
 	for len(s) > 0 {
 		r, size := utf8.DecodeRuneInString(s)
 		s = s[size:]
@@ -163,19 +164,23 @@ func StringToMoji(s string) []Moji {
 
 				last = _ZeroWidthJoinSequence([...]Moji{last, _RawCodePoint(next)})
 				mojis[len(mojis)-1] = last
+				pos = lastPos + int(last.Width())
 				continue
 			}
 			if isVariationSelectorLike(r) {
 				last = _VariationSequence([...]Moji{last, _RawCodePoint(r)})
 				mojis[len(mojis)-1] = last
+				pos = lastPos + int(last.Width())
 				continue
 			}
 			if isEmojiModifier(r) {
 				last = _ModifierSequence([...]Moji{last, _RawCodePoint(r)})
 				mojis[len(mojis)-1] = last
+				pos = lastPos + int(last.Width())
 				continue
 			}
 		}
+		lastPos = pos
 		last = rune2moji(r, pos)
 		pos += int(last.Width())
 		mojis = append(mojis, last)
-- 
2.43.0


From 301f2cfb5c507ee392a730b49346fc6f1abc4513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:39 +0000
Subject: [PATCH 12/41] fix: panic at a tab beyond column 32767

The position of a tab is kept in 16 bits and is negative there, and the
remainder of a negative number was used as an index.
---
 internal/moji/codepoint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/moji/codepoint.go b/internal/moji/codepoint.go
index cbb3c04..c921610 100644
--- a/internal/moji/codepoint.go
+++ b/internal/moji/codepoint.go
@@ -12,11 +12,11 @@ type Tab struct {
 }
 
 func (t *Tab) Width() WidthT {
-	return WidthT(4 - t.pos%4)
+	return WidthT(4 - t.pos&3)
 }
 
 func (t *Tab) PrintTo(w io.Writer) {
-	io.WriteString(w, "    "[t.pos%4:])
+	io.WriteString(w, "    "[t.pos&3:])
 }
 
 func (t *Tab) WriteTo(w io.Writer) (int64, error) {
-- 
2.43.0


From fc90d3b546795fae19e10ceb1875d7c5e879a91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:41 +0000
Subject: [PATCH 13/41] fix: tabs did not separate words

MojiToRune did not know the tab, so that word motions, word rubout and
CurrentWord took a tab for a part of the word.
---
 internal/moji/codepoint.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/moji/codepoint.go b/internal/moji/codepoint.go
index c921610..22fe091 100644
--- a/internal/moji/codepoint.go
+++ b/internal/moji/codepoint.go
@@ -147,6 +147,8 @@ func rune2moji(ch rune, pos int) Moji {
 
 func MojiToRune(m Moji) (rune, bool) {
 	switch r := m.(type) {
+	case *Tab:
+		return '\t', true
 	case _RawCodePoint:
 		return rune(r), true
 	case _CtrlCodePoint:
-- 
2.43.0


From baabe45df900e03c7c242348305f35d9e45f3a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:44 +0000
Subject: [PATCH 14/41] fix: CurrentWord dropped emoji sequences at the top of
 the word

---
 buffer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/buffer.go b/buffer.go
index d5ba452..96dc42c 100644
--- a/buffer.go
+++ b/buffer.go
@@ -202,6 +202,8 @@ func (B *Buffer) CurrentWordTop() (wordTop int) {
 			} else if wordTop < 0 {
 				wordTop = i
 			}
+		} else if wordTop < 0 {
+			wordTop = i
 		}
 	}
 	if wordTop < 0 {
-- 
2.43.0


From 9466b128141a5a51ce9be3340479930c684f64e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:46 +0000
Subject: [PATCH 15/41] fix: Coloring got the cursor movements of emoji
 sequences as characters

The characters of a sequence were taken from its printed form, which
contains spaces, backspaces and escape sequences.
---
 repaints.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repaints.go b/repaints.go
index 36151a8..dd7d8b4 100644
--- a/repaints.go
+++ b/repaints.go
@@ -27,7 +27,7 @@ func (B *Buffer) refreshColor() ColorSequence {
 		} else if codepoint, ok := moji.MojiToRune(cell.Moji); ok {
 			B.Buffer[i].color = ColorSequence(B.Coloring.Next(codepoint))
 		} else {
-			cell.Moji.PrintTo(&tmpbuf)
+			cell.Moji.WriteTo(&tmpbuf)
 			var cs ColorSequence
 			for _, c := range tmpbuf.String() {
 				cs = ColorSequence(B.Coloring.Next(c))
-- 
2.43.0


From d584c3bc367fc8e1a2a1b6f3c7cc62d137c26dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:13 +0000
Subject: [PATCH 16/41] fix: file completion of an empty word panicked

A line holding only a quotation mark makes the word to complete empty, and
its last byte was looked at. The entries of the current directory are now
offered.
---
 completion/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/completion/file.go b/completion/file.go
index e5e0ff9..1d37168 100644
--- a/completion/file.go
+++ b/completion/file.go
@@ -29,7 +29,7 @@ func (File) List(field []string) (fullnames []string, basenames []string) {
 	}
 	target := field[len(field)-1]
 	var dir, base string
-	if tail := target[len(target)-1]; tail == os.PathSeparator || tail == '/' {
+	if tail := len(target) - 1; tail < 0 || target[tail] == os.PathSeparator || target[tail] == '/' {
 		base = ""
 		dir = target
 	} else {
-- 
2.43.0


From 7af44175c42596c7f9ae8bfa18e21f966c80e9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:15 +0000
Subject: [PATCH 17/41] fix: file completion never ended when the only
 candidate was an empty directory

---
 completion/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/completion/file.go b/completion/file.go
index 1d37168..7b90da7 100644
--- a/completion/file.go
+++ b/completion/file.go
@@ -79,7 +79,7 @@ func (File) List(field []string) (fullnames []string, basenames []string) {
 			fullnames = append(fullnames, full)
 			basenames = append(basenames, name)
 		}
-		if len(fullnames) != 1 || !strings.HasSuffix(fullnames[0], sep) {
+		if len(fullnames) != 1 || !strings.HasSuffix(fullnames[0], sep) || dir == fullnames[0] {
 			return
 		}
 		base = ""
-- 
2.43.0


From e996596f0312a168382f67b131bffef709ceba1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:16 +0000
Subject: [PATCH 18/41] fix: completion cut the common prefix within a
 character or panicked

The prefix was measured in bytes of one candidate and cut from another one,
although letters that differ only in case may differ in length.
---
 completion/main.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/completion/main.go b/completion/main.go
index 541ccaf..3127dc0 100644
--- a/completion/main.go
+++ b/completion/main.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/nyaosorg/go-box/v2"
 	rl "github.com/nyaosorg/go-readline-ny"
@@ -55,7 +56,15 @@ func commonPrefix(list []string) string {
 			minimumIndex = index + 1
 		}
 	}
-	return list[minimumIndex][:len(common)]
+	// the same letter in the other case may have another length in bytes
+	rest := utf8.RuneCountInString(common)
+	for i := range list[minimumIndex] {
+		if rest <= 0 {
+			return list[minimumIndex][:i]
+		}
+		rest--
+	}
+	return list[minimumIndex]
 }
 
 func removeQuotes(s, q string) string {
-- 
2.43.0


From f3dd2b0948e55a23515361bc5682f211dfd339fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:18 +0000
Subject: [PATCH 19/41] fix: tty10 tore a character apart when it came in two
 reads

---
 tty10/main.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tty10/main.go b/tty10/main.go
index 9b46d6d..d6796dd 100644
--- a/tty10/main.go
+++ b/tty10/main.go
@@ -67,6 +67,17 @@ func (M *Tty) GetKey() (string, error) {
 			return "", err
 		}
 	}
+	// the last character may have been read in part only
+	for !utf8.FullRune(M.buf) {
+		rest, err := M.getKey()
+		if err != nil {
+			return "", err
+		}
+		if len(rest) <= 0 {
+			break
+		}
+		M.buf = append(M.buf, rest...)
+	}
 	var result string
 	r, size := utf8.DecodeRune(M.buf)
 	if r == '\x1B' {
-- 
2.43.0


From 9bf91973c67d843db0595d15490ffeb469d4c505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:20 +0000
Subject: [PATCH 20/41] fix: closing tty10 a second time panicked

---
 tty10/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tty10/main.go b/tty10/main.go
index d6796dd..1cb8b9d 100644
--- a/tty10/main.go
+++ b/tty10/main.go
@@ -94,6 +94,7 @@ func (M *Tty) Close() error {
 	if M.done != nil {
 		M.done <- struct{}{}
 		close(M.done)
+		M.done = nil
 	}
 	if M.disable != nil {
 		M.disable()
-- 
2.43.0


From 76f0988ecd337ac26b282c71bbfc3051b73c507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:42 +0000
Subject: [PATCH 21/41] fix: FORWARD_CHAR over a wide unit painted beyond the
 end of the row

When the line has to scroll, at most two units were dropped on the left,
which is not enough for units of more than two columns (tabs, escaped code
points, emoji sequences).
---
 gommand.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gommand.go b/gommand.go
index 7845c47..6adf997 100644
--- a/gommand.go
+++ b/gommand.go
@@ -137,10 +137,10 @@ func cmdForwardChar(ctx context.Context, this *Buffer) Result {
 	} else {
 		// Right Scroll
 		this.GotoHead()
-		if this.Buffer[this.Cursor].Moji.Width() > this.Buffer[this.ViewStart].Moji.Width() {
+		for w >= this.ViewWidth() && this.ViewStart <= this.Cursor {
+			w -= this.Buffer[this.ViewStart].Moji.Width()
 			this.ViewStart++
 		}
-		this.ViewStart++
 		this.puts(this.Buffer[this.ViewStart : this.Cursor+1])
 		this.eraseline()
 	}
-- 
2.43.0


From 6961b538becd4194847dcb70ec601e95cb8fac87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:44 +0000
Subject: [PATCH 22/41] fix: SWAPCHAR left stale characters and painted beyond
 the row

It scrolled by one unit whatever the widths, painted only the text before
the cursor and erased nothing, so that stale columns and a prediction for
the old text remained on the screen.
---
 gommand.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/gommand.go b/gommand.go
index 6adf997..e628fa7 100644
--- a/gommand.go
+++ b/gommand.go
@@ -368,9 +368,8 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		}
 		this.undoes = append(this.undoes, u)
 		this.Buffer[this.Cursor-2], this.Buffer[this.Cursor-1] = this.Buffer[this.Cursor-1], this.Buffer[this.Cursor-2]
-
-		this.GotoHead()
-		this.puts(this.Buffer[this.ViewStart:this.Cursor])
+		this.ResetViewStart()
+		this.repaint()
 	} else {
 		if this.Cursor < 1 {
 			return CONTINUE
@@ -382,14 +381,10 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		}
 		this.undoes = append(this.undoes, u)
 
-		w := this.GetWidthBetween(this.ViewStart, this.Cursor+1)
 		this.Buffer[this.Cursor-1], this.Buffer[this.Cursor] = this.Buffer[this.Cursor], this.Buffer[this.Cursor-1]
-		this.GotoHead()
-		if w >= this.ViewWidth() {
-			this.ViewStart++
-		}
 		this.Cursor++
-		this.puts(this.Buffer[this.ViewStart:this.Cursor])
+		this.ResetViewStart()
+		this.repaint()
 	}
 	return CONTINUE
 }
-- 
2.43.0


From 382c2c65abeaea6d345761afde244a6d08323d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:46 +0000
Subject: [PATCH 23/41] fix: FORWARD_CHAR appended the prediction for an
 earlier text

KILL_LINE, KILL_WHOLE_LINE and the history commands change the text without
asking the predictor again, and the stale suggestion was inserted.
---
 gommand.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gommand.go b/gommand.go
index e628fa7..c21cec6 100644
--- a/gommand.go
+++ b/gommand.go
@@ -121,6 +121,7 @@ var CmdForwardChar = NewGoCommand("FORWARD_CHAR", cmdForwardChar)
 
 func cmdForwardChar(ctx context.Context, this *Buffer) Result {
 	if this.Cursor >= len(this.Buffer) {
+		this.updateSuffix() // some commands change the text without repainting
 		if len(this.suffix) > 0 {
 			var s strings.Builder
 			for _, c := range this.suffix {
-- 
2.43.0


From b22104ed13f78320557abbf8180b2536fbd93979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:06 +0000
Subject: [PATCH 24/41] fix: END_OF_LINE on an empty line panicked when the
 terminal has no width

---
 gommand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gommand.go b/gommand.go
index c21cec6..42613aa 100644
--- a/gommand.go
+++ b/gommand.go
@@ -91,7 +91,7 @@ var CmdEndOfLine = NewGoCommand("END_OF_LINE", cmdEndOfLine)
 
 func cmdEndOfLine(ctx context.Context, this *Buffer) Result {
 	allength := this.GetWidthBetween(this.ViewStart, len(this.Buffer))
-	if allength < this.ViewWidth() {
+	if allength < this.ViewWidth() || len(this.Buffer) <= 0 {
 		this.puts(this.Buffer[this.Cursor:])
 		this.Cursor = len(this.Buffer)
 	} else {
-- 
2.43.0


From 5c88fb11b436c21b4cb9466fd8ed88fed904299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:08 +0000
Subject: [PATCH 25/41] fix: a character was lost when a command key followed
 ZERO WIDTH JOINER

The joiner takes the character before it out of the line until the next
character is typed. Any other key, Enter included, dropped it, and a second
joiner or a variation selector mixed up the order. It is now put back.
---
 gommand.go | 8 ++++----
 main.go    | 6 ++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/gommand.go b/gommand.go
index 42613aa..8315ebf 100644
--- a/gommand.go
+++ b/gommand.go
@@ -201,7 +201,10 @@ func (s SelfInserter) Call(ctx context.Context, this *Buffer) Result {
 	if len(keys) == 2 && keys[0] == '\x1B' { // for AltGr-shift
 		keys = keys[1:]
 	}
-	if moji.AreZeroWidthJoin(keys) && this.Cursor > 0 {
+	if len(this.pending) > 0 {
+		keys = this.pending + keys
+		this.pending = ""
+	} else if moji.AreZeroWidthJoin(keys) && this.Cursor > 0 {
 		this.pending = mojiAndStringToString(
 			this.Buffer[this.Cursor-1].Moji,
 			keys)
@@ -210,9 +213,6 @@ func (s SelfInserter) Call(ctx context.Context, this *Buffer) Result {
 		baseMoji := this.Buffer[this.Cursor-1].Moji
 		CmdBackwardDeleteChar.Func(ctx, this)
 		keys = mojiAndStringToString(baseMoji, keys)
-	} else if len(this.pending) > 0 {
-		keys = this.pending + keys
-		this.pending = ""
 	}
 
 	mojis := this.insertString(this.Cursor, keys)
diff --git a/main.go b/main.go
index 93af8e4..8c81af6 100644
--- a/main.go
+++ b/main.go
@@ -219,6 +219,12 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 
 		io.WriteString(buffer.Out, ansiCursorOff)
 
+		if _, ok := f.(SelfInserter); !ok && buffer.pending != "" {
+			// nothing will be joined: put back the character before the joiner
+			text := buffer.pending
+			buffer.pending = ""
+			buffer.InsertAndRepaint(text)
+		}
 		rc := f.Call(ctx, &buffer)
 
 		io.WriteString(buffer.Out, ansiCursorOn)
-- 
2.43.0


From a788b30cc90024b4a342cdf25ac22455df77bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:37 +0000
Subject: [PATCH 26/41] fix: undo panicked or removed wrong characters behind
 emoji sequences

An undo record kept removed units as text. Splitting the text again may give
fewer units than were removed, and the positions in the older records were
then wrong. The units themselves are kept now.
---
 buffer.go  | 12 ++++++++----
 gommand.go | 15 +++++++--------
 isearch.go |  2 +-
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/buffer.go b/buffer.go
index 96dc42c..82bf568 100644
--- a/buffer.go
+++ b/buffer.go
@@ -13,7 +13,7 @@ const forbiddenWidth WidthT = 3 // = lastcolumn(1) and FULLWIDTHCHAR-SIZE(2)
 type _Undo struct {
 	pos  int
 	del  int
-	text string
+	text []Cell
 }
 
 type Cell struct {
@@ -117,6 +117,10 @@ func mojis2cells(mojis []Moji) []Cell {
 	return cells
 }
 
+func cloneCells(cells []Cell) []Cell {
+	return append([]Cell{}, cells...)
+}
+
 func (B *Buffer) insertString(pos int, s string) _Range {
 	list := mojis2cells(StringToMoji(s))
 	B.insert(pos, list)
@@ -138,7 +142,7 @@ func (B *Buffer) Delete(pos int, n int) WidthT {
 	}
 	u := &_Undo{
 		pos:  pos,
-		text: cell2string(B.Buffer[pos : pos+n]),
+		text: cloneCells(B.Buffer[pos : pos+n]),
 	}
 	B.undoes = append(B.undoes, u)
 
@@ -227,13 +231,13 @@ func (B *Buffer) joinUndo() {
 	if u1.pos != u2.pos {
 		return
 	}
-	if u1.text != "" && u2.text != "" {
+	if len(u1.text) > 0 && len(u2.text) > 0 {
 		return
 	}
 	if u1.del != 0 && u2.del != 0 {
 		return
 	}
-	if u1.text == "" {
+	if len(u1.text) <= 0 {
 		u1.text = u2.text
 	}
 	if u1.del == 0 {
diff --git a/gommand.go b/gommand.go
index 8315ebf..ed22807 100644
--- a/gommand.go
+++ b/gommand.go
@@ -238,7 +238,7 @@ func cmdKillLine(ctx context.Context, this *Buffer) Result {
 	this.eraseline()
 	u := &_Undo{
 		pos:  this.Cursor,
-		text: cell2string(this.Buffer[this.Cursor:]),
+		text: cloneCells(this.Buffer[this.Cursor:]),
 	}
 	this.undoes = append(this.undoes, u)
 	this.Buffer = this.Buffer[:this.Cursor]
@@ -251,7 +251,7 @@ var CmdKillWholeLine = NewGoCommand("KILL_WHOLE_LINE", cmdKillWholeLine)
 func cmdKillWholeLine(ctx context.Context, this *Buffer) Result {
 	u := &_Undo{
 		pos:  0,
-		text: cell2string(this.Buffer),
+		text: cloneCells(this.Buffer),
 	}
 	this.undoes = append(this.undoes, u)
 	this.GotoHead()
@@ -365,7 +365,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		u := &_Undo{
 			pos:  this.Cursor - 2,
 			del:  2,
-			text: cell2string(this.Buffer[this.Cursor-2 : this.Cursor]),
+			text: cloneCells(this.Buffer[this.Cursor-2 : this.Cursor]),
 		}
 		this.undoes = append(this.undoes, u)
 		this.Buffer[this.Cursor-2], this.Buffer[this.Cursor-1] = this.Buffer[this.Cursor-1], this.Buffer[this.Cursor-2]
@@ -378,7 +378,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		u := &_Undo{
 			pos:  this.Cursor - 1,
 			del:  2,
-			text: cell2string(this.Buffer[this.Cursor-1 : this.Cursor+1]),
+			text: cloneCells(this.Buffer[this.Cursor-1 : this.Cursor+1]),
 		}
 		this.undoes = append(this.undoes, u)
 
@@ -447,10 +447,9 @@ func cmdUndo(ctx context.Context, this *Buffer) Result {
 	if u.del > 0 {
 		this.Buffer = sliceDelete(this.Buffer, u.pos, u.del)
 	}
-	if u.text != "" {
-		cells := mojis2cells(StringToMoji(u.text))
-		this.Buffer = sliceInsert(this.Buffer, u.pos, cells...)
-		this.Cursor = u.pos + len(cells)
+	if len(u.text) > 0 {
+		this.Buffer = sliceInsert(this.Buffer, u.pos, u.text...)
+		this.Cursor = u.pos + len(u.text)
 	} else {
 		this.Cursor = u.pos
 	}
diff --git a/isearch.go b/isearch.go
index e983554..3fb488f 100644
--- a/isearch.go
+++ b/isearch.go
@@ -74,7 +74,7 @@ func cmdISearchBackward(ctx context.Context, this *Buffer) Result {
 			this.ViewStart = 0
 			u := &_Undo{
 				pos:  0,
-				text: cell2string(this.Buffer),
+				text: cloneCells(this.Buffer),
 			}
 			this.undoes = append(this.undoes, u)
 			this.Buffer = this.Buffer[:0]
-- 
2.43.0


From a28731ae1f50e4e6656fbcda1bd1778fd27a3084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:52 +0000
Subject: [PATCH 27/41] fix: undo of a yank also undid the kill at the same
 place

An insertion was merged with the previous undo record even when that was a
deletion made by an earlier command, so that undo right after KILL_LINE and
YANK changed nothing.
---
 isearch.go  | 1 +
 repaints.go | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/isearch.go b/isearch.go
index 3fb488f..9775ac5 100644
--- a/isearch.go
+++ b/isearch.go
@@ -80,6 +80,7 @@ func cmdISearchBackward(ctx context.Context, this *Buffer) Result {
 			this.Buffer = this.Buffer[:0]
 			this.Cursor = 0
 			this.ReplaceAndRepaint(0, foundStr)
+			this.joinUndo()
 			return CONTINUE
 		case "\x03", "\x07", "\x1B":
 			all, left, _ := this.getView2()
diff --git a/repaints.go b/repaints.go
index dd7d8b4..cb56b3e 100644
--- a/repaints.go
+++ b/repaints.go
@@ -88,11 +88,14 @@ func (B *Buffer) DrawFromHead() {
 // ReplaceAndRepaint replaces the string between `pos` and cursor's position to `str`
 func (B *Buffer) ReplaceAndRepaint(pos int, str string) {
 	// Replace Buffer
-	B.Delete(pos, B.Cursor-pos)
+	n := B.Cursor - pos
+	B.Delete(pos, n)
 
 	// Define ViewStart , Cursor
 	B.Cursor = pos + B.InsertString(pos, str)
-	B.joinUndo() // merge delete and insert
+	if n > 0 {
+		B.joinUndo() // merge delete and insert
+	}
 	B.ResetViewStart()
 	B.repaint()
 }
-- 
2.43.0


From fe9312e12e413a3eb8672f7d8d6c8f5b53c6c76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:55 +0000
Subject: [PATCH 28/41] fix: undo of a variation selector or skin tone removed
 the character before it

The character is taken out and put back together with the selector, which
made two undo records. One undo left the line without the character.
---
 gommand.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gommand.go b/gommand.go
index ed22807..e48bc97 100644
--- a/gommand.go
+++ b/gommand.go
@@ -201,6 +201,7 @@ func (s SelfInserter) Call(ctx context.Context, this *Buffer) Result {
 	if len(keys) == 2 && keys[0] == '\x1B' { // for AltGr-shift
 		keys = keys[1:]
 	}
+	replaced := false
 	if len(this.pending) > 0 {
 		keys = this.pending + keys
 		this.pending = ""
@@ -213,9 +214,13 @@ func (s SelfInserter) Call(ctx context.Context, this *Buffer) Result {
 		baseMoji := this.Buffer[this.Cursor-1].Moji
 		CmdBackwardDeleteChar.Func(ctx, this)
 		keys = mojiAndStringToString(baseMoji, keys)
+		replaced = true
 	}
 
 	mojis := this.insertString(this.Cursor, keys)
+	if replaced {
+		this.joinUndo()
+	}
 	lenMoji := len(mojis)
 
 	w := this.GetWidthBetween(this.ViewStart, this.Cursor)
-- 
2.43.0


From 1c1db092b649d0a76da2a5f5a22784350d9f9fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:57 +0000
Subject: [PATCH 29/41] fix: the view was laid out with outdated widths of tabs

The width of a tab was adjusted to its position only while painting, after
the part of the line that fits in the row had been determined. The row
could wrap and the cursor be misplaced.
---
 buffer.go  | 14 ++++++++++++++
 gommand.go |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/buffer.go b/buffer.go
index 82bf568..eb3e394 100644
--- a/buffer.go
+++ b/buffer.go
@@ -99,8 +99,21 @@ func (B *Buffer) getView2() (all _Range, before _Range, w WidthT) {
 	return v, v[:x], w
 }
 
+// resetTabPosition has to be called when the cells before a tab are changed
+// because the width of the tab depends on its position.
+func (B *Buffer) resetTabPosition() {
+	position := WidthT(0)
+	for _, cell := range B.Buffer {
+		if tab, ok := cell.Moji.(*moji.Tab); ok {
+			tab.SetPosition(int16(position))
+		}
+		position += cell.Moji.Width()
+	}
+}
+
 func (B *Buffer) insert(csrPos int, insStr []Cell) {
 	B.Buffer = sliceInsert(B.Buffer, csrPos, insStr...)
+	B.resetTabPosition()
 
 	u := &_Undo{
 		pos: csrPos,
@@ -148,6 +161,7 @@ func (B *Buffer) Delete(pos int, n int) WidthT {
 
 	delw := B.GetWidthBetween(pos, pos+n)
 	B.Buffer = sliceDelete(B.Buffer, pos, n)
+	B.resetTabPosition()
 	return delw
 }
 
diff --git a/gommand.go b/gommand.go
index e48bc97..4a44f9f 100644
--- a/gommand.go
+++ b/gommand.go
@@ -374,6 +374,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		}
 		this.undoes = append(this.undoes, u)
 		this.Buffer[this.Cursor-2], this.Buffer[this.Cursor-1] = this.Buffer[this.Cursor-1], this.Buffer[this.Cursor-2]
+		this.resetTabPosition()
 		this.ResetViewStart()
 		this.repaint()
 	} else {
@@ -389,6 +390,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 
 		this.Buffer[this.Cursor-1], this.Buffer[this.Cursor] = this.Buffer[this.Cursor], this.Buffer[this.Cursor-1]
 		this.Cursor++
+		this.resetTabPosition()
 		this.ResetViewStart()
 		this.repaint()
 	}
@@ -458,6 +460,7 @@ func cmdUndo(ctx context.Context, this *Buffer) Result {
 	} else {
 		this.Cursor = u.pos
 	}
+	this.resetTabPosition()
 	this.ResetViewStart()
 	this.repaint()
 	return CONTINUE
-- 
2.43.0


From c133cc77ecd25773c78c887d86a8936c69213879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:59 +0000
Subject: [PATCH 30/41] fix: a resize during the start of ReadLine or while
 flushing garbled the screen

The first painting and the flush before waiting for a key ran without the
mutex, so that the resize handler could paint at the same time.
---
 main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 8c81af6..ba41f80 100644
--- a/main.go
+++ b/main.go
@@ -185,9 +185,13 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 	}
 	defer editor.Tty.Close()
 
+	// onResize must not run but while the next key is awaited
+	editor.mutex.Lock()
+
 	var err error
 	buffer.termWidth, _, err = editor.Tty.Size()
 	if err != nil {
+		editor.mutex.Unlock()
 		return "", err
 	}
 
@@ -209,7 +213,9 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 
 	io.WriteString(buffer.Out, ansiCursorOn)
 	for {
-		key, err := buffer.GetKey()
+		buffer.Out.Flush()
+		editor.mutex.Unlock()
+		key, err := editor.Tty.GetKey()
 		if err != nil {
 			return "", err
 		}
@@ -251,6 +257,5 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 				return result, io.EOF
 			}
 		}
-		editor.mutex.Unlock()
 	}
 }
-- 
2.43.0


From 23d354c1566c25cca14ce0f323d233b9d50b0c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:28 +0000
Subject: [PATCH 31/41] fix: print the base of an emoji modifier sequence as
 wide as its width says

A character that is shown as <XXXX> or painted over reserved columns was sent
to the terminal as is when an emoji modifier followed it. The columns printed
then differed from the width the editor counts with.
---
 internal/moji/moji.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 8fd3b24..4905501 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -88,7 +88,8 @@ func (s _ModifierSequence) WriteTo(w io.Writer) (int64, error) {
 }
 
 func (s _ModifierSequence) PrintTo(w io.Writer) {
-	s.WriteTo(w)
+	s[0].PrintTo(w)
+	s[1].PrintTo(w)
 }
 
 type _VariationSequence [2]Moji
-- 
2.43.0


From af8d7c2c8ae142db1f34750e306ba4372709e246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:19 +0000
Subject: [PATCH 32/41] fix: completion behind a space replaced the word before
 the space

---
 completion/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/completion/main.go b/completion/main.go
index 3127dc0..651c9c4 100644
--- a/completion/main.go
+++ b/completion/main.go
@@ -90,7 +90,8 @@ func split(quotes, del string, B *rl.Buffer) (fields []string, lastWordStart int
 			}
 			i++
 			if i >= B.Cursor {
-				return
+				// the word to complete is the empty one behind the space
+				return append(fields, ""), i
 			}
 		}
 		start := i
-- 
2.43.0


From fa75d19734792847c1fe4de457c3389e4df66a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:45 +0000
Subject: [PATCH 33/41] fix: the only candidate was not quoted when no
 delimiters are defined

---
 completion/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/completion/main.go b/completion/main.go
index 651c9c4..d54ba27 100644
--- a/completion/main.go
+++ b/completion/main.go
@@ -164,7 +164,7 @@ func complete(quotes, del string, B *rl.Buffer, C Completion, postfix string) []
 		if strings.EqualFold(fields[len(fields)-1], str) {
 			B.Out.WriteByte('\a')
 		} else {
-			if len(quotes) > 0 && len(del) > 0 && strings.ContainsAny(str, " \t\r\n\v\f"+del) {
+			if len(quotes) > 0 && strings.ContainsAny(str, " \t\r\n\v\f"+del) {
 				str = string(quotes[0]) + str + string(quotes[0])
 			}
 			B.ReplaceAndRepaint(lastWordStart, str+postfix)
-- 
2.43.0


From 3ec48d011a540ddc1e8285393eaae351e0001276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:49 +0000
Subject: [PATCH 34/41] fix: repainting with a prompt too wide left no room for
 the line

---
 main.go     |  6 ++----
 repaints.go | 11 +++++++++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index ba41f80..82c6718 100644
--- a/main.go
+++ b/main.go
@@ -200,10 +200,8 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 		// unable to get prompt-string.
 		fmt.Fprintf(buffer.Out, "%s\n$ ", err.Error())
 		buffer.topColumn = 2
-	} else if buffer.topColumn >= buffer.termWidth-3 {
-		// ViewWidth is too narrow to edit.
-		io.WriteString(buffer.Out, "\n")
-		buffer.topColumn = 0
+	} else {
+		buffer.breakAfterWidePrompt()
 	}
 	buffer.InsertString(0, editor.Default)
 	if buffer.Cursor > len(buffer.Buffer) {
diff --git a/repaints.go b/repaints.go
index cb56b3e..6fac43f 100644
--- a/repaints.go
+++ b/repaints.go
@@ -106,10 +106,21 @@ func (B *Buffer) RepaintAfterPrompt() {
 	B.repaint()
 }
 
+// breakAfterWidePrompt moves the editline to the next row
+// when the prompt leaves no room for it.
+func (B *Buffer) breakAfterWidePrompt() {
+	if B.topColumn >= B.termWidth-3 {
+		// ViewWidth is too narrow to edit.
+		io.WriteString(B.Out, "\n")
+		B.topColumn = 0
+	}
+}
+
 // RepaintAll repaints the all characters in the editline including prompt.
 func (B *Buffer) RepaintAll() {
 	B.Out.Flush()
 	B.topColumn, _ = B.callPromptWriter()
+	B.breakAfterWidePrompt()
 	B.repaint()
 }
 
-- 
2.43.0


From cfc26471ef6cbba22ab016a583ba17d3720dbf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:54 +0000
Subject: [PATCH 35/41] fix: repainting did not notice that the prompt or the
 room for the line has changed

---
 repaints.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/repaints.go b/repaints.go
index 6fac43f..ca27195 100644
--- a/repaints.go
+++ b/repaints.go
@@ -121,7 +121,7 @@ func (B *Buffer) RepaintAll() {
 	B.Out.Flush()
 	B.topColumn, _ = B.callPromptWriter()
 	B.breakAfterWidePrompt()
-	B.repaint()
+	B.RepaintAfterPrompt()
 }
 
 // RepaintLastLine repaints the last line of the prompt and input-line.
@@ -139,5 +139,8 @@ func (B *Buffer) RepaintLastLine() {
 		prompt = strings.ReplaceAll(prompt, "\n", "\r")
 	}
 	B.Out.WriteString(prompt)
-	B.repaint()
+	w, _ := moji.MojiWidthAndCountInString(cutEscapeSequenceAndOldLine(prompt))
+	B.topColumn = int(w)
+	B.breakAfterWidePrompt()
+	B.RepaintAfterPrompt()
 }
-- 
2.43.0


From aa2d7aa085b43c206c21d978f3f42030bcf495cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:09 +0000
Subject: [PATCH 36/41] fix: Delete with a position before the line panicked

---
 buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buffer.go b/buffer.go
index eb3e394..52b7dfb 100644
--- a/buffer.go
+++ b/buffer.go
@@ -150,7 +150,7 @@ func (B *Buffer) InsertString(pos int, s string) int {
 // It returns the width to clear the end of line.
 // It does not update screen.
 func (B *Buffer) Delete(pos int, n int) WidthT {
-	if n <= 0 || len(B.Buffer) < pos+n {
+	if pos < 0 || n <= 0 || len(B.Buffer)-pos < n {
 		return 0
 	}
 	u := &_Undo{
-- 
2.43.0


From 4dcb4af36e182376394f001e04d25f99f18a1453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:11 +0000
Subject: [PATCH 37/41] fix: show the repainted line at once after a resize

The output of the repaint stayed in the buffer until the next key was typed.
---
 main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.go b/main.go
index 82c6718..afcdd73 100644
--- a/main.go
+++ b/main.go
@@ -177,6 +177,7 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 		buffer.termWidth = w
 		buffer.ResetViewStart()
 		buffer.RepaintLastLine()
+		buffer.Out.Flush()
 		editor.mutex.Unlock()
 	}
 
-- 
2.43.0


From 59fe3ff3774d8d4991656793fa96e62d5d5c86ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:15 +0000
Subject: [PATCH 38/41] fix: paint nothing on a resize before the line is shown
 or after it is accepted

A notice that waited for the last command was dealt with after the end of the
session and painted prompt and line once more.  A notice that arrived between
opening the terminal and writing the prompt painted the prompt twice.
---
 main.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index afcdd73..5e08fbc 100644
--- a/main.go
+++ b/main.go
@@ -172,13 +172,18 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 		suffix:         nil, // moji.StringToMoji("$"),
 	}
 
+	editing := false // the line is on the screen
+
 	onResize := func(w int) {
 		editor.mutex.Lock()
+		defer editor.mutex.Unlock()
+		if !editing {
+			return
+		}
 		buffer.termWidth = w
 		buffer.ResetViewStart()
 		buffer.RepaintLastLine()
 		buffer.Out.Flush()
-		editor.mutex.Unlock()
 	}
 
 	if err := editor.Tty.Open(onResize); err != nil {
@@ -195,6 +200,7 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 		editor.mutex.Unlock()
 		return "", err
 	}
+	editing = true
 
 	buffer.topColumn, err = editor.callPromptWriter()
 	if err != nil {
@@ -215,10 +221,12 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 		buffer.Out.Flush()
 		editor.mutex.Unlock()
 		key, err := editor.Tty.GetKey()
+		editor.mutex.Lock()
 		if err != nil {
+			editing = false
+			editor.mutex.Unlock()
 			return "", err
 		}
-		editor.mutex.Lock()
 
 		f := editor.LookupCommand(key)
 
@@ -247,6 +255,7 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 			buffer.Out.Flush()
 
 			result := buffer.String()
+			editing = false
 			editor.mutex.Unlock()
 			if rc == ENTER {
 				return result, nil
-- 
2.43.0


From a0ce768532177dd745c85249b35599b921f88f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:18 +0000
Subject: [PATCH 39/41] fix: restore the terminal when its size cannot be read
 on opening

ReadLine does not close a terminal whose Open failed, so it was left without
echo.
---
 tty8.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tty8.go b/tty8.go
index 2365ac7..9c34fa0 100644
--- a/tty8.go
+++ b/tty8.go
@@ -19,6 +19,7 @@ func (m *_Tty) Open(onResize func(int)) error {
 	}
 	_lastw, _, err := m.TTY.Size()
 	if err != nil {
+		m.Close()
 		return fmt.Errorf("go-tty.Size: %w", err)
 	}
 	ws := m.TTY.SIGWINCH()
-- 
2.43.0


From da5c060a55029b451b6068a0204b18b8f4ee4fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:33:38 +0000
Subject: [PATCH 40/41] fix: completion took a quotation mark of the other kind
 inside quotation marks for an opening one

---
 completion/main.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/completion/main.go b/completion/main.go
index d54ba27..ca4093c 100644
--- a/completion/main.go
+++ b/completion/main.go
@@ -95,12 +95,16 @@ func split(quotes, del string, B *rl.Buffer) (fields []string, lastWordStart int
 			}
 		}
 		start := i
-		bits := 0
+		quote := "" // the quotation mark not closed yet
 		for {
 			c := B.Buffer[i].String()
-			if j := strings.Index(quotes, c); j >= 0 {
-				bits ^= (1 << j)
-			} else if bits == 0 {
+			if strings.Contains(quotes, c) {
+				if quote == "" {
+					quote = c
+				} else if quote == c {
+					quote = ""
+				}
+			} else if quote == "" {
 				if strings.Contains(spaces, c) {
 					fields = append(fields, removeQuotes(B.SubString(start, i), quotes))
 					lastWordStart = start
-- 
2.43.0


From 66593432fd21478596204ba38169e8e7e7cd9952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:33:40 +0000
Subject: [PATCH 41/41] fix: completion missed candidates whose letters have
 another length in the other case

---
 completion/file.go |  5 +----
 completion/main.go | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/completion/file.go b/completion/file.go
index 7b90da7..362c696 100644
--- a/completion/file.go
+++ b/completion/file.go
@@ -64,10 +64,7 @@ func (File) List(field []string) (fullnames []string, basenames []string) {
 			if name == "." || name == ".." {
 				continue
 			}
-			if len(name) < len(base) {
-				continue
-			}
-			if !strings.EqualFold(base, name[:len(base)]) {
+			if !hasPrefixFold(name, base) {
 				continue
 			}
 			// Do not use filepath.Join because it removes "./"
diff --git a/completion/main.go b/completion/main.go
index ca4093c..1598bcc 100644
--- a/completion/main.go
+++ b/completion/main.go
@@ -3,7 +3,6 @@ package completion
 import (
 	"context"
 	"strings"
-	"unicode"
 	"unicode/utf8"
 
 	"github.com/nyaosorg/go-box/v2"
@@ -44,7 +43,7 @@ func commonPrefix(list []string) string {
 				break
 			}
 			fh, _, err := fr.ReadRune()
-			if err != nil || unicode.ToUpper(ch) != unicode.ToUpper(fh) {
+			if err != nil || !strings.EqualFold(string(ch), string(fh)) {
 				break
 			}
 			buffer.WriteRune(ch)
@@ -138,9 +137,22 @@ func hasToInsertQuotation(list []string, spaceAndSoOn string) bool {
 	return false
 }
 
+// hasPrefixFold is strings.HasPrefix under Unicode case-folding. The same letter
+// in the other case may have another length in bytes.
+func hasPrefixFold(s, prefix string) bool {
+	for _, p := range prefix {
+		c, size := utf8.DecodeRuneInString(s)
+		if size <= 0 || !strings.EqualFold(string(c), string(p)) {
+			return false
+		}
+		s = s[size:]
+	}
+	return true
+}
+
 func removeUnmatches(full, base []string, source string) (newFull, newBase []string) {
 	for i, name := range full {
-		if len(name) >= len(source) && strings.EqualFold(source, name[:len(source)]) {
+		if hasPrefixFold(name, source) {
 			newFull = append(newFull, name)
 			newBase = append(newBase, base[i])
 		}
-- 
2.43.0

