From 1f38d5303b4bfb62c735e01121809c628cdf0a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:02 +0000
Subject: [PATCH 01/54] fix: flash: derived handlers no longer share backing
 arrays

WithAttrs and WithGroup appended to the prefix, suffix and groups arrays of the
parent handler, so loggers derived from the same parent overwrote each other's
attributes and group names, also concurrently.
---
 handlers/flash/handler.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 1f6a39b..5e4bcd2 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log/slog"
+	"slices"
 	"sync"
 )
 
@@ -145,7 +146,9 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 	}
 	var prefixStarted bool
 	if len(h.prefix) > 0 {
-		hdlr.prefix = h.prefix
+		// Clipped so that appending never writes into the array of the parent handler,
+		// which may be shared with other handlers derived from it.
+		hdlr.prefix = slices.Clip(h.prefix)
 		if !bytes.HasSuffix(hdlr.prefix, []byte{'{'}) {
 			prefixStarted = true
 		}
@@ -153,7 +156,7 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 		hdlr.prefix = make([]byte, 0, lenPrefix)
 	}
 	if len(h.suffix) > 0 {
-		hdlr.suffix = h.suffix
+		hdlr.suffix = slices.Clip(h.suffix)
 	} else {
 		hdlr.suffix = make([]byte, 0, lenSuffix)
 	}
@@ -178,7 +181,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	if h.options.ReplaceAttr != nil {
 		// Only need this if there is a ReplaceAttr function.
 		// Even then, the function may not care, but we don't know that here.
-		groups = append(h.groups, name)
+		groups = append(slices.Clip(h.groups), name)
 	}
 	hdlr := &group{
 		Handler: &Handler{
@@ -193,22 +196,17 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	}
 	prefixStart := ""
 	if len(h.prefix) > 0 {
-		hdlr.prefix = h.prefix
+		hdlr.prefix = slices.Clip(h.prefix)
 		if !bytes.HasSuffix(h.prefix, []byte{'{'}) {
 			prefixStart = ", "
 		}
 	} else {
 		hdlr.prefix = make([]byte, 0, lenPrefix)
 	}
-	if len(h.suffix) > 0 {
-		hdlr.suffix = h.suffix
-	} else {
-		hdlr.suffix = make([]byte, 0, lenSuffix)
-	}
 	hdlr.prefix = append(hdlr.prefix, []byte(fmt.Sprintf("%s\"%s\": {", prefixStart, name))...)
 	// Should really be prepending the right brace into the suffix,
 	// but suffix only contains right braces, so it doesn't really matter.
-	hdlr.suffix = append(h.suffix, '}')
+	hdlr.suffix = append(slices.Clip(h.suffix), '}')
 	return hdlr
 }
 
-- 
2.43.0


From 6a83b48951f778bcae7f481bc8f1d87ad68fc4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:02 +0000
Subject: [PATCH 02/54] fix: sloggy: derived handlers no longer share the array
 of group names

Loggers that opened different groups from the same parent could see each
other's group name in ReplaceAttr.
---
 handlers/sloggy/handler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 38be0e7..dcaf757 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"log/slog"
 	"runtime"
+	"slices"
 	"sync"
 )
 
@@ -144,7 +145,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 			mutex:   h.mutex,
 			prefix:  bytes.Buffer{},
 			suffix:  bytes.Buffer{},
-			groups:  append(h.groups, name),
+			groups:  append(slices.Clip(h.groups), name),
 		},
 		name:   name,
 		parent: h,
-- 
2.43.0


From fa489c191526fe8a91b3f7bf623e2076ce93ea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:02 +0000
Subject: [PATCH 03/54] fix: sloggy: write each record with a single locked
 call

The pieces of a line were written one by one without the lock, so lines of
concurrent log calls were interleaved, and a value that could not be encoded
left a partial line behind.
---
 handlers/sloggy/handler.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index dcaf757..6f33841 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -40,7 +40,10 @@ func (h *Handler) Enabled(_ context.Context, level slog.Level) bool {
 }
 
 func (h *Handler) Handle(_ context.Context, record slog.Record) error {
-	c := newComposer(h.writer, false, h.options.ReplaceAttr, h.groups)
+	// Compose the whole line first: the writer gets it in a single call, under the lock,
+	// so lines of concurrent calls don't mix and a failed call leaves nothing behind.
+	var line bytes.Buffer
+	c := newComposer(&line, false, h.options.ReplaceAttr, h.groups)
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
@@ -96,11 +99,15 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		return fmt.Errorf("end: %w", err)
 	}
 
+	if _, err := c.Write(newLine); err != nil {
+		return fmt.Errorf("newLine: %w", err)
+	}
+
 	h.mutex.Lock()
 	defer h.mutex.Unlock()
 
-	if _, err := c.Write(newLine); err != nil {
-		return fmt.Errorf("newLine: %w", err)
+	if _, err := h.writer.Write(line.Bytes()); err != nil {
+		return fmt.Errorf("write log line: %w", err)
 	}
 
 	return nil
-- 
2.43.0


From 4b545972f9d53c92fd7d4c2f1ead622d33429b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 04/54] fix: flash, sloggy: do not modify the options of the
 caller

Creating a handler filled in default values in the caller's HandlerOptions,
Extras, and LevelNames, which is a data race when they are shared.
---
 handlers/flash/extras.go   | 6 ++++++
 handlers/flash/handler.go  | 4 ++++
 handlers/sloggy/handler.go | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/handlers/flash/extras.go b/handlers/flash/extras.go
index 3672f86..24731d6 100644
--- a/handlers/flash/extras.go
+++ b/handlers/flash/extras.go
@@ -2,6 +2,7 @@ package flash
 
 import (
 	"log/slog"
+	"maps"
 	"time"
 )
 
@@ -52,6 +53,11 @@ type Extras struct {
 func fixExtras(extras *Extras) *Extras {
 	if extras == nil {
 		extras = &Extras{}
+	} else {
+		// Use a copy, the object belongs to the caller and may be in use elsewhere.
+		fixed := *extras
+		fixed.LevelNames = maps.Clone(extras.LevelNames)
+		extras = &fixed
 	}
 	if extras.TimeFormat == "" {
 		extras.TimeFormat = DefaultTimeFormat
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 5e4bcd2..de0477e 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -217,6 +217,10 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 func fixOptions(options *slog.HandlerOptions) *slog.HandlerOptions {
 	if options == nil {
 		options = &slog.HandlerOptions{}
+	} else {
+		// Use a copy, the object belongs to the caller and may be in use elsewhere.
+		fixed := *options
+		options = &fixed
 	}
 	if options.Level == nil {
 		options.Level = slog.LevelInfo
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 6f33841..3e78f5a 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -185,6 +185,10 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 func fixOptions(options *slog.HandlerOptions) *slog.HandlerOptions {
 	if options == nil {
 		options = &slog.HandlerOptions{}
+	} else {
+		// Use a copy, the object belongs to the caller and may be in use elsewhere.
+		fixed := *options
+		options = &fixed
 	}
 	if options.Level == nil {
 		options.Level = slog.LevelInfo
-- 
2.43.0


From cd2291dba0647f7cc829c28ce02819dcc443ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 05/54] fix: flash, sloggy: WithAttrs leaves out attributes it
 can't encode

An attribute that could not be encoded left its key behind in the prefix, which
made every later line of the derived logger malformed.
---
 handlers/flash/handler.go  | 10 ++++++++--
 handlers/sloggy/handler.go | 11 +++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index de0477e..899a2df 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -164,8 +164,14 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 	c := newComposer(hdlr.prefix, prefixStarted, h.options.ReplaceAttr, h.groups, h.extras)
 	defer reuseComposer(c)
 
-	if err := c.addAttributes(attrs); err != nil {
-		slog.Error("adding with attributes", "err", err)
+	for _, attr := range attrs {
+		mark, started := len(c.buffer), c.started
+		if err := c.addAttribute(attr); err != nil {
+			// Remove what has been composed of the attribute,
+			// otherwise every record of the new handler will be malformed.
+			c.buffer, c.started = c.buffer[:mark], started
+			slog.Error("adding with attributes", "err", err)
+		}
 	}
 	hdlr.prefix = c.getBytes()
 
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 3e78f5a..feb1146 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -133,8 +133,15 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 		hdlr.suffix.Write(h.suffix.Bytes())
 	}
 	c := newComposer(&hdlr.prefix, prefixStarted, h.options.ReplaceAttr, h.groups)
-	if err := c.addAttributes(attrs); err != nil {
-		slog.Error("adding with attributes", "err", err)
+	for _, attr := range attrs {
+		mark, started := hdlr.prefix.Len(), c.started
+		if err := c.addAttribute(attr); err != nil {
+			// Remove what has been composed of the attribute,
+			// otherwise every record of the new handler will be malformed.
+			hdlr.prefix.Truncate(mark)
+			c.setStarted(started)
+			slog.Error("adding with attributes", "err", err)
+		}
 	}
 
 	return hdlr
-- 
2.43.0


From 66157a0d507a0761b646e92e181748522c02528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 06/54] fix: flash: log the name of levels other than the four
 standard ones

They were logged as an empty string.
---
 handlers/flash/extras.go  | 9 +++++++++
 handlers/flash/handler.go | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/handlers/flash/extras.go b/handlers/flash/extras.go
index 24731d6..3dbe252 100644
--- a/handlers/flash/extras.go
+++ b/handlers/flash/extras.go
@@ -91,3 +91,12 @@ func fixExtras(extras *Extras) *Extras {
 	}
 	return extras
 }
+
+// levelName returns the configured name of the level
+// or, for any other level, whatever slog calls it (e.g. "INFO+2").
+func (e *Extras) levelName(level slog.Level) string {
+	if name, found := e.LevelNames[level]; found {
+		return name
+	}
+	return level.String()
+}
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 899a2df..3c99862 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -76,8 +76,8 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	if h.options.ReplaceAttr == nil {
 		c.addSeparator()
 		c.addKey(h.extras.LevelKey)
-		c.addString(h.extras.LevelNames[record.Level])
-	} else if err := c.addAttribute(slog.String(h.extras.LevelKey, h.extras.LevelNames[record.Level])); err != nil {
+		c.addString(h.extras.levelName(record.Level))
+	} else if err := c.addAttribute(slog.String(h.extras.LevelKey, h.extras.levelName(record.Level))); err != nil {
 		return fmt.Errorf("add level: %w", err)
 	}
 	if h.options.ReplaceAttr == nil {
-- 
2.43.0


From 5b0e701d1c877892c4628982750b13c2bba01d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 07/54] fix: flash: resolve LogValuer values to their own kind;
 comma after emptied groups

The kind of a resolved value was only looked at with ReplaceAttr, so groups,
times and durations were logged as something else, and the comma after a group
emptied by ReplaceAttr was missing.
---
 handlers/flash/composer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 94d4572..5b0d951 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -58,6 +58,7 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	kind := attr.Value.Kind()
 	if kind == slog.KindLogValuer {
 		attr.Value = attr.Value.Resolve()
+		kind = attr.Value.Kind()
 	}
 	if c.replace != nil {
 		var groups []string
@@ -278,6 +279,7 @@ func (c *composer) addGroup(attrs []slog.Attr) error {
 		return fmt.Errorf("add attributes: %w", err)
 	}
 	c.addBytes('}')
+	c.started = true // May still be false if nothing in the group was logged.
 	return nil
 }
 
-- 
2.43.0


From 6e089fe6c02e6a4d9b08096294b1179250fec817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 08/54] fix: sloggy: quote strings as JSON requires

strconv.Quote uses escape sequences that JSON does not have.
---
 handlers/sloggy/composer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 926ccda..56d5079 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -256,7 +256,14 @@ func (c *composer) addMacAddress(mac net.HardwareAddr) error {
 }
 
 func (c *composer) addString(str string) error {
-	if _, err := c.Write([]byte(strconv.Quote(str))); err != nil {
+	// Not strconv.Quote, which uses escape sequences (e.g. \x00 or \a) that are not valid JSON.
+	var quoted bytes.Buffer
+	encoder := json.NewEncoder(&quoted)
+	encoder.SetEscapeHTML(false)
+	if err := encoder.Encode(str); err != nil {
+		return fmt.Errorf("quote string: %w", err)
+	}
+	if _, err := c.Write(bytes.TrimSuffix(quoted.Bytes(), []byte{'\n'})); err != nil {
 		return fmt.Errorf("write quoted string: %w", err)
 	}
 	return nil
-- 
2.43.0


From fe7a4d5b26a859ff43cd2f5931f8b776dea780c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 09/54] fix: flash: strings that are not valid UTF8 no longer
 break the line

The bytes after the start of a broken UTF8 sequence were copied without being
escaped, even a quote, and text before it could be written twice.
---
 handlers/flash/composer.go | 39 ++++++++++----------------------------
 1 file changed, 10 insertions(+), 29 deletions(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 5b0d951..9bd723d 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -7,6 +7,7 @@ import (
 	"log/slog"
 	"strconv"
 	"time"
+	"unicode/utf8"
 
 	"github.com/madkins23/go-slog/infra"
 )
@@ -175,19 +176,11 @@ var hexDigit = `0123456789ABCDEF`
 func (c *composer) addEscaped(s []byte) {
 	var b byte
 	var begin, index int
-	uniByte := make([]byte, 0, 4)
 	uniMore := 0
 	for index, b = range s {
 		if uniMore > 0 {
-			uniByte = append(uniByte, b)
+			// Inside a valid UTF8 sequence.
 			uniMore--
-			if uniMore < 1 {
-				// All unicode bytes collected in uniByte array.
-				// When they are all collected push them out.
-				c.buffer = append(c.buffer, uniByte...)
-				uniByte = uniByte[:0]
-				begin = index + 1
-			}
 			continue
 		}
 
@@ -231,28 +224,18 @@ func (c *composer) addEscaped(s []byte) {
 		default:
 			if b >= 32 && b < 127 {
 				// Just a normal lower ASCII character.
-			} else if b&0b11100000 == 0b11000000 {
-				// UTF8 two bytes
-				if index > begin {
-					c.buffer = append(c.buffer, s[begin:index]...)
-				}
-				uniByte = append(uniByte, b)
-				uniMore = 1
-			} else if b&0b11110000 == 0b11100000 {
-				// UTF8 three bytes
-				if index > begin {
-					c.buffer = append(c.buffer, s[begin:index]...)
+			} else if b >= utf8.RuneSelf {
+				if r, size := utf8.DecodeRune(s[index:]); r != utf8.RuneError || size > 1 {
+					uniMore = size - 1
+					continue
 				}
-				uniByte = append(uniByte, b)
-				uniMore = 2
-			} else if b&0b11111000 == 0b11110000 {
-				// UTF8 four bytes
+				// Not UTF8: without this a broken sequence could hide a quote or duplicate text.
 				if index > begin {
 					c.buffer = append(c.buffer, s[begin:index]...)
 				}
-				uniByte = append(uniByte, b)
-				uniMore = 3
-			} else if b < 128 {
+				c.buffer = append(c.buffer, `\uFFFD`...)
+				begin = index + 1
+			} else {
 				// Control character from lower 7 bits not previously handled.
 				if index > begin {
 					c.buffer = append(c.buffer, s[begin:index]...)
@@ -261,8 +244,6 @@ func (c *composer) addEscaped(s []byte) {
 				c.buffer = append(c.buffer, hexDigit[b>>4])
 				c.buffer = append(c.buffer, hexDigit[b&0xF])
 				begin = index + 1
-			} else {
-				// Some character from upper 7 bits not previously handled but likely printable.
 			}
 		}
 	}
-- 
2.43.0


From ce961b70ac3b23d20fb31cfdeab2c6dfdb5b0435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 10/54] fix: flash, sloggy: escape group names

A quote or a control character in the name of a group made lines malformed.
---
 handlers/flash/handler.go  | 6 +++++-
 handlers/sloggy/handler.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 3c99862..7bdd5c3 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -209,7 +209,11 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	} else {
 		hdlr.prefix = make([]byte, 0, lenPrefix)
 	}
-	hdlr.prefix = append(hdlr.prefix, []byte(fmt.Sprintf("%s\"%s\": {", prefixStart, name))...)
+	c := newComposer(append(hdlr.prefix, prefixStart...), true, nil, nil, h.extras)
+	defer reuseComposer(c)
+	c.addKey(name)
+	c.addBytes('{')
+	hdlr.prefix = c.getBytes()
 	// Should really be prepending the right brace into the suffix,
 	// but suffix only contains right braces, so it doesn't really matter.
 	hdlr.suffix = append(slices.Clip(h.suffix), '}')
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index feb1146..99c2897 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -175,9 +175,13 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 		hdlr.suffix.Write(h.suffix.Bytes())
 	}
 
-	if _, err := fmt.Fprintf(&hdlr.prefix, "%s\"%s\": {", prefixStart, name); err != nil {
+	hdlr.prefix.Write(prefixStart)
+	c := newComposer(&hdlr.prefix, true, nil, nil)
+	if err := c.addString(name); err != nil {
 		slog.Error("open group", "err", err)
 	}
+	hdlr.prefix.Write(colonSpace)
+	hdlr.prefix.Write(braceLeft)
 	if _, err := hdlr.suffix.Write(braceRight); err != nil {
 		slog.Error("group right brace", "err", err)
 	}
-- 
2.43.0


From 7bd8e3a76edd42366615726e02329524899c9e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 11/54] fix: flash, sloggy: log NaN and infinity as strings

As bare words they made the line malformed.
---
 handlers/flash/composer.go  | 7 ++++++-
 handlers/sloggy/composer.go | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 9bd723d..450d731 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"log/slog"
+	"math"
 	"strconv"
 	"time"
 	"unicode/utf8"
@@ -98,7 +99,11 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	case slog.KindDuration:
 		c.buffer = strconv.AppendInt(c.buffer, value.Duration().Nanoseconds(), 10)
 	case slog.KindFloat64:
-		c.buffer = strconv.AppendFloat(c.buffer, value.Float64(), 'f', -1, 64)
+		if f := value.Float64(); math.IsNaN(f) || math.IsInf(f, 0) {
+			c.addString(value.String()) // JSON has no number for it.
+		} else {
+			c.buffer = strconv.AppendFloat(c.buffer, f, 'f', -1, 64)
+		}
 	case slog.KindInt64:
 		c.buffer = strconv.AppendInt(c.buffer, value.Int64(), 10)
 	case slog.KindString:
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 56d5079..a2c5e7b 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"log/slog"
+	"math"
 	"net"
 	"strconv"
 	"time"
@@ -198,6 +199,9 @@ func (c *composer) addError(e error) error {
 }
 
 func (c *composer) addFloat64(f float64) error {
+	if math.IsNaN(f) || math.IsInf(f, 0) {
+		return c.addString(strconv.FormatFloat(f, 'g', -1, 64)) // JSON has no number for it.
+	}
 	if _, err := c.Write(strconv.AppendFloat([]byte{}, f, 'f', -1, 64)); err != nil {
 		return fmt.Errorf("float64: %w", err)
 	}
-- 
2.43.0


From 19632d6427e355a3579faf58f83a1d465e928c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 12/54] fix: sloggy: pass resolved values to ReplaceAttr

With a ReplaceAttr function LogValuer values were logged unresolved.
---
 handlers/sloggy/composer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index a2c5e7b..65713dc 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -71,6 +71,7 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	}
 	value := attr.Value.Resolve()
 	if c.replace != nil {
+		attr.Value = value
 		var groups []string
 		if !basicField[attr.Key] {
 			groups = c.groups
-- 
2.43.0


From c62be1c5d8485154cf746c0b25e3604d85521cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 13/54] fix: gin: log at the level of the options, also for
 traffic lines

---
 gin/writer.go | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/gin/writer.go b/gin/writer.go
index 6d0ede9..686ba61 100644
--- a/gin/writer.go
+++ b/gin/writer.go
@@ -1,6 +1,7 @@
 package gin
 
 import (
+	"context"
 	"fmt"
 	"io"
 	"log/slog"
@@ -154,7 +155,7 @@ func (w *writer) Write(p []byte) (int, error) {
 			// Use the pre-existing log message in variable msg.
 		} else {
 			// The traffic data in the log message parsed.
-			level = slog.LevelInfo
+			level = w.Traffic.Level
 			msg = w.Traffic.Message
 			if !w.Traffic.Embed {
 				args = []any{slog.Group(w.Traffic.Group, args...)}
@@ -162,19 +163,6 @@ func (w *writer) Write(p []byte) (int, error) {
 		}
 	}
 
-	switch level {
-	case slog.LevelDebug:
-		slog.Debug(msg, args...)
-	case slog.LevelError:
-		slog.Error(msg, args...)
-	case slog.LevelInfo:
-		slog.Info(msg, args...)
-	case slog.LevelWarn:
-		slog.Warn(msg, args...)
-	default:
-		// Shouldn't ever happen so no test code coverage here.
-		return 0, fmt.Errorf("unknown log level %s", w.Level)
-	}
-
+	slog.Log(context.Background(), level.Level(), msg, args...)
 	return len(p), nil
 }
-- 
2.43.0


From 469642301e3682efe3b00107f352f5dd4840ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 14/54] fix: gin: traffic URLs with spaces, quotes or
 separators keep method and URL

---
 gin/parser.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/gin/parser.go b/gin/parser.go
index 3df5b7d..0459c20 100644
--- a/gin/parser.go
+++ b/gin/parser.go
@@ -29,7 +29,7 @@ var (
 func Parse(message string) ([]any, error) {
 	// Example line:
 	//  200 |    9.522199ms |             ::1 | GET      "/chart.svg?tag=samber_zap&item=MemAllocs"
-	parts := strings.Split(message, "|")
+	parts := strings.SplitN(message, "|", 4) // The URL may contain the separator.
 	if len(parts) != 4 {
 		return nil, fmt.Errorf("wrong number of parts: %d", len(parts))
 	}
@@ -48,12 +48,21 @@ func Parse(message string) ([]any, error) {
 	// Parse client IP address from third part.
 	result = append(result, slog.String(string(Client), strings.Trim(parts[2], " ")))
 	// Parse HTTP method and URL from fourth part.
+	// The URL is quoted by Gin and may contain spaces.
 	// Example of parts[3]:
-	//  GET      "/chart.svg?tag=samber_zap&item=MemAllocs" System=gin
-	parts = ptnSplit.Split(strings.Trim(parts[3], " "), -1)
-	if len(parts) == 2 {
-		result = append(result, slog.String(string(Method), parts[0]))
-		result = append(result, slog.String(string(Url), strings.Trim(parts[1], "\"")))
+	//  GET      "/chart.svg?tag=samber_zap&item=MemAllocs"
+	last := ptnSplit.Split(strings.Trim(parts[3], " "), 2)
+	if len(last) != 2 {
+		return nil, fmt.Errorf("parse Method and Url from '%s'", parts[3])
 	}
+	url, err := strconv.Unquote(last[1])
+	if err != nil {
+		// Not quoted, in which case it must be a single word.
+		if url = last[1]; strings.ContainsAny(url, "\" \t\r\n") {
+			return nil, fmt.Errorf("parse Url from '%s'", last[1])
+		}
+	}
+	result = append(result, slog.String(string(Method), last[0]))
+	result = append(result, slog.String(string(Url), url))
 	return result, nil
 }
-- 
2.43.0


From 8ee0eaac9459d77bc8caed440a1fab3ace7f3737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 15/54] fix: warning: list warnings made after the first
 listing; lock ByName

---
 infra/warning/warning.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/infra/warning/warning.go b/infra/warning/warning.go
index 841b57c..129e93b 100644
--- a/infra/warning/warning.go
+++ b/infra/warning/warning.go
@@ -60,12 +60,15 @@ func NewWarning(level Level, name, summary, description string) *Warning {
 		}
 		allWarnings = append(allWarnings, warning)
 		byName[name] = warning
+		warningTree = make(map[Level][]*Warning) // To be rebuilt with the new warning.
 	}
 	return warning
 }
 
 // ByName returns the warning with the specified name, if any, else nil.
 func ByName(name string) *Warning {
+	warningLock.Lock()
+	defer warningLock.Unlock()
 	return byName[name]
 }
 
-- 
2.43.0


From 41ca85b6dbd52fe969a87fff24ffc77f4bcdd466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:24 +0000
Subject: [PATCH 16/54] fix: warning: list the handlers for a warning in order

---
 infra/warning/manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/infra/warning/manager.go b/infra/warning/manager.go
index 2756f48..0d21b8d 100644
--- a/infra/warning/manager.go
+++ b/infra/warning/manager.go
@@ -362,6 +362,7 @@ func ShowHandlersByWarning(showPrefix string) {
 				for handler := range handlers {
 					hdlrNames = append(hdlrNames, handler)
 				}
+				sort.Strings(hdlrNames)
 				for _, hdlrName := range hdlrNames {
 					fmt.Printf("%s      %s\n", showPrefix, hdlrName)
 				}
-- 
2.43.0


From b7131f384aa9e29f7894f6eb5c5bdc09e906c284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 17/54] fix: warning: no nil entry for warnings that were not
 predefined

---
 infra/warning/manager.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/infra/warning/manager.go b/infra/warning/manager.go
index 0d21b8d..5331004 100644
--- a/infra/warning/manager.go
+++ b/infra/warning/manager.go
@@ -307,10 +307,15 @@ func (mgr *Manager) ShowWarnings(output io.Writer) {
 				for _, w := range list {
 					// Track handlers that invoke warning for use in TestMain.
 					warn := mgr.predefined[w.Name]
-					if byWarning[warn] == nil {
-						byWarning[warn] = make(map[string]bool)
+					if warn == nil {
+						warn = ByName(w.Name) // Not predefined for this manager.
+					}
+					if warn != nil {
+						if byWarning[warn] == nil {
+							byWarning[warn] = make(map[string]bool)
+						}
+						byWarning[warn][mgr.Name] = true
 					}
-					byWarning[warn][mgr.Name] = true
 
 					_, _ = fmt.Fprintf(output, "%s  %4d [%s] %s\n", mgr.showPrefix, w.Count, w.Name, w.Summary)
 					lineSep := "\n" + mgr.showPrefix + "           +"
-- 
2.43.0


From 94c57362da139e58534b607b5244b9e868cec443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 18/54] fix: data: warnings from one source survive None from
 another

---
 internal/data/warnings_parser.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 03c7563..da4aed2 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -147,10 +147,13 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 			continue
 		}
 		if ptnNone.Match(line) {
-			// Minimal amount of data to support score chart.
-			w.ByHandler[handler] = &Levels{
-				lookup: make(map[string]*DataLevel),
-				levels: make([]*DataLevel, 0),
+			// Minimal amount of data to support score chart,
+			// unless there are warnings from another source.
+			if _, found := w.ByHandler[handler]; !found {
+				w.ByHandler[handler] = &Levels{
+					lookup: make(map[string]*DataLevel),
+					levels: make([]*DataLevel, 0),
+				}
 			}
 			continue
 		}
-- 
2.43.0


From fd2142f954ad78cf49db058d8c53d4f5210e6857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 19/54] fix: data: count of a warning that no handler has is
 zero

---
 internal/data/warnings.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 9390806..6a45942 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -116,7 +116,10 @@ func (w *Warnings) HandlerTags() []HandlerTag {
 
 // HandlerWarningCount returns the number of the specified warning associated with the specified handler.
 func (w *Warnings) HandlerWarningCount(handler HandlerTag, warning *warning.Warning) uint {
-	return w.ByWarning[warning.Name].Count[handler]
+	if data, found := w.ByWarning[warning.Name]; found {
+		return data.Count[handler]
+	}
+	return 0
 }
 
 // HasTest returns true if a test is defined with the specified tag.
-- 
2.43.0


From 465c8dd99cee1d054984becfefa0891c26526181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 20/54] fix: data: parse names of warnings with brackets in
 their summary

---
 internal/data/warnings_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index da4aed2..078847a 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -20,7 +20,7 @@ import (
 var (
 	ptnWarningsFor  = regexp.MustCompile(`^\s*Warnings\s+for\s+(.*):\s*$`)
 	ptnLevel        = regexp.MustCompile(`^\s*(\S+)\s*$`)
-	ptnWarning      = regexp.MustCompile(`^\s*\d+\s+\[(.*)]\s*(.*?)\s*$`)
+	ptnWarning      = regexp.MustCompile(`^\s*\d+\s+\[(.*?)]\s*(.*?)\s*$`)
 	ptnInstance     = regexp.MustCompile(`^\s*(\S+)(?::\s*(.*?))?\s*$`)
 	ptnExtra        = regexp.MustCompile(`^\s*\+(.*?)\s*$`)
 	ptnLogLine      = regexp.MustCompile(`^\s*\{`)
-- 
2.43.0


From 22824690c30d2648f6fff9d471fa0c61e7daacf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 21/54] fix: data: handler summaries may have empty lines

---
 internal/data/warnings_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 078847a..3d087e2 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -27,7 +27,7 @@ var (
 	ptnNone         = regexp.MustCompile(`^\s*None\s*$`)
 	ptnByWarning    = regexp.MustCompile(`^\s*Handlers\s+by\s+warning:\s*$`)
 	ptnSummaryStart = regexp.MustCompile(`^:\[\s*(\S.*?)\s*$`)
-	ptnSummaryLine  = regexp.MustCompile(`^::\s*(\S.*?)\s*$`)
+	ptnSummaryLine  = regexp.MustCompile(`^::\s*(.*?)\s*$`)
 	ptnSummaryLink  = regexp.MustCompile(`^:>\s*(\S.*?)\s*-->\s*(\S.*?)\s*$`)
 	ptnSummaryEnd   = regexp.MustCompile(`^:]\s*$`)
 )
-- 
2.43.0


From 988aa2e8b471a7ac364c872e510a9957a45c1c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 22/54] fix: data: parse benchmark results of runs with a
 single CPU

---
 internal/data/bench_parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/data/bench_parser.go b/internal/data/bench_parser.go
index f061cc7..99030f5 100644
--- a/internal/data/bench_parser.go
+++ b/internal/data/bench_parser.go
@@ -12,7 +12,7 @@ import (
 var (
 	ptnHandlerDef = regexp.MustCompile(`^#\s*Handler\[(\S+)\]\s*=\s*"(\S+)"\s*$`)
 	ptnWarnLine   = regexp.MustCompile(`^# (.*)`)
-	ptnDataLine   = regexp.MustCompile(`^Benchmark([^/]+)/Benchmark([^-]+)-(\d+)\s+(\d+)\s+(\d+(?:\.\d+)?)\s+ns/op\b`)
+	ptnDataLine   = regexp.MustCompile(`^Benchmark([^/]+)/Benchmark([^-\s]+)(?:-(\d+))?\s+(\d+)\s+(\d+(?:\.\d+)?)\s+ns/op\b`)
 	ptnAllocsOp   = regexp.MustCompile(`\s(\d+)\s+allocs/op\b`)
 	ptnBytesOp    = regexp.MustCompile(`\s(\d+)\s+B/op\b`)
 	ptnMbSec      = regexp.MustCompile(`\s(\d+(?:\.\d+)?)\s+MB/s`)
@@ -62,7 +62,9 @@ func (b *Benchmarks) ParseBenchmarkData(in io.Reader) error {
 			// Process a data line.
 			hdlrBytes = matches[1]
 			testBytes = matches[2]
-			if cpus, err = strconv.ParseUint(string(matches[3]), 10, 64); err != nil {
+			if len(matches[3]) == 0 {
+				cpus = 1 // The suffix is only there if GOMAXPROCS is not 1.
+			} else if cpus, err = strconv.ParseUint(string(matches[3]), 10, 64); err != nil {
 				return fmt.Errorf("parse cpus: %w", err)
 			}
 			if runs, err = strconv.ParseUint(string(matches[4]), 10, 64); err != nil {
-- 
2.43.0


From e03a6abc11f4afa24836342984555024ce93b08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 23/54] fix: data: records by handler have GB/s and TB/s as
 well

---
 internal/data/bench_parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/data/bench_parser.go b/internal/data/bench_parser.go
index 99030f5..24ded50 100644
--- a/internal/data/bench_parser.go
+++ b/internal/data/bench_parser.go
@@ -123,6 +123,8 @@ func (b *Benchmarks) ParseBenchmarkData(in io.Reader) error {
 				MemBytesPerOp:  bytesOp,
 				MemAllocsPerOp: allocsOp,
 				MbPerSec:       mbSec,
+				GbPerSec:       mbSec / 1_000.0,
+				TbPerSec:       mbSec / 1_000_000.0,
 			}
 		}
 	}
-- 
2.43.0


From 58e7dbb8a15943dd72ced6017953ad1ce1891fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 24/54] fix: data: no panic for a log line without a warning
 before it

---
 internal/data/warnings_parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 3d087e2..aacf694 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -176,6 +176,10 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 		}
 		// Do this before ptnInstance as they can otherwise get confused.
 		if ptnLogLine.Match(line) {
+			if instance == nil {
+				slog.Warn("Log line without warning instance", "line", string(line))
+				continue
+			}
 			instance.line = string(line)
 			// Attempt to pretty-print the log line.
 			var jm map[string]any
-- 
2.43.0


From 15277d46c233cb16fe305cbd0e62c26c54ab4073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 25/54] fix: data: no warnings of a handler are filed under the
 one before

---
 internal/data/warnings_parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index aacf694..0f9515d 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -88,6 +88,7 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 
 		if matches := ptnWarningsFor.FindSubmatch(line); len(matches) == 2 {
 			saveInstance(line)
+			dWarning = nil // Belongs to the previous handler.
 			handler = HandlerTag(matches[1])
 			// Capture relationship between handler name in benchmark function vs. Creator.
 			// The handler string here is the Creator name,
-- 
2.43.0


From 0ee9e1080986b3c5fce99135eb97dc21e4d6abf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:59 +0000
Subject: [PATCH 26/54] fix: data: lock the caches of tag names

---
 internal/data/tags.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/data/tags.go b/internal/data/tags.go
index 1c31fc1..34c3318 100644
--- a/internal/data/tags.go
+++ b/internal/data/tags.go
@@ -2,6 +2,7 @@ package data
 
 import (
 	"strings"
+	"sync"
 
 	"github.com/fatih/camelcase"
 )
@@ -13,6 +14,9 @@ const TagSeparator = "."
 
 // -----------------------------------------------------------------------------
 
+// tagNameLock protects the caches of tag names, which are shared between goroutines.
+var tagNameLock sync.Mutex
+
 // TestTag is a unique name for a Benchmark or Verification test.
 // The type is an alias for string so that types can't be confused.
 type TestTag string
@@ -21,6 +25,8 @@ var testTagNames = make(map[TestTag]string)
 
 // Name returns a name string calculated from the TestTag string and cached for reuse.
 func (tt TestTag) Name() string {
+	tagNameLock.Lock()
+	defer tagNameLock.Unlock()
 	name, found := testTagNames[tt]
 	if !found {
 		var builder strings.Builder
@@ -51,6 +57,8 @@ var handlerTagNames = make(map[HandlerTag]string)
 
 // Name returns a name string calculated from the HandlerTag string and cached for reuse.
 func (ht HandlerTag) Name() string {
+	tagNameLock.Lock()
+	defer tagNameLock.Unlock()
 	name, found := handlerTagNames[ht]
 	if !found {
 		var builder strings.Builder
-- 
2.43.0


From 35df32215f654659d7970620e7d9df9e21e33fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:59 +0000
Subject: [PATCH 27/54] fix: data: lock the lists that Benchmarks builds when
 asked

---
 internal/data/bench.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/data/bench.go b/internal/data/bench.go
index d51e926..01a82eb 100644
--- a/internal/data/bench.go
+++ b/internal/data/bench.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"log/slog"
 	"sort"
+	"sync"
 )
 
 var benchFile = flag.String("bench", "", "Load benchmark data from path (optional)")
@@ -68,6 +69,7 @@ type Benchmarks struct {
 	handlerNames map[HandlerTag]string
 	warningText  []byte
 	lookup       map[string]HandlerTag
+	lock         sync.Mutex // Protects fields built when first asked for.
 }
 
 func NewBenchmarks() *Benchmarks {
@@ -100,6 +102,8 @@ func (b *Benchmarks) HasTest(tag TestTag) bool {
 // where it will be used to convert handler names to tags.
 // This makes all handler tags the same between Benchmarks and Warnings.
 func (b *Benchmarks) HandlerLookup() map[string]HandlerTag {
+	b.lock.Lock()
+	defer b.lock.Unlock()
 	if b.lookup == nil {
 		b.lookup = make(map[string]HandlerTag, len(b.handlerNames))
 		for tag, name := range b.handlerNames {
@@ -126,6 +130,8 @@ func (b *Benchmarks) HandlerRecordsFor(test TestTag) HandlerRecords {
 
 // HandlerTags returns an array of all handler tags sorted alphabetically.
 func (b *Benchmarks) HandlerTags() []HandlerTag {
+	b.lock.Lock()
+	defer b.lock.Unlock()
 	if b.handlers == nil {
 		for handler := range b.ByHandler {
 			b.handlers = append(b.handlers, handler)
@@ -154,6 +160,8 @@ func (b *Benchmarks) TestRecordsFor(handler HandlerTag) TestRecords {
 
 // TestTags returns an array of all test names sorted alphabetically.
 func (b *Benchmarks) TestTags() []TestTag {
+	b.lock.Lock()
+	defer b.lock.Unlock()
 	if b.tests == nil {
 		for test := range b.byTest {
 			b.tests = append(b.tests, test)
-- 
2.43.0


From 55367f0bfedee61c0d8471ed7666897ba6908f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:35 +0000
Subject: [PATCH 28/54] fix: data: lock what Warnings builds when asked

---
 internal/data/warnings.go | 42 ++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 6a45942..6a92356 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"sort"
 	"strings"
+	"sync"
 
 	"github.com/madkins23/go-slog/infra/warning"
 	"github.com/madkins23/go-slog/internal/markdown"
@@ -31,6 +32,7 @@ type Warnings struct {
 	handlers    []HandlerTag
 	handlerData map[HandlerTag]*handlerData
 	testNames   map[TestTag]string
+	lock        sync.Mutex // Protects fields changed when asked for.
 }
 
 func NewWarnings() *Warnings {
@@ -103,6 +105,8 @@ func (w *Warnings) HandlerLinks(handler HandlerTag) map[string]string {
 
 // HandlerTags returns an array of all handler names sorted alphabetically.
 func (w *Warnings) HandlerTags() []HandlerTag {
+	w.lock.Lock()
+	defer w.lock.Unlock()
 	if len(w.handlers) < 1 {
 		for handler := range w.ByHandler {
 			w.handlers = append(w.handlers, handler)
@@ -116,6 +120,8 @@ func (w *Warnings) HandlerTags() []HandlerTag {
 
 // HandlerWarningCount returns the number of the specified warning associated with the specified handler.
 func (w *Warnings) HandlerWarningCount(handler HandlerTag, warning *warning.Warning) uint {
+	w.lock.Lock()
+	defer w.lock.Unlock()
 	if data, found := w.ByWarning[warning.Name]; found {
 		return data.Count[handler]
 	}
@@ -150,6 +156,8 @@ func (w *Warnings) TestRecordsFor(handler HandlerTag) *Levels {
 
 // TestTags returns an array of all handler names sorted alphabetically.
 func (w *Warnings) TestTags() []TestTag {
+	w.lock.Lock()
+	defer w.lock.Unlock()
 	if len(w.tests) < 1 {
 		for test := range w.byTest {
 			w.tests = append(w.tests, test)
@@ -166,8 +174,9 @@ func (w *Warnings) TestTagsForSource(source string) []TestTag {
 	if !strings.HasSuffix(source, ":") {
 		source += TagSeparator
 	}
-	result := make([]TestTag, 0, len(w.TestTags())) // Causes w.tests to be loaded
-	for _, test := range w.tests {
+	tests := w.TestTags()
+	result := make([]TestTag, 0, len(tests))
+	for _, test := range tests {
 		if strings.HasPrefix(string(test), source) {
 			result = append(result, test)
 		}
@@ -207,6 +216,8 @@ func (w *Warnings) findTest(test TestTag, level warning.Level, warningName strin
 //
 // This method is public so that it can be used during template expansion in cmd/server.
 func (w *Warnings) FindWarning(name string) *WarningData {
+	w.lock.Lock()
+	defer w.lock.Unlock()
 	data, found := w.ByWarning[name]
 	if !found {
 		data = &WarningData{
@@ -241,6 +252,7 @@ type WarningData struct {
 	handlers []HandlerTag
 	testMap  map[TestTag]bool
 	tests    []TestTag
+	lock     sync.Mutex // Protects lists built when first asked for.
 }
 
 func (wd *WarningData) HasHandlers() bool {
@@ -248,6 +260,8 @@ func (wd *WarningData) HasHandlers() bool {
 }
 
 func (wd *WarningData) Handlers() []HandlerTag {
+	wd.lock.Lock()
+	defer wd.lock.Unlock()
 	if wd.handlers == nil {
 		wd.handlers = make([]HandlerTag, 0, len(wd.hdlrMap))
 		for key := range wd.hdlrMap {
@@ -264,6 +278,8 @@ func (wd *WarningData) HasTests() bool {
 }
 
 func (wd *WarningData) Tests() []TestTag {
+	wd.lock.Lock()
+	defer wd.lock.Unlock()
 	if wd.tests == nil {
 		wd.tests = make([]TestTag, 0, len(wd.testMap))
 		for key := range wd.testMap {
@@ -284,6 +300,7 @@ func (wd *WarningData) HasUsage() bool {
 type Levels struct {
 	lookup map[string]*DataLevel
 	levels []*DataLevel
+	lock   sync.Mutex // Protects list built when first asked for.
 }
 
 func (l *Levels) Level(level warning.Level) *DataLevel {
@@ -299,6 +316,8 @@ func (l *Levels) LevelCount(level warning.Level) uint64 {
 }
 
 func (l *Levels) Levels() []*DataLevel {
+	l.lock.Lock()
+	defer l.lock.Unlock()
 	if len(l.levels) < 1 {
 		l.levels = make([]*DataLevel, 0, len(warning.LevelOrder))
 		for _, lvl := range warning.LevelOrder {
@@ -328,6 +347,7 @@ type DataLevel struct {
 	Level    warning.Level
 	lookup   map[string]*dataWarning
 	warnings []*dataWarning
+	lock     sync.Mutex // Protects list built when first asked for.
 }
 
 func (l *DataLevel) Count() uint64 {
@@ -343,6 +363,8 @@ func (l *DataLevel) String() string {
 }
 
 func (l *DataLevel) Warnings() []*dataWarning {
+	l.lock.Lock()
+	defer l.lock.Unlock()
 	if l.warnings == nil {
 		l.warnings = make([]*dataWarning, 0, len(l.lookup))
 		for _, w := range l.lookup {
@@ -376,6 +398,7 @@ type dataWarning struct {
 	}
 	instances []*dataInstance
 	sorted    bool
+	lock      sync.Mutex // Protects fields changed when asked for.
 }
 
 func (w *dataWarning) Name() string {
@@ -383,17 +406,20 @@ func (w *dataWarning) Name() string {
 }
 
 func (w *dataWarning) HasDescription() bool {
-	if w.warning.instance == nil {
-		w.warning.instance = warning.ByName(w.warning.name)
-	}
-	return w.warning.instance.HasDescription()
+	return w.instance().HasDescription()
 }
 
 func (w *dataWarning) Description() template.HTML {
+	return w.instance().Description()
+}
+
+func (w *dataWarning) instance() *warning.Warning {
+	w.lock.Lock()
+	defer w.lock.Unlock()
 	if w.warning.instance == nil {
 		w.warning.instance = warning.ByName(w.warning.name)
 	}
-	return w.warning.instance.Description()
+	return w.warning.instance
 }
 
 func (w *dataWarning) Summary() string {
@@ -405,6 +431,8 @@ func (w *dataWarning) AddInstance(instance *dataInstance) {
 }
 
 func (w *dataWarning) Instances() []*dataInstance {
+	w.lock.Lock()
+	defer w.lock.Unlock()
 	if !w.sorted {
 		sort.Slice(w.instances, func(i, j int) bool {
 			return w.instances[i].name < w.instances[j].name
-- 
2.43.0


From 9dd649ae2d12386d0a93275a54b2cc0ca176fad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 29/54] fix: markdown: a renderer per text, as it keeps state

---
 internal/markdown/html.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/internal/markdown/html.go b/internal/markdown/html.go
index fbf3c4e..e85825b 100644
--- a/internal/markdown/html.go
+++ b/internal/markdown/html.go
@@ -9,13 +9,6 @@ import (
 	"github.com/gomarkdown/markdown/parser"
 )
 
-var renderer *html.Renderer
-
-func init() {
-	// Prebuild the HTML renderer.
-	renderer = html.NewRenderer(html.RendererOptions{Flags: html.HrefTargetBlank})
-}
-
 // TemplateHTML renders Markdown into template.HTML suitable for use in cmd/server.
 // Embedded Markdown in Go code blocks is typically quoted using back quotes ("`")
 // which are used within Markdown for fixed font markup.
@@ -27,6 +20,8 @@ func init() {
 // false for use with embedded Markdown files containing back quotes.
 func TemplateHTML(md string, fixCarets bool) template.HTML {
 	// Can't pre-build the parser in init(), it fails the second time it's used.
+	// Can't pre-build the renderer either, it keeps heading IDs and is not safe for concurrent use.
+	renderer := html.NewRenderer(html.RendererOptions{Flags: html.HrefTargetBlank})
 	mdParser := parser.NewWithExtensions(
 		parser.CommonExtensions | parser.AutoHeadingIDs | parser.NoEmptyLineBeforeBlock)
 	if fixCarets {
-- 
2.43.0


From 98121e9c962dd7e52c72ef8004faa13ff1c07202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 30/54] fix: data: handlers and tests of the same name are
 listed in order of their tags

---
 internal/data/bench.go    | 10 ++++++++--
 internal/data/warnings.go | 26 +++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/internal/data/bench.go b/internal/data/bench.go
index 01a82eb..4871659 100644
--- a/internal/data/bench.go
+++ b/internal/data/bench.go
@@ -137,7 +137,10 @@ func (b *Benchmarks) HandlerTags() []HandlerTag {
 			b.handlers = append(b.handlers, handler)
 		}
 		sort.Slice(b.handlers, func(i, j int) bool {
-			return b.HandlerName(b.handlers[i]) < b.HandlerName(b.handlers[j])
+			if iName, jName := b.HandlerName(b.handlers[i]), b.HandlerName(b.handlers[j]); iName != jName {
+				return iName < jName
+			}
+			return b.handlers[i] < b.handlers[j]
 		})
 	}
 	return b.handlers
@@ -167,7 +170,10 @@ func (b *Benchmarks) TestTags() []TestTag {
 			b.tests = append(b.tests, test)
 		}
 		sort.Slice(b.tests, func(i, j int) bool {
-			return b.TestName(b.tests[i]) < b.TestName(b.tests[j])
+			if iName, jName := b.TestName(b.tests[i]), b.TestName(b.tests[j]); iName != jName {
+				return iName < jName
+			}
+			return b.tests[i] < b.tests[j]
 		})
 	}
 	return b.tests
diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 6a92356..f6fc24c 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -112,7 +112,10 @@ func (w *Warnings) HandlerTags() []HandlerTag {
 			w.handlers = append(w.handlers, handler)
 		}
 		sort.Slice(w.handlers, func(i, j int) bool {
-			return w.HandlerName(w.handlers[i]) < w.HandlerName(w.handlers[j])
+			if iName, jName := w.HandlerName(w.handlers[i]), w.HandlerName(w.handlers[j]); iName != jName {
+				return iName < jName
+			}
+			return w.handlers[i] < w.handlers[j]
 		})
 	}
 	return w.handlers
@@ -163,7 +166,10 @@ func (w *Warnings) TestTags() []TestTag {
 			w.tests = append(w.tests, test)
 		}
 		sort.Slice(w.tests, func(i, j int) bool {
-			return w.TestName(w.tests[i]) < w.TestName(w.tests[j])
+			if iName, jName := w.TestName(w.tests[i]), w.TestName(w.tests[j]); iName != jName {
+				return iName < jName
+			}
+			return w.tests[i] < w.tests[j]
 		})
 	}
 	return w.tests
@@ -267,7 +273,12 @@ func (wd *WarningData) Handlers() []HandlerTag {
 		for key := range wd.hdlrMap {
 			wd.handlers = append(wd.handlers, key)
 		}
-		sort.Slice(wd.handlers, func(i, j int) bool { return wd.handlers[i].Name() < wd.handlers[j].Name() })
+		sort.Slice(wd.handlers, func(i, j int) bool {
+			if iName, jName := wd.handlers[i].Name(), wd.handlers[j].Name(); iName != jName {
+				return iName < jName
+			}
+			return wd.handlers[i] < wd.handlers[j]
+		})
 	}
 
 	return wd.handlers
@@ -285,7 +296,12 @@ func (wd *WarningData) Tests() []TestTag {
 		for key := range wd.testMap {
 			wd.tests = append(wd.tests, key)
 		}
-		sort.Slice(wd.tests, func(i, j int) bool { return wd.tests[i].Name() < wd.tests[j].Name() })
+		sort.Slice(wd.tests, func(i, j int) bool {
+			if iName, jName := wd.tests[i].Name(), wd.tests[j].Name(); iName != jName {
+				return iName < jName
+			}
+			return wd.tests[i] < wd.tests[j]
+		})
 	}
 
 	return wd.tests
@@ -434,7 +450,7 @@ func (w *dataWarning) Instances() []*dataInstance {
 	w.lock.Lock()
 	defer w.lock.Unlock()
 	if !w.sorted {
-		sort.Slice(w.instances, func(i, j int) bool {
+		sort.SliceStable(w.instances, func(i, j int) bool {
 			return w.instances[i].name < w.instances[j].name
 		})
 		w.sorted = true
-- 
2.43.0


From 02e77f6ba05f6fce87ca2ea275c724e1bc6ca916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:50 +0000
Subject: [PATCH 31/54] fix: axis: add up scores in the order of tests, not of
 a map

---
 internal/scoring/axis/benchmarks.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/scoring/axis/benchmarks.go b/internal/scoring/axis/benchmarks.go
index 2ed837a..ab3e85a 100644
--- a/internal/scoring/axis/benchmarks.go
+++ b/internal/scoring/axis/benchmarks.go
@@ -89,8 +89,8 @@ func (b *Benchmarks) Setup(benchMarks *data.Benchmarks, _ *data.Warnings) error
 			b.handlerData[handler] = bench.NewHandlerData()
 			handlerData = b.handlerData[handler]
 		}
-		for test, record := range benchMarks.ByHandler[handler] {
-			if testTags[test] {
+		for _, test := range benchMarks.TestTags() { // In order as rounding depends on it.
+			if record, found := benchMarks.ByHandler[handler][test]; found && testTags[test] {
 				// Original calculation.
 				original.HandlerTest(test, record)
 				// Data ranges for newer calculations.
-- 
2.43.0


From b3be4c00a875bb44971c1e50eaff3afa0f93501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 32/54] fix: scoring: lock averages made when asked for

---
 internal/scoring/axis/common/data.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/scoring/axis/common/data.go b/internal/scoring/axis/common/data.go
index a0a8834..c37daf2 100644
--- a/internal/scoring/axis/common/data.go
+++ b/internal/scoring/axis/common/data.go
@@ -1,6 +1,8 @@
 package common
 
 import (
+	"sync"
+
 	"github.com/madkins23/go-slog/internal/data"
 	"github.com/madkins23/go-slog/internal/scoring/score"
 )
@@ -8,6 +10,7 @@ import (
 type HandlerData struct {
 	byTest map[data.TestTag]*score.Average
 	scores map[score.Type]score.Value
+	lock   sync.Mutex // Protects averages made when asked for.
 }
 
 func NewHandlerData() *HandlerData {
@@ -18,6 +21,8 @@ func NewHandlerData() *HandlerData {
 }
 
 func (hd *HandlerData) ByTest(test data.TestTag) *score.Average {
+	hd.lock.Lock()
+	defer hd.lock.Unlock()
 	if hd.byTest[test] == nil {
 		hd.byTest[test] = &score.Average{}
 	}
-- 
2.43.0


From f2b84061bd9e58c4f5797016e6d7dc21ba9bfd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 33/54] fix: score: lock the overview made when asked for

---
 internal/scoring/score/keeper.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/scoring/score/keeper.go b/internal/scoring/score/keeper.go
index af96567..3159513 100644
--- a/internal/scoring/score/keeper.go
+++ b/internal/scoring/score/keeper.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"html/template"
 	"sort"
+	"sync"
 
 	"github.com/madkins23/go-slog/internal/data"
 	"github.com/madkins23/go-slog/internal/markdown"
@@ -113,10 +114,13 @@ var (
 	//go:embed doc/overview.md
 	overviewMD   string
 	overviewHTML template.HTML
+	overviewLock sync.Mutex
 )
 
 // Overview returns documentation applicable to all scorekeepers.
 func (k *Keeper) Overview() template.HTML {
+	overviewLock.Lock()
+	defer overviewLock.Unlock()
 	if overviewHTML == "" {
 		overviewHTML = markdown.TemplateHTML(overviewMD, false)
 	}
-- 
2.43.0


From b59da576ece670013d945a64206baa64864f5e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:16 +0000
Subject: [PATCH 34/54] fix: axis: tests in which no handler differs don't make
 scores NaN

---
 internal/scoring/axis/bench/original.go |  6 ++++--
 internal/scoring/axis/benchmarks.go     | 18 +++++++++++++++---
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/internal/scoring/axis/bench/original.go b/internal/scoring/axis/bench/original.go
index bbf18d1..7d85892 100644
--- a/internal/scoring/axis/bench/original.go
+++ b/internal/scoring/axis/bench/original.go
@@ -71,8 +71,10 @@ func (o *Original) HandlerTest(test data.TestTag, record data.TestRecord) {
 		o.collect += score.Value(float64(o.weight[Nanoseconds]) * 100.0 * (rngTest.nanosHigh - record.NanosPerOp) / scoreRange)
 		o.count += o.weight[Nanoseconds]
 	}
-	o.total += o.collect / score.Value(o.count)
-	o.tests++
+	if o.count > 0 {
+		o.total += o.collect / score.Value(o.count)
+		o.tests++
+	}
 }
 
 // CheckRanges checks the ranges contained in this Original object to the ranges
diff --git a/internal/scoring/axis/benchmarks.go b/internal/scoring/axis/benchmarks.go
index ab3e85a..753e7f1 100644
--- a/internal/scoring/axis/benchmarks.go
+++ b/internal/scoring/axis/benchmarks.go
@@ -89,6 +89,7 @@ func (b *Benchmarks) Setup(benchMarks *data.Benchmarks, _ *data.Warnings) error
 			b.handlerData[handler] = bench.NewHandlerData()
 			handlerData = b.handlerData[handler]
 		}
+		var scored bool
 		for _, test := range benchMarks.TestTags() { // In order as rounding depends on it.
 			if record, found := benchMarks.ByHandler[handler][test]; found && testTags[test] {
 				// Original calculation.
@@ -106,8 +107,11 @@ func (b *Benchmarks) Setup(benchMarks *data.Benchmarks, _ *data.Warnings) error
 					}
 				}
 				// Newer algorithm.
-				handlerData.Rollup(bench.OverTests).Add(handlerData.ByTest(test).Average())
-				original.CheckTest(handlerData, test)
+				scored = true
+				if byTest := handlerData.ByTest(test); byTest.Count > 0 {
+					handlerData.Rollup(bench.OverTests).Add(byTest.Average())
+					original.CheckTest(handlerData, test)
+				} // Otherwise the range is zero for all data and the test says nothing.
 			}
 		}
 		// Original calculation.
@@ -116,12 +120,20 @@ func (b *Benchmarks) Setup(benchMarks *data.Benchmarks, _ *data.Warnings) error
 		handlerData.SetScore(score.ByTest, handlerData.Rollup(bench.OverTests).Average())
 		// Newer algorithm rollup over BenchWeight subs
 		for _, weight := range bench.WeightOrder {
-			handlerData.Rollup(bench.OverData).AddMultiple(handlerData.SubScore(weight).Average(), b.benchWeight[weight])
+			if subScore := handlerData.SubScore(weight); subScore.Count > 0 {
+				handlerData.Rollup(bench.OverData).AddMultiple(subScore.Average(), b.benchWeight[weight])
+			}
 		}
 		handlerData.SetScore(score.ByData, handlerData.Rollup(bench.OverData).Average())
 		original.CheckTotal(handlerData)
 		handlerData.SetScore(score.Default,
 			(handlerData.Score(score.ByData)+handlerData.Score(score.ByTest))/2.0)
+		if scored && handlerData.Rollup(bench.OverTests).Count == 0 {
+			// If we're all the same (all score ranges are zero) we all get 100%.
+			for _, scoreType := range []score.Type{score.Default, score.ByData, score.Original, score.ByTest} {
+				handlerData.SetScore(scoreType, 100.0)
+			}
+		}
 	}
 	// Create Exhibits.
 	rows := make([][]string, 0, len(b.benchWeight))
-- 
2.43.0


From 4048ec0066967dd1b8f68e62ad7a628789015e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:47 +0000
Subject: [PATCH 35/54] fix: axis: handlers without warnings have a warning
 score

---
 internal/scoring/axis/warnings.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/internal/scoring/axis/warnings.go b/internal/scoring/axis/warnings.go
index 63e34c2..dff492c 100644
--- a/internal/scoring/axis/warnings.go
+++ b/internal/scoring/axis/warnings.go
@@ -116,7 +116,10 @@ func (w *Warnings) HasTest(_ data.TestTag) bool {
 }
 
 func (w *Warnings) CountForLevel(handler data.HandlerTag, level warning.Level) score.Value {
-	return score.Value(w.handlerData[handler].CountFor(level))
+	if hdlrData, found := w.handlerData[handler]; found {
+		return score.Value(hdlrData.CountFor(level))
+	}
+	return 0 // No warnings for this handler.
 }
 
 func (w *Warnings) ScoreFor(handler data.HandlerTag) score.Value {
@@ -124,23 +127,28 @@ func (w *Warnings) ScoreFor(handler data.HandlerTag) score.Value {
 }
 
 func (w *Warnings) ScoreForLevel(handler data.HandlerTag, level warning.Level) score.Value {
-	result := w.handlerData[handler].ByLevel(level)
-	if result.Count > 0 {
-		return result.Average()
+	if hdlrData, found := w.handlerData[handler]; found {
+		if result := hdlrData.ByLevel(level); result.Count > 0 {
+			return result.Average()
+		}
 	}
 	return 100
 }
 
 func (w *Warnings) ScoreForTest(handler data.HandlerTag, test data.TestTag) score.Value {
-	result := w.handlerData[handler].ByTest(test)
-	if result.Count > 0 {
-		return result.Average()
+	if hdlrData, found := w.handlerData[handler]; found {
+		if result := hdlrData.ByTest(test); result.Count > 0 {
+			return result.Average()
+		}
 	}
 	return 100
 }
 
 func (w *Warnings) ScoreForType(handler data.HandlerTag, scoreType score.Type) score.Value {
-	return w.handlerData[handler].Score(scoreType)
+	if hdlrData, found := w.handlerData[handler]; found {
+		return hdlrData.Score(scoreType)
+	}
+	return 100 // No warnings for this handler.
 }
 
 func (w *Warnings) Documentation() template.HTML {
-- 
2.43.0


From bf4a9b6ad87047e0a1d5ce656f09a5c3a5869237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 36/54] fix: score: filter handlers without warnings by their
 names as well

---
 internal/scoring/score/keeper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/scoring/score/keeper.go b/internal/scoring/score/keeper.go
index 3159513..7ff9f6b 100644
--- a/internal/scoring/score/keeper.go
+++ b/internal/scoring/score/keeper.go
@@ -64,7 +64,7 @@ func (k *Keeper) Setup(bench *data.Benchmarks, warns *data.Warnings) error {
 	k.handlers = make([]data.HandlerTag, 0)
 	k.tests = make([]data.TestTag, 0)
 	for _, hdlr := range bench.HandlerTags() {
-		if k.filter == nil || k.filter.Keep(warns.HandlerName(hdlr)) {
+		if k.filter == nil || k.filter.Keep(bench.HandlerName(hdlr)) {
 			k.handlers = append(k.handlers, hdlr)
 		}
 	}
-- 
2.43.0


From 3b045c1095ea124523892ae5650932b7dec2f04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 37/54] fix: axis: score unknown warnings as well

---
 internal/data/warnings.go              | 14 ++++++++++++++
 internal/scoring/axis/warn/original.go | 10 +---------
 internal/scoring/axis/warnings.go      |  9 +--------
 3 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index f6fc24c..a9d6fe6 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -131,6 +131,20 @@ func (w *Warnings) HandlerWarningCount(handler HandlerTag, warning *warning.Warn
 	return 0
 }
 
+// UniqueCount returns the number of different warnings at the specified level over all handlers.
+// Warnings that are not known to the current program (e.g. from a different version) count as well.
+func (w *Warnings) UniqueCount(level warning.Level) uint {
+	unique := make(map[string]bool)
+	for _, levels := range w.ByHandler {
+		if lvl := levels.Level(level); lvl != nil {
+			for name := range lvl.lookup {
+				unique[name] = true
+			}
+		}
+	}
+	return uint(len(unique))
+}
+
 // HasTest returns true if a test is defined with the specified tag.
 func (w *Warnings) HasTest(test TestTag) bool {
 	_, found := w.byTest[test]
diff --git a/internal/scoring/axis/warn/original.go b/internal/scoring/axis/warn/original.go
index e96f0cd..ee1f7c2 100644
--- a/internal/scoring/axis/warn/original.go
+++ b/internal/scoring/axis/warn/original.go
@@ -44,15 +44,7 @@ func (o *Original) CheckMaxScore(maxScore uint) {
 
 func (o *Original) MakeMaxScore() {
 	for _, level := range warning.LevelOrder {
-		var count uint
-		for _, warn := range warning.WarningsForLevel(level) {
-			if wx, found := o.warns.ByWarning[warn.Name]; found {
-				if len(wx.Count) > 0 {
-					count++
-				}
-			}
-		}
-		o.maxScore += o.weight[level] * count
+		o.maxScore += o.weight[level] * o.warns.UniqueCount(level)
 	}
 }
 
diff --git a/internal/scoring/axis/warnings.go b/internal/scoring/axis/warnings.go
index dff492c..4cd1782 100644
--- a/internal/scoring/axis/warnings.go
+++ b/internal/scoring/axis/warnings.go
@@ -55,14 +55,7 @@ func (w *Warnings) Setup(_ *data.Benchmarks, warns *data.Warnings) error {
 	var maxScore uint
 	ranges := make(map[warning.Level]common.Range)
 	for _, level := range warning.LevelOrder {
-		var count uint
-		for _, wrn := range warning.WarningsForLevel(level) {
-			if wx, found := warns.ByWarning[wrn.Name]; found {
-				if len(wx.Count) > 0 {
-					count++
-				}
-			}
-		}
+		count := warns.UniqueCount(level)
 		ranges[level] = &common.RangeUint64{}
 		ranges[level].AddValueUint64(uint64(count))
 		maxScore += w.levelWeight[level] * count
-- 
2.43.0


From c367c646b5286a4d96d57d1747f4209ec022ddad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 38/54] fix: flash, sloggy: call ReplaceAttr for the contents
 of groups, with all their names

As slog.HandlerOptions says: never for a group itself, and the names of
groups also for attributes named as a basic field and for those in the
group values of records.
---
 handlers/flash/composer.go  | 31 ++++++++++++++-----------------
 handlers/flash/handler.go   |  4 +++-
 handlers/sloggy/composer.go | 23 +++++++----------------
 handlers/sloggy/handler.go  |  4 +++-
 4 files changed, 27 insertions(+), 35 deletions(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 450d731..9dae423 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log/slog"
 	"math"
+	"slices"
 	"strconv"
 	"time"
 	"unicode/utf8"
@@ -19,12 +20,11 @@ var composerPool = newGenPool[composer]()
 
 // composer handles writing attributes to an io.Writer.
 type composer struct {
-	buffer     []byte
-	started    bool
-	replace    infra.AttrFn
-	groups     []string
-	extras     *Extras
-	basicField map[string]bool
+	buffer  []byte
+	started bool
+	replace infra.AttrFn
+	groups  []string
+	extras  *Extras
 }
 
 func newComposer(buffer []byte, started bool, replace infra.AttrFn, groups []string, extras *Extras) *composer {
@@ -34,11 +34,6 @@ func newComposer(buffer []byte, started bool, replace infra.AttrFn, groups []str
 	comp.started = started
 	comp.replace = replace
 	comp.groups = groups
-	comp.basicField = make(map[string]bool, 4)
-	comp.basicField[extras.LevelKey] = true
-	comp.basicField[extras.MessageKey] = true
-	comp.basicField[extras.SourceKey] = true
-	comp.basicField[extras.TimeKey] = true
 	return comp
 }
 
@@ -62,12 +57,10 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 		attr.Value = attr.Value.Resolve()
 		kind = attr.Value.Kind()
 	}
-	if c.replace != nil {
-		var groups []string
-		if !c.basicField[attr.Key] {
-			groups = c.groups
-		}
-		attr = c.replace(groups, attr)
+	if c.replace != nil && kind != slog.KindGroup {
+		// Never called for groups, only for their contents.
+		attr = c.replace(c.groups, attr)
+		attr.Value = attr.Value.Resolve()
 		kind = attr.Value.Kind()
 	}
 	if attr.Equal(infra.EmptyAttr()) {
@@ -89,6 +82,10 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	c.addKey(attr.Key)
 	switch kind {
 	case slog.KindGroup:
+		if c.replace != nil {
+			defer func(groups []string) { c.groups = groups }(c.groups)
+			c.groups = append(slices.Clip(c.groups), attr.Key)
+		}
 		return c.addGroup(value.Group())
 	case slog.KindBool:
 		if value.Bool() {
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 7bdd5c3..2aeb6b1 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -56,7 +56,8 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	buffer := logPool.get()[:0]
 	defer func() { logPool.put(buffer) }()
 
-	c := newComposer(buffer, false, h.options.ReplaceAttr, h.groups, h.extras)
+	// The basic fields are not in any group.
+	c := newComposer(buffer, false, h.options.ReplaceAttr, nil, h.extras)
 	defer reuseComposer(c)
 	c.addBytes('{')
 
@@ -103,6 +104,7 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		}
 	}
 
+	c.groups = h.groups
 	if len(h.prefix) > 0 {
 		c.addSeparator()
 		c.addByteArray(h.prefix)
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 65713dc..c424c8c 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -9,6 +9,7 @@ import (
 	"log/slog"
 	"math"
 	"net"
+	"slices"
 	"strconv"
 	"time"
 
@@ -26,13 +27,6 @@ var (
 	newLine     = []byte{'\r', '\n'}
 )
 
-var basicField = map[string]bool{
-	slog.TimeKey:    true,
-	slog.LevelKey:   true,
-	slog.MessageKey: true,
-	slog.SourceKey:  true,
-}
-
 // -----------------------------------------------------------------------------
 
 // composer handles writing attributes to an io.Writer.
@@ -70,14 +64,11 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 		return nil
 	}
 	value := attr.Value.Resolve()
-	if c.replace != nil {
+	if c.replace != nil && value.Kind() != slog.KindGroup {
+		// Never called for groups, only for their contents.
 		attr.Value = value
-		var groups []string
-		if !basicField[attr.Key] {
-			groups = c.groups
-		}
-		attr = c.replace(groups, attr)
-		value = attr.Value
+		attr = c.replace(c.groups, attr)
+		value = attr.Value.Resolve()
 	}
 	if attr.Equal(infra.EmptyAttr()) {
 		return nil
@@ -209,12 +200,12 @@ func (c *composer) addFloat64(f float64) error {
 	return nil
 }
 
-func (c *composer) addGroup(_ string, attrs []slog.Attr) error {
+func (c *composer) addGroup(name string, attrs []slog.Attr) error {
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
 	// Local composer object resets started flag
-	cg := newComposer(c.Writer, false, c.replace, c.groups)
+	cg := newComposer(c.Writer, false, c.replace, append(slices.Clip(c.groups), name))
 	if err := cg.addAttributes(attrs); err != nil {
 		return fmt.Errorf("add attributes: %w", err)
 	}
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 99c2897..4ab0514 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -43,7 +43,8 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	// Compose the whole line first: the writer gets it in a single call, under the lock,
 	// so lines of concurrent calls don't mix and a failed call leaves nothing behind.
 	var line bytes.Buffer
-	c := newComposer(&line, false, h.options.ReplaceAttr, h.groups)
+	// The basic fields are not in any group.
+	c := newComposer(&line, false, h.options.ReplaceAttr, nil)
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
@@ -67,6 +68,7 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	if err := c.addAttributes(basic); err != nil {
 		return fmt.Errorf("add basic attributes: %w", err)
 	}
+	c.groups = h.groups
 
 	if h.prefix.Len() > 0 {
 		if _, err := c.Write(commaSpace); err != nil {
-- 
2.43.0


From ef0d1417da7c52cd0f9efba1a69f261e5ecd3453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 39/54] fix: flash, sloggy: context values of the caller don't
 confuse groups

---
 handlers/flash/group.go  | 10 +++++++---
 handlers/sloggy/group.go | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/handlers/flash/group.go b/handlers/flash/group.go
index 504c9fa..2c1aa67 100644
--- a/handlers/flash/group.go
+++ b/handlers/flash/group.go
@@ -7,6 +7,10 @@ import (
 	"github.com/madkins23/go-slog/infra"
 )
 
+// deadGroupKey is the type of the context key for the name of an empty group.
+// Keys of other types can't collide with it.
+type deadGroupKey struct{}
+
 // group structure provides embedded group support to flash handler.
 type group struct {
 	*Handler
@@ -24,7 +28,7 @@ func (g *group) Handle(ctx context.Context, record slog.Record) error {
 	count := 0
 	var dead = false
 	var deadGroup string
-	if deadVal := ctx.Value("deadGroup"); deadVal != nil {
+	if deadVal := ctx.Value(deadGroupKey{}); deadVal != nil {
 		// This is a call back to remove a (now empty) group.
 		deadGroup = deadVal.(string)
 	}
@@ -45,8 +49,8 @@ func (g *group) Handle(ctx context.Context, record slog.Record) error {
 		// Since the normal handler prefix already includes group name and open brace
 		// it isn't possible to use the current handler prefix.
 		// The parent handler prefix, however, should work just fine.
-		// Pass in the context variable "deadGroup" to specify the name of this (now empty) group.
-		return g.parent.Handle(context.WithValue(ctx, "deadGroup", g.name), record)
+		// Pass in the context variable deadGroupKey to specify the name of this (now empty) group.
+		return g.parent.Handle(context.WithValue(ctx, deadGroupKey{}, g.name), record)
 		// This is a weird solution, but it seems to work.
 	}
 	return g.Handler.Handle(ctx, record)
diff --git a/handlers/sloggy/group.go b/handlers/sloggy/group.go
index 2009082..24a0ad2 100644
--- a/handlers/sloggy/group.go
+++ b/handlers/sloggy/group.go
@@ -7,6 +7,10 @@ import (
 	"github.com/madkins23/go-slog/infra"
 )
 
+// deadGroupKey is the type of the context key for the name of an empty group.
+// Keys of other types can't collide with it.
+type deadGroupKey struct{}
+
 // group structure provides embedded group support to sloggy handler.
 type group struct {
 	*Handler
@@ -24,7 +28,7 @@ func (g *group) Handle(ctx context.Context, record slog.Record) error {
 	count := 0
 	var dead = false
 	var deadGroup string
-	if deadVal := ctx.Value("deadGroup"); deadVal != nil {
+	if deadVal := ctx.Value(deadGroupKey{}); deadVal != nil {
 		// This is a call back to remove a (now empty) group.
 		deadGroup = deadVal.(string)
 	}
@@ -45,8 +49,8 @@ func (g *group) Handle(ctx context.Context, record slog.Record) error {
 		// Since the normal handler prefix already includes group name and open brace
 		// it isn't possible to use the current handler prefix.
 		// The parent handler prefix, however, should work just fine.
-		// Pass in the context variable "deadGroup" to specify the name of this (now empty) group.
-		return g.parent.Handle(context.WithValue(ctx, "deadGroup", g.name), record)
+		// Pass in the context variable deadGroupKey to specify the name of this (now empty) group.
+		return g.parent.Handle(context.WithValue(ctx, deadGroupKey{}, g.name), record)
 		// This is a weird solution, but it seems to work.
 	}
 	return g.Handler.Handle(ctx, record)
-- 
2.43.0


From 71a68e93780b44e8fd75e45777626c967961ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 40/54] fix: flash: escape what a configured time format gives

---
 handlers/flash/composer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 9dae423..b489d5f 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -300,6 +300,10 @@ func (c *composer) addTextMarshaler(m encoding.TextMarshaler) error {
 }
 
 func (c *composer) addTime(t time.Time) {
+	if c.extras.TimeFormat != DefaultTimeFormat {
+		c.addString(t.Format(c.extras.TimeFormat)) // May need escapes.
+		return
+	}
 	c.buffer = append(c.buffer, '"')
 	c.buffer = t.AppendFormat(c.buffer, c.extras.TimeFormat)
 	c.buffer = append(c.buffer, '"')
-- 
2.43.0


From 7bb69941302d1556a622663b21067f154a3cd257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 41/54] fix: flash, sloggy: an empty group name on a group
 changes nothing

---
 handlers/flash/group.go  | 4 ++++
 handlers/sloggy/group.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/handlers/flash/group.go b/handlers/flash/group.go
index 2c1aa67..79bbbc0 100644
--- a/handlers/flash/group.go
+++ b/handlers/flash/group.go
@@ -57,6 +57,10 @@ func (g *group) Handle(ctx context.Context, record slog.Record) error {
 }
 
 func (g *group) WithGroup(name string) slog.Handler {
+	if name == "" {
+		// Groups with empty names are to be inlined.
+		return g
+	}
 	hdlr := g.Handler.WithGroup(name)
 	if group, ok := hdlr.(*group); ok {
 		// Override the previously set parent to be this object.
diff --git a/handlers/sloggy/group.go b/handlers/sloggy/group.go
index 24a0ad2..4162240 100644
--- a/handlers/sloggy/group.go
+++ b/handlers/sloggy/group.go
@@ -57,6 +57,10 @@ func (g *group) Handle(ctx context.Context, record slog.Record) error {
 }
 
 func (g *group) WithGroup(name string) slog.Handler {
+	if name == "" {
+		// Groups with empty names are to be inlined.
+		return g
+	}
 	hdlr := g.Handler.WithGroup(name)
 	if group, ok := hdlr.(*group); ok {
 		// Override the previously set parent to be this object.
-- 
2.43.0


From 75c7fafad143f4e847196f1f3870569eaa2a39bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 42/54] fix: sloggy: separators are right when ReplaceAttr
 removes all basic fields

---
 handlers/sloggy/handler.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 4ab0514..e41f004 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -71,15 +71,15 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	c.groups = h.groups
 
 	if h.prefix.Len() > 0 {
-		if _, err := c.Write(commaSpace); err != nil {
-			return fmt.Errorf("comma space: %w", err)
+		if c.started { // Unless ReplaceAttr removed all the basic fields.
+			if _, err := c.Write(commaSpace); err != nil {
+				return fmt.Errorf("comma space: %w", err)
+			}
 		}
 		if _, err := c.Write(h.prefix.Bytes()); err != nil {
 			return fmt.Errorf("write prefix: %w", err)
 		}
-		if bytes.HasSuffix(h.prefix.Bytes(), []byte{'{'}) {
-			c.setStarted(false)
-		}
+		c.setStarted(!bytes.HasSuffix(h.prefix.Bytes(), []byte{'{'}))
 	}
 
 	var err error
-- 
2.43.0


From 84a51b1d94d57b47005bca87880a049ce80ef5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 43/54] fix: server: answer 400 to charts of unknown items or
 tags

A chart of an unknown tag ended in a panic, as there are no HTML templates in the Gin engine;
a chart of an unknown item was an empty answer with status 200.
---
 cmd/server/chart/bar.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmd/server/chart/bar.go b/cmd/server/chart/bar.go
index b0e74ce..877bd56 100644
--- a/cmd/server/chart/bar.go
+++ b/cmd/server/chart/bar.go
@@ -17,7 +17,7 @@ func Bar(c *gin.Context, bench *data.Benchmarks) {
 	item, err := data.BenchItemsString(itemArg)
 	if err != nil {
 		slog.Error("Bad URL parameter", "param", itemArg, "err", err)
-		// TODO: what to do here?
+		c.String(http.StatusBadRequest, "No benchmark item %s", itemArg)
 		return
 	}
 	tag := c.Param("tag")
@@ -34,9 +34,8 @@ func Bar(c *gin.Context, bench *data.Benchmarks) {
 			labels, values = chartHandler(bench, records, item)
 		} else {
 			slog.Error("Neither handler nor benchmark records found", "fn", "chartFunction")
-			c.HTML(http.StatusBadRequest, "pageFunction", gin.H{
-				"ErrorTitle":   "Template failed execution",
-				"ErrorMessage": "No records for " + tag})
+			// Not c.HTML(), which panics as the engine has no templates.
+			c.String(http.StatusBadRequest, "No records for %s", tag)
 			return
 		}
 		const verticalPadding = 100
-- 
2.43.0


From ce346f7c1080cc8085d05ce65b618e540c15f227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 44/54] fix: server: no panic for the score chart of an unknown
 keeper

---
 cmd/server/chart/score.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/server/chart/score.go b/cmd/server/chart/score.go
index ab655b1..3a3e9f0 100644
--- a/cmd/server/chart/score.go
+++ b/cmd/server/chart/score.go
@@ -127,6 +127,11 @@ func Score(c *gin.Context, warns *data.Warnings) {
 	ch, found := Cache[cacheKey]
 	CacheMutex.Unlock()
 	keeper := score.GetKeeper(score.KeeperTag(c.Param("keeper")))
+	if keeper == nil {
+		slog.Error("Bad URL parameter", "keeper", c.Param("keeper"))
+		c.String(http.StatusBadRequest, "No score keeper %s", c.Param("keeper"))
+		return
+	}
 	chartData := newChartData(keeper, warns, sizes[size])
 	if !found {
 		graph := chartData.generate()
-- 
2.43.0


From 92c6a100a31d4c97b8c854a32439c2a6799a4a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 45/54] fix: server: no panic when the client of a text is gone

---
 cmd/server/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/server/server.go b/cmd/server/server.go
index 612d018..53653fe 100644
--- a/cmd/server/server.go
+++ b/cmd/server/server.go
@@ -490,9 +490,9 @@ func textFunction(text string) gin.HandlerFunc {
 	return func(c *gin.Context) {
 		slog.Debug("textFunction()", "text", text)
 		if _, err := c.Writer.Write([]byte(text)); err != nil {
-			c.HTML(http.StatusInternalServerError, "textFunction", gin.H{
-				"ErrorTitle":   "Failed to write string",
-				"ErrorMessage": err.Error()})
+			// The client is gone, there is nobody to tell.
+			slog.Error("Error writing text", "err", err)
+			_ = c.Error(err)
 		}
 	}
 }
-- 
2.43.0


From 475690c30730b17c0c18df824178b7fe82cee611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 46/54] fix: server: escape the contents of text files and
 names from URLs

Text files with markup characters were not shown as they are, and an unknown tag in a URL
got into the page as markup.
---
 cmd/server/pages/handler.gohtml | 2 +-
 cmd/server/pages/test.gohtml    | 2 +-
 cmd/server/pages/text.gohtml    | 2 +-
 cmd/server/text.go              | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd/server/pages/handler.gohtml b/cmd/server/pages/handler.gohtml
index fd8d073..31a0fee 100644
--- a/cmd/server/pages/handler.gohtml
+++ b/cmd/server/pages/handler.gohtml
@@ -9,7 +9,7 @@
 <div class="wrapper">
   <div class="header">
     {{ $name := .Benchmarks.HandlerName .Handler }}
-    {{ template "partHeader" dict "top" $ "title" (printf "Handler <span class=\"fixed\">%s</span>" $name) }}
+    {{ template "partHeader" dict "top" $ "title" (printf "Handler <span class=\"fixed\">%s</span>" (html $name)) }}
   </div>
   <div class="content">
     <div>
diff --git a/cmd/server/pages/test.gohtml b/cmd/server/pages/test.gohtml
index d413c83..3df55b3 100644
--- a/cmd/server/pages/test.gohtml
+++ b/cmd/server/pages/test.gohtml
@@ -14,7 +14,7 @@
     {{ else }}
       {{ $name = .Warnings.TestName .Test }}
     {{ end }}
-    {{ template "partHeader" dict "top" $ "title" (printf "Test <span class=\"fixed\">%s</span>" $name) }}
+    {{ template "partHeader" dict "top" $ "title" (printf "Test <span class=\"fixed\">%s</span>" (html $name)) }}
   </div>
   <div class="content">
     <div>
diff --git a/cmd/server/pages/text.gohtml b/cmd/server/pages/text.gohtml
index 8adcaf0..22b06c5 100644
--- a/cmd/server/pages/text.gohtml
+++ b/cmd/server/pages/text.gohtml
@@ -8,7 +8,7 @@
 <body>
 <div class="wrapper">
   <div class="header">
-    {{ template "partHeader" dict "top" $ "title" (printf "Text File <span class=\"fixed\">%s</span>" $.Item.Name) }}
+    {{ template "partHeader" dict "top" $ "title" (printf "Text File <span class=\"fixed\">%s</span>" (html $.Item.Name)) }}
   </div>
   <div class="text-summary">{{ $.Item.Summary }}</div>
   <div class="text">{{ $.Item.Data }}</div>
diff --git a/cmd/server/text.go b/cmd/server/text.go
index f182c8e..fe142ef 100644
--- a/cmd/server/text.go
+++ b/cmd/server/text.go
@@ -39,7 +39,7 @@ func NewTextCache(items ...*TextItem) *TextCache {
 			slog.Warn("Unable to load text file",
 				"Path", item.Path, "error", err.Error())
 		} else if len(data) > 0 {
-			item.Data = template.HTML(data)
+			item.Data = template.HTML(template.HTMLEscapeString(string(data)))
 			tc.cache[item.Name] = item
 			tc.names = append(tc.names, item.Name)
 		} else {
@@ -65,7 +65,7 @@ func (tc *TextCache) TextItem(path string) *TextItem {
 		item = &TextItem{
 			Path:    path,
 			Summary: "Text Not Found",
-			Data:    template.HTML("Path: " + path),
+			Data:    template.HTML(template.HTMLEscapeString("Path: " + path)),
 		}
 	}
 	return item
-- 
2.43.0


From fc0ab39afd52a3a3fee6955bddd83b5c565ba79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 47/54] fix: server: handlers of the same score are in the same
 order in every chart

---
 cmd/server/chart/score.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/server/chart/score.go b/cmd/server/chart/score.go
index 3a3e9f0..c9ce727 100644
--- a/cmd/server/chart/score.go
+++ b/cmd/server/chart/score.go
@@ -293,8 +293,9 @@ func (cd *scoreChartData) annotations() []chart.Value2 {
 
 // dataMarkers generates chart points and labels to represent score values.
 func (cd *scoreChartData) dataMarkers() {
-	for hdlr, coords := range cd.handlers {
-		if coords.y > 0.00001 {
+	// In the order of the keeper, not of the map, so that the chart is the same every time.
+	for _, hdlr := range cd.keeper.HandlerTags() {
+		if coords, found := cd.handlers[hdlr]; found && coords.y > 0.00001 {
 			x := float64(coords.x)
 			y := float64(coords.y)
 			cd.items = append(cd.items, scoreChartDataItem{
@@ -321,8 +322,8 @@ func (cd *scoreChartData) dataMarkers() {
 		top = 100
 	}
 	// Sort data items by decreasing y-value.
-	sort.Slice(cd.items, func(i, j int) bool {
-		return cd.items[i].y >= cd.items[j].y
+	sort.SliceStable(cd.items, func(i, j int) bool {
+		return cd.items[i].y > cd.items[j].y
 	})
 	for i, item := range cd.items {
 		cd.series = append(cd.series, chart.ContinuousSeries{
-- 
2.43.0


From 16fcf4f0193358f96adc84ae5cfb41b182a2895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 48/54] fix: data: show log lines that aren't JSON as well

---
 internal/data/warnings.go        | 2 +-
 internal/data/warnings_parser.go | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index a9d6fe6..4b3a1ec 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -514,7 +514,7 @@ func (di *dataInstance) Line() string {
 }
 
 func (di *dataInstance) HasLog() bool {
-	return len(strings.Trim(di.log, " ")) > 0
+	return len(strings.Trim(di.Log(), " ")) > 0
 }
 
 func (di *dataInstance) Log() string {
diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 0f9515d..7688fc7 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -68,6 +68,7 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 					&dataInstance{
 						name:  handler.Name(),
 						extra: instance.extra,
+						line:  instance.line,
 						log:   instance.log,
 					})
 				wd := w.FindWarning(dWarning.warning.name)
-- 
2.43.0


From d2fbb11fc26f55997c82d0ac576f0cd751adc880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 49/54] fix: data: escape the text of warnings in HTML

---
 internal/data/warnings.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 4b3a1ec..cc7c6a3 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -499,7 +499,11 @@ func (di *dataInstance) ExtraHTML() template.HTML {
 				// Error from slog/slogtest.
 				line = fmt.Sprintf(
 					"%s<br/><a href=\"%s/%s;l=%s\">%s</a>",
-					matches[1], srcRoot, matches[3], matches[4], matches[2])
+					template.HTMLEscapeString(matches[1]), srcRoot,
+					template.HTMLEscapeString(matches[3]), matches[4],
+					template.HTMLEscapeString(matches[2]))
+			} else {
+				line = template.HTMLEscapeString(line)
 			}
 			lines[i] = "<p>" + line + "</p>"
 		}
-- 
2.43.0


From c4e2792111ba658d768211343de598a2c4c0c246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 50/54] fix: server: handlers without warnings are at their
 place in score charts

---
 cmd/server/chart/score.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/server/chart/score.go b/cmd/server/chart/score.go
index c9ce727..0a7bece 100644
--- a/cmd/server/chart/score.go
+++ b/cmd/server/chart/score.go
@@ -207,7 +207,7 @@ func newChartData(keeper *score.Keeper, warns *data.Warnings, size *sizeData) *s
 			cd.handlers[hdlr] = &handlerCoords{y: cd.keeper.Y().ScoreFor(hdlr)}
 		}
 	}
-	for _, hdlr := range cd.warns.HandlerTags() {
+	for _, hdlr := range cd.keeper.HandlerTags() {
 		// Only add value if there is already a benchmark score.
 		if coords, found := cd.handlers[hdlr]; found {
 			// Only add x-value if it is within bounds (above size.low.x).
-- 
2.43.0


From d35520c3f30a622954345804639cce5e93887596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:43 +0000
Subject: [PATCH 51/54] fix: server: score charts name handlers without
 warnings as everything else does

---
 cmd/server/chart/score.go | 12 ++++++------
 cmd/server/server.go      |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/cmd/server/chart/score.go b/cmd/server/chart/score.go
index 0a7bece..acce463 100644
--- a/cmd/server/chart/score.go
+++ b/cmd/server/chart/score.go
@@ -119,7 +119,7 @@ var sizes = []*sizeData{
 
 // Score generates an SVG chart for the score visualization and
 // uses the gin.Context argument to send the SVG data back to the user's browser.
-func Score(c *gin.Context, warns *data.Warnings) {
+func Score(c *gin.Context, bench *data.Benchmarks) {
 	size := scoreChartSize(c)
 	cacheKey := "score:" + c.Param("keeper")
 	cacheKey = cacheKey + ":" + strconv.Itoa(size)
@@ -132,7 +132,7 @@ func Score(c *gin.Context, warns *data.Warnings) {
 		c.String(http.StatusBadRequest, "No score keeper %s", c.Param("keeper"))
 		return
 	}
-	chartData := newChartData(keeper, warns, sizes[size])
+	chartData := newChartData(keeper, bench, sizes[size])
 	if !found {
 		graph := chartData.generate()
 		var buf bytes.Buffer
@@ -183,21 +183,21 @@ type scoreChartDataItem struct {
 }
 
 type scoreChartData struct {
+	bench    *data.Benchmarks
 	handlers map[data.HandlerTag]*handlerCoords
 	keeper   *score.Keeper
 	items    []scoreChartDataItem
 	series   []chart.Series
 	size     *sizeData
-	warns    *data.Warnings
 }
 
-func newChartData(keeper *score.Keeper, warns *data.Warnings, size *sizeData) *scoreChartData {
+func newChartData(keeper *score.Keeper, bench *data.Benchmarks, size *sizeData) *scoreChartData {
 	cd := &scoreChartData{
+		bench:    bench,
 		handlers: make(map[data.HandlerTag]*handlerCoords),
 		keeper:   keeper,
 		series:   make([]chart.Series, 0, 6),
 		size:     size,
-		warns:    warns,
 	}
 	// Initializes a map from data.HandlerTag to *handlerCoords.
 	// Handler records are only used if the handler scores are within the size of the chart.
@@ -299,7 +299,7 @@ func (cd *scoreChartData) dataMarkers() {
 			x := float64(coords.x)
 			y := float64(coords.y)
 			cd.items = append(cd.items, scoreChartDataItem{
-				label: cd.warns.HandlerName(hdlr),
+				label: cd.bench.HandlerName(hdlr),
 				x:     x,
 				y:     y,
 			})
diff --git a/cmd/server/server.go b/cmd/server/server.go
index 53653fe..3d42a74 100644
--- a/cmd/server/server.go
+++ b/cmd/server/server.go
@@ -504,5 +504,5 @@ func barChart(c *gin.Context) {
 
 // scoreChart generates an SVG chart for the specified score Data.
 func scoreChart(c *gin.Context) {
-	chart.Score(c, warns)
+	chart.Score(c, bench)
 }
-- 
2.43.0


From ccb5945656fb4c597db47929da80dab8895d56dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 52/54] fix: server: a text without a name is not found instead
 of an error in a template

---
 cmd/server/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/server/server.go b/cmd/server/server.go
index 3d42a74..94d3858 100644
--- a/cmd/server/server.go
+++ b/cmd/server/server.go
@@ -411,6 +411,7 @@ func pageFunction(page pageType) gin.HandlerFunc {
 				tmplData.Item = text.TextItem(tag)
 			} else if page == pageText {
 				slog.Error("No URL parameter", "tag", tag, "page", page)
+				tmplData.Item = text.TextItem(tag)
 			} else {
 				tmplData.Item = &TextItem{
 					Name:    "<noFile>",
-- 
2.43.0


From 230272f8f7ccd73ff03093bba62cdc952a49ff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:54 +0000
Subject: [PATCH 53/54] fix: madkinsreplattr: no panic when there are no
 options

---
 creator/madkinsreplattr/creator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/creator/madkinsreplattr/creator.go b/creator/madkinsreplattr/creator.go
index a3078d4..b6df8dd 100644
--- a/creator/madkinsreplattr/creator.go
+++ b/creator/madkinsreplattr/creator.go
@@ -31,6 +31,9 @@ func Creator() infra.Creator {
 }
 
 func handlerFn(w io.Writer, options *slog.HandlerOptions) slog.Handler {
+	if options == nil {
+		options = &slog.HandlerOptions{}
+	}
 	fns := []infra.AttrFn{
 		replace.ChangeKey("message", slog.MessageKey, false, replace.TopCheck),
 		replace.ChangeKey("lvl", slog.LevelKey, false, replace.TopCheck),
-- 
2.43.0


From 501853a7c6bed4da51d2859682937f5a54e3c693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:50 +0000
Subject: [PATCH 54/54] fix: json: only count the contents of a 'fields' object
 when it is at the top level

---
 internal/json/field.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/json/field.go b/internal/json/field.go
index ee3f90f..ebf1f15 100644
--- a/internal/json/field.go
+++ b/internal/json/field.go
@@ -177,7 +177,7 @@ func (ctr *FieldCounter) parseArray() error {
 	})
 }
 
-func (ctr *FieldCounter) parseField(field string) error {
+func (ctr *FieldCounter) parseField(field string, countFields bool) error {
 	expectColon := true
 	return ctr.readLoop(func(r rune) error {
 		if unicode.IsSpace(r) {
@@ -192,7 +192,7 @@ func (ctr *FieldCounter) parseField(field string) error {
 		} else if expectColon {
 			return fmt.Errorf(fmtExpectedColon, r)
 		} else if r == '{' {
-			if field == "fields" {
+			if countFields && field == "fields" {
 				// Special case for Apex wherein additional fields are in 'fields' object.
 				delete(ctr.counts, field)
 				return ctr.wrapCallError(ctr.parseObject(true), msgParseObject, true, false)
@@ -290,7 +290,7 @@ func (ctr *FieldCounter) parseObject(countFields bool) error {
 				ctr.counts[field]++
 			}
 			expectComma = true
-			return ctr.wrapCallError(ctr.parseField(field), msgParseField, false, false)
+			return ctr.wrapCallError(ctr.parseField(field, countFields), msgParseField, false, false)
 		case r == '}':
 			return errFinished
 		default:
-- 
2.43.0

