From 0234f7c6e48ec9b34ceb5b4af11965f72b137119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:17 +0000
Subject: [PATCH 01/61] fix: parse strings ending in an escaped backslash

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index ee0ffb2..b3a92cb 100644
--- a/parser.go
+++ b/parser.go
@@ -144,8 +144,8 @@ readString:
 		i := strings.IndexByte(s, delimString) - 1
 		if 0 <= i && i < len(s) {
 			if s[i] == delimEscape {
-				// Advance past '\' and '"' and scan the remaining string
-				for i += 2; 0 <= i && i < len(s); i++ { // Avoid bounds check
+				// The escape might itself be escaped so scan the string from the start
+				for i = 0; 0 <= i && i < len(s); i++ { // Avoid bounds check
 					switch s[i] {
 					case delimString:
 						// Slice until the closing quote
-- 
2.43.0


From 1681587b811216ef8d2c3e3c70597c0a34ae668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:04 +0000
Subject: [PATCH 02/61] fix: ignore empty nodes in Node.Append

---
 node.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/node.go b/node.go
index 2fd55ec..98aa0a6 100644
--- a/node.go
+++ b/node.go
@@ -300,10 +300,13 @@ func (n Node) Append(values ...Node) {
 	if nn := n.get(); nn != nil && nn.info.IsArray() {
 		vv := nn.values
 		for _, v := range values {
-			vv = append(vv, V{
-				id:  n.doc.copyOrAdopt(v.Document(), v.ID(), n.id),
-				key: "",
-			})
+			// Skip values that are not valid nodes
+			if id := n.doc.copyOrAdopt(v.Document(), v.ID(), n.id); id < maxUint {
+				vv = append(vv, V{
+					id:  id,
+					key: "",
+				})
+			}
 		}
 		// copyOrAdopt might grow nodes array invalidating nn pointer
 		n.doc.nodes[n.id].values = vv
-- 
2.43.0


From 5e67702b870f2d1dcdbba17592b727b21acfcbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:27 +0000
Subject: [PATCH 03/61] fix: let Node.Slice keep the last element of an array

---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 98aa0a6..6448c22 100644
--- a/node.go
+++ b/node.go
@@ -317,7 +317,7 @@ func (n Node) Append(values ...Node) {
 
 // Slice reslices an Array node.
 func (n Node) Slice(i, j int) {
-	if n := n.get(); n != nil && n.info.IsArray() && 0 <= i && i < j && j < len(n.values) {
+	if n := n.get(); n != nil && n.info.IsArray() && 0 <= i && i < j && j <= len(n.values) {
 		n.values = n.values[i:j]
 	}
 }
-- 
2.43.0


From bc2b27045fee72dece8ea13733c83a14fc4769a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:13 +0000
Subject: [PATCH 04/61] fix: keep the escape that follows an unpaired surrogate

---
 strjson/unescape.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/strjson/unescape.go b/strjson/unescape.go
index 5c55bbd..70c2138 100644
--- a/strjson/unescape.go
+++ b/strjson/unescape.go
@@ -78,12 +78,14 @@ unescapeRune:
 		i += 5
 		if utf16.IsSurrogate(r1) {
 			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' {
-				i += 6
 				r2 := rune(fromHex(ss[7])) << 12
 				r2 |= rune(fromHex(ss[8])) << 8
 				r2 |= rune(fromHex(ss[9])) << 4
 				r2 |= rune(fromHex(ss[10]))
-				r1 = utf16.DecodeRune(r1, r2)
+				if r1 = utf16.DecodeRune(r1, r2); r1 != utf8.RuneError {
+					// Only a valid pair consumes the second escape
+					i += 6
+				}
 			} else {
 				r1 = utf8.RuneError
 			}
@@ -223,12 +225,14 @@ unescapeRune:
 		i += 5
 		if utf16.IsSurrogate(r1) {
 			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' {
-				i += 6
 				r2 := rune(fromHex(ss[7])) << 12
 				r2 |= rune(fromHex(ss[8])) << 8
 				r2 |= rune(fromHex(ss[9])) << 4
 				r2 |= rune(fromHex(ss[10]))
-				r1 = utf16.DecodeRune(r1, r2)
+				if r1 = utf16.DecodeRune(r1, r2); r1 != utf8.RuneError {
+					// Only a valid pair consumes the second escape
+					i += 6
+				}
 			} else {
 				r1 = utf8.RuneError
 			}
-- 
2.43.0


From 2bd01a157b521b9d9247b58326ee825fc1e113cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:14 +0000
Subject: [PATCH 05/61] fix: strip keys inside arrays and duplicate keys

---
 node.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/node.go b/node.go
index 6448c22..6209cf1 100644
--- a/node.go
+++ b/node.go
@@ -349,21 +349,20 @@ func (n Node) Remove(i int) {
 
 // Strip recursively deletes a key from a node.
 func (n Node) Strip(key string) {
-	if nn := n.get(); nn != nil && nn.info.IsObject() {
-		for i := range nn.values {
+	if nn := n.get(); nn != nil {
+		for i := 0; i < len(nn.values); {
 			v := &nn.values[i]
-			if key == v.key {
+			if key == v.key && nn.info.IsObject() {
 				if j := len(nn.values) - 1; 0 <= j && j < len(nn.values) {
 					nn.values[i] = nn.values[j]
 					nn.values[j] = V{}
 					nn.values = nn.values[:j]
-					for j := i; 0 <= j && j < len(nn.values); j++ {
-						n.With(nn.values[j].id).Strip(key)
-					}
 				}
-				return
+				// Check the value that was moved in place
+				continue
 			}
 			n.With(v.id).Strip(key)
+			i++
 		}
 	}
 
-- 
2.43.0


From 4c4b61aa2447adf646ee3043e2f9b147c421eeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:15 +0000
Subject: [PATCH 06/61] fix: no array element for empty or overflowing indices
 in Node.Lookup

---
 document.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/document.go b/document.go
index ea8a555..164a534 100644
--- a/document.go
+++ b/document.go
@@ -76,8 +76,15 @@ lookup:
 					}
 				}
 			case TypeArray:
+				if key == "" {
+					return maxUint
+				}
 				i := 0
 				for _, c := range []byte(key) {
+					if i > len(n.values) {
+						// Out of range, further digits could overflow
+						return maxUint
+					}
 					if c -= '0'; 0 <= c && c <= 9 {
 						i = i*10 + int(c)
 					} else {
-- 
2.43.0


From e856259bdef970255ca06c02f7d7decfff7d909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:07 +0000
Subject: [PATCH 07/61] fix: never adopt the copy of a root node a second time

---
 document.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document.go b/document.go
index 164a534..564d798 100644
--- a/document.go
+++ b/document.go
@@ -311,7 +311,7 @@ func (d *Document) ncopy(other *Document, n *node) uint {
 	values := cp.values[:cap(cp.values)]
 	*cp = node{
 		raw:  n.raw,
-		info: n.info,
+		info: n.info &^ infRoot, // A copy always has a parent
 	}
 	numV := uint(0)
 	for i := range n.values {
-- 
2.43.0


From 9c3f85b62ceac143fb76df5230ada3bb06c609e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:08 +0000
Subject: [PATCH 08/61] fix: copy a node that is inserted into its own
 descendant

---
 document.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index 564d798..d8c8467 100644
--- a/document.go
+++ b/document.go
@@ -347,13 +347,29 @@ func (d *Document) ncopy(other *Document, n *node) uint {
 // 	return id
 // }
 
+// contains checks if a node is among the descendants of node id.
+func (d *Document) contains(id, node uint) bool {
+	if n := d.get(node); n == nil || n.info.IsRoot() {
+		// Root nodes have no ancestors
+		return false
+	}
+	if n := d.get(id); n != nil {
+		for i := range n.values {
+			if v := &n.values[i]; v.id == node || d.contains(v.id, node) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (d *Document) copyOrAdopt(other *Document, id, to uint) uint {
 	n := other.get(id)
 	if n == nil {
 		return maxUint
 	}
 	if other == d {
-		if id != to && n.info.IsRoot() && id != 0 {
+		if id != to && n.info.IsRoot() && id != 0 && !d.contains(id, to) {
 			n.info &^= infRoot
 			return id
 		}
-- 
2.43.0


From 25a4b3feb73b6397a2c0d40886bde609d796c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:23 +0000
Subject: [PATCH 09/61] fix: unescape keys in Node.ToInterface

---
 document.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document.go b/document.go
index d8c8467..b61b55e 100644
--- a/document.go
+++ b/document.go
@@ -233,7 +233,7 @@ func (d *Document) toInterfaceMap(values []V) (interface{}, bool) {
 		ok bool
 	)
 	for _, v := range values {
-		m[v.key], ok = d.toInterface(v.id)
+		m[strjson.Unescaped(v.key)], ok = d.toInterface(v.id)
 		if !ok {
 			return nil, false
 		}
-- 
2.43.0


From 9137dbf71620160b59e3381ee288dbf4f9356f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:28 +0000
Subject: [PATCH 10/61] fix: round correctly in numjson.ParseFloat and refuse
 repeated exponent signs

---
 numjson/numjson.go | 63 +++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/numjson/numjson.go b/numjson/numjson.go
index fb3c233..608e254 100644
--- a/numjson/numjson.go
+++ b/numjson/numjson.go
@@ -7,14 +7,18 @@ import (
 
 var fNaN = math.NaN()
 
+// maxExp is a limit to stop exponents from overflowing.
+const maxExp = 1 << 26
+
 // ParseFloat parses a float number from a string.
 func ParseFloat(s string) float64 {
 	var (
 		i      uint
 		j      int
+		digits int
+		exp    int
 		c      byte
 		num    uint64
-		dec    uint64
 		f      float64
 		signed bool
 	)
@@ -55,12 +59,12 @@ func ParseFloat(s string) float64 {
 	}
 	goto fallback
 decimal:
+	digits, j = j, 0
 	if c == '.' {
-		j = 0
 		for i++; i < uint(len(s)); i++ {
 			c = s[i]
 			if '0' <= c && c <= '9' {
-				dec = 10*dec + uint64(c-'0')
+				num = num*10 + uint64(c-'0')
 				j++
 				continue
 			}
@@ -69,60 +73,55 @@ decimal:
 			}
 			return fNaN
 		}
-		if 0 < j && j <= 18 {
-			f = float64(num) + float64(dec)*math.Pow10(-j)
-			if signed {
-				return -f
-			}
-			return f
-		}
 		if j == 0 {
 			return fNaN
 		}
-		goto fallback
+		goto exact
 	}
 scientific:
 	if c == 'e' || c == 'E' {
 		signed := false
-		exp := 0
+		sign := byte(0)
 		jj := 0
 		for i++; i < uint(len(s)); i++ {
 			c = s[i]
 			if '0' <= c && c <= '9' {
 				jj++
-				exp = 10*exp + int(c-'0')
+				if exp < maxExp {
+					exp = 10*exp + int(c-'0')
+				}
 				continue
 			}
-			if jj == 0 {
-				switch c {
-				case '-':
-					signed = true
-					continue
-				case '+':
-					continue
-				}
+			if jj == 0 && sign == 0 && (c == '-' || c == '+') {
+				sign = c
+				signed = c == '-'
+				continue
 			}
 			return fNaN
 		}
 		if jj == 0 {
 			return fNaN
 		}
-		if exp > 300 {
-			goto fallback
-		}
 		if signed {
-			f = (float64(num) + float64(dec)*math.Pow10(-j)) * math.Pow10(-exp)
-		} else {
-			f = float64(num)*math.Pow10(exp) + float64(dec)*math.Pow10(exp-j)
+			exp = -exp
 		}
-		goto done
+		goto exact
 	}
 	return fNaN
-done:
-	if signed {
-		return -f
+exact:
+	// A single operation on exact operands is correctly rounded.
+	exp -= j
+	if digits+j <= 15 && -22 <= exp && exp <= 22 {
+		if exp < 0 {
+			f = float64(num) / math.Pow10(-exp)
+		} else {
+			f = float64(num) * math.Pow10(exp)
+		}
+		if signed {
+			return -f
+		}
+		return f
 	}
-	return f
 fallback:
 	f, _ = strconv.ParseFloat(s, 64)
 	return f
-- 
2.43.0


From fdbc1847e46fb71dbf9ddeeace691b677018ed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:41 +0000
Subject: [PATCH 11/61] fix: parse integers exactly instead of through float64

---
 node.go            |   7 +---
 numjson/numjson.go | 101 +++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 99 insertions(+), 9 deletions(-)

diff --git a/node.go b/node.go
index 6209cf1..77fe8c7 100644
--- a/node.go
+++ b/node.go
@@ -4,7 +4,6 @@ import (
 	"encoding"
 	"encoding/json"
 	"io"
-	"math"
 	"strconv"
 	"sync"
 
@@ -103,8 +102,7 @@ func (n Node) ToFloat() (float64, bool) {
 // ToInt converts a node's value to int64.
 func (n Node) ToInt() (int64, bool) {
 	if n := n.get(); n != nil {
-		f := numjson.ParseFloat(n.raw)
-		return int64(f), math.MinInt64 <= f && f < math.MaxInt64 && math.Trunc(f) == f
+		return numjson.ParseInt(n.raw)
 	}
 	return 0, false
 }
@@ -112,8 +110,7 @@ func (n Node) ToInt() (int64, bool) {
 // ToUint converts a node's  value to uint64.
 func (n Node) ToUint() (uint64, bool) {
 	if n := n.get(); n != nil {
-		f := numjson.ParseFloat(n.raw)
-		return uint64(f), 0 <= f && f < math.MaxUint64 && math.Trunc(f) == f
+		return numjson.ParseUint(n.raw)
 	}
 	return 0, false
 }
diff --git a/numjson/numjson.go b/numjson/numjson.go
index 608e254..09e9292 100644
--- a/numjson/numjson.go
+++ b/numjson/numjson.go
@@ -128,14 +128,107 @@ fallback:
 
 }
 
+// parseInteger parses the absolute value of a decimal number that denotes an integer.
+func parseInteger(s string) (num uint64, signed, ok bool) {
+	var (
+		i     uint
+		c     byte
+		frac  bool
+		neg   bool
+		n     int // digits before the exponent
+		exp   int // power of 10 of the last digit
+		zeros int // pending trailing zeros
+		e     int
+	)
+	if len(s) > 0 && s[0] == '-' {
+		signed = true
+		i = 1
+	}
+	for ; i < uint(len(s)); i++ {
+		c = s[i]
+		if '0' <= c && c <= '9' {
+			n++
+			if frac {
+				exp--
+			}
+			if c == '0' {
+				if num != 0 {
+					zeros++
+				}
+				continue
+			}
+			for ; zeros > 0; zeros-- {
+				if num > math.MaxUint64/10 {
+					return 0, signed, false
+				}
+				num *= 10
+			}
+			d := uint64(c - '0')
+			if num > (math.MaxUint64-d)/10 {
+				return 0, signed, false
+			}
+			num = num*10 + d
+			continue
+		}
+		if c == '.' && !frac && n > 0 {
+			frac = true
+			n = 0
+			continue
+		}
+		break
+	}
+	if n == 0 {
+		return 0, signed, false
+	}
+	if i < uint(len(s)) {
+		if c != 'e' && c != 'E' {
+			return 0, signed, false
+		}
+		if i++; i < uint(len(s)) && (s[i] == '-' || s[i] == '+') {
+			neg = s[i] == '-'
+			i++
+		}
+		if i == uint(len(s)) {
+			return 0, signed, false
+		}
+		for ; i < uint(len(s)); i++ {
+			if c = s[i]; c < '0' || '9' < c {
+				return 0, signed, false
+			}
+			if e < maxExp {
+				e = 10*e + int(c-'0')
+			}
+		}
+		if neg {
+			e = -e
+		}
+	}
+	if num == 0 {
+		return 0, signed, true
+	}
+	if exp += zeros + e; exp < 0 {
+		return 0, signed, false
+	}
+	for ; exp > 0; exp-- {
+		if num > math.MaxUint64/10 {
+			return 0, signed, false
+		}
+		num *= 10
+	}
+	return num, signed, true
+}
+
 // ParseInt parses an int from string
 func ParseInt(s string) (int64, bool) {
-	f := ParseFloat(s)
-	return int64(f), math.MinInt64 <= f && f < math.MaxInt64 && math.Trunc(f) == f
+	n, signed, ok := parseInteger(s)
+	if signed {
+		return -int64(n), ok && n <= 1<<63
+	}
+	return int64(n), ok && n <= math.MaxInt64
 }
 
 // ParseUint parses an uint from string
 func ParseUint(s string) (uint64, bool) {
-	f := ParseFloat(s)
-	return uint64(f), 0 <= f && f < math.MaxUint64 && math.Trunc(f) == f
+	n, signed, ok := parseInteger(s)
+	return n, ok && (n == 0 || !signed)
 }
-- 
2.43.0


From 3fa4f16ff02cba9cd8063e650b6f91e3349faad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:08 +0000
Subject: [PATCH 12/61] fix: hand unescaped text to UnmarshalText in
 Node.WrapUnmarshalText

---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 77fe8c7..9a5a5e3 100644
--- a/node.go
+++ b/node.go
@@ -223,7 +223,7 @@ func (n Node) WrapUnmarshalText(u encoding.TextUnmarshaler) (err error) {
 		switch t := node.info.Type(); t {
 		case TypeString:
 			buf := bufferpool.Get().([]byte)
-			buf = append(buf[:0], node.raw...)
+			buf = strjson.AppendUnescaped(buf[:0], node.raw)
 			err = u.UnmarshalText(buf)
 			bufferpool.Put(buf)
 			return
-- 
2.43.0


From e59e56e3d10cbd0b79e118db9da9f3e6ae4ba7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:09 +0000
Subject: [PATCH 13/61] fix: keep \u escapes with invalid hex digits literally

---
 strjson/unescape.go | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/strjson/unescape.go b/strjson/unescape.go
index 70c2138..ad09ffe 100644
--- a/strjson/unescape.go
+++ b/strjson/unescape.go
@@ -66,10 +66,11 @@ unescape:
 	return j
 unescapeRune:
 	if len(ss) > 4 {
-		r1 := rune(fromHex(ss[1])) << 12
-		r1 |= rune(fromHex(ss[2])) << 8
-		r1 |= rune(fromHex(ss[3])) << 4
-		r1 |= rune(fromHex(ss[4]))
+		r1 := parseHex(ss[1:5])
+		if r1 < 0 {
+			c = 'u'
+			goto invalidUnescape
+		}
 		if r1 < utf8.RuneSelf {
 			c = byte(r1)
 			i += 4
@@ -78,10 +79,7 @@ unescapeRune:
 		i += 5
 		if utf16.IsSurrogate(r1) {
 			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' {
-				r2 := rune(fromHex(ss[7])) << 12
-				r2 |= rune(fromHex(ss[8])) << 8
-				r2 |= rune(fromHex(ss[9])) << 4
-				r2 |= rune(fromHex(ss[10]))
+				r2 := parseHex(ss[7:11])
 				if r1 = utf16.DecodeRune(r1, r2); r1 != utf8.RuneError {
 					// Only a valid pair consumes the second escape
 					i += 6
@@ -117,6 +115,18 @@ const (
 	delimString = '"'
 )
 
+// parseHex parses 4 hex digits, it returns -1 if any of them is invalid.
+func parseHex(s string) (r rune) {
+	for i := 0; i < len(s); i++ {
+		c := fromHex(s[i])
+		if c > 0x0F {
+			return -1
+		}
+		r = r<<4 | rune(c)
+	}
+	return r
+}
+
 func writeStringAt(dst []byte, s string, pos int) int {
 	if 0 <= pos && pos < len(dst) {
 		dst = dst[pos:]
@@ -213,10 +223,11 @@ unescape:
 	return b.String()
 unescapeRune:
 	if len(ss) > 4 {
-		r1 := rune(fromHex(ss[1])) << 12
-		r1 |= rune(fromHex(ss[2])) << 8
-		r1 |= rune(fromHex(ss[3])) << 4
-		r1 |= rune(fromHex(ss[4]))
+		r1 := parseHex(ss[1:5])
+		if r1 < 0 {
+			c = 'u'
+			goto invalidUnescape
+		}
 		if r1 < utf8.RuneSelf {
 			c = byte(r1)
 			i += 4
@@ -225,10 +236,7 @@ unescapeRune:
 		i += 5
 		if utf16.IsSurrogate(r1) {
 			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' {
-				r2 := rune(fromHex(ss[7])) << 12
-				r2 |= rune(fromHex(ss[8])) << 8
-				r2 |= rune(fromHex(ss[9])) << 4
-				r2 |= rune(fromHex(ss[10]))
+				r2 := parseHex(ss[7:11])
 				if r1 = utf16.DecodeRune(r1, r2); r1 != utf8.RuneError {
 					// Only a valid pair consumes the second escape
 					i += 6
-- 
2.43.0


From 6a74d65e264e67ab17cd354dded2d1e02c6d7611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:26 +0000
Subject: [PATCH 14/61] fix: encode float64 values with 64 bits

---
 unjson/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index cf89c9f..a9a05d0 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -131,7 +131,7 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 	case reflect.Float32:
 		return newFloatEncoder(32, options)
 	case reflect.Float64:
-		return newFloatEncoder(32, options)
+		return newFloatEncoder(64, options)
 	case reflect.Bool:
 		return boolEncoder{}, nil
 	case reflect.String:
-- 
2.43.0


From d47ee6cf4169d0784f26fc3e17ecfdc71f937bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:27 +0000
Subject: [PATCH 15/61] fix: report errors of slice and array elements when
 decoding

---
 unjson/decode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index e87e213..6c33e07 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -197,7 +197,9 @@ func (dec *arrayDecoder) decode(v reflect.Value, n njson.Node) error {
 		iter := n.Values()
 		for i := 0; i < dec.size; i++ {
 			if iter.Next() {
-				dec.decoder.decode(v.Index(i), iter.Value())
+				if err := dec.decoder.decode(v.Index(i), iter.Value()); err != nil {
+					return err
+				}
 			} else {
 				for ; i < dec.size; i++ {
 					el := v.Index(i)
@@ -258,7 +260,7 @@ func (d *sliceDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 			err = d.decoder.decode(v.Index(i), iter.Value())
 			if err != nil {
 				v.SetLen(i)
-				break
+				return
 			}
 		}
 	default:
-- 
2.43.0


From cd89927e7dca9cf38f2dbf8896d3f2d0a227cfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:29 +0000
Subject: [PATCH 16/61] fix: decode maps that are nil, have named key types or
 escaped keys

---
 unjson/decode.go | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 6c33e07..8ae1390 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -272,9 +272,8 @@ func (d *sliceDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 
 type mapDecoder struct {
 	typ       reflect.Type
-	keys      decoder
+	textKeys  bool
 	decoder   decoder
-	zeroKey   reflect.Value
 	zeroValue reflect.Value
 }
 
@@ -283,14 +282,11 @@ func newMapDecoder(typ reflect.Type, options *Options, codecs cache) (*mapDecode
 	el := typ.Elem()
 	md := mapDecoder{
 		typ:       typ,
-		zeroKey:   reflect.Zero(key),
 		zeroValue: reflect.Zero(el),
 	}
-	if key.Implements(typTextUnmarshaler) {
-		md.keys = textDecoder{}
-	} else if key.Kind() == reflect.String {
-		md.keys = stringDecoder{}
-	} else {
+	if reflect.PtrTo(key).Implements(typTextUnmarshaler) {
+		md.textKeys = true
+	} else if key.Kind() != reflect.String {
 		return nil, errInvalidType
 	}
 	// First cache the decoder to avoid recursion issues
@@ -302,20 +298,41 @@ func newMapDecoder(typ reflect.Type, options *Options, codecs cache) (*mapDecode
 	md.decoder = dec
 	return &md, nil
 }
+
+// key decodes the key of a map from the raw key of an object.
+func (d *mapDecoder) key(raw string) (reflect.Value, error) {
+	key := reflect.New(d.typ.Key())
+	s := strjson.Unescaped(raw)
+	if d.textKeys {
+		return key.Elem(), key.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(s))
+	}
+	key.Elem().SetString(s)
+	return key.Elem(), nil
+}
+
 func (d *mapDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	switch n.Type() {
 	case njson.TypeNull:
 		return
 	case njson.TypeObject:
-		val := reflect.New(d.typ.Elem()).Elem()
-		iter := n.Values()
+		var (
+			key  reflect.Value
+			val  = reflect.New(d.typ.Elem()).Elem()
+			iter = n.Values()
+		)
+		if v.IsNil() {
+			v.Set(reflect.MakeMap(d.typ))
+		}
 		for iter.Next() {
 			val.Set(d.zeroValue)
 			err = d.decoder.decode(val, iter.Value())
 			if err != nil {
 				return
 			}
-			v.SetMapIndex(reflect.ValueOf(iter.Key()), val)
+			if key, err = d.key(iter.Key()); err != nil {
+				return
+			}
+			v.SetMapIndex(key, val)
 		}
 		return
 	default:
-- 
2.43.0


From 4d039beb966c18c4aa4d523b6060c6936ec45134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:13 +0000
Subject: [PATCH 17/61] fix: refuse numbers that do not fit the target when
 decoding

---
 unjson/decode.go | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 8ae1390..fe0c550 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -4,6 +4,7 @@ import (
 	"encoding"
 	"encoding/json"
 	"errors"
+	"math"
 	"reflect"
 	"strconv"
 
@@ -432,13 +433,15 @@ type uintDecoder struct{}
 func (uintDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	switch raw, t := n.Data(); t {
 	case njson.TypeNumber:
-		n, ok := numjson.ParseUint(raw)
-		if ok {
-			v.SetUint(n)
-			return nil
+		i, ok := numjson.ParseUint(raw)
+		if !ok {
+			i, err = strconv.ParseUint(raw, 10, 64)
+		}
+		if err == nil && v.OverflowUint(i) {
+			err = n.TypeError(njson.TypeNumber)
 		}
-		if n, err = strconv.ParseUint(raw, 10, 64); err == nil {
-			v.SetUint(n)
+		if err == nil {
+			v.SetUint(i)
 		}
 		return
 	default:
@@ -454,13 +457,15 @@ type intDecoder struct{}
 func (intDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	switch raw, t := n.Data(); t {
 	case njson.TypeNumber:
-		n, ok := numjson.ParseInt(raw)
-		if ok {
-			v.SetInt(n)
-			return nil
+		i, ok := numjson.ParseInt(raw)
+		if !ok {
+			i, err = strconv.ParseInt(raw, 10, 64)
 		}
-		if n, err = strconv.ParseInt(raw, 10, 64); err == nil {
-			v.SetInt(n)
+		if err == nil && v.OverflowInt(i) {
+			err = n.TypeError(njson.TypeNumber)
+		}
+		if err == nil {
+			v.SetInt(i)
 		}
 		return
 	default:
@@ -477,11 +482,16 @@ func (floatDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	switch raw, typ := n.Data(); typ {
 	case njson.TypeNumber:
 		f := numjson.ParseFloat(raw)
-		if f == f {
-			v.SetFloat(f)
-			return nil
+		switch {
+		case f != f:
+			f, err = strconv.ParseFloat(raw, 64)
+		case v.Kind() == reflect.Float32:
+			// Avoid rounding twice
+			f, err = strconv.ParseFloat(raw, 32)
+		case math.IsInf(f, 0):
+			err = n.TypeError(njson.TypeNumber)
 		}
-		if f, err = strconv.ParseFloat(raw, 64); err == nil {
+		if err == nil {
 			v.SetFloat(f)
 		}
 		return
-- 
2.43.0


From 98c36adbc925242d3f706514d3ba5a935fca8a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:14 +0000
Subject: [PATCH 18/61] fix: handle nil pointers in Marshal and Unmarshal
 without panicking

---
 unjson/decode.go | 23 +++++++++++------------
 unjson/encode.go |  5 ++++-
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index fe0c550..fa24109 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -37,24 +37,23 @@ type typeDecoder struct {
 }
 
 // Decode implements the Decoder interface.
-// It handles the case of a x being a nil pointer by creating a new blank value.
 func (c *typeDecoder) Decode(x interface{}, n njson.Node) error {
 	if x == nil {
 		return errInvalidValueType
 	}
 	v := reflect.ValueOf(x)
-	if v.Type() != c.typ {
+	if v.Type() != c.typ || v.IsNil() {
 		return errInvalidValueType
 	}
-	if v.IsNil() {
-		if n.Type() == njson.TypeNull {
-			return nil
-		}
-		v.Set(reflect.New(c.typ.Elem()))
-	}
 	return c.decode(v.Elem(), n)
 }
 
+// isNilPtr checks if a decode target is a nil pointer.
+func isNilPtr(x interface{}) bool {
+	v := reflect.ValueOf(x)
+	return v.Kind() == reflect.Ptr && v.IsNil()
+}
+
 var (
 	errInvalidValueType = errors.New("Invalid value type")
 	errValue            = errors.New("Unsupported value")
@@ -66,7 +65,7 @@ var (
 type njsonDecoder struct{}
 
 func (njsonDecoder) Decode(x interface{}, n njson.Node) error {
-	if x, ok := x.(njson.Unmarshaler); ok {
+	if x, ok := x.(njson.Unmarshaler); ok && !isNilPtr(x) {
 		return x.UnmarshalNodeJSON(n)
 	}
 	return errInvalidValueType
@@ -81,7 +80,7 @@ type jsonDecoder struct{}
 
 func (jsonDecoder) Decode(x interface{}, n njson.Node) (err error) {
 
-	if u, ok := x.(json.Unmarshaler); ok {
+	if u, ok := x.(json.Unmarshaler); ok && !isNilPtr(x) {
 		return n.WrapUnmarshalJSON(u)
 	}
 	return errInvalidValueType
@@ -392,7 +391,7 @@ func (stringDecoder) decode(v reflect.Value, n njson.Node) error {
 type interfaceDecoder struct{}
 
 func (interfaceDecoder) Decode(x interface{}, n njson.Node) error {
-	if x, ok := x.(*interface{}); ok {
+	if x, ok := x.(*interface{}); ok && x != nil {
 		if *x, ok = n.ToInterface(); !ok {
 			return n.TypeError(njson.TypeAnyValue)
 		}
@@ -513,7 +512,7 @@ func (textDecoder) decode(v reflect.Value, n njson.Node) error {
 }
 
 func (textDecoder) Decode(x interface{}, n njson.Node) error {
-	if u, ok := x.(encoding.TextUnmarshaler); ok {
+	if u, ok := x.(encoding.TextUnmarshaler); ok && !isNilPtr(x) {
 		return n.WrapUnmarshalText(u)
 	}
 	return errInvalidValueType
diff --git a/unjson/encode.go b/unjson/encode.go
index a9a05d0..4984660 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -42,9 +42,12 @@ func (m *typeEncoder) Encode(out []byte, x interface{}) ([]byte, error) {
 	}
 	v := reflect.ValueOf(x)
 	if v.Kind() == reflect.Ptr {
+		if v.IsNil() && v.Type().Elem() == m.typ {
+			return append(out, strNull...), nil
+		}
 		v = v.Elem()
 	}
-	if v.Type() != m.typ {
+	if !v.IsValid() || v.Type() != m.typ {
 		return out, errInvalidValueType
 	}
 	return m.encode(out, v)
-- 
2.43.0


From 374d742e124d197585fc95efc959b715b8e1d639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:02 +0000
Subject: [PATCH 19/61] fix: use marshaler and unmarshaler methods of pointers
 wherever the type appears

---
 unjson/cache.go  |  2 +-
 unjson/codec.go  |  3 +-
 unjson/decode.go | 47 ++++++++++++++++--------
 unjson/encode.go | 95 +++++++++++++++++++++++++++++++++++++-----------
 4 files changed, 108 insertions(+), 39 deletions(-)

diff --git a/unjson/cache.go b/unjson/cache.go
index f548ea6..420e4cc 100644
--- a/unjson/cache.go
+++ b/unjson/cache.go
@@ -75,7 +75,7 @@ type cacheKey struct {
 }
 
 func (c cache) codec(typ reflect.Type) *structCodec {
-	key := cacheKey{typ, 0}
+	key := cacheKey{typ, hintCodec}
 	if x := c[key]; x != nil {
 		if c, ok := x.(*structCodec); ok {
 			return c
diff --git a/unjson/codec.go b/unjson/codec.go
index 08ebc0a..76e9f92 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -171,7 +171,7 @@ func newStructCodec(typ reflect.Type, options *Options, codecs cache) (*structCo
 		fields:    make([]codec, 0, typ.NumField()),
 		zeroValue: reflect.Zero(typ),
 	}
-	codecs[cacheKey{typ, 0}] = &c
+	codecs[cacheKey{typ, hintCodec}] = &c
 	if err := c.merge(typ, options, nil, codecs); err != nil {
 		return nil, err
 	}
@@ -267,4 +267,5 @@ const (
 	hintRaw hint = 1 << iota
 	hintHTML
 	hintOmitempty
+	hintCodec // separates struct codecs from encoders of the same type in a cache
 )
diff --git a/unjson/decode.go b/unjson/decode.go
index fa24109..3d0905f 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -71,8 +71,16 @@ func (njsonDecoder) Decode(x interface{}, n njson.Node) error {
 	return errInvalidValueType
 }
 
-func (njsonDecoder) decode(v reflect.Value, n njson.Node) error {
-	return v.Interface().(njson.Unmarshaler).UnmarshalNodeJSON(n)
+func (d njsonDecoder) decode(v reflect.Value, n njson.Node) error {
+	return d.Decode(unmarshalerOf(v), n)
+}
+
+// unmarshalerOf returns the value that implements the unmarshaler interface for v.
+func unmarshalerOf(v reflect.Value) interface{} {
+	if v.Kind() != reflect.Interface && v.CanAddr() {
+		v = v.Addr()
+	}
+	return v.Interface()
 }
 
 // jsonDecoder implements the Decoder interface for types implementing json.Unmarshaller
@@ -86,8 +94,8 @@ func (jsonDecoder) Decode(x interface{}, n njson.Node) (err error) {
 	return errInvalidValueType
 }
 
-func (jsonDecoder) decode(v reflect.Value, n njson.Node) (err error) {
-	return n.WrapUnmarshalJSON(v.Interface().(json.Unmarshaler))
+func (d jsonDecoder) decode(v reflect.Value, n njson.Node) (err error) {
+	return d.Decode(unmarshalerOf(v), n)
 }
 
 // NewTypeDecoder creates a new decoder for a type.
@@ -127,13 +135,20 @@ func newDecoder(typ reflect.Type, options *Options, codecs cache) (decoder, erro
 	if typ == nil {
 		return nil, errInvalidType
 	}
-	switch {
-	case typ.Implements(typNodeUnmarshaler):
-		return njsonDecoder{}, nil
-	case typ.Implements(typJSONUnmarshaler):
-		return jsonDecoder{}, nil
-	case typ.Implements(typTextUnmarshaler):
-		return textDecoder{}, nil
+	// Pointers are allocated by ptrDecoder before using the methods of a type.
+	if typ.Kind() != reflect.Ptr {
+		ptr := typ
+		if typ.Kind() != reflect.Interface {
+			ptr = reflect.PtrTo(typ)
+		}
+		switch {
+		case ptr.Implements(typNodeUnmarshaler):
+			return njsonDecoder{}, nil
+		case ptr.Implements(typJSONUnmarshaler):
+			return jsonDecoder{}, nil
+		case ptr.Implements(typTextUnmarshaler):
+			return textDecoder{}, nil
+		}
 	}
 
 	switch typ.Kind() {
@@ -504,15 +519,15 @@ func (floatDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 
 type textDecoder struct{}
 
-func (textDecoder) decode(v reflect.Value, n njson.Node) error {
-	if n.Type() == njson.TypeString {
-		return n.WrapUnmarshalText(v.Interface().(encoding.TextUnmarshaler))
-	}
-	return n.TypeError(njson.TypeString)
+func (d textDecoder) decode(v reflect.Value, n njson.Node) error {
+	return d.Decode(unmarshalerOf(v), n)
 }
 
 func (textDecoder) Decode(x interface{}, n njson.Node) error {
 	if u, ok := x.(encoding.TextUnmarshaler); ok && !isNilPtr(x) {
+		if n.Type() == njson.TypeNull {
+			return nil
+		}
 		return n.WrapUnmarshalText(u)
 	}
 	return errInvalidValueType
diff --git a/unjson/encode.go b/unjson/encode.go
index 4984660..088ed3b 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -80,22 +80,12 @@ func newTypeEncoder(typ reflect.Type, options *Options) (*typeEncoder, error) {
 		m.typ = typ.Elem()
 	} else {
 		m.typ = typ
-		typ = reflect.PtrTo(typ)
 	}
-	switch {
-	case typ.Implements(typAppender):
-		m.encoder = njsonEncoder{}
-	case typ.Implements(typJSONMarshaler):
-		m.encoder = jsonEncoder{}
-	case typ.Implements(typTextMarshaler):
-		m.encoder = textEncoder{}
-	default:
-		e, err := newEncoder(m.typ, options, 0, cache{})
-		if err != nil {
-			return nil, err
-		}
-		m.encoder = e
+	e, err := newEncoder(m.typ, options, 0, cache{})
+	if err != nil {
+		return nil, err
 	}
+	m.encoder = e
 	return &m, nil
 }
 
@@ -103,14 +93,56 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 	if typ == nil {
 		return nil, errInvalidType
 	}
-	switch {
-	case typ.Implements(typAppender):
-		return njsonEncoder{}, nil
-	case typ.Implements(typJSONMarshaler):
-		return jsonEncoder{}, nil
-	case typ.Implements(typTextMarshaler):
-		return textEncoder{}, nil
+	return newMethodEncoder(typ, options, hints, codecs, methodEncoders)
+}
+
+// methodEncoder is an encoder for types that implement an interface.
+type methodEncoder struct {
+	typ reflect.Type
+	encoder
+}
+
+// methodEncoders are the encoders for marshaler interfaces by precedence.
+var methodEncoders = []methodEncoder{
+	{typAppender, njsonEncoder{}},
+	{typJSONMarshaler, jsonEncoder{}},
+	{typTextMarshaler, textEncoder{}},
+}
+
+// newMethodEncoder creates an encoder using a type's own methods if it has any.
+//
+// Methods with a pointer receiver can only be used on addressable values.
+func newMethodEncoder(typ reflect.Type, options *Options, hints hint, codecs cache, methods []methodEncoder) (encoder, error) {
+	for i, m := range methods {
+		if typ.Implements(m.typ) {
+			return m.encoder, nil
+		}
+		if typ.Kind() != reflect.Ptr && reflect.PtrTo(typ).Implements(m.typ) {
+			enc, err := newMethodEncoder(typ, options, hints, codecs, methods[i+1:])
+			return &addrEncoder{m.encoder, enc, err}, nil
+		}
 	}
+	return newKindEncoder(typ, options, hints, codecs)
+}
+
+// addrEncoder encodes addressable values by the methods of their pointer.
+type addrEncoder struct {
+	ptr encoder
+	encoder
+	err error
+}
+
+func (e *addrEncoder) encode(out []byte, v reflect.Value) ([]byte, error) {
+	if v.CanAddr() {
+		return e.ptr.encode(out, v.Addr())
+	}
+	if e.err != nil {
+		return out, e.err
+	}
+	return e.encoder.encode(out, v)
+}
+
+func newKindEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (encoder, error) {
 	switch typ.Kind() {
 	case reflect.Ptr:
 		return newPtrEncoder(typ, options, hints, codecs)
@@ -144,15 +176,33 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 	}
 }
 
+// isNil checks if v is a pointer or an interface with no value to call a method on.
+func isNil(v reflect.Value) bool {
+	switch v.Kind() {
+	case reflect.Ptr:
+		return v.IsNil()
+	case reflect.Interface:
+		return v.IsNil() || isNil(v.Elem())
+	default:
+		return false
+	}
+}
+
 type njsonEncoder struct{}
 
 func (njsonEncoder) encode(out []byte, v reflect.Value) ([]byte, error) {
+	if isNil(v) {
+		return append(out, strNull...), nil
+	}
 	return v.Interface().(njson.Appender).AppendJSON(out)
 }
 
 type jsonEncoder struct{}
 
 func (jsonEncoder) encode(out []byte, v reflect.Value) (b []byte, err error) {
+	if isNil(v) {
+		return append(out, strNull...), nil
+	}
 	b, err = v.Interface().(json.Marshaler).MarshalJSON()
 	if err == nil && b != nil {
 		out = append(out, b...)
@@ -210,6 +260,9 @@ func (c interfaceEncoder) encode(b []byte, v reflect.Value) ([]byte, error) {
 type textEncoder struct{}
 
 func (textEncoder) encode(out []byte, v reflect.Value) (text []byte, err error) {
+	if isNil(v) {
+		return append(out, strNull...), nil
+	}
 	text, err = v.Interface().(encoding.TextMarshaler).MarshalText()
 	if err == nil {
 		out = append(out, delimString)
-- 
2.43.0


From e7e2bbe669230b4a95e4760c7eab219de01970b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:03 +0000
Subject: [PATCH 20/61] fix: escape the text of encoding.TextMarshaler values

---
 unjson/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index 088ed3b..157aad8 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -266,7 +266,7 @@ func (textEncoder) encode(out []byte, v reflect.Value) (text []byte, err error)
 	text, err = v.Interface().(encoding.TextMarshaler).MarshalText()
 	if err == nil {
 		out = append(out, delimString)
-		out = append(out, text...)
+		out = strjson.AppendEscaped(out, string(text), false)
 		out = append(out, delimString)
 	}
 	return out, err
-- 
2.43.0


From 592d2f717dd878d490649d9ef360db1bb6339186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:04 +0000
Subject: [PATCH 21/61] fix: decode named empty interface types

---
 unjson/decode.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 3d0905f..5fcf9db 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -420,8 +420,11 @@ func (interfaceDecoder) decode(v reflect.Value, n njson.Node) error {
 		return errInvalidValueType
 	}
 	if x, ok := n.ToInterface(); ok {
-		xx := v.Addr().Interface().(*interface{})
-		*xx = x
+		if x == nil {
+			v.Set(reflect.Zero(v.Type()))
+		} else {
+			v.Set(reflect.ValueOf(x))
+		}
 		return nil
 	}
 	return n.TypeError(njson.TypeAnyValue)
-- 
2.43.0


From f568d6c9bb80115b432fcf035ea36602930e3b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:05 +0000
Subject: [PATCH 22/61] fix: refuse data after the value in Unmarshal

---
 unjson/decode.go | 1 +
 unjson/unjson.go | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 5fcf9db..6a324c1 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -58,6 +58,7 @@ var (
 	errInvalidValueType = errors.New("Invalid value type")
 	errValue            = errors.New("Unsupported value")
 	errInvalidType      = errors.New("Invalid type")
+	errTrailingData     = errors.New("Invalid data after JSON value")
 	errNilNode          = errors.New("Nil JSON node")
 )
 
diff --git a/unjson/unjson.go b/unjson/unjson.go
index e6af236..d556abb 100644
--- a/unjson/unjson.go
+++ b/unjson/unjson.go
@@ -29,6 +29,7 @@ package unjson
 
 import (
 	"reflect"
+	"strings"
 
 	"github.com/alxarch/njson"
 )
@@ -71,9 +72,13 @@ func UnmarshalFromString(s string, x interface{}) (err error) {
 		return
 	}
 	p := njson.Blank()
-	n, _, err := p.Parse(s)
+	n, tail, err := p.Parse(s)
 	if err == nil {
-		err = d.Decode(x, n)
+		if strings.TrimLeft(tail, " \t\r\n") != "" {
+			err = errTrailingData
+		} else {
+			err = d.Decode(x, n)
+		}
 	}
 	p.Close()
 	return
-- 
2.43.0


From b3290528a456c497605d45e33ed55560d155c89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:58 +0000
Subject: [PATCH 23/61] fix: store the fields decoded into embedded nil
 pointers

---
 unjson/codec.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 76e9f92..9b9cce4 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -218,7 +218,11 @@ func (c *structCodec) decode(v reflect.Value, n njson.Node) (err error) {
 				for _, i := range fc.index[1:] {
 					if i == -1 {
 						if field.IsNil() {
-							field = reflect.New(field.Type().Elem())
+							if !field.CanSet() {
+								// Embedded pointer to unexported struct
+								return errInvalidValueType
+							}
+							field.Set(reflect.New(field.Type().Elem()))
 						}
 						field = field.Elem()
 					} else {
-- 
2.43.0


From 179ff14ad87c1e55b2776a2d596e5d8c8457afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:59 +0000
Subject: [PATCH 24/61] fix: escape and unescape the names of struct fields

---
 unjson/codec.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 9b9cce4..3278b5c 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -4,6 +4,7 @@ import (
 	"reflect"
 
 	"github.com/alxarch/njson"
+	"github.com/alxarch/njson/strjson"
 )
 
 type structCodec struct {
@@ -29,7 +30,8 @@ func (c *structCodec) Get(key string) *codec {
 // codec is a field encoder/decoder
 type codec struct {
 	key   string
-	index []int // embedded struct index
+	name  []byte // key as a quoted JSON string
+	index []int  // embedded struct index
 	decoder
 	encoder
 	omiter
@@ -73,9 +75,7 @@ func (c *structCodec) encode(b []byte, v reflect.Value) ([]byte, error) {
 		}
 		b = append(b, start[more])
 		more = 1
-		b = append(b, delimString)
-		b = append(b, fc.key...)
-		b = append(b, delimString)
+		b = append(b, fc.name...)
 		b = append(b, delimNameSeparator)
 		b, err = fc.encode(b, fv)
 		if err != nil {
@@ -119,7 +119,6 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 				continue
 			}
 		}
-		// tag = string(strjson.Escape(nil, tag))
 		if ff := c.Get(tag); ff != nil && cmpIndex(ff.index, index) != -1 {
 			continue
 		}
@@ -146,6 +145,7 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 
 		c.Add(codec{
 			key:     tag,
+			name:    quoteKey(tag),
 			index:   copyIndex(index),
 			decoder: dec,
 			encoder: enc,
@@ -204,7 +204,7 @@ func (c *structCodec) decode(v reflect.Value, n njson.Node) (err error) {
 			iter  = n.Values()
 		)
 		for iter.Next() {
-			fc = c.Get(iter.Key())
+			fc = c.Get(strjson.Unescaped(iter.Key()))
 			if fc == nil {
 				continue
 			}
@@ -240,6 +240,12 @@ func (c *structCodec) decode(v reflect.Value, n njson.Node) (err error) {
 	}
 }
 
+func quoteKey(key string) []byte {
+	b := append([]byte(nil), delimString)
+	b = strjson.AppendEscaped(b, key, false)
+	return append(b, delimString)
+}
+
 func copyIndex(a []int) (b []int) {
 	b = make([]int, len(a))
 	copy(b, a)
-- 
2.43.0


From 14ee5659fd187cd46ec4dac1cf83154728a56f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:30 +0000
Subject: [PATCH 25/61] fix: resolve conflicts of embedded fields by depth,
 promote fields of unexported embedded structs

---
 unjson/codec.go | 62 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 3278b5c..546ee4b 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -27,6 +27,15 @@ func (c *structCodec) Get(key string) *codec {
 	return nil
 }
 
+func (c *structCodec) remove(key string) {
+	for i := range c.fields {
+		if c.fields[i].key == key {
+			c.fields = append(c.fields[:i], c.fields[i+1:]...)
+			return
+		}
+	}
+}
+
 // codec is a field encoder/decoder
 type codec struct {
 	key   string
@@ -86,18 +95,20 @@ func (c *structCodec) encode(b []byte, v reflect.Value) ([]byte, error) {
 	return b, nil
 }
 
-func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, codecs cache) error {
+func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, parents []reflect.Type, codecs cache) error {
 	if typ == nil {
 		return nil
 	}
+	for _, p := range parents {
+		if p == typ {
+			// All fields are hidden by the fields of the parent
+			return nil
+		}
+	}
+	parents = append(parents, typ)
 	n := typ.NumField()
-	v := reflect.New(typ).Elem()
 	depth := len(index)
 	for i := 0; i < n; i++ {
-		// Check field is exported and settable
-		if !v.Field(i).CanSet() {
-			continue
-		}
 		field := typ.Field(i)
 		tag, hints, tagged := options.parseField(field)
 		if tag == "-" {
@@ -113,15 +124,22 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 			}
 			if t.Kind() == reflect.Struct {
 				// embedded struct
-				if err := c.merge(t, options, index, codecs); err != nil {
+				if err := c.merge(t, options, index, parents, codecs); err != nil {
 					return err
 				}
 				continue
 			}
 		}
-		if ff := c.Get(tag); ff != nil && cmpIndex(ff.index, index) != -1 {
+		// Check field is exported and settable
+		if field.PkgPath != "" {
 			continue
 		}
+		if ff := c.Get(tag); ff != nil {
+			if !isDeeper(ff.index, index) {
+				continue
+			}
+			c.remove(tag)
+		}
 
 		dec, err := codecs.decoder(field.Type, options)
 		if err != nil {
@@ -172,7 +190,7 @@ func newStructCodec(typ reflect.Type, options *Options, codecs cache) (*structCo
 		zeroValue: reflect.Zero(typ),
 	}
 	codecs[cacheKey{typ, hintCodec}] = &c
-	if err := c.merge(typ, options, nil, codecs); err != nil {
+	if err := c.merge(typ, options, nil, nil, codecs); err != nil {
 		return nil, err
 	}
 	return &c, nil
@@ -252,23 +270,19 @@ func copyIndex(a []int) (b []int) {
 	return
 }
 
-func cmpIndex(a, b []int) int {
-	if len(a) > len(b) {
-		return -1
-	}
-	if len(a) == len(b) {
-		// Avoid bounds check
-		b = b[:len(a)]
-		for i, j := range a {
-			if jj := b[i]; j > jj {
-				return -1
-			} else if jj > j {
-				return 1
-			}
+// isDeeper checks if the field at index a is embedded deeper than the field at index b
+func isDeeper(a, b []int) bool {
+	return fieldDepth(a) > fieldDepth(b)
+}
+
+func fieldDepth(index []int) (depth int) {
+	for _, i := range index {
+		// Skip pointer flags
+		if i != -1 {
+			depth++
 		}
-		return 0
 	}
-	return 1
+	return
 }
 
 type hint uint8
-- 
2.43.0


From efcc18bda8a5287c18729f18f58a8059db2803e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:03 +0000
Subject: [PATCH 26/61] fix: encode and decode embedded pointers to types that
 are not structs

---
 unjson/codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 546ee4b..bede69a 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -117,7 +117,7 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, par
 		index = append(index[:depth], field.Index...)
 		if !tagged && field.Anonymous {
 			t := field.Type
-			if t.Kind() == reflect.Ptr {
+			if t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Struct {
 				// Flag for fieldByIndex
 				index = append(index, -1)
 				t = t.Elem()
-- 
2.43.0


From 8a8b57e65cac5c3010596368783334befec334bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:04 +0000
Subject: [PATCH 27/61] fix: use the name - for fields tagged "-,"

---
 unjson/codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index bede69a..def64ff 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -111,7 +111,7 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, par
 	for i := 0; i < n; i++ {
 		field := typ.Field(i)
 		tag, hints, tagged := options.parseField(field)
-		if tag == "-" {
+		if field.Tag.Get(options.tagKey()) == "-" {
 			continue
 		}
 		index = append(index[:depth], field.Index...)
-- 
2.43.0


From a12c879630f916dd332cfa584f2edf011af5585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:05 +0000
Subject: [PATCH 28/61] fix: promote the fields of embedded structs with a
 nameless tag

---
 unjson/options.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unjson/options.go b/unjson/options.go
index 1c194b2..881869a 100644
--- a/unjson/options.go
+++ b/unjson/options.go
@@ -25,6 +25,8 @@ func (o *Options) parseField(f reflect.StructField) (name string, hints hint, ok
 	key := o.tagKey()
 	name, hints, ok = parseTag(f.Tag, key)
 	if name == "" {
+		// Fields of embedded structs are promoted unless the tag has a name
+		ok = false
 		// TODO: add Options.DefaultFieldCase
 		name = f.Name
 	}
-- 
2.43.0


From 85a0cf0792cda39dbc648cffbeb61d5590cd3cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:46 +0000
Subject: [PATCH 29/61] fix: omit nil pointers without calling their Omit
 method

---
 unjson/omit.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/unjson/omit.go b/unjson/omit.go
index 34f2fde..5789fd7 100644
--- a/unjson/omit.go
+++ b/unjson/omit.go
@@ -119,17 +119,17 @@ func newCustomOmiter(typ reflect.Type, methodName string) omiter {
 	if methodName == "" {
 		methodName = defaultOmitMethod
 	}
+	if typ.Kind() == reflect.Ptr {
+		// If pointer element implements omiter wrap it to omit nil pointers
+		if om := customOmiter(typ.Elem(), methodName); om != nil {
+			return &ptrOmiter{om}
+		}
+	}
 	if om := customOmiter(typ, methodName); om != nil {
 		return om
 	}
 
-	switch typ.Kind() {
-	case reflect.Ptr:
-		// If pointer element implements omiter wrap it
-		if om := customOmiter(typ.Elem(), methodName); om != nil {
-			return &ptrOmiter{om}
-		}
-	default:
+	if typ.Kind() != reflect.Ptr {
 		// If pointer to type implements omiter wrap it
 		if om := customOmiter(reflect.PtrTo(typ), methodName); om != nil {
 			return &elemOmiter{om}
-- 
2.43.0


From 0279b426c5027f4108d0515d293e3939d1fe4454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:47 +0000
Subject: [PATCH 30/61] fix: omit interface values only when they are nil

---
 unjson/omit.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/unjson/omit.go b/unjson/omit.go
index 5789fd7..aba20e7 100644
--- a/unjson/omit.go
+++ b/unjson/omit.go
@@ -84,7 +84,14 @@ func (m omitMethod) omit(v reflect.Value) bool {
 
 func customOmiter(typ reflect.Type, methodName string) omiter {
 	if method, ok := typ.MethodByName(methodName); ok {
-		f := method.Func.Type()
+		f := method.Type
+		if typ.Kind() == reflect.Interface {
+			// No receiver in the methods of an interface
+			if f.NumIn() == 0 && f.NumOut() == 1 && f.Out(0).Kind() == reflect.Bool {
+				return interfaceOmiter{omitMethod(method.Index)}
+			}
+			return nil
+		}
 		if f.NumIn() == 1 && f.NumOut() == 1 && f.Out(0).Kind() == reflect.Bool {
 			return omitMethod(method.Index)
 		}
@@ -100,6 +107,14 @@ func (o *ptrOmiter) omit(v reflect.Value) bool {
 	return v.IsNil() || o.omiter.omit(v.Elem())
 }
 
+type interfaceOmiter struct {
+	omiter
+}
+
+func (o interfaceOmiter) omit(v reflect.Value) bool {
+	return isNil(v) || o.omiter.omit(v)
+}
+
 type elemOmiter struct {
 	omiter
 }
@@ -180,10 +195,7 @@ func newOmiter(typ reflect.Type, methodName string) omiter {
 	case reflect.Array:
 		return newArrayOmiter(typ, methodName)
 	case reflect.Interface:
-		if typ.NumMethod() == 0 {
-			return omitNil{}
-		}
-		return omitAlways{}
+		return omitNil{}
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return omitInt{}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-- 
2.43.0


From 1adf40d754229a00ac4f8f0f98878356764ecf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:48 +0000
Subject: [PATCH 31/61] fix: read whole lines in LineDecoder

---
 unjson/stream.go | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/unjson/stream.go b/unjson/stream.go
index c0c1f79..4b4d957 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -32,28 +32,21 @@ func NewLineDecoder(r io.Reader) *LineDecoder {
 
 // Decode decodes the next JSON line in the stream to x
 func (d *LineDecoder) Decode(x interface{}) (err error) {
-	s := strings.Builder{}
-	for {
-		line, isPrefix, err := d.r.ReadLine()
-		if err != nil {
-			return err
-		}
-		s.Write(line)
-		if isPrefix {
-			continue
-		}
-		n, tail, err := d.p.Parse(s.String())
-		if err != nil {
-			return err
-		}
-		if strings.TrimSpace(tail) != "" {
-			return errors.New("Invalid line delimited JSON")
-		}
-		if d.Decoder == nil {
-			return UnmarshalFromNode(n, x)
-		}
-		return d.Decoder.Decode(x, n)
+	line, err := d.r.ReadString('\n')
+	if err != nil && (err != io.EOF || line == "") {
+		return err
 	}
+	n, tail, err := d.p.Parse(line)
+	if err != nil {
+		return err
+	}
+	if strings.TrimSpace(tail) != "" {
+		return errors.New("Invalid line delimited JSON")
+	}
+	if d.Decoder == nil {
+		return UnmarshalFromNode(n, x)
+	}
+	return d.Decoder.Decode(x, n)
 }
 
 // LineEncoder encodes to a newline delimited JSON stream. (http://ndjson.org/)
-- 
2.43.0


From 37f0a2633df46857eb2889b1b0c1ee5e27b7653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:45 +0000
Subject: [PATCH 32/61] fix: refuse numbers that overflow float64 in
 ToInterface

---
 document.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document.go b/document.go
index b61b55e..ac603ec 100644
--- a/document.go
+++ b/document.go
@@ -221,7 +221,7 @@ func (d *Document) toInterface(id uint) (interface{}, bool) {
 		return nil, true
 	case TypeNumber:
 		f := numjson.ParseFloat(n.raw)
-		return f, f == f
+		return f, f-f == 0 // neither NaN nor Inf
 	default:
 		return nil, false
 	}
-- 
2.43.0


From 0101f32fa79ef34d6111320a7529eb9b4e58eb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:31 +0000
Subject: [PATCH 33/61] fix: let NewLineDecoder read from any reader

---
 unjson/stream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unjson/stream.go b/unjson/stream.go
index 4b4d957..85afd89 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -22,8 +22,8 @@ func NewLineDecoder(r io.Reader) *LineDecoder {
 		return nil
 	}
 	d := LineDecoder{}
-	if r, ok := r.(*bufio.Reader); ok {
-		d.r = r
+	if br, ok := r.(*bufio.Reader); ok {
+		d.r = br
 	} else {
 		d.r = bufio.NewReader(r)
 	}
-- 
2.43.0


From 10e230925ce259729a4703efde9a1c53ef04617b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:48 +0000
Subject: [PATCH 34/61] fix: report a missing method in njsontest.AppendJSON
 without panicking

---
 njsontest/t.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/njsontest/t.go b/njsontest/t.go
index 0dceb9f..2163bf3 100644
--- a/njsontest/t.go
+++ b/njsontest/t.go
@@ -49,6 +49,7 @@ func AppendJSON(x interface{}, options ...Option) func(t *testing.T) {
 		v := reflect.ValueOf(x)
 		if err := checkMethod(v, method); err != nil {
 			t.Errorf("Wrong value type: %s", err)
+			return
 		}
 		expect, err := test.json()
 		if err != nil {
-- 
2.43.0


From 5e7b8a24837fd7f7213fcd5201e6a526fe6a32d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:43 +0000
Subject: [PATCH 35/61] fix: generate code in a fixed order, resolve field
 names by depth

---
 internal/generator/append.go    | 32 ++++----------------
 internal/generator/generator.go | 10 ++++++-
 internal/generator/options.go   | 53 +++++++++++++++++++++++++++++++++
 internal/generator/unmarshal.go | 48 +++++++++--------------------
 4 files changed, 81 insertions(+), 62 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 11f41f8..3fcb7c5 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -3,7 +3,6 @@ package generator
 import (
 	"fmt"
 	"go/types"
-	"sort"
 	"strings"
 
 	"github.com/alxarch/meta"
@@ -118,31 +117,11 @@ func (g *Generator) EnsureReversePath(path meta.FieldPath, code meta.Code) meta.
 }
 
 // StructAppender returns the AppendJSON block code for a struct
-func (g *Generator) StructAppender(fields meta.Fields) (c meta.Code) {
+func (g *Generator) StructAppender(t *types.Struct) (c meta.Code) {
 	c = c.Println(`more := 0`)
-	sortedFields := []meta.Field{}
-	for name := range fields {
-		sortedFields = append(sortedFields, fields[name]...)
-	}
-	sort.SliceStable(sortedFields, func(i, j int) bool {
-		return sortedFields[i].Tag < sortedFields[j].Tag
-	})
-	used := make(map[string]bool)
-	for _, field := range sortedFields {
-		field = field.WithTag(g.TagKey())
-		name, tag, ok := g.parseField(field.Var, field.Tag)
-		if !ok {
-			continue
-		}
-		if tag.Name != "" {
-			name = tag.Name
-		}
-		if used[name] {
-			continue
-		}
-		used[name] = true
-		var cf meta.Code
-		cf = g.TypeAppender(field.Type(), tag.Params)
+	for _, field := range g.structFields(t) {
+		name, tag := field.name, field.tag
+		cf := g.TypeAppender(field.Type(), tag.Params)
 		cf = g.Code(`
 				out = append(out, "{,"[more])
 				more = 1
@@ -233,8 +212,7 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 			out = append(out, ']')
 		`, g.TypeAppender(t.Elem(), params))
 	case *types.Struct:
-		fields := meta.NewFields(t, true)
-		return g.StructAppender(fields)
+		return g.StructAppender(t)
 	case *types.Basic:
 		switch t.Kind() {
 		case types.Bool:
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 1dc7c54..20b0fda 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -19,6 +19,7 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 	"time"
 
@@ -50,6 +51,7 @@ func (g *Generator) AllStructs() (all []string) {
 	for _, typ := range types {
 		all = append(all, g.TypeString(typ))
 	}
+	sort.Strings(all)
 	return
 }
 
@@ -210,7 +212,13 @@ func (g *Generator) Header() string {
 	h = append(h, fmt.Sprintf(headerComment, ts))
 	h = append(h, fmt.Sprintf("package %s", g.Name()))
 
-	for path, pkg := range g.imports {
+	paths := make([]string, 0, len(g.imports))
+	for path := range g.imports {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
+	for _, path := range paths {
+		pkg := g.imports[path]
 		if filepath.Base(path) == pkg.Name() {
 			h = append(h, fmt.Sprintf("import %q", path))
 		} else {
diff --git a/internal/generator/options.go b/internal/generator/options.go
index 2596927..1679dd9 100644
--- a/internal/generator/options.go
+++ b/internal/generator/options.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"reflect"
 	"regexp"
+	"sort"
 	"strings"
 
 	"github.com/alxarch/meta"
@@ -135,6 +136,58 @@ func (o *options) parseField(field *types.Var, tag string) (name string, t meta.
 	return
 }
 
+// structField is a field of a struct with its name in JSON.
+type structField struct {
+	meta.Field
+	name string
+	tag  meta.Tag
+}
+
+// structFields returns the fields of a struct that are used in JSON by order of declaration.
+//
+// The fields of embedded structs are promoted unless there's a name in the tag of the embedded struct.
+// If many fields have the same name the least nested one is used.
+func (g *Generator) structFields(t *types.Struct) (fields []structField) {
+	var all []meta.Field
+	for _, fields := range meta.NewFields(t, true) {
+		for _, field := range fields {
+			all = append(all, withTagName(field, g.TagKey()))
+		}
+	}
+	sort.SliceStable(all, func(i, j int) bool {
+		return meta.ShortestPath(all[i].Path, all[j].Path) < 0
+	})
+	used := make(map[string]bool)
+	for _, field := range all {
+		_, tag, ok := g.parseField(field.Var, field.Tag)
+		if !ok || used[tag.Name] {
+			continue
+		}
+		used[tag.Name] = true
+		fields = append(fields, structField{field, tag.Name, tag})
+	}
+	sort.SliceStable(fields, func(i, j int) bool {
+		a, b := fields[i].Path, fields[j].Path
+		for k := 0; k < len(a) && k < len(b); k++ {
+			if a[k].Index != b[k].Index {
+				return a[k].Index < b[k].Index
+			}
+		}
+		return len(a) < len(b)
+	})
+	return
+}
+
+// withTagName returns the outermost field in the path to a field that has a name in its tag.
+func withTagName(field meta.Field, key string) meta.Field {
+	for i, f := range field.Path {
+		if tag, ok := meta.ParseTag(f.Tag, key); ok && tag.Name != "" {
+			return meta.Field{Var: f.Var, Tag: f.Tag, Path: field.Path[:i+1]}
+		}
+	}
+	return field
+}
+
 func (o *options) MatchField(name string) bool {
 	if name == "_" {
 		return false
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index dd5a68e..6f92df7 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -300,46 +300,26 @@ func (g *Generator) RawStringUnmarshaler(t types.Type) meta.Code {
 
 // StructUnmarshaler generates the code block to unmarshal a struct.
 func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
-	fields := meta.NewFields(t, true)
-	tagKey := g.TagKey()
-	used := make(map[string]bool)
-	for name := range fields {
-		for _, field := range fields[name] {
-			field = field.WithTag(tagKey)
-			if field.Name() == "_" {
-				continue
-			}
-			if !CanUnmarshal(field.Type()) {
-				continue
-			}
-			name, tag, ok := g.parseField(field.Var, field.Tag)
-			if !ok {
-				continue
-			}
-			if tag.Name != "" {
-				name = tag.Name
-			}
-			if used[name] {
-				continue
-			}
-			used[name] = true
-			var cf meta.Code
-			if tag.Params.Has("raw") && meta.IsString(field.Type()) {
-				cf = g.RawStringUnmarshaler(field.Type())
-			} else {
-				cf = g.TypeUnmarshaler(field.Type())
-			}
-			code = g.Code(`%s
+	for _, field := range g.structFields(t) {
+		if !CanUnmarshal(field.Type()) {
+			continue
+		}
+		var cf meta.Code
+		if field.tag.Params.Has("raw") && meta.IsString(field.Type()) {
+			cf = g.RawStringUnmarshaler(field.Type())
+		} else {
+			cf = g.TypeUnmarshaler(field.Type())
+		}
+		code = g.Code(`%s
 				case %s:
 					n := n.With(values.ID())
 					%s{
 						r := &r%s
 						%s
 					}
-					`, code, fmt.Sprintf("`%s`", name), g.EnsurePath(field.Path), field.Path, cf)
-			if code.Err() != nil {
-				return
-			}
+					`, code, fmt.Sprintf("`%s`", field.name), g.EnsurePath(field.Path), field.Path, cf)
+		if code.Err() != nil {
+			return
 		}
 	}
 	return g.Code(`
-- 
2.43.0


From e1911f315faa3b143d5fc3aea79802bab5eac388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:45 +0000
Subject: [PATCH 36/61] fix: escape text and named strings in generated
 AppendJSON

---
 internal/generator/append.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 3fcb7c5..8f1790e 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -168,9 +168,9 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 			return out, err
 		}
 		out = append(out, '"')
-		out = append(out, data...)
+		out = strjson.AppendEscaped(out, string(data), false)
 		out = append(out, '"')
-		`)
+		`).Import(strjsonPkg)
 
 	}
 	switch t := typ.Underlying().(type) {
@@ -226,7 +226,7 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 			}
 			return c.Println(`
 				out = append(out, '"')
-				out = strjson.AppendEscaped(out, v, false)
+				out = strjson.AppendEscaped(out, string(v), false)
 				out = append(out, '"')`).Import(strjsonPkg)
 		default:
 			if info := t.Info(); info&types.IsFloat != 0 {
@@ -243,7 +243,7 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 			return c.Println(`
 				// Fallback to json.Marshal for empty interface
 				if data, err := json.Marshal(v); err == nil {
-					out = append(out, data)
+					out = append(out, data...)
 				} else {
 					return out, err
 				}`).Import(jsonPkg)
-- 
2.43.0


From b5b246215d3467b5caf71dc5b9d65a7b042df5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:00 +0000
Subject: [PATCH 37/61] fix: quote map keys once in generated AppendJSON

---
 internal/generator/append.go | 66 +++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 23 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 8f1790e..59c6022 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -143,6 +143,45 @@ func (g *Generator) StructAppender(t *types.Struct) (c meta.Code) {
 	return
 }
 
+// KeyAppender returns the AppendJSON block code for a map key
+func (g *Generator) KeyAppender(typ types.Type) (c meta.Code) {
+	switch {
+	case meta.IsString(typ):
+		return g.StringAppender(nil)
+	case types.Implements(typ, typTextMarshaler):
+		return g.TextAppender()
+	default:
+		return c.Error(typeError{typ})
+	}
+}
+
+// StringAppender returns the AppendJSON block code for a string
+func (g *Generator) StringAppender(params meta.Params) (c meta.Code) {
+	if params.Has("raw") {
+		return c.Println(`
+			out = append(out, '"')
+			out = append(out, v...)
+			out = append(out, '"')`)
+	}
+	return c.Println(`
+		out = append(out, '"')
+		out = strjson.AppendEscaped(out, string(v), false)
+		out = append(out, '"')`).Import(strjsonPkg)
+}
+
+// TextAppender returns the AppendJSON block code for an encoding.TextMarshaler
+func (g *Generator) TextAppender() (c meta.Code) {
+	return g.Code(`
+		data, err := v.MarshalText()
+		if err != nil {
+			return out, err
+		}
+		out = append(out, '"')
+		out = strjson.AppendEscaped(out, string(data), false)
+		out = append(out, '"')
+		`).Import(strjsonPkg)
+}
+
 // TypeAppender returnds the AppendJSON block code for a type
 func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Code) {
 	switch {
@@ -162,16 +201,7 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 		out = append(out, data...)
 		`)
 	case types.Implements(typ, typTextMarshaler):
-		return g.Code(`
-		data, err := v.MarshalText()
-		if err != nil {
-			return out, err
-		}
-		out = append(out, '"')
-		out = strjson.AppendEscaped(out, string(data), false)
-		out = append(out, '"')
-		`).Import(strjsonPkg)
-
+		return g.TextAppender()
 	}
 	switch t := typ.Underlying().(type) {
 	case *types.Pointer:
@@ -189,17 +219,16 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 				for k, v := range v {
 					out = append(out, "{,"[more])
 					more = 1
-					out = append(out, '"')
 					{
 						v := k
 						%s
 					}
-					out = append(out, '"', ':')
+					out = append(out, ':')
 					%s
 				}
 				out = append(out, "{}"[more:]...)
 			}
-		`, g.TypeAppender(t.Key(), nil), g.TypeAppender(t.Elem(), params))
+		`, g.KeyAppender(t.Key()), g.TypeAppender(t.Elem(), params))
 	case *types.Slice:
 		return g.Code(`
 			out = append(out, '[')
@@ -218,16 +247,7 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 		case types.Bool:
 			return c.Println(`if v { out = append(out, "true"...) } else { out = append(out, "false"...) }`)
 		case types.String:
-			if params.Has("raw") {
-				return c.Println(`
-					out = append(out, '"')
-					out = append(out, v...)
-					out = append(out, '"')`)
-			}
-			return c.Println(`
-				out = append(out, '"')
-				out = strjson.AppendEscaped(out, string(v), false)
-				out = append(out, '"')`).Import(strjsonPkg)
+			return g.StringAppender(params)
 		default:
 			if info := t.Info(); info&types.IsFloat != 0 {
 				return c.Println(`out = numjson.AppendFloat(out, float64(v), 64)`).Import(numjsonPkg)
-- 
2.43.0


From 00911ea6d21a95dbc6610e8ac9ed19f1cdc152ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:16 +0000
Subject: [PATCH 38/61] fix: dereference pointers in generated AppendJSON

---
 internal/generator/append.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 59c6022..d7e70f6 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -209,6 +209,7 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 			if v == nil {
 				out = append(out, "null"...)
 			} else {
+				v := *v
 				%s
 			}
 		`, g.TypeAppender(t.Elem(), params))
-- 
2.43.0


From 0b80ed34a132319b7dc8efd287708f413a22767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:16 +0000
Subject: [PATCH 39/61] fix: refuse NaN and Inf and keep float32 precision in
 generated AppendJSON

---
 internal/generator/append.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index d7e70f6..5738a22 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -251,7 +251,18 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 			return g.StringAppender(params)
 		default:
 			if info := t.Info(); info&types.IsFloat != 0 {
-				return c.Println(`out = numjson.AppendFloat(out, float64(v), 64)`).Import(numjsonPkg)
+				bits := 64
+				if t.Kind() == types.Float32 {
+					bits = 32
+				}
+				return g.Code(`
+					if f := float64(v); f-f == 0 {
+						out = numjson.AppendFloat(out, f, %[1]d)
+					} else {
+						// Neither NaN nor ±Inf is a valid JSON number
+						return out, &json.UnsupportedValueError{Str: numjson.FormatFloat(f, %[1]d)}
+					}
+				`, bits).Import(numjsonPkg, jsonPkg)
 			} else if info&types.IsUnsigned != 0 {
 				return c.Println(`out = strconv.AppendUint(out, uint64(v), 10)`).Import(strconvPkg)
 			} else if info&types.IsInteger != 0 {
-- 
2.43.0


From 841cd9c33c96f893264c49bca3bc29ad08346092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:17 +0000
Subject: [PATCH 40/61] fix: write nil pointer fields as null in generated
 AppendJSON

---
 internal/generator/append.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 5738a22..1a9e62c 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -93,10 +93,11 @@ func (g *Generator) TypeOmiter(typ types.Type, block meta.Code) meta.Code {
 
 }
 
-// EnsureReversePath returns a code block to check the path to an embedded field does not contain any nil pointers
+// EnsureReversePath returns a code block to check the path to an embedded field does not contain any nil pointers.
+// The field itself can be a nil pointer.
 func (g *Generator) EnsureReversePath(path meta.FieldPath, code meta.Code) meta.Code {
 	cond := []string{}
-	for i, p := range path {
+	for i, p := range path[:len(path)-1] {
 		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
 			cond = append(cond, fmt.Sprintf("v%s != nil", path[:i+1]))
 		}
-- 
2.43.0


From 4dfee6530f460095abfe979a09c67699978c0d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:52 +0000
Subject: [PATCH 41/61] fix: use pointer receiver methods and write nil
 pointers as null in generated AppendJSON

---
 internal/generator/append.go | 60 ++++++++++++++++++++++++++++++------
 1 file changed, 51 insertions(+), 9 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 1a9e62c..628e363 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -25,6 +25,11 @@ func (g *Generator) Appender(typName string) (c meta.Code) {
 	if typ == nil {
 		return c.Errorf("Type %s not found", typName)
 	}
+	// A type's own methods on it's pointer might depend on AppendJSON
+	code, ok := g.MethodAppender(typ, types.Implements)
+	if !ok {
+		code = g.KindAppender(typ, nil)
+	}
 	receiverName := strings.ToLower(typName[:1])
 	method := g.AppendMethod()
 	return g.Code(`
@@ -36,7 +41,7 @@ func (g *Generator) Appender(typName string) (c meta.Code) {
 			}
 			return out, nil
 		}
-	`, receiverName, typ, method, g.TypeAppender(typ, nil))
+	`, receiverName, typ, method, code)
 
 }
 
@@ -183,27 +188,64 @@ func (g *Generator) TextAppender() (c meta.Code) {
 		`).Import(strjsonPkg)
 }
 
-// TypeAppender returnds the AppendJSON block code for a type
-func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Code) {
+// MethodAppender returns the AppendJSON block code for a type that has it's own methods
+func (g *Generator) MethodAppender(typ types.Type, implements func(types.Type, *types.Interface) bool) (c meta.Code, ok bool) {
 	switch {
-	case types.Implements(typ, typJSONAppender):
-		return g.Code(`
+	case implements(typ, typJSONAppender):
+		c = g.Code(`
 		var err error
 		if out, err = v.AppendJSON(out); err != nil {
 			return out, err
 		}
 		`)
-	case types.Implements(typ, typJSONMarshaler):
-		return g.Code(`
+	case implements(typ, typJSONMarshaler):
+		c = g.Code(`
 		data, err := v.MarshalJSON()
 		if err != nil {
 			return out, err
 		}
 		out = append(out, data...)
 		`)
-	case types.Implements(typ, typTextMarshaler):
-		return g.TextAppender()
+	case implements(typ, typTextMarshaler):
+		c = g.TextAppender()
+	default:
+		return c, false
 	}
+	switch typ.Underlying().(type) {
+	case *types.Pointer, *types.Interface:
+		c = g.Code(`
+			if v == nil {
+				out = append(out, "null"...)
+			} else {
+				%s
+			}
+		`, c)
+	}
+	return c, true
+}
+
+// implements checks if a type or a pointer to it implements an interface.
+func implements(typ types.Type, iface *types.Interface) bool {
+	if types.Implements(typ, iface) {
+		return true
+	}
+	switch typ.Underlying().(type) {
+	case *types.Pointer, *types.Interface:
+		return false
+	}
+	return types.Implements(types.NewPointer(typ), iface)
+}
+
+// TypeAppender returnds the AppendJSON block code for a type
+func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Code) {
+	if c, ok := g.MethodAppender(typ, implements); ok {
+		return c
+	}
+	return g.KindAppender(typ, params)
+}
+
+// KindAppender returns the AppendJSON block code for the underlying type of a type
+func (g *Generator) KindAppender(typ types.Type, params meta.Params) (c meta.Code) {
 	switch t := typ.Underlying().(type) {
 	case *types.Pointer:
 		return g.Code(`
-- 
2.43.0


From f41e1b4907a690afeec4b01603e85cce3d6f38ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 42/61] fix: allow omitempty on structs and nil values in
 generated AppendJSON

---
 internal/generator/append.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 628e363..ddc5064 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -56,8 +56,12 @@ func (g *Generator) OmiterType() (string, *types.Interface) {
 // TypeOmiter returns the code block to check if a value should be omitted
 func (g *Generator) TypeOmiter(typ types.Type, block meta.Code) meta.Code {
 	cond := ""
-	if method, omiter := g.OmiterType(); types.Implements(typ, omiter) {
+	if method, omiter := g.OmiterType(); implements(typ, omiter) {
 		cond = `!v.` + method + `()`
+		switch typ.Underlying().(type) {
+		case *types.Pointer, *types.Interface:
+			cond = `v != nil && ` + cond
+		}
 	} else {
 		switch t := typ.Underlying().(type) {
 		case *types.Pointer:
@@ -66,9 +70,6 @@ func (g *Generator) TypeOmiter(typ types.Type, block meta.Code) meta.Code {
 			cond = `len(v) > 0`
 		case *types.Slice:
 			cond = `len(v) > 0`
-		case *types.Struct:
-			return block.Error(typeError{typ})
-
 		case *types.Basic:
 			switch t.Kind() {
 			case types.Bool:
@@ -83,9 +84,7 @@ func (g *Generator) TypeOmiter(typ types.Type, block meta.Code) meta.Code {
 				}
 			}
 		case *types.Interface:
-			if t.NumMethods() == 0 {
-				cond = `v != nil`
-			}
+			cond = `v != nil`
 		}
 
 	}
-- 
2.43.0


From d33136ae2ca5db3f5e7526e69a3cd391dceee88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:33 +0000
Subject: [PATCH 43/61] fix: generate valid code for structs without fields and
 names that need escaping

---
 internal/generator/append.go    | 15 ++++++++++-----
 internal/generator/unmarshal.go |  6 +++---
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index ddc5064..6947a84 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -6,6 +6,7 @@ import (
 	"strings"
 
 	"github.com/alxarch/meta"
+	"github.com/alxarch/njson/strjson"
 )
 
 // WriteAppender writes an AppendJSON method for a type
@@ -123,19 +124,23 @@ func (g *Generator) EnsureReversePath(path meta.FieldPath, code meta.Code) meta.
 
 // StructAppender returns the AppendJSON block code for a struct
 func (g *Generator) StructAppender(t *types.Struct) (c meta.Code) {
+	fields := g.structFields(t)
+	if len(fields) == 0 {
+		return c.Println(`
+			_ = v
+			out = append(out, "{}"...)`)
+	}
 	c = c.Println(`more := 0`)
-	for _, field := range g.structFields(t) {
+	for _, field := range fields {
 		name, tag := field.name, field.tag
 		cf := g.TypeAppender(field.Type(), tag.Params)
 		cf = g.Code(`
 				out = append(out, "{,"[more])
 				more = 1
-				out = append(out, '"')
-				out = append(out, "%s"...)
-				out = append(out, '"', ':')
+				out = append(out, %q...)
 				{
 					%s
-				}`, name, cf)
+				}`, strjson.Escaped(name, false, true)+":", cf)
 		if tag.Params.Has(paramOmitempty) {
 			cf = g.TypeOmiter(field.Type(), cf)
 		}
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 6f92df7..1312b75 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -1,7 +1,6 @@
 package generator
 
 import (
-	"fmt"
 	"go/types"
 	"strings"
 
@@ -311,18 +310,19 @@ func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 			cf = g.TypeUnmarshaler(field.Type())
 		}
 		code = g.Code(`%s
-				case %s:
+				case %q:
 					n := n.With(values.ID())
 					%s{
 						r := &r%s
 						%s
 					}
-					`, code, fmt.Sprintf("`%s`", field.name), g.EnsurePath(field.Path), field.Path, cf)
+					`, code, field.name, g.EnsurePath(field.Path), field.Path, cf)
 		if code.Err() != nil {
 			return
 		}
 	}
 	return g.Code(`
+		_ = r
 		if n.Type() != njson.TypeObject {
 			return n.TypeError(njson.TypeObject)
 		}
-- 
2.43.0


From 0d6d4cd1d2c28fe3fcfb685c40e25c1db0272abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:01 +0000
Subject: [PATCH 44/61] fix: report unsupported types when generating
 UnmarshalNodeJSON

---
 internal/generator/unmarshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 1312b75..7f99049 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -38,10 +38,13 @@ func (g *Generator) Unmarshaler(typeName string) (code meta.Code) {
 
 // WriteUnmarshaler writes an unmarshaler method for a type in the generator's buffer.
 func (g *Generator) WriteUnmarshaler(typeName string) (err error) {
-	code := g.Unmarshaler(typeName).Format()
+	code := g.Unmarshaler(typeName)
 	if err = code.Err(); err != nil {
 		return
 	}
+	if code = code.Format(); code.Err() != nil {
+		return code.Err()
+	}
 
 	g.Import(code.Imports...)
 	_, err = g.buffer.Write(code.Code)
-- 
2.43.0


From f3bf7b891c8880a4e33aa694c7bbfd6adbaa3141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:02 +0000
Subject: [PATCH 45/61] fix: check JSON types and overflow in generated
 UnmarshalNodeJSON

---
 internal/generator/unmarshal.go | 65 ++++++++++++++++++++++++++++++---
 1 file changed, 60 insertions(+), 5 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 7f99049..61c22a9 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -162,15 +162,70 @@ func (g *Generator) BasicUnmarshaler(t types.Type, b *types.Basic) (code meta.Co
 	var c string
 	switch b.Kind() {
 	case types.Bool:
-		c = "if b, ok := n.ToBool(); ok { *r = %s(b) } else { return n.TypeError(njson.TypeBoolean) }"
+		c = `
+switch n.Type() {
+case njson.TypeNull:
+case njson.TypeBoolean:
+	b, _ := n.ToBool()
+	*r = %s(b)
+default:
+	return n.TypeError(njson.TypeBoolean)
+}
+`
 	case types.String:
-		return g.Code("*r = %s(n.Unescaped())", t)
+		c = `
+switch n.Type() {
+case njson.TypeNull:
+case njson.TypeString:
+	*r = %s(n.Unescaped())
+default:
+	return n.TypeError(njson.TypeString)
+}
+`
 	case types.Int, types.Int8, types.Int16, types.Int32, types.Int64:
-		c = "if i, ok := n.ToInt(); ok { *r = %s(i) } else { return n.TypeError(njson.TypeNumber) }"
+		c = `
+switch n.Type() {
+case njson.TypeNull:
+case njson.TypeNumber:
+	if i, ok := n.ToInt(); ok && int64(%[1]s(i)) == i {
+		*r = %[1]s(i)
+		break
+	}
+	fallthrough
+default:
+	return n.TypeError(njson.TypeNumber)
+}
+`
 	case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
-		c = ("if u, ok := n.ToUint(); ok { *r = %s(u) } else { return n.TypeError(njson.TypeNumber) }")
+		c = `
+switch n.Type() {
+case njson.TypeNull:
+case njson.TypeNumber:
+	if u, ok := n.ToUint(); ok && uint64(%[1]s(u)) == u {
+		*r = %[1]s(u)
+		break
+	}
+	fallthrough
+default:
+	return n.TypeError(njson.TypeNumber)
+}
+`
 	case types.Float32, types.Float64:
-		c = "if f, ok := n.ToFloat(); ok { *r = %s(f) } else { return n.TypeError(njson.TypeNumber) }"
+		c = `
+switch n.Type() {
+case njson.TypeNull:
+case njson.TypeNumber:
+	if f, ok := n.ToFloat(); ok {
+		if f := %[1]s(f); f-f == 0 {
+			*r = f
+			break
+		}
+	}
+	fallthrough
+default:
+	return n.TypeError(njson.TypeNumber)
+}
+`
 	default:
 		return code.Error(typeError{t})
 	}
-- 
2.43.0


From c641df1ec02233e6663dd06df1f1491c135f7bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:02 +0000
Subject: [PATCH 46/61] fix: decode as many slice elements as the array has in
 generated UnmarshalNodeJSON

---
 internal/generator/unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 61c22a9..a16bb6d 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -116,7 +116,7 @@ case njson.TypeArray:
 	size := values.Len()
 	
 	if cap(*r) < size {
-		*r = make([]%s, len(*r) + size)
+		*r = make([]%s, size)
 	} else {
 		*r = (*r)[:size]
 	}
-- 
2.43.0


From 5a4b8c040d454f92e1bfe0ff6c15c30cfbcfb4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:03 +0000
Subject: [PATCH 47/61] fix: generate valid code for interfaces, durations and
 UnmarshalNodeJSON methods

---
 internal/generator/unmarshal.go | 36 ++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index a16bb6d..12adeaa 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -65,6 +65,21 @@ func (g *Generator) isDuration(t types.Type) bool {
 	return false
 }
 
+// isNodeJSONUnmarshaler checks if a type has the method of the njson.Unmarshaler interface.
+//
+// Types imported by the package are not identical to the types imported by the generator
+// so types.Implements would never match the njson.Node argument of the method.
+func isNodeJSONUnmarshaler(t types.Type) bool {
+	obj, _, _ := types.LookupFieldOrMethod(t, true, nil, methodNodeUnmarshalJSON.Name())
+	f, ok := obj.(*types.Func)
+	if !ok {
+		return false
+	}
+	in, out := f.Type().(*types.Signature).Params(), f.Type().(*types.Signature).Results()
+	return in.Len() == 1 && in.At(0).Type().String() == typNode.String() &&
+		out.Len() == 1 && out.At(0).Type().String() == "error"
+}
+
 // TypeUnmarshaler returns the code block for unmarshaling a type.
 func (g *Generator) TypeUnmarshaler(t types.Type) (code meta.Code) {
 	if t == nil {
@@ -77,7 +92,7 @@ func (g *Generator) TypeUnmarshaler(t types.Type) (code meta.Code) {
 		return g.TimeUnmarshaler(t)
 	case g.isDuration(t):
 		return g.DurationUnmarshaler(t)
-	case types.Implements(pt, typNodeJSONUnmarshaler):
+	case isNodeJSONUnmarshaler(pt):
 		return g.NodeJSONUnmarshaler(t)
 	case types.Implements(pt, typJSONUnmarshaler):
 		return g.JSONUnmarshaler(t)
@@ -154,7 +169,7 @@ default:
 
 // InterfaceUnmarshaler generates the code block to unmarshal an empty interface.
 func (g *Generator) InterfaceUnmarshaler(t types.Type, b *types.Interface) (code meta.Code) {
-	return code.Import(njsonPkg).Println(`if x, ok := n.ToInterface(); ok { *r = x } else { return n.TypeError(njson.AnyValue) }`)
+	return code.Import(njsonPkg).Println(`if x, ok := n.ToInterface(); ok { *r = x } else { return n.TypeError(njson.TypeAnyValue) }`)
 }
 
 // BasicUnmarshaler generates the code block to unmarshal a basic type.
@@ -253,7 +268,7 @@ func (g *Generator) EnsurePath(path meta.FieldPath) (code meta.Code) {
 // NodeJSONUnmarshaler generates code to wrap the UnmarshalNodeJSON method of a value.
 func (g *Generator) NodeJSONUnmarshaler(t types.Type) (code meta.Code) {
 	return g.Code(`
-	if err := v.%s(n); err != nil {
+	if err := r.%s(n); err != nil {
 		return err
 	}
 	`, methodNodeUnmarshalJSON.Name())
@@ -283,14 +298,15 @@ func (g *Generator) TimeUnmarshaler(t types.Type) (code meta.Code) {
 func (g *Generator) DurationUnmarshaler(t types.Type) (code meta.Code) {
 	return g.Code(`
 	switch n.Type() {
-	case njson.Number:
-		if f, ok := n.ToNumber(); ok {
-			*r = time.Duration(f)
+	case njson.TypeNull:
+	case njson.TypeNumber:
+		if i, ok := n.ToInt(); ok {
+			*r = time.Duration(i)
 		} else {
-			return errors.New("Invalid JSON number")
+			return n.TypeError(njson.TypeNumber|njson.TypeString)
 		}
-	case njson.String:
-		if t, err := time.ParseDuration(n.Raw()); err != nil {
+	case njson.TypeString:
+		if t, err := time.ParseDuration(n.Unescaped()); err != nil {
 			return err
 		} else {
 			*r = t
@@ -298,7 +314,7 @@ func (g *Generator) DurationUnmarshaler(t types.Type) (code meta.Code) {
 	default:
 		return n.TypeError(njson.TypeNumber|njson.TypeString)
 	}
-	`).Import(types.NewPackage("time", "time"))
+	`).Import(njsonPkg, types.NewPackage("time", "time"))
 }
 
 // TextUnmarshaler generates code to wrap the UnmarshalText method of a value.
-- 
2.43.0


From f1ee1c36eb31bf82cd5edac5d4edadb92c77caf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:28 +0000
Subject: [PATCH 48/61] fix: accept null for structs, times and text in
 generated UnmarshalNodeJSON

---
 internal/generator/unmarshal.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 12adeaa..a5f3225 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -286,12 +286,14 @@ func (g *Generator) JSONUnmarshaler(t types.Type) (code meta.Code) {
 // TimeUnmarshaler generates code to unmarshal time.Time values.
 func (g *Generator) TimeUnmarshaler(t types.Type) (code meta.Code) {
 	return g.Code(`
-	if t, err := time.Parse(time.RFC3339, n.Raw()); err != nil {
-		return err
-	} else {
+	if n.Type() != njson.TypeNull {
+		t, err := time.Parse(time.RFC3339, n.Unescaped())
+		if err != nil {
+			return err
+		}
 		*r = t
 	}
-	`).Import(types.NewPackage("time", "time"))
+	`).Import(njsonPkg, types.NewPackage("time", "time"))
 }
 
 // DurationUnmarshaler generates code to unmarshal time.Time values.
@@ -320,10 +322,12 @@ func (g *Generator) DurationUnmarshaler(t types.Type) (code meta.Code) {
 // TextUnmarshaler generates code to wrap the UnmarshalText method of a value.
 func (g *Generator) TextUnmarshaler(t types.Type) (code meta.Code) {
 	return g.Code(`
-	if err := n.WrapUnmarshalText(r); err != nil {
-		return err
+	if n.Type() != njson.TypeNull {
+		if err := n.WrapUnmarshalText(r); err != nil {
+			return err
+		}
 	}
-	`)
+	`).Import(njsonPkg)
 }
 
 // MapUnmarshaler generates the code block to unmarshal a map.
@@ -397,13 +401,16 @@ func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 	}
 	return g.Code(`
 		_ = r
-		if n.Type() != njson.TypeObject {
-			return n.TypeError(njson.TypeObject)
-		}
-		for values := n.Values(); values.Next(); {
-			switch values.Key() {
-				%s
+		switch n.Type() {
+		case njson.TypeNull:
+		case njson.TypeObject:
+			for values := n.Values(); values.Next(); {
+				switch values.Key() {
+					%s
+				}
 			}
+		default:
+			return n.TypeError(njson.TypeObject|njson.TypeNull)
 		}`, code).Import(njsonPkg)
 
 }
-- 
2.43.0


From 2d94c9ef09d35bf3f077936a9c4e49d77ccf2f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:29 +0000
Subject: [PATCH 49/61] fix: unescape keys in generated UnmarshalNodeJSON

---
 internal/generator/unmarshal.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index a5f3225..0945a9b 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -332,17 +332,20 @@ func (g *Generator) TextUnmarshaler(t types.Type) (code meta.Code) {
 
 // MapUnmarshaler generates the code block to unmarshal a map.
 func (g *Generator) MapUnmarshaler(t types.Type, m *types.Map) (code meta.Code) {
-	// TODO: Enforce string, TextUnmarshaler key type
 	typK := m.Key()
-	// var codeK meta.Code
-	// switch {
-	// case meta.IsString(typK):
-	// 	codeK = g.TypeUnmarshaler(typK)
-	// case types.Implements(typK, typTextUnmarshaler):
-	// 	codeK = g.TypeUnmarshaler(typK)
-	// default:
-	// 	return code.Errorf("Invalid key type %s", typK)
-	// }
+	var codeK meta.Code
+	switch {
+	case meta.IsString(typK):
+		codeK = g.Code(`k := %s(strjson.Unescaped(values.Key()))`, typK)
+	case types.Implements(types.NewPointer(typK), typTextUnmarshaler):
+		codeK = g.Code(`
+		var k %s
+		if err := k.UnmarshalText([]byte(strjson.Unescaped(values.Key()))); err != nil {
+			return err
+		}`, typK)
+	default:
+		return code.Error(typeError{t})
+	}
 	typV := m.Elem()
 	codeV := g.TypeUnmarshaler(typV)
 	return g.Code(`
@@ -362,12 +365,13 @@ case njson.TypeObject:
 			r := &v
 			%[3]s
 		}
-		m[values.Key()] = v
+		%[4]s
+		m[k] = v
 	}
 default:
 	return n.TypeError(njson.TypeObject|njson.TypeNull)
 }
-`, typK, typV, codeV).Import(njsonPkg)
+`, typK, typV, codeV, codeK).Import(njsonPkg, strjsonPkg)
 }
 
 // RawStringUnmarshaler unmarshals strings without unescaping
@@ -405,13 +409,13 @@ func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 		case njson.TypeNull:
 		case njson.TypeObject:
 			for values := n.Values(); values.Next(); {
-				switch values.Key() {
+				switch strjson.Unescaped(values.Key()) {
 					%s
 				}
 			}
 		default:
 			return n.TypeError(njson.TypeObject|njson.TypeNull)
-		}`, code).Import(njsonPkg)
+		}`, code).Import(njsonPkg, strjsonPkg)
 
 }
 
-- 
2.43.0


From 0a5b930b0d259e59ba25b931987319df4fd8f08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:55 +0000
Subject: [PATCH 50/61] fix: check the JSON type of raw strings in generated
 UnmarshalNodeJSON

---
 internal/generator/unmarshal.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 0945a9b..820a2ec 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -376,7 +376,15 @@ default:
 
 // RawStringUnmarshaler unmarshals strings without unescaping
 func (g *Generator) RawStringUnmarshaler(t types.Type) meta.Code {
-	return g.Code(`*r = %s(n.Raw())`, t)
+	return g.Code(`
+switch n.Type() {
+case njson.TypeNull:
+case njson.TypeString:
+	*r = %s(n.Raw())
+default:
+	return n.TypeError(njson.TypeString)
+}
+`, t).Import(njsonPkg)
 }
 
 // StructUnmarshaler generates the code block to unmarshal a struct.
-- 
2.43.0


From ea636a9fdb0f6aec68cdca66a5ee7756af219918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:56 +0000
Subject: [PATCH 51/61] fix: generate code for recursive structs

---
 internal/generator/append.go    | 13 +++++++++++++
 internal/generator/generator.go | 22 ++++++++++++++++++++++
 internal/generator/unmarshal.go | 13 +++++++++++++
 3 files changed, 48 insertions(+)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 6947a84..c83ff74 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -250,6 +250,19 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 
 // KindAppender returns the AppendJSON block code for the underlying type of a type
 func (g *Generator) KindAppender(typ types.Type, params meta.Params) (c meta.Code) {
+	if g.isPending(typ) {
+		// Recursive structs need a call to the generated method
+		if !meta.IsStruct(typ) {
+			return c.Error(typeError{typ})
+		}
+		return g.Code(`
+		var err error
+		if out, err = v.%s(out); err != nil {
+			return out, err
+		}
+		`, g.AppendMethod())
+	}
+	defer g.enter(typ)()
 	switch t := typ.Underlying().(type) {
 	case *types.Pointer:
 		return g.Code(`
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 20b0fda..d7b84f6 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -35,6 +35,28 @@ type Generator struct {
 	test    bool
 	buffer  bytes.Buffer
 	imports map[string]*types.Package
+	pending []types.Type // Types that code is being generated for
+}
+
+// isPending checks if code for a type is already being generated.
+func (g *Generator) isPending(typ types.Type) bool {
+	for _, t := range g.pending {
+		if types.Identical(t, typ) {
+			return true
+		}
+	}
+	return false
+}
+
+// enter marks a named type as pending and returns a function to undo it.
+func (g *Generator) enter(typ types.Type) func() {
+	n := len(g.pending)
+	if _, ok := typ.(*types.Named); ok {
+		g.pending = append(g.pending, typ)
+	}
+	return func() {
+		g.pending = g.pending[:n]
+	}
 }
 
 type typeError struct {
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 820a2ec..4e75f9f 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -100,6 +100,19 @@ func (g *Generator) TypeUnmarshaler(t types.Type) (code meta.Code) {
 		return g.TextUnmarshaler(t)
 	}
 
+	if g.isPending(t) {
+		// Recursive structs need a call to the generated method
+		if !meta.IsStruct(t) {
+			return code.Error(typeError{t})
+		}
+		return g.Code(`
+		if err := r.%s(n); err != nil {
+			return err
+		}
+		`, g.UnmarshalMethod())
+	}
+	defer g.enter(t)()
+
 	switch typ := t.Underlying().(type) {
 	case *types.Map:
 		return g.MapUnmarshaler(t, typ)
-- 
2.43.0


From bdfef1bbd59a29c105f8cd87ebf517a6048588ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:56 +0000
Subject: [PATCH 52/61] fix: qualify types by package name in generated code

---
 internal/generator/generator.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index d7b84f6..e6c3399 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -67,6 +67,18 @@ func (e typeError) Error() string {
 	return fmt.Sprintf("Unsupported type %s %#v", e.typ, e.typ)
 }
 
+// Code returns a code block qualifying types from other packages by the name of their package.
+func (g *Generator) Code(format string, args ...interface{}) (c meta.Code) {
+	return c.QPrintf(g.qualifier, format, args...)
+}
+
+func (g *Generator) qualifier(pkg *types.Package) string {
+	if pkg.Path() == g.Path() {
+		return ""
+	}
+	return pkg.Name()
+}
+
 // AllStructs returns all structs from the package.
 func (g *Generator) AllStructs() (all []string) {
 	types := g.Package.DefinedTypes(meta.IsStruct)
-- 
2.43.0


From e3a510eb2f4130cdfda0fb7428269482de394292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:57 +0000
Subject: [PATCH 53/61] fix: name receivers of types with any first letter in
 generated code

---
 internal/generator/append.go    |  4 ++--
 internal/generator/generator.go | 11 +++++++++++
 internal/generator/unmarshal.go |  5 ++---
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index c83ff74..798122c 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -31,7 +31,7 @@ func (g *Generator) Appender(typName string) (c meta.Code) {
 	if !ok {
 		code = g.KindAppender(typ, nil)
 	}
-	receiverName := strings.ToLower(typName[:1])
+	receiver := receiverName(typName)
 	method := g.AppendMethod()
 	return g.Code(`
 		func (%[1]s *%[2]s) %[3]s(out []byte) ([]byte, error) {
@@ -42,7 +42,7 @@ func (g *Generator) Appender(typName string) (c meta.Code) {
 			}
 			return out, nil
 		}
-	`, receiverName, typ, method, code)
+	`, receiver, typ, method, code)
 
 }
 
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index e6c3399..e3cbd59 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -22,6 +22,7 @@ import (
 	"sort"
 	"strings"
 	"time"
+	"unicode"
 
 	"github.com/alxarch/meta"
 )
@@ -59,6 +60,16 @@ func (g *Generator) enter(typ types.Type) func() {
 	}
 }
 
+// receiverName returns a name for the receiver of a type's methods.
+func receiverName(typName string) string {
+	for _, r := range typName {
+		if unicode.IsLetter(r) {
+			return string(unicode.ToLower(r))
+		}
+	}
+	return "v"
+}
+
 type typeError struct {
 	typ types.Type
 }
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 4e75f9f..13b3662 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -2,7 +2,6 @@ package generator
 
 import (
 	"go/types"
-	"strings"
 
 	"github.com/alxarch/meta"
 )
@@ -13,7 +12,7 @@ func (g *Generator) Unmarshaler(typeName string) (code meta.Code) {
 	if typ == nil {
 		return code.Errorf("Type %s not found", typeName)
 	}
-	receiverName := strings.ToLower(typeName[:1])
+	receiver := receiverName(typeName)
 	return g.Code(`
 		func (%[1]s *%[2]s) %[3]s(node njson.Node) error {
 			typ := node.Type()
@@ -33,7 +32,7 @@ func (g *Generator) Unmarshaler(typeName string) (code meta.Code) {
 			}
 			return nil
 		}
-	`, receiverName, typ, g.UnmarshalMethod(), g.TypeUnmarshaler(typ)).Import(njsonPkg)
+	`, receiver, typ, g.UnmarshalMethod(), g.TypeUnmarshaler(typ)).Import(njsonPkg)
 }
 
 // WriteUnmarshaler writes an unmarshaler method for a type in the generator's buffer.
-- 
2.43.0


From 53eb2db058295b285461c16724681e4a6d92aa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:10 +0000
Subject: [PATCH 54/61] fix: generate methods for all the types in the
 arguments

---
 cmd/njson/njson.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/cmd/njson/njson.go b/cmd/njson/njson.go
index 54fd72e..cad5d89 100644
--- a/cmd/njson/njson.go
+++ b/cmd/njson/njson.go
@@ -82,18 +82,32 @@ func main() {
 		logger.Fatal(err)
 	}
 
-	typeFilter := func(string) bool { return true }
-	switch match := flag.Arg(1); match {
-	case "", "*":
-	default:
-		if regexp.QuoteMeta(match) == match {
+	var typeFilters []func(string) bool
+	for i, match := range flag.Args() {
+		match := match
+		switch {
+		case i == 0:
+			// Package name
+		case match == "", match == "*":
+			typeFilters = append(typeFilters, func(string) bool { return true })
+		case regexp.QuoteMeta(match) == match:
 			// match is not regexp
-			typeFilter = func(name string) bool { return name == match }
-		} else if rx, err := regexp.Compile(match); err != nil {
-			logger.Fatalln("Failed to compile match regex", err)
-		} else {
-			typeFilter = rx.MatchString
+			typeFilters = append(typeFilters, func(name string) bool { return name == match })
+		default:
+			rx, err := regexp.Compile(match)
+			if err != nil {
+				logger.Fatalln("Failed to compile match regex", err)
+			}
+			typeFilters = append(typeFilters, rx.MatchString)
+		}
+	}
+	typeFilter := func(name string) bool {
+		for _, match := range typeFilters {
+			if match(name) {
+				return true
+			}
 		}
+		return len(typeFilters) == 0
 	}
 	types := []string{}
 	for _, t := range g.AllStructs() {
-- 
2.43.0


From a233fc4cf5e9eabf80dfa175270aa0618c99de6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:18 +0000
Subject: [PATCH 55/61] fix: decode empty structs and all types with methods in
 generated UnmarshalNodeJSON

---
 internal/generator/unmarshal.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 13b3662..ba7f4c8 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -444,11 +444,12 @@ func CanUnmarshal(t types.Type) bool {
 	if t == nil {
 		return false
 	}
+	if isNodeJSONUnmarshaler(t) || implements(t, typJSONUnmarshaler) || implements(t, typTextUnmarshaler) {
+		return true
+	}
 	switch typ := t.Underlying().(type) {
-	case *types.Map:
+	case *types.Map, *types.Struct:
 		return true
-	case *types.Struct:
-		return typ.NumFields() > 0
 	case *types.Slice:
 		return CanUnmarshal(typ.Elem())
 	case *types.Pointer:
-- 
2.43.0


From 8507ffd51f7d1115ed43e3b09df29d5e91a1e36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 56/61] fix: map only hex digits in the FromHex byte map

---
 internal/bytemaper/bytemaper.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/bytemaper/bytemaper.go b/internal/bytemaper/bytemaper.go
index 2a33dc9..8570c0c 100644
--- a/internal/bytemaper/bytemaper.go
+++ b/internal/bytemaper/bytemaper.go
@@ -103,9 +103,9 @@ func fromHex(c byte) byte {
 	switch {
 	case '0' <= c && c <= '9':
 		return c - '0'
-	case 'a' <= c && c <= 'z':
+	case 'a' <= c && c <= 'f':
 		return 10 + c - 'a'
-	case 'A' <= c && c <= 'Z':
+	case 'A' <= c && c <= 'F':
 		return 10 + c - 'A'
 	default:
 		return 0xff
-- 
2.43.0


From 0ebcfabadd213c9aea5c5b1adcff8b66665943b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 57/61] fix: accept any character set in bytemaper

---
 internal/bytemaper/bytemaper.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/internal/bytemaper/bytemaper.go b/internal/bytemaper/bytemaper.go
index 8570c0c..259862d 100644
--- a/internal/bytemaper/bytemaper.go
+++ b/internal/bytemaper/bytemaper.go
@@ -111,6 +111,31 @@ func fromHex(c byte) byte {
 		return 0xff
 	}
 }
+
+// unquote handles escape sequences in a string, the quotes around it are optional.
+func unquote(s string) (string, error) {
+	if n := len(s); n >= 2 && s[0] == '"' && s[n-1] == '"' {
+		return strconv.Unquote(s)
+	}
+	var out []byte
+	for len(s) > 0 {
+		if s[0] != '\\' {
+			out, s = append(out, s[0]), s[1:]
+			continue
+		}
+		r, multibyte, tail, err := strconv.UnquoteChar(s, '"')
+		if err != nil {
+			return "", err
+		}
+		if s = tail; multibyte {
+			out = append(out, string(r)...)
+		} else {
+			out = append(out, byte(r))
+		}
+	}
+	return string(out), nil
+}
+
 func main() {
 	flag.Parse()
 	w := os.Stdout
@@ -127,10 +152,10 @@ func main() {
 		name := arg
 		if i := strings.IndexByte(arg, ':'); i != -1 {
 			name = arg[:i]
-			if arg = arg[i+1:]; len(arg) >= 2 && arg[0] != '"' && arg[len(arg)-1] != '"' {
-				arg = "\"" + arg + "\""
+			var err error
+			if arg, err = unquote(arg[i+1:]); err != nil {
+				log.Fatalf("Invalid arg %q: %s\n", name, err)
 			}
-			arg, _ = strconv.Unquote(arg)
 		} else {
 			arg = ""
 		}
-- 
2.43.0


From c299331a033a051b8b39f1bed4e6eece64aecf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:36 +0000
Subject: [PATCH 58/61] fix: generated code decodes an empty array to an empty
 slice, not nil

---
 internal/generator/unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index ba7f4c8..7ed1c5c 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -142,7 +142,7 @@ case njson.TypeArray:
 	values := n.Values()
 	size := values.Len()
 	
-	if cap(*r) < size {
+	if *r == nil || cap(*r) < size {
 		*r = make([]%s, size)
 	} else {
 		*r = (*r)[:size]
-- 
2.43.0


From 548234905b09ef12dc83423eeb1f9588ed142036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:03 +0000
Subject: [PATCH 59/61] fix: the generator takes the tag "-," for the name "-"
 as documented by encoding/json

---
 internal/generator/options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/options.go b/internal/generator/options.go
index 1679dd9..101f50a 100644
--- a/internal/generator/options.go
+++ b/internal/generator/options.go
@@ -123,7 +123,7 @@ func (o *options) parseField(field *types.Var, tag string) (name string, t meta.
 	if ok = !o.onlyTagged || tagged; !ok {
 		return
 	}
-	if ok = t.Name != "-"; !ok {
+	if ok = reflect.StructTag(tag).Get(o.TagKey()) != "-"; !ok {
 		return
 	}
 	if t.Name == "" {
-- 
2.43.0


From f8e51eb245861ae2dbe57adfef74d9c3a8176e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:16 +0000
Subject: [PATCH 60/61] fix: leave the target of an interface decoder as it was
 when a number is refused

---
 unjson/decode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 6a324c1..18068ce 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -408,9 +408,11 @@ type interfaceDecoder struct{}
 
 func (interfaceDecoder) Decode(x interface{}, n njson.Node) error {
 	if x, ok := x.(*interface{}); ok && x != nil {
-		if *x, ok = n.ToInterface(); !ok {
+		v, ok := n.ToInterface()
+		if !ok {
 			return n.TypeError(njson.TypeAnyValue)
 		}
+		*x = v
 		return nil
 	}
 	return n.TypeError(njson.TypeAnyValue)
-- 
2.43.0


From 62699a099ef52fdd2c2c4a6d05c53fdebd586bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:08 +0000
Subject: [PATCH 61/61] fix: omitempty dropped values of types with methods
 whose kind is complex, uintptr, chan or func

---
 unjson/omit.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unjson/omit.go b/unjson/omit.go
index aba20e7..95b3ae0 100644
--- a/unjson/omit.go
+++ b/unjson/omit.go
@@ -198,13 +198,14 @@ func newOmiter(typ reflect.Type, methodName string) omiter {
 		return omitNil{}
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return omitInt{}
-	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
 		return omitUint{}
 	case reflect.Float32, reflect.Float64:
 		return omitFloat{}
 	case reflect.Bool:
 		return omitBool{}
 	default:
-		return omitAlways{}
+		// Same as encoding/json, other kinds are never empty
+		return omitNever{}
 	}
 }
-- 
2.43.0

