From 15af836d0b13c70e6f330b39098b2311fedcc5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 01/73] fix: bitfield: Has reports false for an index outside
 the bitfield instead of panicking

---
 bitfield/bitfield.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitfield/bitfield.go b/bitfield/bitfield.go
index 3ff6b4a..b65143c 100644
--- a/bitfield/bitfield.go
+++ b/bitfield/bitfield.go
@@ -11,6 +11,9 @@ func New(n int) Bitfield {
 }
 
 func (b Bitfield) Has(i int) bool {
+	if i < 0 || i/8 >= len(b) {
+		return false
+	}
 	bi := i / 8
 	bj := 7 - (i % 8)
 	return b[bi]&(1<<bj) != 0
-- 
2.43.0


From e33e715824e4c061b063136804460da60b0cb863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 02/73] fix: bencode: decode a dictionary whose first key is
 the empty string

---
 bencode/decode.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 98dbaa3..874b908 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -226,6 +226,7 @@ func (d *Decoder) consumeDictionary(buf *bytes.Buffer) error {
 		buf.WriteByte('d')
 	}
 	lastKey := ""
+	first := true
 	for {
 		c, err := d.ReadByte()
 		if err != nil {
@@ -241,10 +242,11 @@ func (d *Decoder) consumeDictionary(buf *bytes.Buffer) error {
 		if err != nil {
 			return err
 		}
-		if lastKey >= key {
+		if !first && lastKey >= key {
 			return errors.New("consumeDictionary: dictionary keys not sorted")
 		}
 		lastKey = key
+		first = false
 		if err := d.consume(buf); err != nil {
 			return err
 		}
@@ -417,6 +419,7 @@ func (d *Decoder) decodeMap(v reflect.Value) error {
 		v.Set(reflect.MakeMap(t))
 	}
 	lastKey := ""
+	first := true
 	for {
 		c, err := d.ReadByte()
 		if err != nil {
@@ -432,10 +435,11 @@ func (d *Decoder) decodeMap(v reflect.Value) error {
 		if err := d.decodeString(key); err != nil {
 			return err
 		}
-		if lastKey >= key.String() {
+		if !first && lastKey >= key.String() {
 			return errors.New("decodeMap: dictionary keys not sorted")
 		}
 		lastKey = key.String()
+		first = false
 		elem := reflect.New(et)
 		// Pass the pointer to check for a unmarshaler with a pointer receiver.
 		if err := d.decode(elem); err != nil {
@@ -465,6 +469,7 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 	d.offset += 1
 	keyToField := getFieldsForStruct(v).keyToField
 	lastKey := ""
+	first := true
 	for {
 		c, err := d.ReadByte()
 		if err != nil {
@@ -480,10 +485,11 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 		if err := d.decodeString(key); err != nil {
 			return err
 		}
-		if lastKey >= key.String() {
+		if !first && lastKey >= key.String() {
 			return errors.New("decodeStruct: dictionary keys not sorted")
 		}
 		lastKey = key.String()
+		first = false
 		field, ok := keyToField[key.String()]
 		if !ok {
 			if err := d.consume(nil); err != nil {
-- 
2.43.0


From ce6b0e4b2c0f521f4bf42ebbf969a1ab4b6c1fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 03/73] fix: bencode: reject signed string lengths and allocate
 strings only as their bytes arrive

---
 bencode/decode.go | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 874b908..c8e6423 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -123,19 +123,44 @@ func (d *Decoder) consume(buf *bytes.Buffer) error {
 	}
 }
 
+// parseLength parses a string's length prefix: decimal digits, with no sign.
+func parseLength(s string) (int, error) {
+	if len(s) == 0 || !isDigit(s[0]) {
+		return 0, fmt.Errorf("invalid string length: %q", s)
+	}
+	return strconv.Atoi(s)
+}
+
+// readFull reads exactly n bytes. The length comes from the input, so memory is
+// only allocated as the bytes arrive.
+func (d *Decoder) readFull(n int) ([]byte, error) {
+	const chunk = 1 << 16
+	if n <= chunk {
+		b := make([]byte, n)
+		m, err := io.ReadFull(d, b)
+		return b[:m], err
+	}
+	var buf bytes.Buffer
+	_, err := io.CopyN(&buf, d, int64(n))
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return buf.Bytes(), err
+}
+
 func (d *Decoder) consumeString(buf *bytes.Buffer) (string, error) {
 	lengthStr, err := d.ReadString(':')
 	if err != nil {
 		return "", d.newSyntaxError("consumeString: unterminated string prefix: %w", err)
 	}
 	lengthStr = lengthStr[:len(lengthStr)-1]
-	length, err := strconv.Atoi(lengthStr)
+	length, err := parseLength(lengthStr)
 	if err != nil {
 		return "", d.newSyntaxError("consumeString: %w", err)
 	}
 	d.offset += len(lengthStr) + 1
-	bytes := make([]byte, length)
-	n, err := io.ReadFull(d, bytes)
+	bytes, err := d.readFull(length)
+	n := len(bytes)
 	if err != nil {
 		return "", d.newSyntaxError("consumeString: unexpected string eof: %d < %d: %w", n, length, err)
 	}
@@ -263,13 +288,13 @@ func (d *Decoder) decodeString(v reflect.Value) error {
 	if err != nil {
 		return d.newSyntaxError("decodeString: unterminated string prefix: %w", err)
 	}
-	length, err := strconv.Atoi(lengthStr[:len(lengthStr)-1])
+	length, err := parseLength(lengthStr[:len(lengthStr)-1])
 	if err != nil {
 		return d.newSyntaxError("decodeString: %w", err)
 	}
 	d.offset += len(lengthStr)
-	bytes := make([]byte, length)
-	n, err := io.ReadFull(d, bytes)
+	bytes, err := d.readFull(length)
+	n := len(bytes)
 	if err != nil {
 		return d.newSyntaxError("decodeString: unexpected string eof: %d < %d: %w", n, length, err)
 	}
-- 
2.43.0


From 0f518d7dc29d47831836ce6e94ea7575235b9303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 04/73] fix: bencode: allocate nil pointers met while decoding,
 such as the elements of a []*T

---
 bencode/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index c8e6423..4afae61 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -50,6 +50,9 @@ func (d *Decoder) newSyntaxError(t string, args ...any) error {
 var unmarshalerType = reflect.TypeFor[Unmarshaler]()
 
 func (d *Decoder) decode(v reflect.Value) error {
+	if v.Kind() == reflect.Pointer && v.IsNil() && v.CanSet() {
+		v.Set(reflect.New(v.Type().Elem()))
+	}
 	if v.Kind() != reflect.Pointer && reflect.PointerTo(v.Type()).Implements(unmarshalerType) && v.CanAddr() {
 		return d.decodeUnmarshaler(v.Addr())
 	}
-- 
2.43.0


From 2934f1199b7d825828a9d77d589955ab7dab29d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 05/73] fix: bencode: report an integer that overflows its
 target instead of truncating it

---
 bencode/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 4afae61..2a58bd3 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -345,6 +345,9 @@ func (d *Decoder) decodeInt(v reflect.Value) error {
 		return d.newSyntaxError("decodeInt: %w", err)
 	}
 	d.offset += len(intStr) + 1
+	if v.OverflowInt(i) {
+		return d.newSyntaxError("decodeInt: %d overflows %s", i, v.Type())
+	}
 	v.SetInt(i)
 	return nil
 }
@@ -371,6 +374,9 @@ func (d *Decoder) decodeUint(v reflect.Value) error {
 		return d.newSyntaxError("decodeUint: %w", err)
 	}
 	d.offset += len(intStr) + 1
+	if v.OverflowUint(i) {
+		return d.newSyntaxError("decodeUint: %d overflows %s", i, v.Type())
+	}
 	v.SetUint(i)
 	return nil
 }
-- 
2.43.0


From 13fabc72a661288a058ceea03191efa60bf45e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 06/73] fix: bencode: reject a plus sign in integers and skip
 or capture integers of any size

---
 bencode/decode.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 2a58bd3..3b00373 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -193,9 +193,9 @@ func (d *Decoder) consumeInt(buf *bytes.Buffer) error {
 	if leadingZero(intStr) {
 		return d.newSyntaxError("consumeInt: invalid int: %s", intStr)
 	}
-	_, err = strconv.ParseInt(intStr, 10, 64)
-	if err != nil {
-		return d.newSyntaxError("consumeInt: %w", err)
+	// Skipped and raw integers are never stored, so they may have any size.
+	if !isInteger(intStr) {
+		return d.newSyntaxError("consumeInt: invalid int: %s", intStr)
 	}
 	d.offset += len(intStr) + 1
 	if buf != nil {
@@ -323,6 +323,19 @@ func leadingZero(intStr string) bool {
 	return false
 }
 
+// isInteger reports whether intStr is an optional minus sign followed by digits.
+func isInteger(intStr string) bool {
+	if len(intStr) > 0 && intStr[0] == '-' {
+		intStr = intStr[1:]
+	}
+	for i := range len(intStr) {
+		if !isDigit(intStr[i]) {
+			return false
+		}
+	}
+	return len(intStr) > 0
+}
+
 func (d *Decoder) decodeInt(v reflect.Value) error {
 	b, err := d.ReadByte()
 	if err != nil {
@@ -337,7 +350,7 @@ func (d *Decoder) decodeInt(v reflect.Value) error {
 		return d.newSyntaxError("decodeInt: unterminated int: %w", err)
 	}
 	intStr = intStr[:len(intStr)-1]
-	if leadingZero(intStr) {
+	if leadingZero(intStr) || !isInteger(intStr) {
 		return d.newSyntaxError("decodeInt: invalid int: %s", intStr)
 	}
 	i, err := strconv.ParseInt(intStr, 10, 64)
-- 
2.43.0


From 8bd85b1687f5cfe6c6430b4cc983bcbf0e0144ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 07/73] fix: bencode: bound the nesting depth of decoded values

---
 bencode/decode.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 3b00373..42fb3e5 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -19,6 +19,19 @@ func Unmarshal(b []byte, v any) error {
 type Decoder struct {
 	*bufio.Reader
 	offset int
+	depth  int
+}
+
+// Limits the nesting of decoded values, so that hostile input cannot exhaust
+// the stack.
+const decodeDepthLimit = 10000
+
+func (d *Decoder) enter() error {
+	if d.depth >= decodeDepthLimit {
+		return d.newSyntaxError("maximum nesting depth exceeded")
+	}
+	d.depth++
+	return nil
 }
 
 func NewDecoder(r io.Reader) *Decoder {
@@ -50,6 +63,10 @@ func (d *Decoder) newSyntaxError(t string, args ...any) error {
 var unmarshalerType = reflect.TypeFor[Unmarshaler]()
 
 func (d *Decoder) decode(v reflect.Value) error {
+	if err := d.enter(); err != nil {
+		return err
+	}
+	defer func() { d.depth-- }()
 	if v.Kind() == reflect.Pointer && v.IsNil() && v.CanSet() {
 		v.Set(reflect.New(v.Type().Elem()))
 	}
@@ -103,6 +120,10 @@ func isDigit(b byte) bool {
 }
 
 func (d *Decoder) consume(buf *bytes.Buffer) error {
+	if err := d.enter(); err != nil {
+		return err
+	}
+	defer func() { d.depth-- }()
 	b, err := d.ReadByte()
 	if err != nil {
 		return err
-- 
2.43.0


From 7fa58667890795a1d72dc50b20bed3486b0dfefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 08/73] fix: bencode: replace the scalar held by a non-nil
 interface instead of panicking

---
 bencode/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 42fb3e5..da084e8 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -584,8 +584,8 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 }
 
 func (d *Decoder) decodeInterface(v reflect.Value) error {
-	if !v.IsNil() {
-		return d.decode(v.Elem())
+	if e := v.Elem(); !v.IsNil() && (e.CanSet() || e.Kind() == reflect.Pointer && !e.IsNil()) {
+		return d.decode(e)
 	} else if v.NumMethod() != 0 {
 		// Can only decode into an any.
 		return &UnsupportedTypeError{v.Type()}
-- 
2.43.0


From fc2f5cbf7b7f0f97dcea527692ad5abcc7b6f46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 09/73] fix: bencode: decoding a list into a longer slice drops
 the leftover elements

---
 bencode/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index da084e8..81d08ee 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -464,6 +464,10 @@ func (d *Decoder) decodeSlice(v reflect.Value) error {
 		}
 		i++
 	}
+	if v.Kind() == reflect.Slice && i < v.Len() {
+		// Drop elements left over from the value decoded into.
+		v.SetLen(i)
+	}
 	d.offset += 1
 	return nil
 }
-- 
2.43.0


From 42121a6df0614d98036ace55f0ac452f9a6df5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 10/73] fix: bencode: decode struct fields by the same rules
 the encoder uses, without panicking

---
 bencode/decode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 81d08ee..dbe77b1 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -563,7 +563,7 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 		lastKey = key.String()
 		first = false
 		field, ok := keyToField[key.String()]
-		if !ok {
+		if !ok || field.ignored {
 			if err := d.consume(nil); err != nil {
 				return err
 			}
@@ -574,6 +574,9 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 			elem = elem.Field(i)
 			if elem.Kind() == reflect.Pointer {
 				if elem.IsNil() {
+					if !elem.CanSet() {
+						return fmt.Errorf("bencode: cannot set embedded pointer to unexported struct: %s", elem.Type())
+					}
 					elem.Set(reflect.New(elem.Type().Elem()))
 				}
 				elem = elem.Elem()
-- 
2.43.0


From 0a68e34f3bc2ead002740ec7c0878c7e8fbf8886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 11/73] fix: bencode: leave a dictionary entry out when its
 value is nil

---
 bencode/encode.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/bencode/encode.go b/bencode/encode.go
index 5be9af2..38c61d2 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -203,6 +203,9 @@ func (e *Encoder) encodeMap(v reflect.Value) error {
 		return strings.Compare(a.String(), b.String())
 	})
 	for _, key := range keys {
+		if isAbsent(v.MapIndex(key)) {
+			continue
+		}
 		if err := e.encodeString(key); err != nil {
 			return err
 		}
@@ -367,6 +370,21 @@ func isNil(v reflect.Value) bool {
 	}
 }
 
+// isAbsent reports whether v is nil, possibly behind pointers or interfaces. Such
+// a value has no encoding, so a dictionary must leave out its key too.
+func isAbsent(v reflect.Value) bool {
+	for range ptrDepthLimit {
+		if isNil(v) {
+			return true
+		}
+		if v.Kind() != reflect.Interface && (v.Kind() != reflect.Pointer || v.Type().Implements(marshalerType)) {
+			return false
+		}
+		v = v.Elem()
+	}
+	return false
+}
+
 func isEmptyValue(v reflect.Value) bool {
 	switch v.Kind() {
 	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
@@ -403,7 +421,7 @@ func (e *Encoder) encodeStruct(v reflect.Value) error {
 	}
 	for _, f := range getFieldsForStruct(v).fields {
 		fv := fieldByIndex(v, f.index)
-		if isNil(fv) {
+		if isAbsent(fv) {
 			continue
 		}
 		if f.omitempty && isEmptyValue(fv) {
-- 
2.43.0


From f4779a420f09ac0b97648a822380818968cd6951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 12/73] fix: bencode: encode a nil pointer or interface as
 nothing instead of panicking

---
 bencode/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bencode/encode.go b/bencode/encode.go
index 38c61d2..7a78e94 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -60,6 +60,9 @@ func (e *Encoder) writeString(s string) (n int, err error) {
 var marshalerType = reflect.TypeFor[Marshaler]()
 
 func (e *Encoder) encode(v reflect.Value) error {
+	if !v.IsValid() || v.Kind() == reflect.Pointer && v.IsNil() {
+		return nil
+	}
 	if v.Kind() != reflect.Pointer && reflect.PointerTo(v.Type()).Implements(marshalerType) && v.CanAddr() {
 		return e.encodeMarshaler(v.Addr())
 	}
-- 
2.43.0


From 2e67784e23d1c57c6f5040c11622904ceca78d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 13/73] fix: bencode: marshal a RawMessage held by value
 verbatim

---
 bencode/raw_message.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bencode/raw_message.go b/bencode/raw_message.go
index 2e9406a..096cff3 100644
--- a/bencode/raw_message.go
+++ b/bencode/raw_message.go
@@ -2,8 +2,8 @@ package bencode
 
 type RawMessage []byte
 
-func (r *RawMessage) MarshalBencoding() ([]byte, error) {
-	return []byte(*r), nil
+func (r RawMessage) MarshalBencoding() ([]byte, error) {
+	return []byte(r), nil
 }
 
 func (r *RawMessage) UnmarshalBencoding(data []byte) error {
-- 
2.43.0


From a72a3e6917ccd6a73d5c8cf5b8f89d9b625d96a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 14/73] fix: bencode: fail on pointer cycles and keep an
 Encoder usable after an error

---
 bencode/encode.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bencode/encode.go b/bencode/encode.go
index 7a78e94..2a16444 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -24,6 +24,7 @@ func Marshal(v any) ([]byte, error) {
 type Encoder struct {
 	io.Writer
 	ptrDepth int
+	derefs   int
 }
 
 const ptrDepthLimit = 1000
@@ -91,6 +92,10 @@ func (e *Encoder) encode(v reflect.Value) error {
 		if v.IsNil() {
 			return nil
 		}
+		defer func(derefs int) { e.derefs = derefs }(e.derefs)
+		if e.derefs++; e.derefs > 10*ptrDepthLimit {
+			return errors.New("bencode: maximum pointer depth exceeded")
+		}
 		return e.encode(v.Elem())
 	default:
 		return &UnsupportedTypeError{v.Type()}
@@ -170,6 +175,7 @@ func (e *Encoder) encodeSlice(v reflect.Value) error {
 	if v.Kind() == reflect.Slice && v.IsNil() {
 		return nil
 	}
+	defer func(depth int) { e.ptrDepth = depth }(e.ptrDepth)
 	if e.ptrDepth++; e.ptrDepth > ptrDepthLimit {
 		return errors.New("bencode: maximum pointer depth exceeded")
 	}
@@ -184,7 +190,6 @@ func (e *Encoder) encodeSlice(v reflect.Value) error {
 	if err := e.writeByte('e'); err != nil {
 		return err
 	}
-	e.ptrDepth--
 	return nil
 }
 
@@ -195,6 +200,7 @@ func (e *Encoder) encodeMap(v reflect.Value) error {
 	if v.Type().Key().Kind() != reflect.String {
 		return &UnsupportedTypeError{v.Type()}
 	}
+	defer func(depth int) { e.ptrDepth = depth }(e.ptrDepth)
 	if e.ptrDepth++; e.ptrDepth > ptrDepthLimit {
 		return errors.New("bencode: maximum pointer depth exceeded")
 	}
@@ -219,7 +225,6 @@ func (e *Encoder) encodeMap(v reflect.Value) error {
 	if err := e.writeByte('e'); err != nil {
 		return err
 	}
-	e.ptrDepth--
 	return nil
 }
 
@@ -416,6 +421,7 @@ func fieldByIndex(v reflect.Value, index []int) reflect.Value {
 }
 
 func (e *Encoder) encodeStruct(v reflect.Value) error {
+	defer func(depth int) { e.ptrDepth = depth }(e.ptrDepth)
 	if e.ptrDepth++; e.ptrDepth > ptrDepthLimit {
 		return errors.New("bencode: maximum pointer depth exceeded")
 	}
@@ -440,6 +446,5 @@ func (e *Encoder) encodeStruct(v reflect.Value) error {
 	if err := e.writeByte('e'); err != nil {
 		return err
 	}
-	e.ptrDepth--
 	return nil
 }
-- 
2.43.0


From cf09e0affe85ee504e89789308dd08c1707bc9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 15/73] fix: api/peer: reject messages too short for their type
 and allocate payloads only as they arrive

---
 api/peer/peer.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/api/peer/peer.go b/api/peer/peer.go
index 2b3713e..0778c23 100644
--- a/api/peer/peer.go
+++ b/api/peer/peer.go
@@ -344,6 +344,30 @@ func (m *Message) MarshalBinary() ([]byte, error) {
 	return bu.Bytes(), nil
 }
 
+// The fixed-size part of each message's payload, after the type.
+var minPayload = map[MessageType]int{
+	HAVE:    4,
+	REQUEST: 12,
+	CANCEL:  12,
+	PIECE:   8,
+}
+
+// readPayload reads length bytes. The remote chooses the length, so memory is
+// only allocated as the bytes arrive.
+func readPayload(r io.Reader, length int64) ([]byte, error) {
+	if length <= 1<<16 {
+		payload := make([]byte, length)
+		_, err := io.ReadFull(r, payload)
+		return payload, err
+	}
+	var payload bytes.Buffer
+	_, err := io.CopyN(&payload, r, length)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return payload.Bytes(), err
+}
+
 func (m *Message) Decode(r io.Reader) error {
 	lengthBytes := make([]byte, 4)
 	if _, err := io.ReadFull(r, lengthBytes); err != nil {
@@ -354,12 +378,15 @@ func (m *Message) Decode(r io.Reader) error {
 		m.Type = KEEPALIVE
 		return nil
 	}
-	payload := make([]byte, length)
-	if _, err := io.ReadFull(r, payload); err != nil {
+	payload, err := readPayload(r, int64(length))
+	if err != nil {
 		return err
 	}
 	m.Type = MessageType(payload[0])
 	payload = payload[1:]
+	if len(payload) < minPayload[m.Type] {
+		return fmt.Errorf("message payload too short: type=%d length=%d", m.Type, length)
+	}
 	switch m.Type {
 	case CHOKE, UNCHOKE, INTERESTED, NOT_INTERESTED:
 	case BITFIELD:
-- 
2.43.0


From 514b7ba17e82850fae8c931a6b7311f253fcd30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 16/73] fix: api/peer: wait for the first handshake byte when a
 read returns none

---
 api/peer/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/peer/peer.go b/api/peer/peer.go
index 0778c23..d17c8d7 100644
--- a/api/peer/peer.go
+++ b/api/peer/peer.go
@@ -67,7 +67,7 @@ func (h *Handshake) MarshalBinary() ([]byte, error) {
 
 func (h *Handshake) Decode(r io.Reader) error {
 	data := make([]byte, HandshakeLength)
-	if _, err := r.Read(data[:1]); err != nil {
+	if _, err := io.ReadFull(r, data[:1]); err != nil {
 		return err
 	}
 	protocolLen := int(data[0])
-- 
2.43.0


From 716c96abdcd9d56783abe8b4a33dbc65e335540c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 17/73] fix: api/tracker: report malformed peer dictionaries
 instead of panicking

---
 api/tracker/tracker.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index 364d879..0375043 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -189,11 +189,27 @@ func parseCompactPeers(compact string) ([]*Peer, error) {
 func parsePeers(peerMaps []any) ([]*Peer, error) {
 	var peers []*Peer
 	for _, m := range peerMaps {
-		m := m.(map[string]any)
+		m, ok := m.(map[string]any)
+		if !ok {
+			return nil, errors.New("peer is not a dictionary")
+		}
+		// Trackers may leave the peer id out.
+		id, ok := m["peer id"].(string)
+		if m["peer id"] != nil && !ok {
+			return nil, errors.New(`peer "peer id" is not a string`)
+		}
+		ip, ok := m["ip"].(string)
+		if !ok {
+			return nil, errors.New(`peer "ip" is not a string`)
+		}
+		port, ok := m["port"].(int)
+		if !ok {
+			return nil, errors.New(`peer "port" is not an integer`)
+		}
 		peer := &Peer{
-			ID:   m["peer id"].(string),
-			IP:   m["ip"].(string),
-			Port: m["port"].(int),
+			ID:   id,
+			IP:   ip,
+			Port: port,
 		}
 		peers = append(peers, peer)
 	}
-- 
2.43.0


From c7ca9db8b343f3840ffbb238190d17621b2e36e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 18/73] fix: api/tracker: encode an empty peer list as an empty
 list

---
 api/tracker/tracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index 0375043..6a707f4 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -130,6 +130,9 @@ func (p *Peers) MarshalBencoding() ([]byte, error) {
 		}
 		return bencode.Marshal(compact)
 	}
+	if p.List == nil {
+		return bencode.Marshal([]*Peer{})
+	}
 	return bencode.Marshal(p.List)
 }
 
-- 
2.43.0


From 904a969a33c54426909a6154721281a410444e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 19/73] fix: api/tracker: refuse ports that do not fit a
 compact peer, and do not register them

---
 api/tracker/tracker.go | 3 +++
 pex/http.go            | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index 6a707f4..5d24d0e 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -144,6 +144,9 @@ func compactPeers(peers []*Peer) ([]byte, error) {
 		if ip == nil {
 			return nil, fmt.Errorf(`peer "ip" is not an ipv4: %+v`, p.IP)
 		}
+		if p.Port < 0 || p.Port > 65535 {
+			return nil, fmt.Errorf(`peer "port" is out of range: %d`, p.Port)
+		}
 		b[i] = ip[0]
 		b[i+1] = ip[1]
 		b[i+2] = ip[2]
diff --git a/pex/http.go b/pex/http.go
index 5051d25..a224f6e 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -102,7 +102,7 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		fail(errors.New("bad ip"))
 		return
 	}
-	if r.Port == 0 {
+	if r.Port <= 0 || r.Port > 65535 {
 		fail(errors.New("bad port"))
 		return
 	}
-- 
2.43.0


From 5aebfd71595fa4e6ecabc90dd82a7a01a3b2bd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 20/73] fix: pex: leave IPv6 peers out of compact responses
 instead of failing them

---
 pex/http.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pex/http.go b/pex/http.go
index a224f6e..01fe99c 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -128,6 +128,10 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 			continue
 		}
 		paddr := fmt.Sprintf("%s:%d", p.tp.IP, p.tp.Port)
+		if r.Compact && net.ParseIP(p.tp.IP).To4() == nil {
+			// The compact format has no room for IPv6 addresses.
+			continue
+		}
 		if paddr != addr {
 			peers.List = append(peers.List, p.tp)
 		}
-- 
2.43.0


From 7dc1cad7d7a971bfc977b28530de41550e89d064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 21/73] fix: pex: register a peer under its canonical IP so it
 is not handed its own address

---
 pex/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pex/http.go b/pex/http.go
index 01fe99c..3f59f51 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -114,7 +114,7 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		peer = &Peer{
 			tp: &trackerapi.Peer{
 				ID:   string(r.PeerID[:]),
-				IP:   ip,
+				IP:   netIP.String(),
 				Port: r.Port,
 			},
 		}
-- 
2.43.0


From 6b6b45d6442018c76934a3f2d4b053765cd5dd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 22/73] fix: pex: hand out the peer ID of a peer's latest
 announce

---
 pex/http.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pex/http.go b/pex/http.go
index 3f59f51..4ff75c9 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -120,6 +120,8 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		}
 		torrent.Peers[addr] = peer
 	}
+	// A client that restarts comes back to the same address with a new ID.
+	peer.tp.ID = string(r.PeerID[:])
 	peer.UpdatedAt = time.Now()
 	peer.LastEvent = r.Event
 	peers := &trackerapi.Peers{Compact: r.Compact}
-- 
2.43.0


From 8f31dcc71b758bc484c5806af12de73ee8963e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 23/73] fix: storage: refuse blocks outside a piece instead of
 panicking

---
 storage/storage.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 5214f08..33691e1 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -95,6 +95,12 @@ func (s *Storage) ResetPiece(index int) *Piece {
 
 func (s *Storage) GetBlock(index, begin, length int) ([]byte, error) {
 	slog.Debug("GetBlock", "name", s.Torrent.Info.Name, "index", index, "begin", begin, "length", length)
+	if err := checkPieceIndex(s.Torrent.Info, index); err != nil {
+		return nil, err
+	}
+	if pieceLength := s.Torrent.Info.GetPieceLength(index); begin < 0 || length < 0 || begin > pieceLength || length > pieceLength-begin {
+		return nil, fmt.Errorf("storage: block outside piece: begin=%d length=%d piece length=%d", begin, length, pieceLength)
+	}
 	s.Torrent.mu.RLock()
 	defer s.Torrent.mu.RUnlock()
 	if s.Torrent.coalesced {
@@ -111,6 +117,9 @@ func (s *Storage) GetBlock(index, begin, length int) ([]byte, error) {
 
 func (s *Storage) PutBlock(index, begin int, data []byte) error {
 	slog.Debug("PutBlock", "name", s.Torrent.Info.Name, "index", index, "begin", begin, "length", len(data), "data", "<omitted>")
+	if err := checkPieceIndex(s.Torrent.Info, index); err != nil {
+		return err
+	}
 	if err := checkBlockSize(s.Torrent.Info, index, begin, len(data)); err != nil {
 		return err
 	}
@@ -224,11 +233,21 @@ func (s *Storage) getBlockFromPiece(piece *Piece, begin, length int) ([]byte, er
 	return data[:n], nil
 }
 
+func checkPieceIndex(info *metainfo.Info, index int) error {
+	if index < 0 || index >= len(info.Pieces) {
+		return fmt.Errorf("storage: piece index out of range: %d", index)
+	}
+	return nil
+}
+
 func checkBlockSize(info *metainfo.Info, index, begin, length int) error {
 	if begin%BLOCK_LENGTH != 0 {
 		return fmt.Errorf("storage: misaligned block: %d %% %d != 0", begin, BLOCK_LENGTH)
 	}
 	pieceLength := info.GetPieceLength(index)
+	if begin < 0 || begin >= pieceLength {
+		return fmt.Errorf("storage: block outside piece: %d >= %d", begin, pieceLength)
+	}
 	expectedBlockLength := BLOCK_LENGTH
 	lastBlock := BLOCK_LENGTH * (pieceLength / BLOCK_LENGTH)
 	if begin == lastBlock {
-- 
2.43.0


From e22b1675ba2ab25ae0b668e4cdca10c169a38233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 24/73] fix: storage: lock the piece before the torrent in
 GetBlock, as PutBlock does

---
 storage/storage.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 33691e1..485a86d 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -101,14 +101,15 @@ func (s *Storage) GetBlock(index, begin, length int) ([]byte, error) {
 	if pieceLength := s.Torrent.Info.GetPieceLength(index); begin < 0 || length < 0 || begin > pieceLength || length > pieceLength-begin {
 		return nil, fmt.Errorf("storage: block outside piece: begin=%d length=%d piece length=%d", begin, length, pieceLength)
 	}
+	// Lock order: a piece before its torrent, as in PutBlock
+	piece := s.Torrent.pieces[index]
+	piece.mu.RLock()
+	defer piece.mu.RUnlock()
 	s.Torrent.mu.RLock()
 	defer s.Torrent.mu.RUnlock()
 	if s.Torrent.coalesced {
 		return s.getBlockFromTorrent(index, begin, length)
 	}
-	piece := s.Torrent.pieces[index]
-	piece.mu.RLock()
-	defer piece.mu.RUnlock()
 	if !piece.coalesced {
 		return nil, ErrIncompletePiece
 	}
-- 
2.43.0


From 8e0604e4491f4c2a8be52f46c9477f37b2b62ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 25/73] fix: storage: resetting a failed or complete piece no
 longer panics

---
 storage/torrent.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/storage/torrent.go b/storage/torrent.go
index 2a5bfa7..da15c73 100644
--- a/storage/torrent.go
+++ b/storage/torrent.go
@@ -102,7 +102,14 @@ func (p *Piece) Wait() error {
 }
 
 func (p *Piece) reset() {
-	p.err.Deliver(errors.New("storage: piece reset"))
+	if p.coalesced {
+		return
+	}
+	select {
+	case <-p.err.Done: // failed piece, already delivered
+	default:
+		p.err.Deliver(errors.New("storage: piece reset"))
+	}
 	p.err = future.New[error]()
 	p.blocks = nil
 	p.completeBlocks = 0
-- 
2.43.0


From c2d333020f9d374c798f4905c74cb44269b3744a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 26/73] fix: storage: count the bytes of completed pieces as
 downloaded, not those of failed ones

---
 storage/storage.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 485a86d..c4193ff 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -38,7 +38,8 @@ func New(targetDir, workDir string, info *metainfo.Info) *Storage {
 }
 
 func (s *Storage) Load() error {
-	st, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
+	s.downloaded.Store(0)
+	_, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
 	if err != nil && !errors.Is(err, os.ErrNotExist) {
 		return err
 	}
@@ -46,9 +47,9 @@ func (s *Storage) Load() error {
 		// Complete torrent exists on disk
 		for i := range len(s.Torrent.Info.Pieces) {
 			s.Torrent.completePiece(s.Torrent.pieces[i])
+			s.downloaded.Add(int64(s.Torrent.pieces[i].Length))
 		}
 		s.Torrent.complete()
-		s.downloaded.Add(st.Size())
 	} else {
 		// Check for complete pieces on disk
 		direntries, err := os.ReadDir(filepath.Join(s.WorkDir, s.Torrent.WorkDir()))
@@ -139,7 +140,6 @@ func (s *Storage) PutBlock(index, begin int, data []byte) error {
 	s.Torrent.mu.Lock()
 	defer s.Torrent.mu.Unlock()
 	if err := s.coalesceBlocks(piece); err != nil {
-		s.downloaded.Add(int64(piece.Length))
 		piece.err.Deliver(err)
 		return err
 	}
@@ -297,6 +297,7 @@ func (s *Storage) coalesceBlocks(piece *Piece) error {
 		return err
 	}
 	s.Torrent.completePiece(piece)
+	s.downloaded.Add(int64(piece.Length))
 	return nil
 }
 
-- 
2.43.0


From 6c1a883b4db07bb740dad6432f5934edbf69c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 27/73] fix: storage: loading a torrent again no longer panics

---
 storage/torrent.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/storage/torrent.go b/storage/torrent.go
index da15c73..f9141f2 100644
--- a/storage/torrent.go
+++ b/storage/torrent.go
@@ -50,6 +50,9 @@ func (t *Torrent) Wait() error {
 }
 
 func (t *Torrent) completePiece(piece *Piece) {
+	if piece.coalesced {
+		return
+	}
 	piece.coalesced = true
 	piece.err.Deliver(nil)
 	piece.blocks = nil
@@ -58,6 +61,9 @@ func (t *Torrent) completePiece(piece *Piece) {
 }
 
 func (t *Torrent) complete() {
+	if t.coalesced {
+		return
+	}
 	t.coalesced = true
 	t.err.Deliver(nil)
 }
-- 
2.43.0


From 234b6c7b7db43ac90c3b40ef816c8b84df19791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 28/73] fix: storage: load only the intact pieces of the work
 directory

---
 storage/storage.go | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index c4193ff..714a4e0 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -60,15 +60,22 @@ func (s *Storage) Load() error {
 			for _, dr := range direntries {
 				var i int
 				_, err := fmt.Sscanf(dr.Name(), "%d.piece", &i)
-				if err != nil {
+				if err != nil || checkPieceIndex(s.Torrent.Info, i) != nil {
 					continue
 				}
-				st, err := os.Stat(filepath.Join(s.WorkDir, s.Torrent.WorkDir(), dr.Name()))
-				if err != nil {
+				piece := s.Torrent.pieces[i]
+				if dr.Name() != piece.FileName() || !dr.Type().IsRegular() {
+					continue
+				}
+				if err := s.verifyPiece(piece); err != nil {
+					if cse := (*ChecksumError)(nil); errors.As(err, &cse) {
+						slog.Warn("Load", "name", s.Torrent.Info.Name, "piece", i, "err", err)
+						continue
+					}
 					return err
 				}
-				s.downloaded.Add(st.Size())
-				s.Torrent.completePiece(s.Torrent.pieces[i])
+				s.downloaded.Add(int64(piece.Length))
+				s.Torrent.completePiece(piece)
 			}
 			if err = s.coalescePieces(); err != nil {
 				return err
@@ -234,6 +241,26 @@ func (s *Storage) getBlockFromPiece(piece *Piece, begin, length int) ([]byte, er
 	return data[:n], nil
 }
 
+// verifyPiece checks the data of a piece in the work directory
+func (s *Storage) verifyPiece(piece *Piece) error {
+	f, err := os.Open(filepath.Join(s.WorkDir, s.Torrent.WorkDir(), piece.FileName()))
+	if err != nil {
+		return err
+	}
+	defer f.Close()
+	sha1Digest := sha1.New()
+	// Any excess data changes the hash
+	if _, err := io.Copy(sha1Digest, io.LimitReader(f, int64(piece.Length)+1)); err != nil {
+		return err
+	}
+	var hash [20]byte
+	sha1Digest.Sum(hash[:0])
+	if hash != piece.SHA1 {
+		return &ChecksumError{piece.Index, hash, piece.SHA1}
+	}
+	return nil
+}
+
 func checkPieceIndex(info *metainfo.Info, index int) error {
 	if index < 0 || index >= len(info.Pieces) {
 		return fmt.Errorf("storage: piece index out of range: %d", index)
-- 
2.43.0


From 13e038bdc2b77d4cbc09116c9b2b0964a1b86ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 29/73] fix: storage: refuse to load a complete torrent whose
 data does not match

---
 storage/storage.go | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 714a4e0..bf0a276 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -45,6 +45,9 @@ func (s *Storage) Load() error {
 	}
 	if err == nil {
 		// Complete torrent exists on disk
+		if err := s.verifyTorrent(); err != nil {
+			return err
+		}
 		for i := range len(s.Torrent.Info.Pieces) {
 			s.Torrent.completePiece(s.Torrent.pieces[i])
 			s.downloaded.Add(int64(s.Torrent.pieces[i].Length))
@@ -261,6 +264,41 @@ func (s *Storage) verifyPiece(piece *Piece) error {
 	return nil
 }
 
+// verifyTorrent checks the data of a complete torrent in the target directory
+func (s *Storage) verifyTorrent() error {
+	target := filepath.Join(s.TargetDir, s.Torrent.FileName())
+	checkFile := func(path string, length int64) error {
+		st, err := os.Stat(path)
+		if err != nil {
+			return err
+		}
+		if !st.Mode().IsRegular() || st.Size() != length {
+			return fmt.Errorf("storage: not a file of the torrent: %s", path)
+		}
+		return nil
+	}
+	if len(s.Torrent.Info.Files) == 0 {
+		if err := checkFile(target, s.Torrent.Info.Length); err != nil {
+			return err
+		}
+	}
+	for _, file := range s.Torrent.Info.Files {
+		if err := checkFile(filepath.Join(append([]string{target}, file.Path...)...), file.Length); err != nil {
+			return err
+		}
+	}
+	for _, piece := range s.Torrent.pieces {
+		data, err := s.getBlockFromTorrent(piece.Index, 0, piece.Length)
+		if err != nil {
+			return err
+		}
+		if hash := [20]byte(sha1.Sum(data)); hash != piece.SHA1 {
+			return &ChecksumError{piece.Index, hash, piece.SHA1}
+		}
+	}
+	return nil
+}
+
 func checkPieceIndex(info *metainfo.Info, index int) error {
 	if index < 0 || index >= len(info.Pieces) {
 		return fmt.Errorf("storage: piece index out of range: %d", index)
-- 
2.43.0


From 17c2949d9b45351dc4bbff17fda6c2991f2d6741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 30/73] fix: storage: refuse metainfo whose paths leave the
 target directory or whose lengths do not add up

---
 storage/storage.go | 47 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index bf0a276..3e123e5 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -38,6 +38,9 @@ func New(targetDir, workDir string, info *metainfo.Info) *Storage {
 }
 
 func (s *Storage) Load() error {
+	if err := checkInfo(s.Torrent.Info); err != nil {
+		return err
+	}
 	s.downloaded.Store(0)
 	_, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
 	if err != nil && !errors.Is(err, os.ErrNotExist) {
@@ -299,6 +302,47 @@ func (s *Storage) verifyTorrent() error {
 	return nil
 }
 
+// checkInfo refuses names that do not stay within the target directory, and
+// lengths that do not add up
+func checkInfo(info *metainfo.Info) error {
+	if !isFileName(info.Name) {
+		return fmt.Errorf("storage: bad torrent name: %q", info.Name)
+	}
+	for _, file := range info.Files {
+		if len(file.Path) == 0 {
+			return errors.New("storage: empty file path")
+		}
+		for _, name := range file.Path {
+			if !isFileName(name) {
+				return fmt.Errorf("storage: bad file path: %q", file.Path)
+			}
+		}
+	}
+	if info.Length < 0 || info.PieceLength <= 0 {
+		return fmt.Errorf("storage: bad length=%d or piece length=%d", info.Length, info.PieceLength)
+	}
+	var total int64
+	for _, file := range info.Files {
+		if total += file.Length; file.Length < 0 || total < 0 {
+			return fmt.Errorf("storage: bad file length: %d", file.Length)
+		}
+	}
+	total = info.GetLength()
+	numPieces := total / int64(info.PieceLength)
+	if total%int64(info.PieceLength) != 0 {
+		numPieces++
+	}
+	if numPieces != int64(len(info.Pieces)) {
+		return fmt.Errorf("storage: length=%d does not match pieces=%d of length=%d", total, len(info.Pieces), info.PieceLength)
+	}
+	return nil
+}
+
+// isFileName reports whether a name is that of an entry of a directory
+func isFileName(name string) bool {
+	return filepath.IsLocal(name) && name != "." && filepath.Base(name) == name
+}
+
 func checkPieceIndex(info *metainfo.Info, index int) error {
 	if index < 0 || index >= len(info.Pieces) {
 		return fmt.Errorf("storage: piece index out of range: %d", index)
@@ -371,6 +415,9 @@ func (s *Storage) coalescePieces() error {
 		return nil
 	}
 	slog.Debug("coalescePieces", "name", s.Torrent.Info.Name)
+	if err := checkInfo(s.Torrent.Info); err != nil {
+		return err
+	}
 	if len(s.Torrent.Info.Files) > 0 {
 		return s.coalescePiecesForMultiFile()
 	}
-- 
2.43.0


From 0d0ec13853cdc0684dafccb471cfe583e886337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 31/73] fix: storage: refuse metainfo with two files of the
 same path

---
 storage/storage.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 3e123e5..1ce4989 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -308,6 +308,7 @@ func checkInfo(info *metainfo.Info) error {
 	if !isFileName(info.Name) {
 		return fmt.Errorf("storage: bad torrent name: %q", info.Name)
 	}
+	paths := make(map[string]struct{}, len(info.Files))
 	for _, file := range info.Files {
 		if len(file.Path) == 0 {
 			return errors.New("storage: empty file path")
@@ -317,6 +318,11 @@ func checkInfo(info *metainfo.Info) error {
 				return fmt.Errorf("storage: bad file path: %q", file.Path)
 			}
 		}
+		path := filepath.Join(file.Path...)
+		if _, ok := paths[path]; ok {
+			return fmt.Errorf("storage: duplicate file path: %q", file.Path)
+		}
+		paths[path] = struct{}{}
 	}
 	if info.Length < 0 || info.PieceLength <= 0 {
 		return fmt.Errorf("storage: bad length=%d or piece length=%d", info.Length, info.PieceLength)
-- 
2.43.0


From 52d080812e7a01336019b56a4b988ba337a76bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 32/73] fix: storage: name temporary files after the info hash
 so that long torrent names fit

---
 storage/storage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 1ce4989..5b96a04 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -435,7 +435,7 @@ func (s *Storage) coalescePiecesForSingleFile() error {
 	if err := os.MkdirAll(tempDir, 0o0700); err != nil {
 		return err
 	}
-	temp, err := os.CreateTemp(tempDir, s.Torrent.FileName())
+	temp, err := os.CreateTemp(tempDir, s.Torrent.WorkDir())
 	if err != nil {
 		return err
 	}
@@ -465,7 +465,7 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 	if err := os.MkdirAll(tempDir, 0o0700); err != nil {
 		return err
 	}
-	temp, err := os.MkdirTemp(tempDir, s.Torrent.FileName())
+	temp, err := os.MkdirTemp(tempDir, s.Torrent.WorkDir())
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 0da192b94f311afff1c34b01b7369cdb79aa8d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 33/73] fix: storage: a torrent is complete once its files are
 in place, even if cleaning up fails

---
 storage/storage.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 5b96a04..7eee1cd 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -453,11 +453,8 @@ func (s *Storage) coalescePiecesForSingleFile() error {
 	if err = os.Rename(temp.Name(), filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
 		return err
 	}
-	if err := os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir())); err != nil {
-		return err
-	}
 	s.Torrent.complete()
-	return nil
+	return os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir()))
 }
 
 func (s *Storage) coalescePiecesForMultiFile() error {
@@ -493,9 +490,6 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 	if err = os.Rename(temp, filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
 		return err
 	}
-	if err := os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir())); err != nil {
-		return err
-	}
 	s.Torrent.complete()
-	return nil
+	return os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir()))
 }
-- 
2.43.0


From ab11f3b11bed986c4afdbb1ebe32ca3f9d7ebe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 34/73] fix: p2p: read the torrent's bitfield under its lock

---
 p2p/peer.go        |  2 +-
 p2p/server.go      |  4 ++--
 storage/torrent.go | 15 +++++++++++++++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 672f31f..107fd35 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -225,7 +225,7 @@ func (peer *Peer) HandleMessage(m *peerapi.Message) error {
 func (peer *Peer) HandleHave(i int) error {
 	peer.Bitfield.Add(i)
 	peer.server.RecordIndex(i, peer)
-	if !peer.server.Storage.Torrent.Bitfield.Has(i) {
+	if !peer.server.Storage.Torrent.HasPiece(i) {
 		peer.server.QueuePeer(peer)
 		return peer.Interest()
 	}
diff --git a/p2p/server.go b/p2p/server.go
index d71d7b7..e172f92 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -298,7 +298,7 @@ func (p2p *Server) Connect(peer *Peer) error {
 		return ErrAlreadyConnected
 	}
 	p2p.activePeers[peer.IDIP()] = peer
-	bf := p2p.Storage.Torrent.Bitfield
+	bf := p2p.Storage.Torrent.CompletePieces()
 	if err := peer.Send(peerapi.Bitfield(bf)); err != nil {
 		return err
 	}
@@ -380,7 +380,7 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		delete(p2p.queuedPeers, peer)
 		return nil
 	}
-	bf := p2p.Storage.Torrent.Bitfield
+	bf := p2p.Storage.Torrent.CompletePieces()
 	pieceBf := peer.Bitfield.Difference(bf)
 	pieces := pieceBf.Items()
 	if len(pieces) == 0 {
diff --git a/storage/torrent.go b/storage/torrent.go
index f9141f2..3d56514 100644
--- a/storage/torrent.go
+++ b/storage/torrent.go
@@ -3,6 +3,7 @@ package storage
 import (
 	"errors"
 	"fmt"
+	"slices"
 	"sync"
 
 	"github.com/browles/drip/api/metainfo"
@@ -42,6 +43,20 @@ func (t *Torrent) FileName() string {
 	return t.Info.Name
 }
 
+// HasPiece reports whether a piece is complete
+func (t *Torrent) HasPiece(index int) bool {
+	t.mu.RLock()
+	defer t.mu.RUnlock()
+	return t.Bitfield.Has(index)
+}
+
+// CompletePieces returns a copy of the bitfield, safe for concurrent use
+func (t *Torrent) CompletePieces() bitfield.Bitfield {
+	t.mu.RLock()
+	defer t.mu.RUnlock()
+	return slices.Clone(t.Bitfield)
+}
+
 func (t *Torrent) Wait() error {
 	t.mu.Lock()
 	fut := t.err
-- 
2.43.0


From 8b4956e368cb69e5f60e27aded9905cb5b83b057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 35/73] fix: p2p: release the server lock when Connect refuses
 a peer

---
 p2p/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index e172f92..0573229 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -270,10 +270,12 @@ func (p2p *Server) AddPeer(tp *tracker.Peer) error {
 func (p2p *Server) Connect(peer *Peer) error {
 	p2p.mu.Lock()
 	if len(p2p.activePeers) >= 50 {
+		p2p.mu.Unlock()
 		return ErrTooManyConnections
 	}
 	if idip, ok := p2p.knownIDIPs[peer.Addr()]; ok {
 		if _, ok := p2p.activePeers[idip]; ok {
+			p2p.mu.Unlock()
 			return ErrAlreadyConnected
 		}
 	}
-- 
2.43.0


From bc680a6c1b4c4bd862b8661ccbdcca7f8011c90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 36/73] fix: p2p: close the connection of a peer that is
 refused

---
 p2p/peer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 107fd35..7fe624e 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -163,6 +163,7 @@ func (p *Peer) NotInterest() error {
 }
 
 func (peer *Peer) serve(ctx context.Context) {
+	defer peer.Close()
 	if err := peer.server.Connect(peer); err != nil {
 		if !errors.Is(err, ErrAlreadyConnected) {
 			slog.Error("serve.Connect", "err", err)
-- 
2.43.0


From 39ff2f8a20b591a334fbd5c1d2b9a7fc81e88787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 37/73] fix: p2p: close the connection of a peer that does not
 read what it is sent

---
 p2p/peer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 7fe624e..2ce6057 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -96,6 +96,12 @@ func (p *Peer) Addr() addr {
 func (p *Peer) Send(m *peerapi.Message) error {
 	p.mu.Lock()
 	defer p.mu.Unlock()
+	return p.send(m)
+}
+
+// send writes a message. It closes the connection when it fails, as the message
+// may have been written in part. The caller holds p.mu.
+func (p *Peer) send(m *peerapi.Message) error {
 	if m.Type == peerapi.REQUEST {
 		if p.RemoteChoked.Load() {
 			return ErrChoked
@@ -103,7 +109,12 @@ func (p *Peer) Send(m *peerapi.Message) error {
 		p.SetReadDeadline(time.Now().Add(2 * time.Minute))
 	}
 	slog.Debug("Send", "peer", p.IDIP(), "message", m)
-	return peerapi.Write(p.Conn, m)
+	p.SetWriteDeadline(time.Now().Add(30 * time.Second))
+	if err := peerapi.Write(p.Conn, m); err != nil {
+		p.Close()
+		return err
+	}
+	return nil
 }
 
 func (p *Peer) Receive() (m *peerapi.Message, err error) {
-- 
2.43.0


From ad2793c8eac0d4a54685fd9c9c82596abbb0ef26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 38/73] fix: p2p: forget a peer whose bitfield cannot be sent,
 and send it without holding the server lock

---
 p2p/server.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 0573229..46aca7d 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -284,10 +284,26 @@ func (p2p *Server) Connect(peer *Peer) error {
 	if err := peer.Handshake(); err != nil {
 		return err
 	}
+	// The bitfield goes first, but is sent without holding up the server
+	peer.mu.Lock()
+	defer peer.mu.Unlock()
+	bf, err := p2p.register(peer)
+	if err != nil {
+		return err
+	}
+	if err := peer.send(peerapi.Bitfield(bf)); err != nil {
+		return errors.Join(err, p2p.Disconnect(peer))
+	}
+	return nil
+}
+
+// register adds a peer to the active peers, and returns the pieces to announce to
+// it: those completed later are announced to all active peers.
+func (p2p *Server) register(peer *Peer) (bitfield.Bitfield, error) {
 	p2p.mu.Lock()
 	defer p2p.mu.Unlock()
 	if len(p2p.activePeers) >= 50 {
-		return ErrTooManyConnections
+		return nil, ErrTooManyConnections
 	}
 	addrs, ok := p2p.knownAddrs[peer.IDIP()]
 	if !ok {
@@ -297,14 +313,10 @@ func (p2p *Server) Connect(peer *Peer) error {
 	addrs[peer.Addr()] = struct{}{}
 	p2p.knownIDIPs[peer.Addr()] = peer.IDIP()
 	if _, ok := p2p.activePeers[peer.IDIP()]; ok {
-		return ErrAlreadyConnected
+		return nil, ErrAlreadyConnected
 	}
 	p2p.activePeers[peer.IDIP()] = peer
-	bf := p2p.Storage.Torrent.CompletePieces()
-	if err := peer.Send(peerapi.Bitfield(bf)); err != nil {
-		return err
-	}
-	return nil
+	return p2p.Storage.Torrent.CompletePieces(), nil
 }
 
 func (p2p *Server) Disconnect(peer *Peer) error {
-- 
2.43.0


From ad55060f623627a44ef41045dcf8f83ed6e75c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 39/73] fix: p2p: drop a peer that announces a piece out of
 range instead of panicking

---
 p2p/peer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 2ce6057..8f7ae0f 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -235,6 +235,9 @@ func (peer *Peer) HandleMessage(m *peerapi.Message) error {
 }
 
 func (peer *Peer) HandleHave(i int) error {
+	if i < 0 || i >= len(peer.server.Info.Pieces) {
+		return fmt.Errorf("p2p: piece index out of range: %d", i)
+	}
 	peer.Bitfield.Add(i)
 	peer.server.RecordIndex(i, peer)
 	if !peer.server.Storage.Torrent.HasPiece(i) {
-- 
2.43.0


From a5ce8937e9475f8d33784060084a59325fe7afa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 40/73] fix: p2p: update a peer's bitfield under the server
 lock

---
 p2p/peer.go   | 1 -
 p2p/server.go | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 8f7ae0f..83b79c8 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -238,7 +238,6 @@ func (peer *Peer) HandleHave(i int) error {
 	if i < 0 || i >= len(peer.server.Info.Pieces) {
 		return fmt.Errorf("p2p: piece index out of range: %d", i)
 	}
-	peer.Bitfield.Add(i)
 	peer.server.RecordIndex(i, peer)
 	if !peer.server.Storage.Torrent.HasPiece(i) {
 		peer.server.QueuePeer(peer)
diff --git a/p2p/server.go b/p2p/server.go
index 46aca7d..0f22a84 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -344,6 +344,7 @@ func (p2p *Server) RecordIndex(i int, peer *Peer) {
 		m = make(map[*Peer]struct{})
 		p2p.indexToPeers[i] = m
 	}
+	peer.Bitfield.Add(i) // read under p2p.mu
 	m[peer] = struct{}{}
 }
 
-- 
2.43.0


From 99343f4b310491642458cb06f6f8619ee9d213aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 41/73] fix: p2p: stop once, without holding the server lock
 while talking to the tracker

---
 p2p/server.go | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 0f22a84..ddee5fa 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -33,7 +33,7 @@ type Server struct {
 	newPeerQueue  chan *tracker.Peer
 	downloadQueue chan *Peer
 	tcp           net.Listener
-	cancel        context.CancelFunc
+	stop          func() error
 	uploaded      atomic.Int64
 	downloaded    atomic.Int64
 
@@ -87,20 +87,23 @@ func (p2p *Server) Start() error {
 	if err != nil {
 		return err
 	}
-	p2p.tcp, err = net.Listen("tcp", fmt.Sprintf(":%d", p2p.Port))
+	tcp, err := net.Listen("tcp", fmt.Sprintf(":%d", p2p.Port))
 	if err != nil {
 		return err
 	}
 	slog.Info("Start", "network", "tcp", "port", p2p.Port)
 	ctx, cancel := context.WithCancel(context.Background())
-	p2p.cancel = cancel
 	defer cancel()
+	p2p.mu.Lock()
+	p2p.tcp = tcp
+	p2p.stop = sync.OnceValue(func() error { return p2p.shutdown(cancel, tcp) })
+	p2p.mu.Unlock()
 	eg, ctx := errgroup.WithContext(ctx)
 	go func() {
 		<-ctx.Done()
 		p2p.Stop()
 	}()
-	eg.Go(func() error { return p2p.Serve(ctx) })
+	eg.Go(func() error { return p2p.serve(ctx, tcp) })
 	eg.Go(func() error { return p2p.RequestPieces(ctx) })
 	eg.Go(func() error { return p2p.DialPeers(ctx) })
 	eg.Go(func() error { return p2p.every(ctx, p2p.UnchokePeers, 10*time.Second) })
@@ -123,29 +126,42 @@ func (p2p *Server) Start() error {
 
 func (p2p *Server) Stop() error {
 	p2p.mu.Lock()
-	defer p2p.mu.Unlock()
-	if p2p.cancel == nil {
+	stop := p2p.stop
+	p2p.mu.Unlock()
+	if stop == nil {
 		return errors.New("p2p: server not started")
 	}
-	p2p.cancel()
-	p2p.tcp.Close()
+	return stop()
+}
+
+func (p2p *Server) shutdown(cancel context.CancelFunc, tcp net.Listener) error {
+	cancel()
+	tcp.Close()
 	var errs []error
-	_, err := p2p.Tracker.Stop()
-	errs = append(errs, err)
+	p2p.mu.Lock()
 	for _, p := range p2p.activePeers {
 		errs = append(errs, p2p.disconnect(p))
 	}
-	return errors.Join(errs...)
+	p2p.mu.Unlock()
+	_, err := p2p.Tracker.Stop()
+	return errors.Join(append(errs, err)...)
 }
 
 func (p2p *Server) Serve(ctx context.Context) error {
+	p2p.mu.Lock()
+	tcp := p2p.tcp
+	p2p.mu.Unlock()
+	return p2p.serve(ctx, tcp)
+}
+
+func (p2p *Server) serve(ctx context.Context, tcp net.Listener) error {
 	for {
 		select {
 		case <-ctx.Done():
 			return ctx.Err()
 		default:
 		}
-		conn, err := p2p.tcp.Accept()
+		conn, err := tcp.Accept()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From b061433de7673550c5a3449b69a8cc3ed97c62e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 42/73] fix: p2p: do not wait for the download queue while
 holding the server lock or after shutdown

---
 p2p/server.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index ddee5fa..5765f2d 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -32,6 +32,7 @@ type Server struct {
 	peerSemaphore chan struct{}
 	newPeerQueue  chan *tracker.Peer
 	downloadQueue chan *Peer
+	ctx           context.Context
 	tcp           net.Listener
 	stop          func() error
 	uploaded      atomic.Int64
@@ -68,6 +69,7 @@ func New(mi *metainfo.Metainfo, peerID [20]byte, storage *storage.Storage, port
 		peerSemaphore: make(chan struct{}, 50),
 		newPeerQueue:  make(chan *tracker.Peer, 50),
 		downloadQueue: make(chan *Peer),
+		ctx:           context.Background(),
 
 		knownPeers:   make(map[addr]*tracker.Peer),
 		knownAddrs:   make(map[idip]map[addr]struct{}),
@@ -95,6 +97,7 @@ func (p2p *Server) Start() error {
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
 	p2p.mu.Lock()
+	p2p.ctx = ctx
 	p2p.tcp = tcp
 	p2p.stop = sync.OnceValue(func() error { return p2p.shutdown(cancel, tcp) })
 	p2p.mu.Unlock()
@@ -439,7 +442,7 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 					}
 				}
 			}
-			p2p.downloadQueue <- peer
+			p2p.enqueue(ctx, peer)
 		}()
 		return nil
 	}
@@ -448,7 +451,7 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		case <-ctx.Done():
 			return
 		case <-time.After(5 * time.Second):
-			p2p.downloadQueue <- peer
+			p2p.enqueue(ctx, peer)
 		}
 	}()
 	return nil
@@ -481,10 +484,17 @@ func (p2p *Server) queuePeer(peer *Peer) bool {
 		return false
 	}
 	p2p.queuedPeers[peer] = struct{}{}
-	p2p.downloadQueue <- peer
+	go p2p.enqueue(p2p.ctx, peer)
 	return true
 }
 
+func (p2p *Server) enqueue(ctx context.Context, peer *Peer) {
+	select {
+	case <-ctx.Done():
+	case p2p.downloadQueue <- peer:
+	}
+}
+
 func (p2p *Server) disconnect(peer *Peer) error {
 	for _, i := range peer.Bitfield.Items() {
 		delete(p2p.indexToPeers[i], peer)
-- 
2.43.0


From 27e362f3d72f8a27e6ca7ff312fd07d986bef53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 43/73] fix: p2p: guard the inflight pieces with the server
 lock

---
 p2p/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 5765f2d..61d04eb 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -433,8 +433,11 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		}
 		p2p.inflight[index] = peer
 		go func() {
-			defer delete(p2p.inflight, index)
-			if err := p2p.requestPiece(ctx, peer, index); err != nil {
+			err := p2p.requestPiece(ctx, peer, index)
+			p2p.mu.Lock()
+			delete(p2p.inflight, index)
+			p2p.mu.Unlock()
+			if err != nil {
 				slog.Error("requestPieceFromPeer.requestPiece", "err", err)
 				if _, ok := err.(*storage.ChecksumError); ok {
 					if err := p2p.Block(peer); err != nil {
-- 
2.43.0


From 2056b2d60832b86849f60b7a1be84f53af6b5953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 44/73] fix: p2p: disconnecting a peer twice no longer forgets
 its new connection, and blocks its address

---
 p2p/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index 61d04eb..f9cada9 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -349,6 +349,7 @@ func (p2p *Server) Block(peer *Peer) error {
 	p2p.mu.Lock()
 	defer p2p.mu.Unlock()
 	slog.Debug("Block", "peer", peer.Addr())
+	p2p.blockedPeers[peer.Addr()] = struct{}{}
 	for addr := range p2p.knownAddrs[peer.IDIP()] {
 		p2p.blockedPeers[addr] = struct{}{}
 	}
@@ -502,6 +503,9 @@ func (p2p *Server) disconnect(peer *Peer) error {
 	for _, i := range peer.Bitfield.Items() {
 		delete(p2p.indexToPeers[i], peer)
 	}
+	if p2p.activePeers[peer.IDIP()] != peer {
+		return peer.Close() // already disconnected, and perhaps connected anew
+	}
 	for addr := range p2p.knownAddrs[peer.IDIP()] {
 		if idip, ok := p2p.knownIDIPs[addr]; ok && idip == peer.IDIP() {
 			delete(p2p.knownIDIPs, addr)
-- 
2.43.0


From 773424ec238ea1d459590eac3c22a7268eadbf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 45/73] fix: p2p: ignore blocks that were not requested from
 the peer

---
 p2p/peer.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 83b79c8..7d93fc4 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -125,12 +125,8 @@ func (p *Peer) Receive() (m *peerapi.Message, err error) {
 	}
 	slog.Debug("Receive", "peer", p.IDIP(), "message", m)
 	switch m.Type {
-	case peerapi.PIECE:
-		p.mu.Lock()
-		br := blockRequest{m.Index(), m.Begin(), len(m.Piece())}
-		p.completeRequest(&br, nil)
-		p.mu.Unlock()
 	case peerapi.CHOKE:
+		p.RemoteChoked.Store(true) // before failing requests, so that none is sent after
 		p.mu.Lock()
 		for br := range p.inflightRequests {
 			p.completeRequest(&br, ErrChoked)
@@ -279,15 +275,26 @@ func (peer *Peer) HandleCancel(index, begin, length int) {
 }
 
 func (peer *Peer) HandlePiece(index, begin int, data []byte) error {
-	err := peer.server.Storage.PutBlock(index, begin, data)
-	if err != nil && !errors.Is(err, storage.ErrBlockExists) {
-		return err
+	br := blockRequest{index, begin, len(data)}
+	peer.mu.Lock()
+	_, ok := peer.inflightRequests[br]
+	peer.mu.Unlock()
+	if !ok {
+		// Not requested, or too late: it could be part of a piece requested
+		// from another peer
+		return nil
 	}
-	if err == nil {
+	err := peer.server.Storage.PutBlock(index, begin, data)
+	if errors.Is(err, storage.ErrBlockExists) {
+		err = nil
+	} else if err == nil {
 		peer.downloaded.Add(int64(len(data)))
 		peer.server.downloaded.Add(int64(len(data)))
 	}
-	return nil
+	peer.mu.Lock()
+	peer.completeRequest(&br, err)
+	peer.mu.Unlock()
+	return err
 }
 
 func (peer *Peer) requestPiece(ctx context.Context, index int) (err error) {
-- 
2.43.0


From 903445e4a94a7d3fb91dd41599ff92b8ed134485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 46/73] fix: p2p: a CANCEL no longer makes the next request of
 the same block go unanswered

---
 p2p/peer.go   | 19 ++++---------------
 p2p/server.go |  1 -
 2 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 7d93fc4..e82c2db 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -34,7 +34,6 @@ type Peer struct {
 	mu sync.Mutex
 	net.Conn
 	inflightRequests map[blockRequest]*future.Future[error]
-	canceledRequests map[blockRequest]struct{}
 }
 
 type blockRequest struct {
@@ -246,19 +245,11 @@ func (peer *Peer) HandleRequest(index, begin, length int) error {
 	if peer.Choked.Load() {
 		return ErrChoked
 	}
-	req := blockRequest{index, begin, length}
-	peer.mu.Lock()
-	if _, ok := peer.canceledRequests[req]; ok {
-		delete(peer.canceledRequests, req)
-		peer.mu.Unlock()
-		return nil
-	}
-	peer.mu.Unlock()
-	data, err := peer.server.Storage.GetBlock(req.index, req.begin, req.length)
+	data, err := peer.server.Storage.GetBlock(index, begin, length)
 	if err != nil {
 		return err
 	}
-	err = peer.Send(peerapi.Piece(req.index, req.begin, data))
+	err = peer.Send(peerapi.Piece(index, begin, data))
 	if err != nil {
 		return err
 	}
@@ -267,11 +258,9 @@ func (peer *Peer) HandleRequest(index, begin, length int) error {
 	return nil
 }
 
+// HandleCancel has nothing to do: requests are answered in order, so that the one
+// canceled has been answered, and a later one is not to be canceled.
 func (peer *Peer) HandleCancel(index, begin, length int) {
-	peer.mu.Lock()
-	defer peer.mu.Unlock()
-	k := blockRequest{index, begin, length}
-	peer.canceledRequests[k] = struct{}{}
 }
 
 func (peer *Peer) HandlePiece(index, begin int, data []byte) error {
diff --git a/p2p/server.go b/p2p/server.go
index f9cada9..0aa14ef 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -522,7 +522,6 @@ func (p2p *Server) newPeer(conn net.Conn) *Peer {
 		server:           p2p,
 		Conn:             conn,
 		inflightRequests: make(map[blockRequest]*future.Future[error]),
-		canceledRequests: make(map[blockRequest]struct{}),
 	}
 	peer.RemoteChoked.Store(true)
 	peer.Choked.Store(true)
-- 
2.43.0


From 2a66071ba3ed1466d9dbc5b4c59075ec8669a4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 47/73] fix: p2p: announce a piece to the other peers even if
 one cannot be told

---
 p2p/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/server.go b/p2p/server.go
index 0aa14ef..19539c1 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -474,7 +474,7 @@ func (p2p *Server) requestPiece(ctx context.Context, p *Peer, i int) error {
 		}
 		err := p.Send(peerapi.Have(i))
 		if err != nil {
-			return err
+			slog.Error("requestPiece.Send", "err", err)
 		}
 	}
 	return nil
-- 
2.43.0


From 351b504b9b3990a388dc2d486eb7e6b8c338d14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 48/73] fix: p2p: request the rarest pieces first

---
 p2p/server.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 19539c1..ed43e37 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -422,11 +422,11 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		delete(p2p.queuedPeers, peer)
 		return peer.NotInterest()
 	}
-	sort.Slice(pieces, func(i, j int) bool {
-		if len(p2p.indexToPeers[i]) == len(p2p.indexToPeers[j]) {
-			return rand.Float64() < 0.5
-		}
-		return len(p2p.indexToPeers[i]) < len(p2p.indexToPeers[j])
+	rand.Shuffle(len(pieces), func(i, j int) {
+		pieces[i], pieces[j] = pieces[j], pieces[i]
+	})
+	sort.SliceStable(pieces, func(i, j int) bool {
+		return len(p2p.indexToPeers[pieces[i]]) < len(p2p.indexToPeers[pieces[j]])
 	})
 	for _, index := range pieces {
 		if p2p.inflight[index] != nil {
-- 
2.43.0


From 76491bf4bec86c4cbf5423474cfd4baf8b6e878d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 49/73] fix: p2p: send interest without holding the server
 lock, in the order it changes

---
 p2p/peer.go   | 30 ++++++++++++++----------------
 p2p/server.go | 25 ++++++++++++++++++++-----
 2 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index e82c2db..8c7c632 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -136,36 +136,34 @@ func (p *Peer) Receive() (m *peerapi.Message, err error) {
 	return m, nil
 }
 
+// sendState changes a state and tells the peer, in the same order
+func (p *Peer) sendState(state *atomic.Bool, value bool, m *peerapi.Message) error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	if !state.CompareAndSwap(!value, value) {
+		return nil
+	}
+	return p.send(m)
+}
+
 func (p *Peer) Keepalive() error {
 	return p.Send(peerapi.Keepalive())
 }
 
 func (p *Peer) Choke() error {
-	if p.Choked.CompareAndSwap(false, true) {
-		return p.Send(peerapi.Choke())
-	}
-	return nil
+	return p.sendState(&p.Choked, true, peerapi.Choke())
 }
 
 func (p *Peer) Unchoke() error {
-	if p.Choked.CompareAndSwap(true, false) {
-		return p.Send(peerapi.Unchoke())
-	}
-	return nil
+	return p.sendState(&p.Choked, false, peerapi.Unchoke())
 }
 
 func (p *Peer) Interest() error {
-	if p.Interested.CompareAndSwap(false, true) {
-		return p.Send(peerapi.Interested())
-	}
-	return nil
+	return p.sendState(&p.Interested, true, peerapi.Interested())
 }
 
 func (p *Peer) NotInterest() error {
-	if p.Interested.CompareAndSwap(true, false) {
-		return p.Send(peerapi.NotInterested())
-	}
-	return nil
+	return p.sendState(&p.Interested, false, peerapi.NotInterested())
 }
 
 func (peer *Peer) serve(ctx context.Context) {
diff --git a/p2p/server.go b/p2p/server.go
index ed43e37..0e8d9eb 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -410,18 +410,28 @@ func (p2p *Server) dialPeer(ctx context.Context, tp *tracker.Peer) error {
 
 func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 	p2p.mu.Lock()
-	defer p2p.mu.Unlock()
 	if peer.Closed.Load() || peer.RemoteChoked.Load() {
 		delete(p2p.queuedPeers, peer)
+		p2p.mu.Unlock()
 		return nil
 	}
-	bf := p2p.Storage.Torrent.CompletePieces()
-	pieceBf := peer.Bitfield.Difference(bf)
-	pieces := pieceBf.Items()
+	pieces := p2p.missingPieces(peer)
 	if len(pieces) == 0 {
 		delete(p2p.queuedPeers, peer)
-		return peer.NotInterest()
+		p2p.mu.Unlock()
+		if err := peer.NotInterest(); err != nil {
+			return err
+		}
+		// It may have announced a piece meanwhile
+		p2p.mu.Lock()
+		pieces = p2p.missingPieces(peer)
+		p2p.mu.Unlock()
+		if len(pieces) > 0 {
+			return peer.Interest()
+		}
+		return nil
 	}
+	defer p2p.mu.Unlock()
 	rand.Shuffle(len(pieces), func(i, j int) {
 		pieces[i], pieces[j] = pieces[j], pieces[i]
 	})
@@ -461,6 +471,11 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 	return nil
 }
 
+// missingPieces returns the pieces of a peer that are missing here
+func (p2p *Server) missingPieces(peer *Peer) []int {
+	return peer.Bitfield.Difference(p2p.Storage.Torrent.CompletePieces()).Items()
+}
+
 func (p2p *Server) requestPiece(ctx context.Context, p *Peer, i int) error {
 	if err := p.requestPiece(ctx, i); err != nil {
 		return err
-- 
2.43.0


From eaa46ba21140899d3099cd772b5287fad0a0405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 50/73] fix: p2p: announce how much of a multi-file torrent is
 left

---
 p2p/multitracker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index f0adc4e..44d4675 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -109,7 +109,7 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 		Port:       mt.server.Port,
 		Uploaded:   mt.server.Uploaded(),
 		Downloaded: mt.server.Downloaded(),
-		Left:       mt.server.Info.Length - mt.server.Storage.Downloaded(),
+		Left:       mt.server.Info.GetLength() - mt.server.Storage.Downloaded(),
 		Event:      string(event),
 		Compact:    true,
 	}
-- 
2.43.0


From 0b37e6dea75321127b74fa13e20e06be01e02507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 51/73] fix: p2p: keep the query of an announce URL

---
 p2p/multitracker.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index 44d4675..fbca945 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -117,7 +117,10 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 	if err != nil {
 		return nil, err
 	}
-	url.RawQuery = req.Encode()
+	if url.RawQuery != "" {
+		url.RawQuery += "&"
+	}
+	url.RawQuery += req.Encode()
 	httpRes, err := http.Get(url.String())
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 281a36d2a29d02b5fec2798e367a8b11b91441d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 52/73] fix: p2p: give up on a tracker that does not answer,
 and close its responses

---
 p2p/multitracker.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index fbca945..4975c60 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -8,6 +8,7 @@ import (
 	"net/http"
 	"net/url"
 	"slices"
+	"time"
 
 	"github.com/browles/drip/api/metainfo"
 	trackerapi "github.com/browles/drip/api/tracker"
@@ -72,6 +73,8 @@ func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err erro
 	return
 }
 
+var httpClient = &http.Client{Timeout: 30 * time.Second}
+
 type Tracker struct {
 	URL    string
 	server *Server
@@ -121,10 +124,11 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 		url.RawQuery += "&"
 	}
 	url.RawQuery += req.Encode()
-	httpRes, err := http.Get(url.String())
+	httpRes, err := httpClient.Get(url.String())
 	if err != nil {
 		return nil, err
 	}
+	defer httpRes.Body.Close()
 	data, err := io.ReadAll(httpRes.Body)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From f2fab3c02254c3e0f1850789153e0a7c5c87dc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 53/73] fix: p2p: do not panic without trackers, or on a
 response without peers

---
 p2p/multitracker.go |  1 +
 p2p/server.go       | 20 +++++++++++---------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index 4975c60..ed3364d 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -59,6 +59,7 @@ func (mt *Multitracker) Announce() (*trackerapi.Response, error) {
 }
 
 func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err error) {
+	err = errors.New("p2p: no trackers")
 	for _, tier := range mt.TrackerTiers {
 		for j, tracker := range tier {
 			res, err = tracker.get(event)
diff --git a/p2p/server.go b/p2p/server.go
index 0e8d9eb..b637dbb 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -114,12 +114,7 @@ func (p2p *Server) Start() error {
 	if err != nil {
 		return err
 	}
-	for _, p := range res.Peers.List {
-		err := p2p.AddPeer(p)
-		if err != nil {
-			slog.Error("Start.AddPeer", "err", err)
-		}
-	}
+	p2p.addPeers(res)
 	eg.Go(func() error { return p2p.every(ctx, p2p.Announce, time.Duration(res.Interval)*time.Second) })
 	if err := p2p.UnchokePeers(ctx); err != nil {
 		return err
@@ -249,14 +244,21 @@ func (p2p *Server) Announce(ctx context.Context) error {
 	if err != nil {
 		return err
 	}
-	slog.Debug("Announce", "num_peers", len(res.Peers.List))
+	p2p.addPeers(res)
+	return nil
+}
+
+func (p2p *Server) addPeers(res *tracker.Response) {
+	if res.Peers == nil {
+		return
+	}
+	slog.Debug("addPeers", "num_peers", len(res.Peers.List))
 	for _, tp := range res.Peers.List {
 		err := p2p.AddPeer(tp)
 		if err != nil {
-			slog.Error("Announce.AddPeer", "err", err)
+			slog.Error("addPeers.AddPeer", "err", err)
 		}
 	}
-	return nil
 }
 
 func (p2p *Server) QueuePeer(peer *Peer) bool {
-- 
2.43.0


From 8f807d7e45ed39f5c94230032ef95f0db3fb735c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 54/73] fix: p2p: do not panic on a response with an unusable
 interval

---
 p2p/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/p2p/server.go b/p2p/server.go
index b637dbb..690e019 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -115,7 +115,11 @@ func (p2p *Server) Start() error {
 		return err
 	}
 	p2p.addPeers(res)
-	eg.Go(func() error { return p2p.every(ctx, p2p.Announce, time.Duration(res.Interval)*time.Second) })
+	interval := 30 * time.Minute
+	if 0 < res.Interval && res.Interval < 24*60*60 {
+		interval = time.Duration(res.Interval) * time.Second
+	}
+	eg.Go(func() error { return p2p.every(ctx, p2p.Announce, interval) })
 	if err := p2p.UnchokePeers(ctx); err != nil {
 		return err
 	}
-- 
2.43.0


From 7a151f383bb9d34da13e525f15f32a0a42f74493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 55/73] fix: p2p: keep running when an announce fails

---
 p2p/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/server.go b/p2p/server.go
index 690e019..62289b6 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -246,7 +246,9 @@ func (p2p *Server) UnchokePeers(ctx context.Context) error {
 func (p2p *Server) Announce(ctx context.Context) error {
 	res, err := p2p.Tracker.Announce()
 	if err != nil {
-		return err
+		// The tracker may be back by the next time
+		slog.Error("Announce", "err", err)
+		return nil
 	}
 	p2p.addPeers(res)
 	return nil
-- 
2.43.0


From b48ed13d295b804ea852bbb6d9f41cda947eb922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 56/73] fix: p2p: reorder a tier of trackers under a lock

---
 p2p/multitracker.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index ed3364d..5726c76 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -8,6 +8,7 @@ import (
 	"net/http"
 	"net/url"
 	"slices"
+	"sync"
 	"time"
 
 	"github.com/browles/drip/api/metainfo"
@@ -18,6 +19,8 @@ import (
 // https://www.bittorrent.org/beps/bep_0012.html
 type Multitracker struct {
 	TrackerTiers [][]*Tracker
+
+	mu sync.Mutex // guards the order of each tier
 }
 
 func NewMultitracker(mi *metainfo.Metainfo, s *Server) *Multitracker {
@@ -61,11 +64,17 @@ func (mt *Multitracker) Announce() (*trackerapi.Response, error) {
 func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err error) {
 	err = errors.New("p2p: no trackers")
 	for _, tier := range mt.TrackerTiers {
-		for j, tracker := range tier {
+		mt.mu.Lock()
+		trackers := slices.Clone(tier)
+		mt.mu.Unlock()
+		for _, tracker := range trackers {
 			res, err = tracker.get(event)
 			if err == nil {
+				mt.mu.Lock()
+				j := slices.Index(tier, tracker)
 				copy(tier[1:j+1], tier[0:j])
 				tier[0] = tracker
+				mt.mu.Unlock()
 				return
 			}
 			slog.Error("get", "err", err)
-- 
2.43.0


From 1fdc02f56edd08c7d7471d95740630a73a6bf9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 57/73] fix: p2p: dial IPv6 peers

---
 p2p/server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 62289b6..6853310 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -9,6 +9,7 @@ import (
 	"math/rand"
 	"net"
 	"sort"
+	"strconv"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -386,7 +387,7 @@ func (p2p *Server) Uploaded() int64 {
 
 func (p2p *Server) dialTCP(peer *tracker.Peer) (*Peer, error) {
 	slog.Debug("dialTCP", "ip", peer.IP, "port", peer.Port)
-	conn, err := net.Dial("tcp", fmt.Sprintf("%s:%d", peer.IP, peer.Port))
+	conn, err := net.Dial("tcp", net.JoinHostPort(peer.IP, strconv.Itoa(peer.Port)))
 	if err != nil {
 		return nil, err
 	}
@@ -571,5 +572,5 @@ func remoteAddr(tp *tracker.Peer) (addr, error) {
 	if ip == nil {
 		return "", errors.New("p2p: bad ip")
 	}
-	return addr(fmt.Sprintf("%s:%d", ip.String(), tp.Port)), nil
+	return addr(net.JoinHostPort(ip.String(), strconv.Itoa(tp.Port))), nil
 }
-- 
2.43.0


From c6bd7f691c6e1d7d289287156b0e57b197bb5b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 58/73] fix: p2p: give up dialing a peer that does not answer,
 or on shutdown

---
 p2p/server.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 6853310..469cfe5 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -385,9 +385,10 @@ func (p2p *Server) Uploaded() int64 {
 	return p2p.uploaded.Load()
 }
 
-func (p2p *Server) dialTCP(peer *tracker.Peer) (*Peer, error) {
+func (p2p *Server) dialTCP(ctx context.Context, peer *tracker.Peer) (*Peer, error) {
 	slog.Debug("dialTCP", "ip", peer.IP, "port", peer.Port)
-	conn, err := net.Dial("tcp", net.JoinHostPort(peer.IP, strconv.Itoa(peer.Port)))
+	dialer := &net.Dialer{Timeout: 10 * time.Second}
+	conn, err := dialer.DialContext(ctx, "tcp", net.JoinHostPort(peer.IP, strconv.Itoa(peer.Port)))
 	if err != nil {
 		return nil, err
 	}
@@ -407,7 +408,7 @@ func (p2p *Server) dialPeer(ctx context.Context, tp *tracker.Peer) error {
 		return nil
 	}
 	p2p.mu.Unlock()
-	peer, err := p2p.dialTCP(tp)
+	peer, err := p2p.dialTCP(ctx, tp)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 939d9cc13c2b950973151925f8b9f5646d9cda40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 59/73] fix: p2p: dial a peer again if the tracker still lists
 it after its connection ended

---
 p2p/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index 469cfe5..cd8defd 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -402,6 +402,12 @@ func (p2p *Server) dialPeer(ctx context.Context, tp *tracker.Peer) error {
 	if err != nil {
 		return err
 	}
+	defer func() {
+		// Have the tracker add it again once the connection ends
+		p2p.mu.Lock()
+		delete(p2p.knownPeers, addr)
+		p2p.mu.Unlock()
+	}()
 	p2p.mu.Lock()
 	if _, ok := p2p.blockedPeers[addr]; ok {
 		p2p.mu.Unlock()
-- 
2.43.0


From b0fbb3e1f08d94534dc8ed68017391e2e7ea1802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 60/73] fix: p2p: let other peers have the piece that a silent
 peer was asked for

---
 p2p/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index cd8defd..5280337 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -472,6 +472,13 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 					}
 				}
 			}
+			if errors.Is(err, context.DeadlineExceeded) {
+				// Leave the piece to a peer that answers
+				select {
+				case <-ctx.Done():
+				case <-time.After(10 * time.Second):
+				}
+			}
 			p2p.enqueue(ctx, peer)
 		}()
 		return nil
-- 
2.43.0


From d369d0f5c4797f3f147a22bdffcb736c2d1503bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:55 +0000
Subject: [PATCH 61/73] fix: bencode: a tagged field wins over untagged ones of
 the same depth in any order

---
 bencode/encode.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/bencode/encode.go b/bencode/encode.go
index 2a16444..68b1ca3 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -327,21 +327,19 @@ func getFieldsForStruct(v reflect.Value) *fieldInfo {
 					next = append(next, f)
 				} else {
 					if ef, ok := keyToField[key]; ok {
-						if len(ef.index) < len(f.index) || ef.ignored {
-							// Existing field has lower depth, or field is already ignored
-							// from a previous conflict, do not replace.
+						if len(ef.index) < len(f.index) {
+							// Existing field has lower depth, do not replace.
 							continue
 						}
-						if (f.tag != "" && f.tag == ef.tag) ||
-							(ef.tag == "" && f.name == ef.name) {
+						if (f.tag != "") == (ef.tag != "") {
 							// Existing field has the same tag, or neither fields have tags
 							// but share a name, ignore.
 							keyToField[key].ignored = true
 						} else if f.tag != "" && ef.tag == "" {
-							// New field has a tag while existing does not, replace.
+							// New field has a tag while existing does not, replace, even
+							// if existing was ignored from a conflict with its likes.
 							keyToField[key] = f
 						}
-
 					} else {
 						keyToField[key] = f
 					}
-- 
2.43.0


From 47833759bec02b4655af22163b33d66a8a98322b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:37 +0000
Subject: [PATCH 62/73] fix: api/tracker: refuse hashes and peer IDs of the
 wrong length instead of cutting or padding them

---
 api/tracker/tracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index 5d24d0e..3b06484 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -83,6 +83,9 @@ func (r *Request) Decode(rawQuery string) error {
 		}
 		switch dest := f.dest.(type) {
 		case *[20]byte:
+			if len(v) != len(dest) {
+				return fmt.Errorf("%q is not %d bytes long", f.key, len(dest))
+			}
 			copy((*dest)[:], v)
 		case *string:
 			*dest = v
-- 
2.43.0


From 582ae94c2ea2be75fb2678a9412ef6e85682bfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 63/73] fix: storage: a torrent without content is complete
 once loaded

---
 storage/storage.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 7eee1cd..f98b847 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -83,9 +83,10 @@ func (s *Storage) Load() error {
 				s.downloaded.Add(int64(piece.Length))
 				s.Torrent.completePiece(piece)
 			}
-			if err = s.coalescePieces(); err != nil {
-				return err
-			}
+		}
+		// A torrent without content has nothing to wait for
+		if err = s.coalescePieces(); err != nil {
+			return err
 		}
 	}
 	return nil
-- 
2.43.0


From fc43d774a83b45c927fc690f641ca189c589828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 64/73] fix: p2p: do not send the remaining requests of a piece
 that was given up

---
 p2p/peer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 8c7c632..00a3338 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -310,6 +310,9 @@ func (peer *Peer) requestPiece(ctx context.Context, index int) (err error) {
 }
 
 func (p *Peer) requestBlock(ctx context.Context, br *blockRequest) (err error) {
+	if err := ctx.Err(); err != nil {
+		return err // the piece was given up
+	}
 	if p.RemoteChoked.Load() {
 		return ErrChoked
 	}
-- 
2.43.0


From 1d9cc57702682c4d821b8477371cd3b3875d28a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:23 +0000
Subject: [PATCH 65/73] fix: p2p: tell a peer of the interest in its pieces
 before requesting them

---
 p2p/peer.go   | 16 ++++++++++++++--
 p2p/server.go | 12 +-----------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 00a3338..06009c5 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -162,8 +162,17 @@ func (p *Peer) Interest() error {
 	return p.sendState(&p.Interested, true, peerapi.Interested())
 }
 
+// NotInterest does nothing if the peer has announced a missing piece meanwhile
 func (p *Peer) NotInterest() error {
-	return p.sendState(&p.Interested, false, peerapi.NotInterested())
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	p.server.mu.Lock()
+	pieces := p.server.missingPieces(p)
+	p.server.mu.Unlock()
+	if len(pieces) > 0 || !p.Interested.CompareAndSwap(true, false) {
+		return nil
+	}
+	return p.send(peerapi.NotInterested())
 }
 
 func (peer *Peer) serve(ctx context.Context) {
@@ -233,8 +242,11 @@ func (peer *Peer) HandleHave(i int) error {
 	}
 	peer.server.RecordIndex(i, peer)
 	if !peer.server.Storage.Torrent.HasPiece(i) {
+		// Interest goes before the requests
+		if err := peer.Interest(); err != nil {
+			return err
+		}
 		peer.server.QueuePeer(peer)
-		return peer.Interest()
 	}
 	return nil
 }
diff --git a/p2p/server.go b/p2p/server.go
index 5280337..bdccd78 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -435,17 +435,7 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 	if len(pieces) == 0 {
 		delete(p2p.queuedPeers, peer)
 		p2p.mu.Unlock()
-		if err := peer.NotInterest(); err != nil {
-			return err
-		}
-		// It may have announced a piece meanwhile
-		p2p.mu.Lock()
-		pieces = p2p.missingPieces(peer)
-		p2p.mu.Unlock()
-		if len(pieces) > 0 {
-			return peer.Interest()
-		}
-		return nil
+		return peer.NotInterest()
 	}
 	defer p2p.mu.Unlock()
 	rand.Shuffle(len(pieces), func(i, j int) {
-- 
2.43.0


From 0a8bfa0966c92d7120e0208c260bfb41bb2894ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 66/73] fix: p2p: leave a piece to another peer after a choke,
 as after a timeout

---
 p2p/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/server.go b/p2p/server.go
index bdccd78..3a05f8b 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -462,7 +462,7 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 					}
 				}
 			}
-			if errors.Is(err, context.DeadlineExceeded) {
+			if errors.Is(err, context.DeadlineExceeded) || errors.Is(err, ErrChoked) {
 				// Leave the piece to a peer that answers
 				select {
 				case <-ctx.Done():
-- 
2.43.0


From 0e3faf02874825580a8581489436c18b04e4cf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 67/73] fix: p2p: do not give up a piece while its blocks
 arrive

---
 p2p/peer.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 06009c5..281d663 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -31,7 +31,8 @@ type Peer struct {
 	downloaded atomic.Int64
 	uploaded   atomic.Int64
 
-	mu sync.Mutex
+	mu        sync.Mutex
+	lastBlock time.Time // when a requested block arrived
 	net.Conn
 	inflightRequests map[blockRequest]*future.Future[error]
 }
@@ -306,8 +307,6 @@ func (peer *Peer) requestPiece(ctx context.Context, index int) (err error) {
 		blockLength := min(storage.BLOCK_LENGTH, pieceLength-begin)
 		func(begin, blockLength int) {
 			eg.Go(func() error {
-				ctx, cancel := context.WithTimeout(ctx, 10*time.Second)
-				defer cancel()
 				return peer.requestBlock(ctx, &blockRequest{index, begin, blockLength})
 			})
 		}(begin, blockLength)
@@ -341,20 +340,37 @@ func (p *Peer) requestBlock(ctx context.Context, br *blockRequest) (err error) {
 		defer p.mu.Unlock()
 		delete(p.inflightRequests, *br)
 	}()
+	timeout := 10 * time.Second
+	timer := time.NewTimer(timeout)
+	defer timer.Stop()
 	if err := p.Send(peerapi.Request(br.index, br.begin, br.length)); err != nil {
 		return err
 	}
-	select {
-	case <-ctx.Done():
-		return ctx.Err()
-	case <-fut.Done:
-		return fut.Wait()
+	for {
+		select {
+		case <-ctx.Done():
+			return ctx.Err()
+		case <-fut.Done:
+			return fut.Wait()
+		case <-timer.C:
+		}
+		// A slow peer gets to it after the other requests
+		p.mu.Lock()
+		idle := time.Since(p.lastBlock)
+		p.mu.Unlock()
+		if idle >= timeout {
+			return context.DeadlineExceeded
+		}
+		timer.Reset(timeout - idle)
 	}
 }
 
 func (p *Peer) completeRequest(br *blockRequest, err error) {
 	slog.Debug("completeRequest", "index", br.index, "begin", br.begin, "length", br.length, "err", err)
 	if fut, ok := p.inflightRequests[*br]; ok {
+		if err == nil {
+			p.lastBlock = time.Now()
+		}
 		fut.Deliver(err)
 		delete(p.inflightRequests, *br)
 	}
-- 
2.43.0


From 53fb27578d25e89cb25cd3f8d9171d063047b12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 68/73] fix: p2p: announce a piece that completes as its
 requests fail

---
 p2p/peer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 281d663..3c0fe67 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -31,6 +31,8 @@ type Peer struct {
 	downloaded atomic.Int64
 	uploaded   atomic.Int64
 
+	storeMu sync.Mutex // held while a block is stored, and to end its request
+
 	mu        sync.Mutex
 	lastBlock time.Time // when a requested block arrived
 	net.Conn
@@ -276,6 +278,8 @@ func (peer *Peer) HandleCancel(index, begin, length int) {
 
 func (peer *Peer) HandlePiece(index, begin int, data []byte) error {
 	br := blockRequest{index, begin, len(data)}
+	peer.storeMu.Lock()
+	defer peer.storeMu.Unlock()
 	peer.mu.Lock()
 	_, ok := peer.inflightRequests[br]
 	peer.mu.Unlock()
@@ -311,7 +315,7 @@ func (peer *Peer) requestPiece(ctx context.Context, index int) (err error) {
 			})
 		}(begin, blockLength)
 	}
-	if err := eg.Wait(); err != nil {
+	if err := eg.Wait(); err != nil && !peer.server.Storage.Torrent.HasPiece(index) {
 		return err
 	}
 	if err := piece.Wait(); err != nil {
@@ -336,6 +340,8 @@ func (p *Peer) requestBlock(ctx context.Context, br *blockRequest) (err error) {
 	}
 	p.mu.Unlock()
 	defer func() {
+		p.storeMu.Lock()
+		defer p.storeMu.Unlock()
 		p.mu.Lock()
 		defer p.mu.Unlock()
 		delete(p.inflightRequests, *br)
-- 
2.43.0


From 7e3f16d14c55f3b17579a2494894f72ba6ad1824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 69/73] fix: p2p: do not read a tracker's answer without end

A tracker that kept sending filled the memory for as long as the request
lasted.
---
 p2p/multitracker.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index 5726c76..a34eda8 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -83,6 +83,9 @@ func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err erro
 	return
 }
 
+// maxResponseSize is how much of a tracker's answer is read
+const maxResponseSize = 16 << 20
+
 var httpClient = &http.Client{Timeout: 30 * time.Second}
 
 type Tracker struct {
@@ -139,7 +142,7 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 		return nil, err
 	}
 	defer httpRes.Body.Close()
-	data, err := io.ReadAll(httpRes.Body)
+	data, err := io.ReadAll(io.LimitReader(httpRes.Body, maxResponseSize))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ceccd0b069d21fab52be4ad4964590ff35fa540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 70/73] fix: p2p: do not announce once more after the stop

When a tick was due at the stop, as after an announce that took long, every
could pick it again and again, so that the tracker was told of a running
server after it had been told of the stop, and Start did not return.
---
 p2p/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index 3a05f8b..0a73cb8 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -565,6 +565,9 @@ func (p2p *Server) every(ctx context.Context, f func(ctx context.Context) error,
 			return ctx.Err()
 		case <-ticker.C:
 		}
+		if ctx.Err() != nil {
+			return ctx.Err() // both were ready
+		}
 		if err := f(ctx); err != nil {
 			return err
 		}
-- 
2.43.0


From 3d0398aaf2e86c3afd3caf12940e726147224f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 71/73] fix: p2p: give up an announce when the server is
 stopped

While a tracker did not answer, Start did not return for up to 30 seconds for
each tracker, and the remaining trackers were told of a running server after
the stop.
---
 p2p/multitracker.go | 11 ++++++++++-
 p2p/server.go       |  7 +++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index a34eda8..97beedc 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -1,6 +1,7 @@
 package p2p
 
 import (
+	"context"
 	"errors"
 	"io"
 	"log/slog"
@@ -137,7 +138,15 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 		url.RawQuery += "&"
 	}
 	url.RawQuery += req.Encode()
-	httpRes, err := httpClient.Get(url.String())
+	ctx := context.Background()
+	if event != STOPPED {
+		ctx = mt.server.context() // nothing is to be announced after the stop
+	}
+	httpReq, err := http.NewRequestWithContext(ctx, http.MethodGet, url.String(), nil)
+	if err != nil {
+		return nil, err
+	}
+	httpRes, err := httpClient.Do(httpReq)
 	if err != nil {
 		return nil, err
 	}
diff --git a/p2p/server.go b/p2p/server.go
index 0a73cb8..df9ed59 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -137,6 +137,13 @@ func (p2p *Server) Stop() error {
 	return stop()
 }
 
+// context returns the one that ends when the server is stopped.
+func (p2p *Server) context() context.Context {
+	p2p.mu.Lock()
+	defer p2p.mu.Unlock()
+	return p2p.ctx
+}
+
 func (p2p *Server) shutdown(cancel context.CancelFunc, tcp net.Listener) error {
 	cancel()
 	tcp.Close()
-- 
2.43.0


From c631b43bb6346eab05996ca751a1c6c1f022dae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:27 +0000
Subject: [PATCH 72/73] fix: close the piece files and target files when
 assembling or reading fails or ends early

---
 storage/lazy_file_reader.go |  8 ++++++++
 storage/storage.go          | 15 ++++++++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/storage/lazy_file_reader.go b/storage/lazy_file_reader.go
index a02b37f..8649599 100644
--- a/storage/lazy_file_reader.go
+++ b/storage/lazy_file_reader.go
@@ -34,6 +34,14 @@ func (lfr *lazyFileReader) checkClose() {
 	}
 }
 
+// Close closes a file that was not read to its end
+func (lfr *lazyFileReader) Close() error {
+	if lfr.f == nil {
+		return nil
+	}
+	return lfr.f.Close()
+}
+
 func (lfr *lazyFileReader) Read(p []byte) (n int, err error) {
 	defer func() {
 		if errors.Is(err, io.EOF) {
diff --git a/storage/storage.go b/storage/storage.go
index f98b847..4622e2b 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -220,11 +220,11 @@ func (s *Storage) getBlockFromMultiFile(index, begin, length int) ([]byte, error
 				return nil, err
 			}
 			n, err := f.ReadAt(data[curr:], int64(offset))
+			f.Close()
 			curr += n
 			if err != nil && !errors.Is(err, io.EOF) {
 				return nil, err
 			}
-			f.Close()
 		}
 		total += file.Length
 	}
@@ -445,7 +445,9 @@ func (s *Storage) coalescePiecesForSingleFile() error {
 	var pieceReaders []io.Reader
 	for _, piece := range s.Torrent.pieces {
 		path := filepath.Join(s.WorkDir, s.Torrent.WorkDir(), piece.FileName())
-		pieceReaders = append(pieceReaders, &lazyFileReader{path: path})
+		lfr := &lazyFileReader{path: path}
+		defer lfr.Close()
+		pieceReaders = append(pieceReaders, lfr)
 	}
 	r := io.MultiReader(pieceReaders...)
 	if _, err := io.Copy(temp, r); err != nil {
@@ -471,7 +473,9 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 	var pieceReaders []io.Reader
 	for _, piece := range s.Torrent.pieces {
 		path := filepath.Join(s.WorkDir, s.Torrent.WorkDir(), piece.FileName())
-		pieceReaders = append(pieceReaders, &lazyFileReader{path: path})
+		lfr := &lazyFileReader{path: path}
+		defer lfr.Close()
+		pieceReaders = append(pieceReaders, lfr)
 	}
 	r := io.MultiReader(pieceReaders...)
 	for _, file := range s.Torrent.Info.Files {
@@ -483,10 +487,11 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 		if err != nil {
 			return err
 		}
-		if _, err = io.CopyN(f, r, int64(file.Length)); err != nil {
+		_, err = io.CopyN(f, r, int64(file.Length))
+		f.Close()
+		if err != nil {
 			return err
 		}
-		f.Close()
 	}
 	if err = os.Rename(temp, filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
 		return err
-- 
2.43.0


From eb56a2f92923c0e6b8fdd148778b947029914e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:31 +0000
Subject: [PATCH 73/73] fix: p2p: keep reading from a peer while it is being
 written to

Two servers that requested from each other each stopped reading while they
sent blocks, and waited for each other once the buffers between them were
full.
---
 p2p/peer.go   | 68 ++++++++++++++++++++++++++++++++++++++++++---------
 p2p/server.go |  6 +++--
 2 files changed, 60 insertions(+), 14 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 3c0fe67..d899418 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -33,6 +33,12 @@ type Peer struct {
 
 	storeMu sync.Mutex // held while a block is stored, and to end its request
 
+	writeMu sync.Mutex // held while a message is written
+
+	done     <-chan struct{}   // closed when the peer is
+	requests chan blockRequest // of the peer, to be answered in order
+	interest chan struct{}     // asks to tell the peer of the interest in its pieces
+
 	mu        sync.Mutex
 	lastBlock time.Time // when a requested block arrived
 	net.Conn
@@ -45,6 +51,9 @@ type blockRequest struct {
 	length int
 }
 
+// maxPeerRequests is how many requests of a peer wait to be answered
+const maxPeerRequests = 256
+
 var ErrChoked = errors.New("p2p: peer connection is choked")
 
 func (p *Peer) Close() error {
@@ -96,13 +105,13 @@ func (p *Peer) Addr() addr {
 }
 
 func (p *Peer) Send(m *peerapi.Message) error {
-	p.mu.Lock()
-	defer p.mu.Unlock()
+	p.writeMu.Lock()
+	defer p.writeMu.Unlock()
 	return p.send(m)
 }
 
 // send writes a message. It closes the connection when it fails, as the message
-// may have been written in part. The caller holds p.mu.
+// may have been written in part. The caller holds p.writeMu.
 func (p *Peer) send(m *peerapi.Message) error {
 	if m.Type == peerapi.REQUEST {
 		if p.RemoteChoked.Load() {
@@ -141,8 +150,8 @@ func (p *Peer) Receive() (m *peerapi.Message, err error) {
 
 // sendState changes a state and tells the peer, in the same order
 func (p *Peer) sendState(state *atomic.Bool, value bool, m *peerapi.Message) error {
-	p.mu.Lock()
-	defer p.mu.Unlock()
+	p.writeMu.Lock()
+	defer p.writeMu.Unlock()
 	if !state.CompareAndSwap(!value, value) {
 		return nil
 	}
@@ -167,8 +176,8 @@ func (p *Peer) Interest() error {
 
 // NotInterest does nothing if the peer has announced a missing piece meanwhile
 func (p *Peer) NotInterest() error {
-	p.mu.Lock()
-	defer p.mu.Unlock()
+	p.writeMu.Lock()
+	defer p.writeMu.Unlock()
 	p.server.mu.Lock()
 	pieces := p.server.missingPieces(p)
 	p.server.mu.Unlock()
@@ -180,6 +189,7 @@ func (p *Peer) NotInterest() error {
 
 func (peer *Peer) serve(ctx context.Context) {
 	defer peer.Close()
+	peer.done = ctx.Done()
 	if err := peer.server.Connect(peer); err != nil {
 		if !errors.Is(err, ErrAlreadyConnected) {
 			slog.Error("serve.Connect", "err", err)
@@ -191,6 +201,7 @@ func (peer *Peer) serve(ctx context.Context) {
 			slog.Error("serve.Disconnect", "err", err)
 		}
 	}()
+	go peer.answer(ctx)
 	for {
 		select {
 		case <-ctx.Done():
@@ -209,6 +220,27 @@ func (peer *Peer) serve(ctx context.Context) {
 	}
 }
 
+// answer sends what the messages of the peer call for. It is no part of reading them:
+// two sides that do not read while they write could wait for each other.
+func (peer *Peer) answer(ctx context.Context) {
+	for {
+		var err error
+		select {
+		case <-ctx.Done():
+			return
+		case <-peer.interest:
+			err = peer.Interest()
+		case br := <-peer.requests:
+			err = peer.sendBlock(br)
+		}
+		if err != nil {
+			slog.Error("answer", "err", err)
+			peer.Close()
+			return
+		}
+	}
+}
+
 func (peer *Peer) HandleMessage(m *peerapi.Message) error {
 	switch m.Type {
 	case peerapi.KEEPALIVE:
@@ -245,9 +277,9 @@ func (peer *Peer) HandleHave(i int) error {
 	}
 	peer.server.RecordIndex(i, peer)
 	if !peer.server.Storage.Torrent.HasPiece(i) {
-		// Interest goes before the requests
-		if err := peer.Interest(); err != nil {
-			return err
+		select {
+		case peer.interest <- struct{}{}:
+		default:
 		}
 		peer.server.QueuePeer(peer)
 	}
@@ -258,11 +290,19 @@ func (peer *Peer) HandleRequest(index, begin, length int) error {
 	if peer.Choked.Load() {
 		return ErrChoked
 	}
-	data, err := peer.server.Storage.GetBlock(index, begin, length)
+	select {
+	case <-peer.done:
+	case peer.requests <- blockRequest{index, begin, length}:
+	}
+	return nil
+}
+
+func (peer *Peer) sendBlock(br blockRequest) error {
+	data, err := peer.server.Storage.GetBlock(br.index, br.begin, br.length)
 	if err != nil {
 		return err
 	}
-	err = peer.Send(peerapi.Piece(index, begin, data))
+	err = peer.Send(peerapi.Piece(br.index, br.begin, data))
 	if err != nil {
 		return err
 	}
@@ -303,6 +343,10 @@ func (peer *Peer) HandlePiece(index, begin int, data []byte) error {
 
 func (peer *Peer) requestPiece(ctx context.Context, index int) (err error) {
 	slog.Debug("requestPiece", "peer", peer.IDIP(), "index", index)
+	// Interest goes before the requests
+	if err := peer.Interest(); err != nil {
+		return err
+	}
 	pieceLength := peer.server.Info.GetPieceLength(index)
 	piece := peer.server.Storage.ResetPiece(index)
 	eg, ctx := errgroup.WithContext(ctx)
diff --git a/p2p/server.go b/p2p/server.go
index df9ed59..60deba2 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -320,8 +320,8 @@ func (p2p *Server) Connect(peer *Peer) error {
 		return err
 	}
 	// The bitfield goes first, but is sent without holding up the server
-	peer.mu.Lock()
-	defer peer.mu.Unlock()
+	peer.writeMu.Lock()
+	defer peer.writeMu.Unlock()
 	bf, err := p2p.register(peer)
 	if err != nil {
 		return err
@@ -557,6 +557,8 @@ func (p2p *Server) newPeer(conn net.Conn) *Peer {
 		server:           p2p,
 		Conn:             conn,
 		inflightRequests: make(map[blockRequest]*future.Future[error]),
+		requests:         make(chan blockRequest, maxPeerRequests),
+		interest:         make(chan struct{}, 1),
 	}
 	peer.RemoteChoked.Store(true)
 	peer.Choked.Store(true)
-- 
2.43.0

