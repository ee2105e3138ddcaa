From 78c7b5c3e71d393cd963863b62c01d212bbdd4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:43 +0000
Subject: [PATCH 01/36] fix: reject percent-escapes whose digits aren't
 hexadecimal

---
 internal/hexconv/hexconv.go   | 9 +++++++--
 internal/uridecode/decoder.go | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/hexconv/hexconv.go b/internal/hexconv/hexconv.go
index da01c66..2fa15ee 100644
--- a/internal/hexconv/hexconv.go
+++ b/internal/hexconv/hexconv.go
@@ -25,8 +25,13 @@ var decodeTable = [256]byte{
 	'F': 0xF,
 }
 
-// Parse returns char value + 1 IF char is a valid hex, 0 otherwise.
-// So in order to treat the returned value correctly, check whether it's 0
+// Parse returns the value of the hexadecimal digit, or 0 if char isn't one. Use IsHex in order to
+// distinguish the '0' character from a non-hexadecimal one
 func Parse(char byte) byte {
 	return decodeTable[char]
 }
+
+// IsHex tells, whether the char is a valid hexadecimal digit
+func IsHex(char byte) bool {
+	return char == '0' || decodeTable[char] != 0
+}
diff --git a/internal/uridecode/decoder.go b/internal/uridecode/decoder.go
index afd1b4f..f5d01c3 100644
--- a/internal/uridecode/decoder.go
+++ b/internal/uridecode/decoder.go
@@ -14,6 +14,10 @@ func Decode(src, buff []byte) ([]byte, error) {
 			return nil, status.ErrURIDecoding
 		}
 
+		if !hexconv.IsHex(src[i+1]) || !hexconv.IsHex(src[i+2]) {
+			return nil, status.ErrURIDecoding
+		}
+
 		buff = append(buff, src[:i]...)
 		buff = append(buff, hexconv.Parse(src[i+1])<<4|hexconv.Parse(src[i+2]))
 		src = src[i+3:]
-- 
2.43.0


From 14dc82fe142a166ba23b49fef24394673b69e831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:43 +0000
Subject: [PATCH 02/36] fix: status line of 101 carries the registered reason
 phrase

---
 http/status/codes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/status/codes.go b/http/status/codes.go
index 6df0c79..774784b 100644
--- a/http/status/codes.go
+++ b/http/status/codes.go
@@ -224,7 +224,7 @@ func Line(code Code) string {
 	case Continue:
 		return "100 Continue\r\n"
 	case SwitchingProtocols:
-		return "101 Switching Protocol\r\n"
+		return "101 Switching Protocols\r\n"
 	case Processing:
 		return "102 Processing\r\n"
 	case EarlyHints:
-- 
2.43.0


From e0543c418dafb5a9f9c1626de872464a340d552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:12 +0000
Subject: [PATCH 03/36] fix: trailing slashes of one-letter and empty paths are
 stripped like of any other

---
 router/inbuilt/uri/normalize.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/router/inbuilt/uri/normalize.go b/router/inbuilt/uri/normalize.go
index 5f634fb..59bd458 100644
--- a/router/inbuilt/uri/normalize.go
+++ b/router/inbuilt/uri/normalize.go
@@ -1,11 +1,15 @@
 package uri
 
 func Normalize(path string) string {
-	for i := len(path) - 1; i > 1; i-- {
+	for i := len(path) - 1; i > 0; i-- {
 		if path[i] != '/' {
 			return path[:i+1]
 		}
 	}
 
+	if len(path) > 1 {
+		path = path[:1]
+	}
+
 	return path
 }
-- 
2.43.0


From 4652930d5d0380011dcf21cb80682611bb3a0b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:19 +0000
Subject: [PATCH 04/36] fix: complete a configuration's cookie pre-allocation
 with its default

---
 config/config.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index d2c8e39..44f7a91 100644
--- a/config/config.go
+++ b/config/config.go
@@ -194,8 +194,9 @@ func Fill(src Config) (new Config) {
 				Default: numOr(src.Headers.ValueSpace.Default, defaults.Headers.ValueSpace.Default),
 				Maximal: numOr(src.Headers.ValueSpace.Maximal, defaults.Headers.ValueSpace.Maximal),
 			},
-			MaxEncodingTokens: numOr(src.Headers.MaxEncodingTokens, defaults.Headers.MaxEncodingTokens),
-			Default:           mapOr(src.Headers.Default, defaults.Headers.Default),
+			MaxEncodingTokens:  numOr(src.Headers.MaxEncodingTokens, defaults.Headers.MaxEncodingTokens),
+			Default:            mapOr(src.Headers.Default, defaults.Headers.Default),
+			CookiesPreAllocate: numOr(src.Headers.CookiesPreAllocate, defaults.Headers.CookiesPreAllocate),
 		},
 		Body: Body{
 			MaxSize:            numOr(src.Body.MaxSize, defaults.Body.MaxSize),
-- 
2.43.0


From d4a88847346204bcbb4f6fc3a6b736f10e2e9d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:19 +0000
Subject: [PATCH 05/36] fix: require the dot between the major and minor
 protocol version

---
 http/proto/proto.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/proto/proto.go b/http/proto/proto.go
index 690d997..c4cf693 100644
--- a/http/proto/proto.go
+++ b/http/proto/proto.go
@@ -36,7 +36,8 @@ var majorMinorVersionLUT = [10][10]Proto{
 }
 
 func FromBytes(raw []byte) Proto {
-	if len(raw) != protoTokenLength || uf.B2S(raw[:majorVersionOffset]) != httpScheme {
+	if len(raw) != protoTokenLength || uf.B2S(raw[:majorVersionOffset]) != httpScheme ||
+		raw[minorVersionOffset-1] != '.' {
 		return Unknown
 	}
 
-- 
2.43.0


From 9c5b26113759769e574eb725dc71fd66670a159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:19 +0000
Subject: [PATCH 06/36] fix: make the clone of a key-value storage independent
 of reused memory

---
 internal/keyvalue/storage.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/internal/keyvalue/storage.go b/internal/keyvalue/storage.go
index 0cff996..d2bb0df 100644
--- a/internal/keyvalue/storage.go
+++ b/internal/keyvalue/storage.go
@@ -3,6 +3,7 @@ package keyvalue
 import (
 	"github.com/indigo-web/iter"
 	"github.com/indigo-web/utils/strcomp"
+	"strings"
 )
 
 type Pair struct {
@@ -147,11 +148,14 @@ func (s *Storage) Len() int {
 // Clone creates a deep copy, which may be used later or stored somewhere safely. However,
 // it comes at cost of multiple allocations
 func (s *Storage) Clone() *Storage {
-	return &Storage{
-		pairs:      clone(s.pairs),
-		uniqueBuff: clone(s.uniqueBuff),
-		valuesBuff: clone(s.valuesBuff),
+	cloned := NewPreAlloc(len(s.pairs))
+
+	for _, pair := range s.pairs {
+		// strings may refer to a memory, which is going to be reused
+		cloned.Add(strings.Clone(pair.Key), strings.Clone(pair.Value))
 	}
+
+	return cloned
 }
 
 // Unwrap reveals underlying data structure. Try to avoid the method if possible, as
@@ -183,14 +187,3 @@ func contains(collection []string, key string) bool {
 
 	return false
 }
-
-func clone[T any](source []T) []T {
-	if len(source) == 0 {
-		return nil
-	}
-
-	newSlice := make([]T, len(source))
-	copy(newSlice, source)
-
-	return newSlice
-}
-- 
2.43.0


From 18877284361e0175405a27000b669382e3a3d4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:19 +0000
Subject: [PATCH 07/36] fix: decode query parameters after splitting, keep the
 raw query and its error

---
 http/query/internal/parser.go | 53 +++++++++++++++++++++++++----------
 http/query/query.go           | 12 ++++++--
 2 files changed, 47 insertions(+), 18 deletions(-)

diff --git a/http/query/internal/parser.go b/http/query/internal/parser.go
index 6182084..3e71630 100644
--- a/http/query/internal/parser.go
+++ b/http/query/internal/parser.go
@@ -1,6 +1,7 @@
 package internal
 
 import (
+	"bytes"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/internal/keyvalue"
 	"github.com/indigo-web/indigo/internal/uridecode"
@@ -15,12 +16,7 @@ func Parse(data []byte, params *keyvalue.Storage) (err error) {
 		return nil
 	}
 
-	data, err = uridecode.Decode(data, data[:0])
-	if err != nil {
-		return err
-	}
-
-	var key string
+	var key, value string
 
 parseKey:
 	if len(data) == 0 {
@@ -30,7 +26,10 @@ parseKey:
 	for i := range data {
 		switch data[i] {
 		case '=':
-			key = uf.B2S(data[:i])
+			if key, err = unescape(data[:i]); err != nil {
+				return err
+			}
+
 			if len(key) == 0 {
 				return status.ErrBadQuery
 			}
@@ -38,15 +37,21 @@ parseKey:
 			data = data[i+1:]
 			goto parseValue
 		case '&':
-			params.Add(uf.B2S(data[:i]), defaultEmptyValueContent)
+			if key, err = unescape(data[:i]); err != nil {
+				return err
+			}
+
+			params.Add(key, defaultEmptyValueContent)
 			data = data[i+1:]
 			goto parseKey
-		case '+':
-			data[i] = ' '
 		}
 	}
 
-	params.Add(uf.B2S(data), defaultEmptyValueContent)
+	if key, err = unescape(data); err != nil {
+		return err
+	}
+
+	params.Add(key, defaultEmptyValueContent)
 
 	return nil
 
@@ -57,15 +62,33 @@ parseValue:
 			// ignore the fact that the value may be empty. In case there's no equal sign, we
 			// definitely know it's a flag and is supposed to be like that. However, if there's
 			// an equal mark, we cannot be sure it wasn't on purpose. So just let a user judge
-			params.Add(key, uf.B2S(data[:i]))
+			if value, err = unescape(data[:i]); err != nil {
+				return err
+			}
+
+			params.Add(key, value)
 			data = data[i+1:]
 			goto parseKey
-		case '+':
-			data[i] = ' '
 		}
 	}
 
-	params.Add(key, uf.B2S(data))
+	if value, err = unescape(data); err != nil {
+		return err
+	}
+
+	params.Add(key, value)
 
 	return nil
 }
+
+// unescape decodes a single key or value. It's done only after the query was split, as escaped
+// separators and pluses are ordinary characters. The raw query stays untouched
+func unescape(raw []byte) (string, error) {
+	if bytes.IndexByte(raw, '+') != -1 {
+		raw = bytes.ReplaceAll(raw, []byte{'+'}, []byte{' '})
+	}
+
+	decoded, err := uridecode.Decode(raw, nil)
+
+	return uf.B2S(decoded), err
+}
diff --git a/http/query/query.go b/http/query/query.go
index 0b9ab15..c187e8f 100644
--- a/http/query/query.go
+++ b/http/query/query.go
@@ -16,6 +16,7 @@ type Query struct {
 	parsed bool
 	params Params
 	raw    []byte
+	err    error
 }
 
 func New(underlying *keyvalue.Storage) *Query {
@@ -56,7 +57,11 @@ func (q *Query) Get(key string) (value string, err error) {
 
 // Unwrap returns all query parameters. If error occurred, nil parameters will be returned
 func (q *Query) Unwrap() (Params, error) {
-	return q.params, q.parse()
+	if err := q.parse(); err != nil {
+		return nil, err
+	}
+
+	return q.params, nil
 }
 
 // Raw just returns a raw value of query as it is
@@ -66,10 +71,11 @@ func (q *Query) Raw() []byte {
 
 func (q *Query) parse() error {
 	if q.parsed {
-		return nil
+		return q.err
 	}
 
 	q.parsed = true
+	q.err = internal.Parse(q.raw, q.params)
 
-	return internal.Parse(q.raw, q.params)
+	return q.err
 }
-- 
2.43.0


From cca654a4388afd01372683756636392f1a0105de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:34 +0000
Subject: [PATCH 08/36] fix: empty protocols and header values ending in a bare
 line feed no longer crash the parser

---
 internal/protocol/http1/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 2845f54..6d09f28 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -154,7 +154,7 @@ path:
 		}
 
 		reqPath, reqProto := pathAndProto[:sp], pathAndProto[sp+1:]
-		if reqProto[len(reqProto)-1] == '\r' {
+		if len(reqProto) > 0 && reqProto[len(reqProto)-1] == '\r' {
 			reqProto = reqProto[:len(reqProto)-1]
 		}
 
@@ -308,7 +308,7 @@ headerValue:
 
 		data = data[lf+1:]
 		value := uf.B2S(trimPrefixSpaces(headerValueBuff.Finish()))
-		if value[len(value)-1] == '\r' {
+		if len(value) > 0 && value[len(value)-1] == '\r' {
 			value = value[:len(value)-1]
 		}
 
-- 
2.43.0


From 73437394abeca0f3f683d36850520783dd6f70c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:34 +0000
Subject: [PATCH 09/36] fix: reject header keys containing line breaks

---
 internal/protocol/http1/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 6d09f28..2309e18 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -215,6 +215,10 @@ headerKey:
 		}
 
 		key := uf.B2S(headerKeyBuff.Finish())
+		if strings.IndexByte(key, '\n') != -1 || strings.IndexByte(key, '\r') != -1 {
+			return Error, nil, status.ErrBadRequest
+		}
+
 		p.headerKey = key
 		data = data[colon+1:]
 
-- 
2.43.0


From b995c47a6fad013784ae6b344a2d01ef3f6942d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:34 +0000
Subject: [PATCH 10/36] fix: enforce the maximal length of header keys

---
 internal/protocol/http1/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 2309e18..772e18a 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -202,7 +202,7 @@ headerKey:
 
 		colon := bytes.IndexByte(data, ':')
 		if colon == -1 {
-			if !headerKeyBuff.Append(data) {
+			if !headerKeyBuff.Append(data) || headerKeyBuff.SegmentLength() > p.headersCfg.MaxKeyLength {
 				return Error, nil, status.ErrHeaderFieldsTooLarge
 			}
 
@@ -210,7 +210,7 @@ headerKey:
 			return Pending, nil, nil
 		}
 
-		if !headerKeyBuff.Append(data[:colon]) {
+		if !headerKeyBuff.Append(data[:colon]) || headerKeyBuff.SegmentLength() > p.headersCfg.MaxKeyLength {
 			return Error, nil, status.ErrHeaderFieldsTooLarge
 		}
 
-- 
2.43.0


From 8e5c8c74d86a2f6bf7a13725b1b1bcc6b70dad4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:34 +0000
Subject: [PATCH 11/36] fix: default headers overridden in one response return
 in the following ones

---
 internal/protocol/http1/serializer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 83f86c4..6724367 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -412,7 +412,7 @@ func (d defaultHeaders) Exclude(key string) {
 }
 
 func (d defaultHeaders) Reset() {
-	for _, header := range d {
-		header.Excluded = false
+	for i := range d {
+		d[i].Excluded = false
 	}
 }
-- 
2.43.0


From f18758c66a9d5178b4023f929d946c877365ab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:34 +0000
Subject: [PATCH 12/36] fix: render the custom status text of a response

---
 internal/protocol/http1/serializer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 6724367..217a1d9 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -132,7 +132,11 @@ func (d *Serializer) renderResponseLine(fields *response.Fields) {
 	// in case we have a custom response status text or unknown code, fallback to an old way
 	d.buff = strconv.AppendInt(d.buff, int64(fields.Code), 10)
 	d.sp()
-	d.buff = append(d.buff, status.Text(fields.Code)...)
+	if fields.Status != "" {
+		d.buff = append(d.buff, fields.Status...)
+	} else {
+		d.buff = append(d.buff, status.Text(fields.Code)...)
+	}
 	d.crlf()
 }
 
-- 
2.43.0


From a22666a947c84f38516e77d0a9f7ea64b180e815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:34 +0000
Subject: [PATCH 13/36] fix: keep the encryption token of a connection across
 its requests

---
 http/request.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/request.go b/http/request.go
index 6a5286e..fc99838 100644
--- a/http/request.go
+++ b/http/request.go
@@ -180,7 +180,7 @@ func (r *Request) Clear() (err error) {
 	r.Connection = ""
 	r.Upgrade = proto.Unknown
 	r.Ctx = zeroContext
-	r.Env = Environment{}
+	r.Env = Environment{Encryption: r.Env.Encryption}
 
 	return nil
 }
-- 
2.43.0


From 45f42afb021154945624be61907fce6ca58fef63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:34 +0000
Subject: [PATCH 14/36] fix: size the file buffer by its own option

---
 internal/protocol/http1/suit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/http1/suit.go b/internal/protocol/http1/suit.go
index 813717e..c8b1544 100644
--- a/internal/protocol/http1/suit.go
+++ b/internal/protocol/http1/suit.go
@@ -46,7 +46,7 @@ func Initialize(cfg config.Config, r router.Router, client tcp.Client, req *http
 
 	return New(
 		cfg, r, req, client, keyBuff, valBuff, startLineBuff,
-		respBuff, cfg.HTTP.ResponseBuffSize, cfg.Headers.Default,
+		respBuff, cfg.HTTP.FileBuffSize, cfg.Headers.Default,
 	)
 }
 
-- 
2.43.0


From 06edd19058183b4dc538d7fd22f1794573c9f3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:34 +0000
Subject: [PATCH 15/36] fix: announce the protocol being upgraded to, once per
 upgrade

---
 internal/protocol/http1/suit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/suit.go b/internal/protocol/http1/suit.go
index c8b1544..4cc518c 100644
--- a/internal/protocol/http1/suit.go
+++ b/internal/protocol/http1/suit.go
@@ -79,10 +79,10 @@ func (s *Suit) serve(once bool) (ok bool) {
 			if req.Upgrade != proto.Unknown && proto.HTTP1&req.Upgrade == req.Upgrade {
 				s.PreWrite(
 					req.Proto,
-					s.upgradePreResp.
+					s.upgradePreResp.Clear().
 						Code(status.SwitchingProtocols).
 						Header("Connection", "upgrade").
-						Header("Upgrade", trimLast(req.Proto.String())),
+						Header("Upgrade", trimLast(req.Upgrade.String())),
 				)
 				version = req.Upgrade
 			}
-- 
2.43.0


From aabca6a78a77ecd67923f8f66206e7ee7fb5cc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:34 +0000
Subject: [PATCH 16/36] fix: respond to unsupported protocols with a
 well-formed response line

---
 internal/protocol/http1/suit.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/suit.go b/internal/protocol/http1/suit.go
index 4cc518c..0bdc8a2 100644
--- a/internal/protocol/http1/suit.go
+++ b/internal/protocol/http1/suit.go
@@ -112,7 +112,12 @@ func (s *Suit) serve(once bool) (ok bool) {
 			// as fatal error already happened and connection will anyway be closed, we don't
 			// care about any socket errors anymore
 			resp := notNil(req, s.router.OnError(req, err))
-			_ = s.Write(req.Proto, resp)
+			version := req.Proto
+			if version == proto.Unknown {
+				version = proto.HTTP11
+			}
+
+			_ = s.Write(version, resp)
 			return false
 		default:
 			panic(fmt.Sprintf("BUG: got unexpected parser state"))
-- 
2.43.0


From 58417b6d71eb39ed2bdbbcf8c482a601f67f790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:34 +0000
Subject: [PATCH 17/36] fix: never return the previous request's body, never
 pre-allocate beyond the body limit

---
 internal/protocol/http1/body.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 8854029..28ed677 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -46,6 +46,7 @@ func (b *Body) Init(request *http.Request) {
 	}
 
 	b.eof = false
+	b.fullBodyBuff = b.fullBodyBuff[:0]
 	b.Reader.Reset()
 }
 
@@ -61,7 +62,7 @@ func (b *Body) Bytes() ([]byte, error) {
 	}
 
 	// FIXME: this barely works with applied transfer-encodings
-	if !b.isChunked && cap(b.fullBodyBuff) < b.contentLength {
+	if !b.isChunked && cap(b.fullBodyBuff) < b.contentLength && uint(b.contentLength) <= b.plain.maxBodyLen {
 		b.fullBodyBuff = make([]byte, 0, b.contentLength)
 	}
 
-- 
2.43.0


From aeea002c33d7f94a9edd1555bb36cd47a75bd22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:33 +0000
Subject: [PATCH 18/36] fix: reject repeated, malformed and overflowing content
 lengths

---
 internal/protocol/http1/parser.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 772e18a..a7c5fe5 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -12,6 +12,7 @@ import (
 	"github.com/indigo-web/utils/buffer"
 	"github.com/indigo-web/utils/strcomp"
 	"github.com/indigo-web/utils/uf"
+	"math"
 	"strings"
 )
 
@@ -35,6 +36,16 @@ const (
 	eHeaderValueCRLFCR
 )
 
+type contentLengthStage uint8
+
+const (
+	// clAbsent is the state before Content-Length header was met
+	clAbsent contentLengthStage = iota
+	clLeadingSpace
+	clDigits
+	clTrailingSpace
+)
+
 // Parser is a stream-based http requests parser. It modifies
 // request object by pointer in performance purposes. Decodes query-encoded
 // values by its own, you can see that by presented states ePathDecode1Char,
@@ -52,6 +63,7 @@ type Parser struct {
 	headersCfg      *config.Headers
 	headersNumber   int
 	contentLength   int
+	clStage         contentLengthStage
 	urlEncodedChar  uint8
 	state           parserState
 }
@@ -232,6 +244,11 @@ headerKey:
 			) && cLength == encodeU64(
 			key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, 0, 0,
 		) {
+			if p.clStage != clAbsent {
+				return Error, nil, status.ErrBadRequest
+			}
+
+			p.clStage = clLeadingSpace
 			goto contentLength
 		}
 
@@ -241,6 +258,10 @@ headerKey:
 contentLength:
 	for i, char := range data {
 		if char == ' ' {
+			if p.clStage == clDigits {
+				p.clStage = clTrailingSpace
+			}
+
 			continue
 		}
 
@@ -249,6 +270,11 @@ contentLength:
 			goto contentLengthEnd
 		}
 
+		if p.clStage == clTrailingSpace || p.contentLength > (math.MaxInt-9)/10 {
+			return Error, nil, status.ErrBadRequest
+		}
+
+		p.clStage = clDigits
 		p.contentLength = p.contentLength*10 + int(char-'0')
 	}
 
@@ -260,6 +286,10 @@ contentLengthEnd:
 	// The proof is, that this code is reachable ONLY if loop has reached a non-digit
 	// ascii symbol. In case loop has finished peacefully, as no more data left, but also no
 	// character found to satisfy the exit condition, this code will never be reached
+	if p.clStage == clLeadingSpace {
+		return Error, nil, status.ErrBadRequest
+	}
+
 	request.ContentLength = p.contentLength
 
 	switch data[0] {
@@ -389,6 +419,7 @@ func (p *Parser) cleanup() {
 	p.headerKeyBuff.Clear()
 	p.headerValueBuff.Clear()
 	p.contentLength = 0
+	p.clStage = clAbsent
 	p.encToksBuff = p.encToksBuff[:0]
 	p.contEncToksBuff = p.contEncToksBuff[:0]
 	p.state = eMethod
-- 
2.43.0


From 7d337bd522b97a67f2f778f150b49df003d1637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:33 +0000
Subject: [PATCH 19/36] fix: send attachments completely, with cookies, and
 always release them

---
 internal/protocol/http1/serializer.go | 46 ++++++++++++++++++---------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 217a1d9..2829d5d 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -94,7 +94,12 @@ func (d *Serializer) Write(
 	d.renderResponseLine(fields)
 
 	if fields.Attachment.Content() != nil {
-		return d.sendAttachment(d.request, response, d.writer)
+		err = d.sendAttachment(d.request, response, d.writer)
+		if err == nil && !isKeepAlive(protocol, d.request) && d.request.Upgrade == proto.Unknown {
+			err = status.ErrCloseConnection
+		}
+
+		return err
 	}
 
 	d.renderHeaders(fields)
@@ -169,6 +174,7 @@ func (d *Serializer) sendAttachment(
 	request *http.Request, response *http.Response, writer Writer,
 ) (err error) {
 	fields := response.Reveal()
+	defer fields.Attachment.Close()
 	size := fields.Attachment.Size()
 
 	if size > 0 {
@@ -178,6 +184,10 @@ func (d *Serializer) sendAttachment(
 		d.renderHeaders(response.TransferEncoding("chunked").Reveal())
 	}
 
+	for _, c := range fields.Cookies {
+		d.renderCookie(c)
+	}
+
 	// now we have to send the body via plain text or chunked transfer encoding.
 	// I'm proposing to make an exception for chunked transfer encoding with a
 	// separate method that'll handle with it by its own. Maybe, even for plain-text
@@ -198,36 +208,42 @@ func (d *Serializer) sendAttachment(
 		d.fileBuff = make([]byte, d.fileBuffSize)
 	}
 
-	if fields.Attachment.Size() > 0 {
-		err = d.writePlainBody(fields.Attachment.Content(), writer)
+	if size > 0 {
+		err = d.writePlainBody(fields.Attachment.Content(), size, writer)
 	} else {
 		err = d.writeChunkedBody(fields.Attachment.Content(), writer)
 	}
 
-	fields.Attachment.Close()
-
 	return err
 }
 
-func (d *Serializer) writePlainBody(r io.Reader, writer Writer) error {
+func (d *Serializer) writePlainBody(r io.Reader, size int, writer Writer) error {
 	// TODO: implement checking whether r implements io.ReaderAt interface. In case it does
 	//       body may be transferred more efficiently. This requires implementing io.Writer
 	//       *http.ResponseWriter
 
-	for {
-		n, err := r.Read(d.fileBuff)
-		switch err {
-		case nil:
-		case io.EOF:
-			return nil
-		default:
-			return status.ErrCloseConnection
+	for size > 0 {
+		buff := d.fileBuff
+		if len(buff) > size {
+			buff = buff[:size]
+		}
+
+		n, err := r.Read(buff)
+		if n > 0 {
+			if err := writer.Write(buff[:n]); err != nil {
+				return status.ErrCloseConnection
+			}
+
+			size -= n
 		}
 
-		if err = writer.Write(d.fileBuff[:n]); err != nil {
+		if err != nil && size > 0 {
+			// the announced length can't be met anymore
 			return status.ErrCloseConnection
 		}
 	}
+
+	return nil
 }
 
 func (d *Serializer) writeChunkedBody(r io.Reader, writer Writer) error {
-- 
2.43.0


From 2d6bdf5cc777598ec7773e3aa87acceb9ec36462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:33 +0000
Subject: [PATCH 20/36] fix: close files that can't be attached

---
 http/response.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/http/response.go b/http/response.go
index ff98e56..8538538 100644
--- a/http/response.go
+++ b/http/response.go
@@ -133,9 +133,11 @@ func (r *Response) TryFile(path string) (*Response, error) {
 	stat, err := fd.Stat()
 	if err != nil {
 		// ...and if we can't get stats on it, it exists, however something in system went wrong
+		_ = fd.Close()
 		return r, status.ErrInternalServerError
 	}
 	if stat.IsDir() {
+		_ = fd.Close()
 		return r, status.ErrNotFound
 	}
 
-- 
2.43.0


From fc8c061fef1966eea6e61717c8627a5b661e743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:33 +0000
Subject: [PATCH 21/36] fix: never write into a memory of a body passed by user

---
 http/response.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http/response.go b/http/response.go
index 8538538..14e60df 100644
--- a/http/response.go
+++ b/http/response.go
@@ -112,7 +112,7 @@ func (r *Response) String(body string) *Response {
 // Bytes sets the response's body to passed slice WITHOUT COPYING. Changing
 // the passed slice later will affect the response by itself
 func (r *Response) Bytes(body []byte) *Response {
-	r.fields.Body = body
+	r.fields.Body = body[:len(body):len(body)]
 	return r
 }
 
@@ -176,7 +176,7 @@ func (r *Response) Cookie(cookies ...cookie.Cookie) *Response {
 // TryJSON receives a model (must be a pointer to the structure) and returns a new Response
 // object and an error
 func (r *Response) TryJSON(model any) (*Response, error) {
-	r.fields.Body = r.fields.Body[:0]
+	r.fields.Body = nil
 	stream := json.ConfigDefault.BorrowStream(r)
 	stream.WriteVal(model)
 	err := stream.Flush()
-- 
2.43.0


From 3f895c450bbb80f741128ccddaa00e805ddd4f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:28 +0000
Subject: [PATCH 22/36] fix: never take the end of a connection for the end of
 a body

---
 internal/protocol/http1/body.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 28ed677..b37831d 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -163,7 +163,7 @@ func (p *plainBodyReader) read() (body []byte, err error) {
 
 	data, err := p.client.Read()
 	if err != nil {
-		return nil, err
+		return nil, truncated(err)
 	}
 
 	if p.bytesLeft > p.maxBodyLen {
@@ -207,7 +207,7 @@ func (c *chunkedBodyReader) read() (body []byte, err error) {
 	client := c.client
 	data, err := client.Read()
 	if err != nil {
-		return nil, err
+		return nil, truncated(err)
 	}
 
 	chunk, extra, err := c.parser.Parse(data, c.encoding.HasTrailer)
@@ -231,3 +231,12 @@ func (c *chunkedBodyReader) read() (body []byte, err error) {
 func adduint(x, y uint) (uint, bool) {
 	return x + y, math.MaxUint-x < y
 }
+
+// truncated distinguishes the end of a connection from the end of a body
+func truncated(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+
+	return err
+}
-- 
2.43.0


From 7ee2f76d06b9d4cba79d76d90314e2e0682e5fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:53 +0000
Subject: [PATCH 23/36] fix: never take a header line received partially for
 the empty one

---
 internal/protocol/http1/parser.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index a7c5fe5..294f1a1 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -202,12 +202,14 @@ headerKey:
 			return Pending, nil, err
 		}
 
-		switch data[0] {
-		case '\n':
+		switch {
+		case headerKeyBuff.SegmentLength() > 0:
+			// a part of the line was received already, so it isn't the empty one
+		case data[0] == '\n':
 			p.cleanup()
 
 			return HeadersCompleted, data[1:], nil
-		case '\r':
+		case data[0] == '\r':
 			data = data[1:]
 			goto headerValueCRLFCR
 		}
-- 
2.43.0


From c8819bab894898d8d924896566507d487319ee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:58 +0000
Subject: [PATCH 24/36] fix: never share the buffer of TRACE responses across
 connections

---
 router/inbuilt/inbuilt.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/router/inbuilt/inbuilt.go b/router/inbuilt/inbuilt.go
index ceb1696..7b63d1a 100644
--- a/router/inbuilt/inbuilt.go
+++ b/router/inbuilt/inbuilt.go
@@ -49,7 +49,6 @@ func New() *Router {
 type runtimeRouter struct {
 	mutators    []Mutator
 	catchers    []Catcher
-	traceBuff   []byte
 	tree        radix.Tree
 	routesMap   routesMap
 	errHandlers errorHandlers
@@ -135,9 +134,7 @@ func (r *runtimeRouter) OnError(request *http.Request, err error) *http.Response
 
 func (r *runtimeRouter) onError(request *http.Request, err error) *http.Response {
 	if request.Method == method.TRACE && err == status.ErrMethodNotAllowed {
-		r.traceBuff = renderHTTPRequest(request, r.traceBuff)
-
-		return traceResponse(request.Respond(), r.traceBuff)
+		return traceResponse(request.Respond(), renderHTTPRequest(request, nil))
 	}
 
 	if err == status.ErrNotFound {
-- 
2.43.0


From e962a7e6209390a9e9d0db535b2885a56ac0781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:32 +0000
Subject: [PATCH 25/36] fix: serve static files of groups, never share their
 path buffer across requests

---
 router/inbuilt/static.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/static.go b/router/inbuilt/static.go
index 1ff7242..195b2ba 100644
--- a/router/inbuilt/static.go
+++ b/router/inbuilt/static.go
@@ -4,18 +4,26 @@ import (
 	"github.com/indigo-web/indigo/http"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/internal/pathlib"
+	"path"
 	"strings"
 )
 
 // Static adds a catcher of prefix, that automatically returns files from defined root
 // directory
 func (r *Router) Static(prefix, root string, mwares ...Middleware) *Router {
-	pathReplacer := pathlib.NewPath(prefix, root)
+	fullPrefix := strings.TrimSuffix(path.Join(r.prefix, prefix), "/") + "/"
+	pathReplacer := pathlib.NewPath(fullPrefix, root)
 
 	return r.Catch(prefix, func(request *http.Request) *http.Response {
+		if !strings.HasPrefix(request.Path, fullPrefix) {
+			return http.Error(request, status.ErrNotFound)
+		}
+
+		// requests are processed simultaneously, so each of them requires its own buffer
+		pathReplacer := *pathReplacer
 		pathReplacer.Set(request.Path)
 		path := pathReplacer.Relative()
-		if !isSafe(path) {
+		if !isSafe(request.Path) {
 			return http.Error(request, status.ErrNotFound)
 		}
 
-- 
2.43.0


From f3cbd3329523f730381b567eeb98a44ae3f20a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:32 +0000
Subject: [PATCH 26/36] fix: handle connections by the handler of their own
 listener, release listeners if binding fails

---
 indi.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/indi.go b/indi.go
index 67219c4..9962b8a 100644
--- a/indi.go
+++ b/indi.go
@@ -127,8 +127,10 @@ func (a *App) bind(r router.Router) ([]*tcp.Server, error) {
 	servers := make([]*tcp.Server, 0, len(a.sources))
 
 	for _, src := range a.sources {
+		src := src
 		listener, err := src.Listen("tcp", src.Addr)
 		if err != nil {
+			tcp.StopAll(servers)
 			return nil, err
 		}
 
-- 
2.43.0


From 667eb3cf54a0957900046f953f8e6808cadae718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:37 +0000
Subject: [PATCH 27/36] fix: never leave server goroutines waiting for a
 stopped application

---
 indi.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/indi.go b/indi.go
index 9962b8a..da9b467 100644
--- a/indi.go
+++ b/indi.go
@@ -9,7 +9,6 @@ import (
 	"github.com/indigo-web/indigo/router/inbuilt"
 	"log"
 	"net"
-	"sync/atomic"
 
 	"github.com/indigo-web/indigo/config"
 	"github.com/indigo-web/indigo/router"
@@ -151,22 +150,22 @@ func (a *App) bind(r router.Router) ([]*tcp.Server, error) {
 }
 
 func (a *App) run(servers []*tcp.Server) error {
-	var failSilently atomic.Bool
+	stopped := make(chan struct{})
 
 	for _, server := range servers {
 		go func(server *tcp.Server) {
 			err := server.Start()
 
-			if failSilently.Swap(true) {
-				return
+			select {
+			case a.errCh <- err:
+			case <-stopped:
 			}
-
-			a.errCh <- err
 		}(server)
 	}
 
 	callIfNotNil(a.hooks.OnStart)
 	err := <-a.errCh
+	close(stopped)
 	if err == status.ErrGracefulShutdown {
 		// stop listening to new clients and process till the end all the old ones
 		tcp.PauseAll(servers)
-- 
2.43.0


From ae61aed8975479f2d6513697926f24ae90ea7610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:26 +0000
Subject: [PATCH 28/36] fix: parse one-letter, empty, leading dynamic and
 unterminated sections of path templates

---
 router/inbuilt/internal/radix/template.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/internal/radix/template.go b/router/inbuilt/internal/radix/template.go
index 26b267b..e39dd31 100644
--- a/router/inbuilt/internal/radix/template.go
+++ b/router/inbuilt/internal/radix/template.go
@@ -31,7 +31,7 @@ func Parse(tmpl string) (Template, error) {
 	var (
 		offset   = 1
 		template = Template{}
-		state    = eStatic
+		state    = eSlash
 	)
 
 	if len(tmpl) == 0 {
@@ -62,6 +62,8 @@ func Parse(tmpl string) (Template, error) {
 		case eSlash:
 			switch tmpl[i] {
 			case '/':
+				template.segments = append(template.segments, Segment{})
+				offset = i + 1
 			case '{':
 				offset = i + 1
 				state = eDynamic
@@ -96,7 +98,11 @@ func Parse(tmpl string) (Template, error) {
 		}
 	}
 
-	if state == eStatic && offset < len(tmpl)-1 {
+	if state == eDynamic {
+		return template, fmt.Errorf(`"%s": dynamic part is never closed`, tmpl)
+	}
+
+	if state == eStatic {
 		template.segments = append(template.segments, Segment{
 			IsWildcard: false,
 			Payload:    tmpl[offset:],
-- 
2.43.0


From 2939a0fcb6ae1bfcad0f9147492125909e60a52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:26 +0000
Subject: [PATCH 29/36] fix: the root path of a dynamic router isn't found
 until registered, neither is an empty one

---
 router/inbuilt/internal/radix/tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/internal/radix/tree.go b/router/inbuilt/internal/radix/tree.go
index e881fd9..bc7a0a4 100644
--- a/router/inbuilt/internal/radix/tree.go
+++ b/router/inbuilt/internal/radix/tree.go
@@ -29,7 +29,7 @@ type Node struct {
 }
 
 func New() *Node {
-	return newNode(new(Payload), false, "")
+	return newNode(nil, false, "")
 }
 
 func newNode(payload *Payload, isDyn bool, dynName string) *Node {
@@ -85,7 +85,7 @@ func (n *Node) insertRecursively(segments []Segment, payload *Payload) error {
 }
 
 func (n *Node) Match(path string, params Params) *Payload {
-	if path[0] != '/' {
+	if len(path) == 0 || path[0] != '/' {
 		// all http request paths MUST have a leading slash
 		return nil
 	}
-- 
2.43.0


From 3aaf324ef0a1a60ccd96b0dfe66f11da0c5e8aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:26 +0000
Subject: [PATCH 30/36] fix: normalize a request's host in the way hosts of
 virtual routers are

---
 router/virtual/virtual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/virtual/virtual.go b/router/virtual/virtual.go
index 6d16820..d4ce732 100644
--- a/router/virtual/virtual.go
+++ b/router/virtual/virtual.go
@@ -114,7 +114,7 @@ func (r *runtimeRouter) getRouter(request *http.Request) (router.Router, *http.R
 		return nil, http.Code(request, status.BadRequest)
 	}
 
-	host := hosts[0]
+	host := domain.Normalize(hosts[0])
 
 	for _, virtRouter := range r.routers {
 		if strcomp.EqualFold(virtRouter.Domain, host) {
-- 
2.43.0


From e097390516297878967bb4f44cce1b19f1886382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:26 +0000
Subject: [PATCH 31/36] fix: escape every byte of multi-byte characters

---
 http/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/path.go b/http/path.go
index a57c967..f767b64 100644
--- a/http/path.go
+++ b/http/path.go
@@ -10,7 +10,7 @@ func Escape(p Path) string {
 		offset int
 	)
 
-	for i := range p {
+	for i := 0; i < len(p); i++ {
 		if !isASCIIPrintable(p[i]) {
 			if buff == nil {
 				buff = allocBuff(len(p))
-- 
2.43.0


From 7c8793320ba0aa5f290d9fab239eceb79af03dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:26 +0000
Subject: [PATCH 32/36] fix: never render a decoded path into the Location
 header

---
 router/inbuilt/middleware/httpsonly.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/middleware/httpsonly.go b/router/inbuilt/middleware/httpsonly.go
index 727d97b..e708810 100644
--- a/router/inbuilt/middleware/httpsonly.go
+++ b/router/inbuilt/middleware/httpsonly.go
@@ -5,6 +5,7 @@ import (
 	"github.com/indigo-web/indigo/http/encryption"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/router/inbuilt"
+	"net/url"
 	"strings"
 )
 
@@ -40,9 +41,9 @@ func HTTPSOnly(optionalParams ...HTTPOnlyParams) inbuilt.Middleware {
 
 		host += ":" + params.Port
 		if len(request.Env.AliasFrom) > 0 {
-			host += request.Env.AliasFrom
+			host += escapePath(request.Env.AliasFrom)
 		} else {
-			host += request.Path
+			host += escapePath(request.Path)
 		}
 
 		return request.Respond().
@@ -51,6 +52,11 @@ func HTTPSOnly(optionalParams ...HTTPOnlyParams) inbuilt.Middleware {
 	}
 }
 
+// escapePath prevents decoded characters, including line breaks, from being rendered as they are
+func escapePath(path string) string {
+	return (&url.URL{Path: path}).EscapedPath()
+}
+
 func removePort(str string) string {
 	if colon := strings.IndexByte(str, ':'); colon != -1 {
 		return str[:colon]
-- 
2.43.0


From 9c0a5c1e29579d8e4c5080ac4093ea5043f72f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:46 +0000
Subject: [PATCH 33/36] fix: middlewares no longer crash on handlers returning
 no response

---
 router/inbuilt/middleware/logging.go      | 4 ++++
 router/inbuilt/middleware/serverheader.go | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/router/inbuilt/middleware/logging.go b/router/inbuilt/middleware/logging.go
index d7fc2a9..c297262 100644
--- a/router/inbuilt/middleware/logging.go
+++ b/router/inbuilt/middleware/logging.go
@@ -18,6 +18,10 @@ func LogRequests(loggers ...Logger) inbuilt.Middleware {
 
 	return func(next inbuilt.Handler, request *http.Request) *http.Response {
 		response := next(request)
+		if response == nil {
+			response = http.Respond(request)
+		}
+
 		if response.Reveal().Code == status.CloseConnection {
 			return response
 		}
diff --git a/router/inbuilt/middleware/serverheader.go b/router/inbuilt/middleware/serverheader.go
index 72898ff..ab426f7 100644
--- a/router/inbuilt/middleware/serverheader.go
+++ b/router/inbuilt/middleware/serverheader.go
@@ -15,7 +15,12 @@ func ServerHeader(customHeaders ...string) inbuilt.Middleware {
 	}
 
 	return func(next inbuilt.Handler, request *http.Request) *http.Response {
-		return next(request).
+		response := next(request)
+		if response == nil {
+			response = http.Respond(request)
+		}
+
+		return response.
 			Header("Server", value)
 	}
 }
-- 
2.43.0


From 942ce85651c468014158d4997c013641e8c81efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:46 +0000
Subject: [PATCH 34/36] fix: never respond to a malformed request as to the
 previous one

---
 http/request.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/request.go b/http/request.go
index fc99838..10e9bef 100644
--- a/http/request.go
+++ b/http/request.go
@@ -171,6 +171,9 @@ func (r *Request) Clear() (err error) {
 		return err
 	}
 
+	r.Method = method.Unknown
+	r.Path = ""
+	r.Proto = proto.HTTP11
 	r.Query.Set(nil)
 	r.Params.Clear()
 	r.Headers.Clear()
-- 
2.43.0


From 828c434912eb8dfa81a7cd9064f722f877dd985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:46 +0000
Subject: [PATCH 35/36] fix: keep the generated private key unreadable for
 others

---
 https.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/https.go b/https.go
index 6891b9e..082e1fe 100644
--- a/https.go
+++ b/https.go
@@ -134,7 +134,7 @@ func generateSelfSignedCert() (cert, key string, err error) {
 		return "", "", err
 	}
 
-	keyFile, err := os.Create(keyFilename)
+	keyFile, err := os.OpenFile(keyFilename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return "", "", err
 	}
-- 
2.43.0


From 34eeda0c1528842d87df709c137ffcd2189526f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:36 +0000
Subject: [PATCH 36/36] fix: no panic on a content type or transfer encoding
 header without values

---
 http/response.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/http/response.go b/http/response.go
index 14e60df..44184ba 100644
--- a/http/response.go
+++ b/http/response.go
@@ -74,6 +74,8 @@ func (r *Response) TransferEncoding(value string) *Response {
 // be appended.
 func (r *Response) Header(key string, values ...string) *Response {
 	switch {
+	case len(values) == 0:
+		return r
 	case strcomp.EqualFold(key, "content-type"):
 		return r.ContentType(values[0])
 	case strcomp.EqualFold(key, "transfer-encoding"):
-- 
2.43.0

