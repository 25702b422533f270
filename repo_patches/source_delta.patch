From fb5599c6444cf62173d8af80dd8e52f4d25763df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 01/43] fix: parseNmtoken looped forever on the first name
 character

---
 parserctx.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index a11dde6..2760d7e 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1747,13 +1747,19 @@ func (ctx *parserCtx) parseNmtoken() (string, error) {
 	buf := bufferPool.Get().(*bytes.Buffer)
 	defer releaseBuffer(buf)
 
-	for c := cur.PeekN(i); c != 0x0; i++ {
-		if !isNameChar(c) {
-			break
-		}
+	for c := cur.PeekN(i); isNameChar(c); c = cur.PeekN(i) {
 		buf.WriteRune(c)
+		i++
+	}
+
+	if i == 1 {
+		return "", ctx.error(ErrNmtokenRequired)
+	}
+	if i > MaxNameLength {
+		return "", ctx.error(ErrNameTooLong)
 	}
 
+	cur.Advance(i - 1)
 	return buf.String(), nil
 }
 
-- 
2.43.0


From 5d47282ae548dd86ba05ef640efda0ce6218faad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 02/43] fix: unterminated CDATA section looped forever, and
 invalid characters were accepted in CDATA

---
 parserctx.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 2760d7e..4bd692c 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -601,9 +601,9 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 	}
 
 	i := 0
-	for c := cur.PeekN(i + 1); c != 0x0; c = cur.PeekN(i + 1) {
+	for c := cur.PeekN(i + 1); isChar(c); c = cur.PeekN(i + 1) {
 		if !cdata {
-			if c == '<' || c == '&' || !isChar(c) {
+			if c == '<' || c == '&' {
 				break
 			}
 		}
@@ -620,6 +620,15 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 		i++
 	}
 
+	if cdata {
+		if cur.PeekN(i+1) != ']' || cur.PeekN(i+2) != ']' || cur.PeekN(i+3) != '>' {
+			return ctx.error(ErrCDATANotFinished)
+		}
+		if i <= 0 { // empty CDATA section: nothing to report
+			return nil
+		}
+	}
+
 	if i <= 0 {
 		pdebug.Dump(cur)
 		return errors.New("Invalid char data")
-- 
2.43.0


From acf2ced7d4e4e6297966fa21e706fdb57aea1ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 03/43] fix: unrecognized content in the internal subset looped
 forever

---
 parserctx.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 4bd692c..62dd004 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2105,8 +2105,10 @@ func (ctx *parserCtx) parseInternalSubset() error {
 	ctx.instate = psDTD
 	cur.Advance(1)
 
-	for !cur.Done() && cur.Peek() != ']' {
-		ctx.skipBlanks()
+	for ctx.skipBlanks(); !cur.Done() && cur.Peek() != ']'; ctx.skipBlanks() {
+		if c := cur.Peek(); c != '<' && c != '%' {
+			return ctx.error(ErrDocTypeNotFinished)
+		}
 		if err := ctx.parseMarkupDecl(); err != nil {
 			return ctx.error(err)
 		}
@@ -2172,6 +2174,8 @@ func (ctx *parserCtx) parseMarkupDecl() error {
 					if err := ctx.parseEntityDecl(); err != nil {
 						return ctx.error(err)
 					}
+				} else {
+					return ctx.error(ErrInvalidDTD)
 				}
 			case 'A': // <!A...
 				if err := ctx.parseAttributeListDecl(); err != nil {
@@ -2186,10 +2190,12 @@ func (ctx *parserCtx) parseMarkupDecl() error {
 					return ctx.error(err)
 				}
 			default:
-				// no op: error detected later?
+				return ctx.error(ErrInvalidDTD)
 			}
 		} else if cur.PeekN(2) == '?' {
 			return ctx.parsePI()
+		} else {
+			return ctx.error(ErrInvalidDTD)
 		}
 	}
 
@@ -3849,7 +3855,7 @@ func (ctx *parserCtx) parseAttributeListDecl() error {
 		panic("did not get rune cursor")
 	}
 	if !cur.ConsumeString("<!ATTLIST") {
-		return nil
+		return ctx.error(ErrInvalidDTD)
 	}
 
 	if !isBlankCh(cur.Peek()) {
@@ -3946,7 +3952,7 @@ func (ctx *parserCtx) parseNotationDecl() error {
 		g := pdebug.IPrintf("START parseNotationDecl")
 		defer g.IRelease("END parseNotationDecl")
 	}
-	return nil
+	return ctx.error(ErrUnimplemented{target: "parseNotationDecl"})
 }
 
 func (ctx *parserCtx) parseExternalID() (string, string, error) {
-- 
2.43.0


From be504d84f7c6f02a67570f5642017ab7e826411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 04/43] fix: attrNormalizeSpace panicked on a value made only
 of spaces

---
 parserctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index 62dd004..7e38869 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3634,7 +3634,7 @@ func (ctx *parserCtx) attrNormalizeSpace(s string) (value string) {
 		out = append(out, 0x20) // append a single space
 	}
 
-	if out[len(out)-1] == 0x20 {
+	if len(out) > 0 && out[len(out)-1] == 0x20 {
 		out = out[:len(out)-1]
 	}
 	value = string(out)
-- 
2.43.0


From 06d5b6f1a403137e517be2e5c99c7095d7d222d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 05/43] fix: unterminated references in entity values read past
 the end of the value

---
 parserctx.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 7e38869..45ed53c 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4447,7 +4447,7 @@ func parseStringCharRef(s []byte) (r rune, width int, err error) {
 	s = s[2:]
 
 	var accumulator func(int32, rune) (int32, error)
-	if s[0] == 'x' {
+	if len(s) > 0 && s[0] == 'x' {
 		s = s[1:]
 		width++
 		accumulator = accumulateHexCharRef
@@ -4455,8 +4455,8 @@ func parseStringCharRef(s []byte) (r rune, width int, err error) {
 		accumulator = accumulateDecimalCharRef
 	}
 
-	for c := s[0]; c != ';'; c = s[0] {
-		val, err = accumulator(val, rune(c))
+	for len(s) > 0 && s[0] != ';' {
+		val, err = accumulator(val, rune(s[0]))
 		if err != nil {
 			width = 0
 			return
@@ -4471,10 +4471,13 @@ func parseStringCharRef(s []byte) (r rune, width int, err error) {
 		width++
 	}
 
-	if s[0] == ';' {
-		s = s[1:]
-		width++
+	if len(s) == 0 {
+		err = ErrSemicolonRequired
+		width = 0
+		return
 	}
+	s = s[1:]
+	width++
 
 	r = rune(val)
 	if !isChar(val) {
@@ -4600,7 +4603,7 @@ func (ctx *parserCtx) parseStringEntityRef(s []byte) (sax.Entity, int, error) {
 	s = s[width:]
 	i += width
 
-	if s[0] != ';' {
+	if len(s) == 0 || s[0] != ';' {
 		return nil, 0, ErrSemicolonRequired
 	}
 	s = s[1:]
@@ -4708,7 +4711,7 @@ func (ctx *parserCtx) parseStringPEReference(s []byte) (sax.Entity, int, error)
 	s = s[width:]
 	i += width
 
-	if s[0] != ';' {
+	if len(s) == 0 || s[0] != ';' {
 		return nil, 0, ErrSemicolonRequired
 	}
 	s = s[1:]
-- 
2.43.0


From 9bf5554358cd6b4e3c5cc8264d55cfc2a64aef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 06/43] fix: character references overflowed int32 and did not
 need a semicolon

---
 document.go  |  4 ++++
 parserctx.go | 26 ++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/document.go b/document.go
index 1feb434..c10d341 100644
--- a/document.go
+++ b/document.go
@@ -383,6 +383,10 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 					return
 				}
 			}
+			if !isChar(charval) {
+				err = ErrInvalidChar
+				return
+			}
 		} else {
 			rdr.UnreadRune()
 			entbuf := bytes.Buffer{}
diff --git a/parserctx.go b/parserctx.go
index 45ed53c..3fef52a 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4410,6 +4410,9 @@ func accumulateDecimalCharRef(val int32, c rune) (int32, error) {
 	} else {
 		return 0, errors.New("invalid decimal CharRef")
 	}
+	if val > unicode.MaxRune {
+		return 0, ErrInvalidChar
+	}
 	return val, nil
 }
 
@@ -4423,6 +4426,9 @@ func accumulateHexCharRef(val int32, c rune) (int32, error) {
 	} else {
 		return 0, errors.New("invalid hex CharRef")
 	}
+	if val > unicode.MaxRune {
+		return 0, ErrInvalidChar
+	}
 	return val, nil
 }
 
@@ -4790,11 +4796,17 @@ func (ctx *parserCtx) parseCharRef() (r rune, err error) {
 				err = errors.New("invalid hex CharRef")
 				return
 			}
+			if val > unicode.MaxRune {
+				err = ErrInvalidChar
+				return
+			}
 			cur.Advance(1)
 		}
-		if cur.Peek() == ';' {
-			cur.Advance(1)
+		if cur.Peek() != ';' {
+			err = ErrSemicolonRequired
+			return
 		}
+		cur.Advance(1)
 	} else if cur.ConsumeString("&#") {
 		for !cur.Done() && cur.Peek() != ';' {
 			c := cur.Peek()
@@ -4804,11 +4816,17 @@ func (ctx *parserCtx) parseCharRef() (r rune, err error) {
 				err = errors.New("invalid decimal CharRef")
 				return
 			}
+			if val > unicode.MaxRune {
+				err = ErrInvalidChar
+				return
+			}
 			cur.Advance(1)
 		}
-		if cur.Peek() == ';' {
-			cur.Advance(1)
+		if cur.Peek() != ';' {
+			err = ErrSemicolonRequired
+			return
 		}
+		cur.Advance(1)
 	} else {
 		err = errors.New("invalid char ref")
 		return
-- 
2.43.0


From fe3af9e5c64a3d4f1fbdf53208a62c3b83077b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 07/43] fix: unterminated comment was reported to the SAX
 handler, advancing past the end of input

---
 parserctx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 3fef52a..ea2815d 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2006,6 +2006,10 @@ func (ctx *parserCtx) parseComment() error {
 		i++
 	}
 
+	if q != '-' || r != '-' || cur.PeekN(i+1) != '>' {
+		return ctx.error(ErrInvalidComment)
+	}
+
 	// -2 for "-->" (note: '>' has not been consumed, so we use -2 instead of -3
 	buf.Truncate(buf.Len() - 2)
 	str := buf.Bytes()
-- 
2.43.0


From 3eca9c80534edc5232ee42dce6386aa2ec9ef7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 08/43] fix: malformed attributes (no =, unquoted or
 unterminated value, no space between) were accepted

---
 parserctx.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index ea2815d..1cd69d1 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -821,6 +821,15 @@ func (ctx *parserCtx) parseStartTag() error {
 		}
 
 		attrs = append(attrs, attr)
+
+		if cur.Peek() == '>' || cur.HasPrefixString("/>") {
+			continue
+		}
+
+		if !isBlankCh(cur.Peek()) {
+			return ctx.error(ErrSpaceRequired)
+		}
+		ctx.skipBlanks()
 	}
 
 	// attributes defaulting
@@ -931,9 +940,10 @@ func (ctx *parserCtx) parseAttributeValue(normalize bool) (value string, entitie
 		defer g.IRelease("END parseAttributeValue")
 	}
 
-	ctx.parseQuotedText(func(qch rune) (string, error) {
-		value, entities, err = ctx.parseAttributeValueInternal(qch, normalize)
-		return "", nil
+	value, err = ctx.parseQuotedText(func(qch rune) (string, error) {
+		v, n, err := ctx.parseAttributeValueInternal(qch, normalize)
+		entities = n
+		return v, err
 	})
 	return
 }
@@ -1074,6 +1084,7 @@ func (ctx *parserCtx) parseAttribute(elemName string) (local string, prefix stri
 	}
 	if cur.Peek() != '=' {
 		err = ctx.error(ErrEqualSignRequired)
+		return
 	}
 	cur.Advance(1)
 	ctx.skipBlanks()
-- 
2.43.0


From 04b112f1cd849d510e7a7f2cbe911fa56f8fe8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 09/43] fix: malformed entity declarations were accepted

---
 parserctx.go | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 1cd69d1..73113d8 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3036,6 +3036,9 @@ func (ctx *parserCtx) parseEntityValue() (string, string, error) {
 	literal, err := ctx.parseQuotedText(func(qch rune) (string, error) {
 		return ctx.parseEntityValueInternal(qch)
 	})
+	if err != nil {
+		return "", "", ctx.error(err)
+	}
 
 	val, err := ctx.decodeEntities([]byte(literal), SubstitutePERef)
 	if err != nil {
@@ -3124,21 +3127,22 @@ func (ctx *parserCtx) parseEntityDecl() error {
 			if pdebug.Enabled {
 				pdebug.Printf("entity declaration '%s' -> '%s'", name, value)
 			}
+			if err != nil {
+				return ctx.error(err)
+			}
 
-			if err == nil {
-				switch err := ctx.fireSAXCallback(cbEntityDecl, name, value); err {
-				case nil, sax.ErrHandlerUnspecified:
-					// no op
-				default:
-					return ctx.error(err)
-				}
+			switch err := ctx.fireSAXCallback(cbEntityDecl, name, value); err {
+			case nil, sax.ErrHandlerUnspecified:
+				// no op
+			default:
+				return ctx.error(err)
 			}
 		} else {
 			if pdebug.Enabled {
 				pdebug.Printf("Attempting to parse external ID")
 			}
 			literal, uri, err = ctx.parseExternalID()
-			if err != nil {
+			if err != nil || (literal == "" && uri == "") {
 				return ctx.error(ErrValueRequired)
 			}
 
@@ -3168,19 +3172,20 @@ func (ctx *parserCtx) parseEntityDecl() error {
 		}
 		if c := cur.Peek(); c == '"' || c == '\'' {
 			literal, value, err = ctx.parseEntityValue()
-			if err == nil {
-				if s := ctx.sax; s != nil {
-					switch err := s.EntityDecl(ctx.userData, name, int(InternalGeneralEntity), "", "", value); err {
-					case nil, sax.ErrHandlerUnspecified:
-						// no op
-					default:
-						return ctx.error(err)
-					}
+			if err != nil {
+				return ctx.error(err)
+			}
+			if s := ctx.sax; s != nil {
+				switch err := s.EntityDecl(ctx.userData, name, int(InternalGeneralEntity), "", "", value); err {
+				case nil, sax.ErrHandlerUnspecified:
+					// no op
+				default:
+					return ctx.error(err)
 				}
 			}
 		} else {
 			literal, uri, err = ctx.parseExternalID()
-			if err != nil {
+			if err != nil || (literal == "" && uri == "") {
 				return ctx.error(ErrValueRequired)
 			}
 
-- 
2.43.0


From c09fd233a15346a943e6911696fe4d675b9a924a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:55 +0000
Subject: [PATCH 10/43] fix: getEntity never looked up declared entities, and
 crashed when no document is built

---
 document.go  | 4 ++++
 parserctx.go | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index c10d341..88b00dd 100644
--- a/document.go
+++ b/document.go
@@ -245,6 +245,10 @@ func (d *Document) CreateElementContent(name string, etype ElementContentType) (
 }
 
 func (d *Document) GetEntity(name string) (ent *Entity, found bool) {
+	if d == nil {
+		return nil, false
+	}
+
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START document.GetEntity '%s'", name)
 		defer func() {
diff --git a/parserctx.go b/parserctx.go
index 73113d8..d75c226 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4553,7 +4553,7 @@ func parseStringName(s []byte) (string, int, error) {
 // the rest of the processing to work.
 func (ctx *parserCtx) getEntity(name string) (*Entity, error) {
 	if ctx.inSubset == 0 {
-		if ret, err := resolvePredefinedEntity(name); err != nil {
+		if ret, err := resolvePredefinedEntity(name); err == nil {
 			return ret, nil
 		}
 	}
-- 
2.43.0


From da410ad06e8804f80c3a7b5064e49939be1f15a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 11/43] fix: reference to an undeclared entity panicked

---
 parserctx.go | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index d75c226..4db6585 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -997,7 +997,9 @@ func (ctx *parserCtx) parseAttributeValueInternal(qch rune, normalize bool) (val
 					return
 				}
 
-				if ent.entityType == InternalPredefinedEntity {
+				if ent == nil {
+					// undeclared entity that a non-validating processor may skip
+				} else if ent.entityType == InternalPredefinedEntity {
 					if ent.content == "&" && !ctx.replaceEntities {
 						b.WriteString("&#38;")
 					} else {
@@ -4113,6 +4115,10 @@ func (ctx *parserCtx) parseReference() error {
 	if err != nil {
 		return ctx.error(err)
 	}
+	if ent == nil {
+		// undeclared entity that a non-validating processor may skip
+		return nil
+	}
 	// if !ctx.wellFormed { return } ??
 
 	wasChecked := ent.checked
@@ -4648,10 +4654,13 @@ func (ctx *parserCtx) parseStringEntityRef(s []byte) (sax.Entity, int, error) {
 			// next, but that's only when XML_PARSE_OLDSAX is enabled.
 			// we won't do that.
 			if ctx.wellFormed && ctx.userData == ctx {
-				loadedEnt, err = ctx.getEntity(name)
+				ent, err := ctx.getEntity(name)
 				if err != nil {
 					return nil, 0, err
 				}
+				if ent != nil {
+					loadedEnt = ent
+				}
 			}
 		}
 	}
@@ -4681,6 +4690,7 @@ func (ctx *parserCtx) parseStringEntityRef(s []byte) (sax.Entity, int, error) {
 			return nil, 0, fmt.Errorf("entity '%s' not defined", name)
 		}
 		// xmlParserEntityCheck ?!
+		return nil, 0, ErrEntityNotFound
 	}
 
 	/*
@@ -4762,10 +4772,10 @@ func (ctx *parserCtx) parseStringPEReference(s []byte) (sax.Entity, int, error)
 	if loadedEnt == nil {
 		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && !ctx.hasPERefs) {
 			return nil, 0, fmt.Errorf("not found: PE rerefence '%%%s'", name)
-		} else {
-			ctx.valid = false
 		}
+		ctx.valid = false
 		// xmlParseEntityCheck(ctxt, 0, NULL, 0)
+		return nil, 0, ErrEntityNotFound
 	} else {
 		switch EntityType(loadedEnt.EntityType()) {
 		case InternalParameterEntity, ExternalParameterEntity:
@@ -4922,14 +4932,11 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 
 	if s := ctx.sax; s != nil {
 		// ask the SAX2 handler nicely
-		var loadedEnt sax.Entity
-		loadedEnt, err = s.GetEntity(ctx.userData, name)
-		if err == nil {
-			ent = loadedEnt.(*Entity)
-			return
+		if loadedEnt, err := s.GetEntity(ctx.userData, name); err == nil {
+			ent, _ = loadedEnt.(*Entity)
 		}
 
-		if loadedEnt == nil && ctx == ctx.userData {
+		if ent == nil && ctx == ctx.userData {
 			ent, _ = ctx.getEntity(name)
 		}
 	}
@@ -4954,7 +4961,7 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 	// declared is a well-formedness constraint only if
 	// standalone='yes'.
 	if ent == nil {
-		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && ctx.hasPERefs) {
+		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && !ctx.hasPERefs) {
 			return nil, ctx.error(ErrUndeclaredEntity)
 		} else {
 			if ctx.inSubset == 0 {
@@ -4967,11 +4974,9 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 					}
 				}
 			}
-			// ent is nil, no? why check?
-			if err := ctx.entityCheck(ent, 0, 0); err != nil {
-				return nil, ctx.error(err)
-			}
+			// the reference is skipped: there is no entity to check or return
 			ctx.valid = false
+			return nil, nil
 		}
 	} else if ent.entityType == ExternalGeneralUnparsedEntity {
 		// [ WFC: Parsed Entity ]
@@ -4994,15 +4999,11 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 	} else {
 		// Internal check, no parameter entities here ...
 		switch ent.entityType {
-		case InternalParameterEntity:
-		case ExternalParameterEntity:
+		case InternalParameterEntity, ExternalParameterEntity:
 			return nil, ctx.error(errors.New("attempt to reference the parameter entity"))
 		}
 	}
 
-	if ent == nil {
-		panic("at the end of parseEntityRef, ent == nil")
-	}
 	// [ WFC: No Recursion ]
 	// A parsed entity must not contain a recursive reference
 	// to itself, either directly or indirectly.
-- 
2.43.0


From d5f85cdfdd9c8eb29b08c4d47bae69dcdc9b45ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 12/43] fix: references to entities with text content failed,
 and unbalanced entity content was accepted

---
 parserctx.go | 8 +++++++-
 tree.go      | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index 4db6585..bb36cf0 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4047,11 +4047,17 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 		return nil, ctx.error(err)
 	}
 	newctx.pushNode(newRoot)
+	newctx.elem = newRoot
 	newctx.doc.AddChild(newRoot)
-	newctx.switchEncoding()
+	if err := newctx.switchEncoding(); err != nil {
+		return nil, ctx.error(err)
+	}
 	if err := newctx.parseContent(); err != nil {
 		return nil, err
 	}
+	if cur := newctx.getCursor(); cur == nil || !cur.Done() {
+		return nil, ctx.error(errors.New("entity content is not well balanced"))
+	}
 
 	if child := newctx.doc.FirstChild(); child != nil {
 		if grandchild := child.FirstChild(); grandchild != nil {
diff --git a/tree.go b/tree.go
index d1cfd2a..a6f89b9 100644
--- a/tree.go
+++ b/tree.go
@@ -467,6 +467,9 @@ func (t *TreeBuilder) Reference(ctxif sax.Context, name string) error {
 	}
 
 	parent := ctx.elem
+	if parent == nil {
+		return errors.New("reference placed in wrong location")
+	}
 	return parent.AddChild(n)
 }
 
-- 
2.43.0


From 38601f8e78ed61728968bb17b8e169f135d5f6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 13/43] fix: an entity referring to itself in an attribute
 value recursed forever

---
 document.go  | 11 ++++++++++-
 reference.go |  7 +++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index 88b00dd..7dcf0d8 100644
--- a/document.go
+++ b/document.go
@@ -324,6 +324,14 @@ func (d *Document) IsMixedElement(name string) (bool, error) {
  * Returns a pointer to the first child
  */
 func (d *Document) stringToNodeList(value string) (ret Node, err error) {
+	return d.stringToNodeListInternal(value, 0)
+}
+
+func (d *Document) stringToNodeListInternal(value string, depth int) (ret Node, err error) {
+	if depth > 40 {
+		return nil, errors.New("entity loop (depth > 40)")
+	}
+
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START document.stringToNodeList '%s'", value)
 		defer func() {
@@ -450,13 +458,14 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 				if ok && ent.FirstChild() == nil {
 					// XXX WTF am I doing here...?
 					var refchildren Node
-					refchildren, err = d.stringToNodeList(string(node.Content()))
+					refchildren, err = d.stringToNodeListInternal(string(ent.Content()), depth+1)
 					if err != nil {
 						return
 					}
 					ent.setFirstChild(refchildren)
 					for n := refchildren; n != nil; {
 						n.SetParent(ent)
+						ent.setLastChild(n)
 						if x := n.NextSibling(); x != nil {
 							n = x
 						} else {
diff --git a/reference.go b/reference.go
index 1eb07e8..d977e25 100644
--- a/reference.go
+++ b/reference.go
@@ -14,6 +14,13 @@ func (e *EntityRef) AddContent(b []byte) error {
 	return addContent(e, b)
 }
 
+// Content returns the content of the referenced entity. The entity itself
+// is linked as the child of the reference, but it is also a child of the DTD,
+// so its siblings have nothing to do with the content of the reference.
+func (e *EntityRef) Content() []byte {
+	return e.content
+}
+
 func (e *EntityRef) AddSibling(cur Node) error {
 	return addSibling(e, cur)
 }
-- 
2.43.0


From 27d55c949368df56d45aec1387ed108f9b2e217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 14/43] fix: namespace declarations leaked out of their
 element, could not be redeclared, and unbound attribute prefixes were
 accepted

---
 attr.go      |  6 ++++++
 parserctx.go | 36 ++++++++++++++++++++++++++++++++++--
 stack.go     |  4 +++-
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/attr.go b/attr.go
index 080f304..558c75d 100644
--- a/attr.go
+++ b/attr.go
@@ -76,9 +76,15 @@ func (n Attribute) Value() string {
 }
 
 func (n Attribute) Prefix() string {
+	if n.ns == nil {
+		return ""
+	}
 	return n.ns.Prefix()
 }
 
 func (n Attribute) URI() string {
+	if n.ns == nil {
+		return ""
+	}
 	return n.ns.URI()
 }
diff --git a/parserctx.go b/parserctx.go
index bb36cf0..478f77c 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -139,7 +139,24 @@ func (ctx *parserCtx) popNode() (elem *Element) {
 	return ctx.nodeTab.Pop()
 }
 
+// checkDuplicateNS makes sure that prefix is not among the last nbNs
+// namespaces, which are those declared by the current element.
+func (ctx *parserCtx) checkDuplicateNS(prefix string, nbNs int) error {
+	if nbNs <= 0 {
+		return nil
+	}
+	for _, item := range ctx.nsTab.Peek(nbNs) {
+		if item.Key() == prefix {
+			return errors.New("duplicate attribute is not allowed")
+		}
+	}
+	return nil
+}
+
 func (ctx *parserCtx) lookupNamespace(prefix string) string {
+	if prefix == XMLPrefix {
+		return XMLNamespace
+	}
 	return ctx.nsTab.Lookup(prefix)
 }
 
@@ -683,6 +700,9 @@ func (ctx *parserCtx) parseElement() error {
 	// For example, given <foo>bar</foo>, the next token would
 	// be bar</foo>. Given <foo />, the next token would
 	// be />
+	nsNr := ctx.nsTab.Len()
+	defer func() { ctx.nsTab.Pop(ctx.nsTab.Len() - nsNr) }()
+
 	if err := ctx.parseStartTag(); err != nil {
 		return ctx.error(err)
 	}
@@ -750,6 +770,9 @@ func (ctx *parserCtx) parseStartTag() error {
 		}
 
 		if attname == XMLNsPrefix && aprefix == "" {
+			if err := ctx.checkDuplicateNS("", nbNs); err != nil {
+				return ctx.error(err)
+			}
 			// <elem xmlns="...">
 			ctx.pushNS("", attvalue)
 			nbNs++
@@ -762,6 +785,8 @@ func (ctx *parserCtx) parseStartTag() error {
 				return ctx.error(ErrSpaceRequired)
 			}
 			ctx.skipBlanks()
+
+			continue
 		} else if aprefix == XMLNsPrefix {
 			var u *url.URL // predeclare, so we can use goto SkipNS
 
@@ -793,8 +818,8 @@ func (ctx *parserCtx) parseStartTag() error {
 				return ctx.error(fmt.Errorf("xmlns:%s: URI %s is not absolute", attname, attvalue))
 			}
 
-			if ctx.nsTab.Lookup(attname) != "" {
-				return ctx.error(errors.New("duplicate attribute is not allowed"))
+			if err := ctx.checkDuplicateNS(attname, nbNs); err != nil {
+				return ctx.error(err)
 			}
 			ctx.pushNS(attname, attvalue)
 			nbNs++
@@ -856,6 +881,12 @@ func (ctx *parserCtx) parseStartTag() error {
 	// we push the element first, because this way we get to
 	// query for the namespace declared on this node as well
 	// via lookupNamespace
+	for _, attr := range attrs {
+		if p := attr.Prefix(); p != "" && ctx.lookupNamespace(p) == "" {
+			return ctx.error(errors.New("namespace '" + p + "' not found"))
+		}
+	}
+
 	nsuri := ctx.lookupNamespace(prefix)
 	if prefix != "" && nsuri == "" {
 		return ctx.error(errors.New("namespace '" + prefix + "' not found"))
@@ -4048,6 +4079,7 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 	}
 	newctx.pushNode(newRoot)
 	newctx.elem = newRoot
+	newctx.nsTab.UniqueStack = append(newctx.nsTab.UniqueStack, ctx.nsTab.UniqueStack...)
 	newctx.doc.AddChild(newRoot)
 	if err := newctx.switchEncoding(); err != nil {
 		return nil, ctx.error(err)
diff --git a/stack.go b/stack.go
index 6d57cf8..1fd5603 100644
--- a/stack.go
+++ b/stack.go
@@ -38,7 +38,9 @@ func newNsStack() nsStack {
 }
 
 func (s *nsStack) Push(prefix, uri string) {
-	s.UniqueStack.Push(nsStackItem{prefix: prefix, href: uri})
+	// an inner declaration shadows the outer one, so this must not be
+	// rejected as a duplicate
+	s.UniqueStack = append(s.UniqueStack, nsStackItem{prefix: prefix, href: uri})
 }
 
 func (s *nsStack) Lookup(prefix string) string {
-- 
2.43.0


From 2bc3489ce711fdc40c7be49fe9a6b887ae66772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 15/43] fix: content starting with "/>" was taken for the end
 of an empty element tag

---
 parserctx.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 478f77c..f277dc7 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -698,7 +698,7 @@ func (ctx *parserCtx) parseElement() error {
 
 	// parseStartTag only parses up to the attributes.
 	// For example, given <foo>bar</foo>, the next token would
-	// be bar</foo>. Given <foo />, the next token would
+	// be >bar</foo>. Given <foo />, the next token would
 	// be />
 	nsNr := ctx.nsTab.Len()
 	defer func() { ctx.nsTab.Pop(ctx.nsTab.Len() - nsNr) }()
@@ -712,6 +712,10 @@ func (ctx *parserCtx) parseElement() error {
 		panic("did not get rune cursor")
 	}
 	if !cur.HasPrefixString("/>") {
+		if cur.Peek() != '>' {
+			return ctx.error(ErrGtRequired)
+		}
+		cur.Advance(1)
 		if err := ctx.parseContent(); err != nil {
 			return ctx.error(err)
 		}
@@ -757,7 +761,6 @@ func (ctx *parserCtx) parseStartTag() error {
 	for ctx.instate != psEOF {
 		ctx.skipBlanks()
 		if cur.Peek() == '>' {
-			cur.Advance(1)
 			break
 		}
 
-- 
2.43.0


From c3262258d4a9cfdb27a8aa3ca8375ea7ee400689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 16/43] fix: white space before the > of an end tag was
 rejected

---
 parserctx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parserctx.go b/parserctx.go
index f277dc7..ee475bb 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -948,6 +948,7 @@ func (ctx *parserCtx) parseEndTag() error {
 			return ctx.error(errors.New("expected end tag '" + e.Name() + "'"))
 		}
 
+		ctx.skipBlanks()
 		if cur.Peek() != '>' {
 			return ctx.error(ErrGtRequired)
 		}
-- 
2.43.0


From 438ba0c7f63010452a87bc7fca52cf31e9ad0a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 17/43] fix: malformed encoding declaration was accepted

---
 parserctx.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index ee475bb..9f51044 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1255,8 +1255,15 @@ func (ctx *parserCtx) parseXMLDecl() error {
 			cur.Advance(2)
 			return nil
 		}
-	} else if _, ok := err.(ErrAttrNotFound); ok {
-		return ctx.error(err)
+	} else {
+		// only the absence of the declaration is not an error
+		perr, ok := err.(ErrParseError)
+		if !ok {
+			return ctx.error(err)
+		}
+		if _, ok := perr.Err.(ErrAttrNotFound); !ok {
+			return ctx.error(err)
+		}
 	}
 
 	vb, err := ctx.parseStandaloneDecl()
-- 
2.43.0


From abe16bf885aa7f3623c9cad7c0fb8ca17b98bfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 18/43] fix: duplicate attributes were accepted when no
 document tree is built

---
 parserctx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 9f51044..2cf55c6 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -848,6 +848,12 @@ func (ctx *parserCtx) parseStartTag() error {
 			value:     attvalue,
 		}
 
+		for _, a := range attrs {
+			if a.Name() == attr.Name() {
+				return ctx.error(ErrDuplicateAttribute)
+			}
+		}
+
 		attrs = append(attrs, attr)
 
 		if cur.Peek() == '>' || cur.HasPrefixString("/>") {
-- 
2.43.0


From 19c233699152fa78c002dd6d4a365fab82889d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 19/43] fix: element declaration without a content
 specification was reported to the SAX handler

---
 parserctx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parserctx.go b/parserctx.go
index 2cf55c6..f29ae6a 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2497,6 +2497,7 @@ func (ctx *parserCtx) parseElementDecl() (ElementTypeVal, error) {
 		      }
 		      return(-1);
 		*/
+		return UndefinedElementType, ctx.error(ErrInvalidElementDecl)
 	}
 
 	ctx.skipBlanks()
-- 
2.43.0


From f5083349783df00f3d043d6d1548a7c5ef91ba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 20/43] fix: mixed content declarations: names after the first
 failed, and the closing )* was not required

---
 parserctx.go | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index f29ae6a..54b9c9f 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2612,6 +2612,7 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 	if !cur.ConsumeString("#PCDATA") {
 		return nil, ctx.error(ErrPCDATARequired)
 	}
+	ctx.skipBlanks()
 
 	if cur.Peek() == ')' {
 		/*
@@ -2638,7 +2639,7 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 	var err error
 	var retelem *ElementContent
 	var curelem *ElementContent
-	if c := cur.Peek(); c == '(' || c == '|' {
+	if cur.Peek() == '|' {
 		retelem, err = ctx.doc.CreateElementContent("", ElementContentPCDATA)
 		if err != nil {
 			return nil, ctx.error(err)
@@ -2665,7 +2666,7 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 			if err != nil {
 				return nil, ctx.error(err)
 			}
-			n.c1, err = ctx.doc.CreateElementContent("", ElementContentElement)
+			n.c1, err = ctx.doc.CreateElementContent(elem, ElementContentElement)
 			if err != nil {
 				return nil, ctx.error(err)
 			}
@@ -2681,19 +2682,13 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 		}
 		ctx.skipBlanks()
 	}
-	if cur.Peek() == ')' && cur.PeekN(2) == '*' {
-		cur.Advance(2)
-		if elem != "" {
-			curelem.c2, err = ctx.doc.CreateElementContent(elem, ElementContentElement)
-			if err != nil {
-				return nil, ctx.error(err)
-			}
-			curelem.c2.parent = curelem
-		}
-
-		if retelem != nil {
-			retelem.coccur = ElementContentMult
+	if elem != "" && cur.ConsumeString(")*") {
+		curelem.c2, err = ctx.doc.CreateElementContent(elem, ElementContentElement)
+		if err != nil {
+			return nil, ctx.error(err)
 		}
+		curelem.c2.parent = curelem
+		retelem.coccur = ElementContentMult
 		/*
 		               if ((ctxt->validate) && (ctxt->input->id != inputchk)) {
 		                   xmlValidityError(ctxt, XML_ERR_ENTITY_BOUNDARY,
@@ -2701,8 +2696,9 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 		                                    NULL, NULL);
 		   					}
 		*/
+		return retelem, nil
 	}
-	return retelem, nil
+	return nil, ctx.error(ErrElementContentNotFinished)
 }
 
 /* *
-- 
2.43.0


From ce846db677ab46e16b93f99b53e193606b91ca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 21/43] fix: element content models: nested groups were lost, *
 and + after a group failed, and a missing ) was not noticed

---
 parserctx.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index 54b9c9f..0d4b0f3 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2748,7 +2748,8 @@ func (ctx *parserCtx) parseElementChildrenContentDeclPriv(depth int) (*ElementCo
 	if cur.Peek() == '(' {
 		cur.Advance(1)
 		ctx.skipBlanks()
-		retelem, err := ctx.parseElementChildrenContentDeclPriv(depth + 1)
+		var err error
+		retelem, err = ctx.parseElementChildrenContentDeclPriv(depth + 1)
 		if err != nil {
 			return nil, ctx.error(err)
 		}
@@ -2878,6 +2879,9 @@ LOOP:
 		curelem.c2 = last
 		last.parent = curelem
 	}
+	if cur.Peek() != ')' {
+		return nil, ctx.error(ErrElementContentNotFinished)
+	}
 	cur.Advance(1)
 	/*
 	   	    if ((ctxt->validate) && (ctxt->input->id != inputchk)) {
@@ -2918,7 +2922,9 @@ LOOP:
 				curelem = curelem.c2
 			}
 		}
+		cur.Advance(1)
 	case '+':
+		cur.Advance(1)
 		if retelem.coccur == ElementContentOpt {
 			retelem.coccur = ElementContentMult
 		} else {
-- 
2.43.0


From f591d8eeaace6a6794af12c3c6b49d215ff61ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 22/43] fix: nesting of elements was not bounded, so deep
 documents overflowed the stack

---
 parser_interface.go | 6 ++++++
 parserctx.go        | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/parser_interface.go b/parser_interface.go
index 9f36949..26f605a 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -32,6 +32,10 @@ const (
 
 const MaxNameLength = 50000
 
+// MaxElementDepth is the maximum number of elements that can be
+// open at the same time
+const MaxElementDepth = 10000
+
 var (
 	ErrAmpersandRequired            = errors.New("'&' was required here")
 	ErrAttrListNotFinished          = errors.New("attrlist must finish with a ')'")
@@ -42,6 +46,7 @@ var (
 	ErrDocTypeNotFinished           = errors.New("doctype not finished")
 	ErrDocumentEnd                  = errors.New("extra content at document end")
 	ErrEOF                          = errors.New("end of file reached")
+	ErrElementTooDeep               = errors.New("elements are nested too deeply")
 	ErrElementContentNotFinished    = errors.New("element content not finished")
 	ErrEmptyDocument                = errors.New("start tag expected, '<' not found")
 	ErrEntityNotFound               = errors.New("entity not found")
@@ -137,6 +142,7 @@ type parserCtx struct {
 	pedantic          bool
 	wellFormed        bool
 	depth             int
+	elemDepth         int
 	loadsubset        LoadSubsetOption
 	elem              *Element // current context element
 
diff --git a/parserctx.go b/parserctx.go
index 0d4b0f3..12ced33 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -700,6 +700,13 @@ func (ctx *parserCtx) parseElement() error {
 	// For example, given <foo>bar</foo>, the next token would
 	// be >bar</foo>. Given <foo />, the next token would
 	// be />
+	// nested elements recurse, so the nesting must be bounded
+	ctx.elemDepth++
+	defer func() { ctx.elemDepth-- }()
+	if ctx.elemDepth > MaxElementDepth {
+		return ctx.error(ErrElementTooDeep)
+	}
+
 	nsNr := ctx.nsTab.Len()
 	defer func() { ctx.nsTab.Pop(ctx.nsTab.Len() - nsNr) }()
 
@@ -4091,6 +4098,7 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 	newctx.sax = ctx.sax
 	newctx.attsDefault = ctx.attsDefault
 	newctx.depth = ctx.depth + 1
+	newctx.elemDepth = ctx.elemDepth
 
 	// create a dummy node
 	newRoot, err := newctx.doc.CreateElement("pseudoroot")
-- 
2.43.0


From 91f00161ba6eb29d30cb34bbc2b419703ad3c841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 23/43] fix: content of CDATA sections was missing from the
 tree

---
 tree.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index a6f89b9..e3d3a0a 100644
--- a/tree.go
+++ b/tree.go
@@ -175,12 +175,13 @@ func (t *TreeBuilder) Characters(ctxif sax.Context, data []byte) error {
 	return n.AddContent(data)
 }
 
-func (t *TreeBuilder) CDataBlock(_ sax.Context, data []byte) error {
+func (t *TreeBuilder) CDataBlock(ctxif sax.Context, data []byte) error {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START tree.CDATABlock")
 		defer g.IRelease("END tree.CDATABlock")
 	}
-	return nil
+	// there is no node type for CDATA sections, so their content becomes text
+	return t.Characters(ctxif, data)
 }
 
 func (t *TreeBuilder) Comment(ctxif sax.Context, data []byte) error {
-- 
2.43.0


From b66889243834f59d5dd5a657021469e904bfefef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 24/43] fix: processing instructions were dumped as empty
 elements, and those in the internal subset were linked twice

---
 document.go |  8 ++++++--
 dump.go     | 13 +++++++++++--
 tree.go     | 11 +++++++++--
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/document.go b/document.go
index 7dcf0d8..6b61873 100644
--- a/document.go
+++ b/document.go
@@ -168,10 +168,14 @@ func (d *Document) CreateNamespace(prefix, uri string) (*Namespace, error) {
 }
 
 func (d *Document) CreatePI(target, data string) (*ProcessingInstruction, error) {
-	return &ProcessingInstruction{
+	pi := &ProcessingInstruction{
 		target: target,
 		data:   data,
-	}, nil
+	}
+	pi.etype = ProcessingInstructionNode
+	pi.name = target
+	pi.doc = d
+	return pi, nil
 }
 
 func (d *Document) CreateDTD() (*DTD, error) {
diff --git a/dump.go b/dump.go
index 0e1983b..b1a7f08 100644
--- a/dump.go
+++ b/dump.go
@@ -265,8 +265,7 @@ func (d *Dumper) dumpDTD(out io.Writer, n Node) error {
 		io.WriteString(out, " ")
 	}
 
-	if len(dtd.entities) == 0 && len(dtd.elements) == 0 && len(dtd.pentities) == 0 && len(dtd.attributes) == 0 {
-		/* (dtd.notations == NULL) && */
+	if dtd.FirstChild() == nil {
 		io.WriteString(out, ">")
 		return nil
 	}
@@ -630,6 +629,16 @@ func (d *Dumper) DumpNode(out io.Writer, n Node) error {
 		out.Write(n.Content())
 		io.WriteString(out, "-->")
 		return nil
+	case ProcessingInstructionNode:
+		pi := n.(*ProcessingInstruction)
+		io.WriteString(out, "<?")
+		io.WriteString(out, pi.target)
+		if pi.data != "" {
+			io.WriteString(out, " ")
+			io.WriteString(out, pi.data)
+		}
+		io.WriteString(out, "?>")
+		return nil
 	case EntityRefNode:
 		io.WriteString(out, "&")
 		io.WriteString(out, n.Name())
diff --git a/tree.go b/tree.go
index e3d3a0a..916c633 100644
--- a/tree.go
+++ b/tree.go
@@ -57,9 +57,9 @@ func (t *TreeBuilder) ProcessingInstruction(ctxif sax.Context, target, data stri
 
 	switch ctx.inSubset {
 	case 1:
-		doc.IntSubset().AddChild(pi)
+		return doc.IntSubset().AddChild(pi)
 	case 2:
-		doc.ExtSubset().AddChild(pi)
+		return doc.ExtSubset().AddChild(pi)
 	}
 
 	parent := ctx.elem
@@ -201,6 +201,13 @@ func (t *TreeBuilder) Comment(ctxif sax.Context, data []byte) error {
 		return err
 	}
 
+	switch ctx.inSubset {
+	case 1:
+		return doc.IntSubset().AddChild(e)
+	case 2:
+		return doc.ExtSubset().AddChild(e)
+	}
+
 	n := ctx.elem
 	if n == nil {
 		doc.AddChild(e)
-- 
2.43.0


From 2d1b254d8504364460d1710a4f1e53da6c1e9dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 25/43] fix: attribute nodes had no type, owner document or
 last child

---
 attr.go     | 1 +
 document.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/attr.go b/attr.go
index 558c75d..2f4bf69 100644
--- a/attr.go
+++ b/attr.go
@@ -28,6 +28,7 @@ func (n *AttributeDecl) SetTreeDoc(doc *Document) {
 
 func newAttribute(name string, ns *Namespace) *Attribute {
 	attr := &Attribute{}
+	attr.etype = AttributeNode
 	attr.name = name
 	attr.ns = ns
 	return attr
diff --git a/document.go b/document.go
index 6b61873..98298b1 100644
--- a/document.go
+++ b/document.go
@@ -141,6 +141,7 @@ func (d *Document) CreateAttribute(name, value string, ns *Namespace) (attr *Att
 	}
 	var n Node
 	attr = newAttribute(name, ns)
+	attr.doc = d
 	if value != "" {
 		n, err = d.stringToNodeList(value)
 		if err != nil {
@@ -153,7 +154,7 @@ func (d *Document) CreateAttribute(name, value string, ns *Namespace) (attr *Att
 			n.SetParent(attr)
 			x := n.NextSibling()
 			if x == nil {
-				n.setLastChild(x)
+				attr.setLastChild(n)
 			}
 			n = x
 		}
-- 
2.43.0


From 205ef951d9a28813d281a5985ce3b91c62616663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 26/43] fix: attribute nodes had no parent

---
 element.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/element.go b/element.go
index a0af9ce..24d932e 100644
--- a/element.go
+++ b/element.go
@@ -101,6 +101,8 @@ func (n *Element) SetAttribute(name, value string) error {
 		return err
 	}
 
+	attr.SetParent(n)
+
 	p := n.properties
 	if p == nil {
 		n.properties = attr
-- 
2.43.0


From 4e0162bb496b0704f266ddfe3b49d4f2466cef26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 27/43] fix: default attributes were reported in random order,
 even when given explicitly, and namespace declarations were not recognized
 among them

---
 attr.go      |  7 +++++++
 parserctx.go | 31 ++++++++++++++++++++++++++++++-
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/attr.go b/attr.go
index 2f4bf69..1c0c2bb 100644
--- a/attr.go
+++ b/attr.go
@@ -76,6 +76,13 @@ func (n Attribute) Value() string {
 	return string(n.Content())
 }
 
+func (n Attribute) Name() string {
+	if prefix := n.Prefix(); prefix != "" {
+		return prefix + ":" + n.name
+	}
+	return n.name
+}
+
 func (n Attribute) Prefix() string {
 	if n.ns == nil {
 		return ""
diff --git a/parserctx.go b/parserctx.go
index 12ced33..b30bd2d 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"net/url"
+	"sort"
 	"strings"
 	"sync"
 	"unicode"
@@ -888,7 +889,35 @@ func (ctx *parserCtx) parseStartTag() error {
 		}
 		defaults, ok := ctx.lookupAttributeDefault(elemName)
 		if ok {
-			for _, attr := range defaults {
+			// go through the defaults in a fixed order, so that the
+			// same document always yields the same events
+			names := make([]string, 0, len(defaults))
+			for name := range defaults {
+				names = append(names, name)
+			}
+			sort.Strings(names)
+
+		DEFAULTS:
+			for _, name := range names {
+				attr := defaults[name]
+				if name == XMLNsPrefix || attr.Prefix() == XMLNsPrefix {
+					nsprefix := ""
+					if name != XMLNsPrefix {
+						nsprefix = attr.LocalName()
+					}
+					if nsprefix != XMLPrefix && ctx.checkDuplicateNS(nsprefix, nbNs) == nil {
+						ctx.pushNS(nsprefix, attr.Value())
+						nbNs++
+					}
+					continue
+				}
+
+				// explicitly specified attributes take precedence
+				for _, a := range attrs {
+					if a.Name() == name {
+						continue DEFAULTS
+					}
+				}
 				attrs = append(attrs, attr)
 			}
 		}
-- 
2.43.0


From 69e26bf3ca2c2ea8751dcc0bd334397f45953b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 28/43] fix: SAX2.Error passed its arguments to the handler as
 a single one

---
 sax/gencbsax.pl | 2 +-
 sax/sax2.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sax/gencbsax.pl b/sax/gencbsax.pl
index 70ae3ee..6990813 100644
--- a/sax/gencbsax.pl
+++ b/sax/gencbsax.pl
@@ -79,7 +79,7 @@ foreach my $func (@handler_funcs) {
         join ", ",
             map { $_ eq "error" ? "ErrHandlerUnspecified" : $_ eq "bool" ? "false" : "nil" }
             split /\s*,\s*/, $ret =~ s{\(([^\)]+)\)}{$1}r;
-    my $bare_args = join ", ", map { (split /\s+/, $_)[0] } split /\s*,\s*/, $args;
+    my $bare_args = join ", ", map { my ($n, $t) = split /\s+/, $_; $t =~ /^\.\.\./ ? "$n..." : $n } split /\s*,\s*/, $args;
     print $out <<EOM
 func (s $klass) $func($args) $ret {
 \tif h := s.${func}Handler; h != nil {
diff --git a/sax/sax2.go b/sax/sax2.go
index 54f2d7b..3f3a61e 100644
--- a/sax/sax2.go
+++ b/sax/sax2.go
@@ -132,7 +132,7 @@ func (s SAX2) EntityDecl(ctx Context, name string, typ int, publicID string, sys
 
 func (s SAX2) Error(ctx Context, message string, args ...interface{}) error {
 	if h := s.ErrorHandler; h != nil {
-		return h(ctx, message, args)
+		return h(ctx, message, args...)
 	}
 	return ErrHandlerUnspecified;
 }
-- 
2.43.0


From b2b144c2fccbc84954fc57993e6b50dc1fdcca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 29/43] fix: GetElementDesc never found the declaration

---
 dtd.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dtd.go b/dtd.go
index 63e72b2..0bf7625 100644
--- a/dtd.go
+++ b/dtd.go
@@ -166,8 +166,12 @@ func (dtd *DTD) LookupParameterEntity(name string) (*Entity, bool) {
 }
 
 func (dtd *DTD) GetElementDesc(name string) (*ElementDecl, bool) {
-	ret, ok := dtd.elements[name]
-	return ret, ok
+	var prefix string
+	if i := strings.IndexByte(name, ':'); i > -1 {
+		prefix = name[:i]
+		name = name[i+1:]
+	}
+	return dtd.LookupElement(name, prefix)
 }
 
 func (dtd *DTD) AddChild(cur Node) error {
-- 
2.43.0


From ac06e689020c0b8b8ffbdadc47d2e1849c385fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 30/43] fix: encodings KOI8-R and KOI8-U could not be loaded by
 their names

---
 encoding/encoding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/encoding.go b/encoding/encoding.go
index 9bce45e..5430b2b 100644
--- a/encoding/encoding.go
+++ b/encoding/encoding.go
@@ -60,9 +60,9 @@ func Load(name string) enc.Encoding {
 		return charmap.ISO8859_7
 	case "iso-8859-8":
 		return charmap.ISO8859_8
-	case "koi8r":
+	case "koi8r", "koi8-r":
 		return charmap.KOI8R
-	case "koir8u":
+	case "koir8u", "koi8u", "koi8-u":
 		return charmap.KOI8U
 	case "macintosh":
 		return charmap.Macintosh
-- 
2.43.0


From a3dc11e416c01c48c44ddda7efbeb837f5474d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 31/43] fix: helium-lint: missing files caused a deadlock, and
 failure to write the output was ignored

---
 cmd/helium-lint/helium-lint.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/helium-lint/helium-lint.go b/cmd/helium-lint/helium-lint.go
index f13cf43..dd07a75 100644
--- a/cmd/helium-lint/helium-lint.go
+++ b/cmd/helium-lint/helium-lint.go
@@ -46,7 +46,7 @@ func _main() int {
 	}
 
 	inputCh := make(chan io.Reader)
-	errCh := make(chan error)
+	errCh := make(chan error, 1) // must not block the goroutine below
 	switch {
 	case len(args) > 0: // filename present
 		go func() {
@@ -84,12 +84,15 @@ func _main() int {
 		}
 
 		d := helium.Dumper{}
-		d.DumpDoc(os.Stdout, doc)
+		if err := d.DumpDoc(os.Stdout, doc); err != nil {
+			fmt.Fprintf(os.Stderr, "%s\n", err)
+			return 1
+		}
 	}
 
 	select {
 	case err := <-errCh:
-		fmt.Fprintf(os.Stderr, "%s", err)
+		fmt.Fprintf(os.Stderr, "%s\n", err)
 		return 1
 	default:
 	}
-- 
2.43.0


From e580c983e26779db79cd9d0f1a8748384b18e9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 32/43] fix: errors writing the output were ignored by the
 dumper

---
 dump.go | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/dump.go b/dump.go
index b1a7f08..091af77 100644
--- a/dump.go
+++ b/dump.go
@@ -196,6 +196,24 @@ func escapeText(w io.Writer, s []byte, escapeNewline bool) error {
 
 type Dumper struct{}
 
+// errWriter remembers the first error that occurred while writing, so that
+// the code below does not need to check each and every write
+type errWriter struct {
+	out io.Writer
+	err error
+}
+
+func (w *errWriter) Write(b []byte) (int, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	n, err := w.out.Write(b)
+	if err != nil {
+		w.err = err
+	}
+	return n, err
+}
+
 func (d *Dumper) writeString(out io.Writer, content string) error {
 	// punt all the magic for now
 	_, err := io.WriteString(out, content)
@@ -208,17 +226,18 @@ func (d *Dumper) DumpDoc(out io.Writer, doc *Document) error {
 		defer g.IRelease("END Dumper.DumpDoc")
 	}
 
-	if err := d.DumpNode(out, doc); err != nil {
+	w := &errWriter{out: out}
+	if err := d.dumpNode(w, doc); err != nil {
 		return err
 	}
 
 	for e := doc.FirstChild(); e != nil; e = e.NextSibling() {
-		if err := d.DumpNode(out, e); err != nil {
+		if err := d.dumpNode(w, e); err != nil {
 			return err
 		}
-		io.WriteString(out, "\n")
+		io.WriteString(w, "\n")
 	}
-	return nil
+	return w.err
 }
 
 func (d *Dumper) dumpDocContent(out io.Writer, n Node) error {
@@ -273,7 +292,7 @@ func (d *Dumper) dumpDTD(out io.Writer, n Node) error {
 	io.WriteString(out, "[\n")
 
 	for e := dtd.FirstChild(); e != nil; e = e.NextSibling() {
-		if err := d.DumpNode(out, e); err != nil {
+		if err := d.dumpNode(out, e); err != nil {
 			return err
 		}
 	}
@@ -607,6 +626,14 @@ func (d *Dumper) dumpNs(out io.Writer, ns *Namespace) error {
 }
 
 func (d *Dumper) DumpNode(out io.Writer, n Node) error {
+	w := &errWriter{out: out}
+	if err := d.dumpNode(w, n); err != nil {
+		return err
+	}
+	return w.err
+}
+
+func (d *Dumper) dumpNode(out io.Writer, n Node) error {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START Dumper.DumpNode '%s'", n.Name())
 		defer g.IRelease("END Dumper.DumpNode")
@@ -710,8 +737,8 @@ func (d *Dumper) DumpNode(out io.Writer, n Node) error {
 				count++
 				if achld.Type() == TextNode {
 					escapeAttrValue(out, achld.Content())
-				} else {
-					d.DumpNode(out, achld)
+				} else if err := d.dumpNode(out, achld); err != nil {
+					return err
 				}
 			}
 			io.WriteString(out, `"`)
@@ -733,7 +760,7 @@ func (d *Dumper) DumpNode(out io.Writer, n Node) error {
 
 	if child := n.FirstChild(); child != nil {
 		for ; child != nil; child = child.NextSibling() {
-			if err := d.DumpNode(out, child); err != nil {
+			if err := d.dumpNode(out, child); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From f8b5398ab99de3819f1b5a9fe1ea7d98f530d1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 33/43] fix: double quotes were dropped when dumping a string
 with both kinds of quotes

---
 dump.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dump.go b/dump.go
index 091af77..c47447c 100644
--- a/dump.go
+++ b/dump.go
@@ -40,6 +40,7 @@ func dumpQuotedString(out io.Writer, s string) error {
 	out.Write(qch_dquote)
 	for len(s) > 0 && dqi > -1 {
 		io.WriteString(out, s[:dqi])
+		out.Write(esc_quot)
 		s = s[dqi+1:]
 		dqi = strings.IndexByte(s, qch_dquote[0])
 	}
-- 
2.43.0


From 73d9f8546db7fb73f946c07e303f743b4fd13e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 34/43] fix: external identifiers of entities and of the
 document type were dumped incorrectly

---
 dump.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dump.go b/dump.go
index c47447c..d3b0e25 100644
--- a/dump.go
+++ b/dump.go
@@ -276,12 +276,14 @@ func (d *Dumper) dumpDTD(out io.Writer, n Node) error {
 	io.WriteString(out, " ")
 
 	if dtd.externalID != "" {
-		io.WriteString(out, " PUBLIC ")
-		io.WriteString(out, dtd.externalID)
+		io.WriteString(out, "PUBLIC ")
+		dumpQuotedString(out, dtd.externalID)
+		io.WriteString(out, " ")
+		dumpQuotedString(out, dtd.systemID)
 		io.WriteString(out, " ")
 	} else if dtd.systemID != "" {
-		io.WriteString(out, " SYSTEM ")
-		io.WriteString(out, dtd.systemID)
+		io.WriteString(out, "SYSTEM ")
+		dumpQuotedString(out, dtd.systemID)
 		io.WriteString(out, " ")
 	}
 
@@ -469,7 +471,7 @@ func (d *Dumper) dumpEntityDecl(out io.Writer, ent *Entity) error {
 	case ExternalGeneralParsedEntity, ExternalGeneralUnparsedEntity:
 		io.WriteString(out, "<!ENTITY ")
 		io.WriteString(out, ent.name)
-		if ent.externalID == "" {
+		if ent.externalID != "" {
 			io.WriteString(out, " PUBLIC ")
 			dumpQuotedString(out, ent.externalID)
 			io.WriteString(out, " ")
@@ -512,6 +514,7 @@ func (d *Dumper) dumpEntityDecl(out io.Writer, ent *Entity) error {
 			io.WriteString(out, " SYSTEM ")
 			dumpQuotedString(out, ent.systemID)
 		}
+		io.WriteString(out, ">\n")
 	default:
 		return errors.New("invalid entity type")
 	}
-- 
2.43.0


From 32a7f9bb8492bfac0f599911c579312679478755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 35/43] fix: attribute declarations of type ENTITIES could not
 be dumped

---
 dump.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dump.go b/dump.go
index d3b0e25..55d1625 100644
--- a/dump.go
+++ b/dump.go
@@ -562,6 +562,8 @@ func (d *Dumper) dumpAttributeDecl(out io.Writer, n *AttributeDecl) error {
 		io.WriteString(out, " IDREFS")
 	case AttrEntity:
 		io.WriteString(out, " ENTITY")
+	case AttrEntities:
+		io.WriteString(out, " ENTITIES")
 	case AttrNmtoken:
 		io.WriteString(out, " NMTOKEN")
 	case AttrNmtokens:
-- 
2.43.0


From 358b501ad0129ffcfbf91be9cc3710da724efc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 36/43] fix: control characters that are not allowed in XML
 were dumped as character references

---
 dump.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dump.go b/dump.go
index 55d1625..31e31ad 100644
--- a/dump.go
+++ b/dump.go
@@ -71,7 +71,7 @@ func isInCharacterRange(r rune) (inrange bool) {
 	return r == 0x09 ||
 		r == 0x0A ||
 		r == 0x0D ||
-		r >= 0x20 && r <= 0xDF77 ||
+		r >= 0x20 && r <= 0xD7FF ||
 		r >= 0xE000 && r <= 0xFFFD ||
 		r >= 0x10000 && r <= 0x10FFFF
 }
@@ -108,7 +108,7 @@ func escapeAttrValue(w io.Writer, s []byte) error {
 			esc = esc_tab
 		default:
 			if !(0x20 <= r && r < 0x80) {
-				if r < 0xE0 {
+				if r < 0xE0 && isInCharacterRange(r) {
 					esc = []byte(fmt.Sprintf("&#x%X;", r))
 					break
 				}
@@ -168,7 +168,7 @@ func escapeText(w io.Writer, s []byte, escapeNewline bool) error {
 			esc = esc_cr
 		default:
 			if !(r == '\t' || (0x20 <= r && r < 0x80)) {
-				if r < 0xE0 {
+				if r < 0xE0 && isInCharacterRange(r) {
 					esc = []byte(fmt.Sprintf("&#x%X;", r))
 					break
 				}
-- 
2.43.0


From 94976057bebc4b0318dcdcbd1619d42eedef10ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 37/43] fix: default values of attribute declarations were
 dumped unescaped, and empty ones not at all

---
 dump.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/dump.go b/dump.go
index 31e31ad..98c1dc4 100644
--- a/dump.go
+++ b/dump.go
@@ -413,6 +413,22 @@ func dumpElementContent(out io.Writer, n *ElementContent, glob bool) error {
 	return nil
 }
 
+// dumpAttrDefault writes the default value of an attribute. References in it
+// have not been expanded, so ampersands are left alone.
+func dumpAttrDefault(out io.Writer, s string) error {
+	out.Write(qch_dquote)
+	for i, part := range strings.Split(s, "&") {
+		if i > 0 {
+			io.WriteString(out, "&")
+		}
+		if err := escapeAttrValue(out, []byte(part)); err != nil {
+			return err
+		}
+	}
+	out.Write(qch_dquote)
+	return nil
+}
+
 func dumpEntityContent(out io.Writer, content string) error {
 	if strings.IndexByte(content, '%') == -1 {
 		dumpQuotedString(out, content)
@@ -595,9 +611,12 @@ func (d *Dumper) dumpAttributeDecl(out io.Writer, n *AttributeDecl) error {
 		return errors.New("invalid AttributeDecl default value type")
 	}
 
-	if n.defvalue != "" {
+	switch n.def {
+	case AttrDefaultNone, AttrDefaultFixed:
 		io.WriteString(out, " ")
-		dumpQuotedString(out, n.defvalue)
+		if err := dumpAttrDefault(out, n.defvalue); err != nil {
+			return err
+		}
 	}
 	io.WriteString(out, ">\n")
 	return nil
-- 
2.43.0


From 73bdaa839c0f5c2a23381e1a8201d8523c9a7d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 38/43] fix: namespace URIs were dumped without escaping, and
 references in them were not expanded

---
 dump.go      | 7 +++++--
 parserctx.go | 9 +++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/dump.go b/dump.go
index 98c1dc4..22fd8a1 100644
--- a/dump.go
+++ b/dump.go
@@ -645,8 +645,11 @@ func (d *Dumper) dumpNs(out io.Writer, ns *Namespace) error {
 		io.WriteString(out, "xmlns:")
 		io.WriteString(out, ns.prefix)
 	}
-	io.WriteString(out, "=")
-	dumpQuotedString(out, ns.href)
+	io.WriteString(out, `="`)
+	if err := escapeAttrValue(out, []byte(ns.href)); err != nil {
+		return err
+	}
+	io.WriteString(out, `"`)
 	return nil
 }
 
diff --git a/parserctx.go b/parserctx.go
index b30bd2d..bd2e57d 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -780,6 +780,15 @@ func (ctx *parserCtx) parseStartTag() error {
 			return ctx.error(err)
 		}
 
+		if (attname == XMLNsPrefix && aprefix == "") || aprefix == XMLNsPrefix {
+			// attvalue may still contain references
+			attr, err := ctx.doc.CreateAttribute(attname, attvalue, nil)
+			if err != nil {
+				return ctx.error(err)
+			}
+			attvalue = attr.Value()
+		}
+
 		if attname == XMLNsPrefix && aprefix == "" {
 			if err := ctx.checkDuplicateNS("", nbNs); err != nil {
 				return ctx.error(err)
-- 
2.43.0


From cebb6e3cd6e9213a77bd409b8dfc81ab31751dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 39/43] fix: a replaced node was still linked to the tree it
 had been removed from

---
 node.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/node.go b/node.go
index 74c637c..6922f70 100644
--- a/node.go
+++ b/node.go
@@ -165,6 +165,10 @@ func (n *docnode) SetParent(cur Node) {
 }
 
 func replaceNode(n Node, cur Node) {
+	if n == cur {
+		return
+	}
+
 	if next := n.NextSibling(); next != nil {
 		cur.SetNextSibling(next) // cur.next = n.next
 		next.SetPrevSibling(cur) // n.next.prev = cur
@@ -184,6 +188,11 @@ func replaceNode(n Node, cur Node) {
 		}
 		cur.SetParent(parent)
 	}
+
+	// n is no longer part of the tree
+	n.SetNextSibling(nil)
+	n.SetPrevSibling(nil)
+	n.SetParent(nil)
 }
 
 func (n node) Namespace() *Namespace {
-- 
2.43.0


From 25ee77128d83999e506bace5cf288c01a825d688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 40/43] fix: references in attribute values were handled like
 references in content

---
 parserctx.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index bd2e57d..9a8bd1e 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1048,6 +1048,11 @@ func (ctx *parserCtx) parseAttributeValueInternal(qch rune, normalize bool) (val
 	if cur == nil {
 		panic("did not get rune cursor")
 	}
+	// tells parseEntityRef which well-formedness constraints apply
+	oldstate := ctx.instate
+	ctx.instate = psAttributeValue
+	defer func() { ctx.instate = oldstate }()
+
 	inSpace := false
 	b := bufferPool.Get().(*bytes.Buffer)
 	defer releaseBuffer(b)
@@ -5068,7 +5073,9 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && !ctx.hasPERefs) {
 			return nil, ctx.error(ErrUndeclaredEntity)
 		} else {
-			if ctx.inSubset == 0 {
+			// a reference in an attribute value is not part of the content,
+			// so it must not be announced as such
+			if ctx.inSubset == 0 && ctx.instate != psAttributeValue {
 				if s := ctx.sax; s != nil {
 					switch err := s.Reference(ctx.userData, name); err {
 					case nil, sax.ErrHandlerUnspecified:
-- 
2.43.0


From 96489272df6be79c7c21d9294e435b870a26c0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:24 +0000
Subject: [PATCH 41/43] fix: a NUL character after a name was silently consumed

---
 parserctx.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 9a8bd1e..c4dd276 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1537,7 +1537,7 @@ func (ctx *parserCtx) parseEncodingName(_ rune) (string, error) {
 	buf.WriteRune(c)
 
 	i := 2
-	for c = cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
+	for c = cur.PeekN(i); ; c = cur.PeekN(i) {
 		if !(c >= 'a' && c <= 'z') && !(c >= 'A' && c <= 'Z') && !(c >= '0' && c <= '9') && c != '.' && c != '_' && c != '-' {
 			i--
 			break
@@ -1738,7 +1738,7 @@ func (ctx *parserCtx) parseName() (name string, err error) {
 	buf.WriteRune(c)
 
 	i := 2
-	for c = cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
+	for c = cur.PeekN(i); ; c = cur.PeekN(i) {
 		if c == ' ' || c == '>' || c == '/' { /* accelerator */
 			i--
 			break
@@ -1923,7 +1923,7 @@ func (ctx *parserCtx) parseNCName() (ncname string, err error) {
 	// at this point we have at least 1 character name.
 	// see how much more we got here
 	i := 2
-	for c = cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
+	for c = cur.PeekN(i); ; c = cur.PeekN(i) {
 		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '_' && c != '-' && c != '.' {
 			i--
 			break
-- 
2.43.0


From a0b4ba9e225554ee69c7e273abaf3546d0653587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:46 +0000
Subject: [PATCH 42/43] fix: dumping a text node whose content is "textnoenc"
 panicked

---
 dump.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dump.go b/dump.go
index 22fd8a1..aa552f4 100644
--- a/dump.go
+++ b/dump.go
@@ -701,8 +701,8 @@ func (d *Dumper) dumpNode(out io.Writer, n Node) error {
 		return nil
 	case TextNode:
 		c := n.Content()
-		if string(c) == XMLTextNoEnc {
-			panic("unimplemented")
+		if n.Name() == XMLTextNoEnc {
+			out.Write(c)
 		} else {
 			escapeText(out, c, false)
 		}
-- 
2.43.0


From 90716b2cb7b4c0b8e42ee212a3c8f4268db4ac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:38 +0000
Subject: [PATCH 43/43] fix: a namespace declaration undeclaring the default
 namespace was not dumped

---
 dump.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dump.go b/dump.go
index aa552f4..e1101a7 100644
--- a/dump.go
+++ b/dump.go
@@ -632,7 +632,7 @@ func (d *Dumper) dumpNsList(out io.Writer, nslist []*Namespace) error {
 }
 
 func (d *Dumper) dumpNs(out io.Writer, ns *Namespace) error {
-	if ns.href == "" {
+	if ns.href == "" && ns.prefix != "" {
 		// no op
 		return nil
 	}
-- 
2.43.0

