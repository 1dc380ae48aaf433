From ba8fabb94cb422691f497fc18073367566bd1602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 01/77] fix: Go map validation compiles when nothing uses the
 key

A map whose value rules generate no code (an empty rule, any: {}, ...) left
the loop variable key unused.
---
 templates/goshared/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/goshared/map.go b/templates/goshared/map.go
index cadf990..1655ac7 100644
--- a/templates/goshared/map.go
+++ b/templates/goshared/map.go
@@ -37,7 +37,7 @@ const mapTpl = `
 
 	{{ if or $r.GetNoSparse (ne (.Elem "" "").Typ "none") (ne (.Key "" "").Typ "none") }}
 		for key, val := range {{ accessor . }} {
-			_ = val
+			_, _ = key, val
 
 			{{ if $r.GetNoSparse }}
 				if val == nil {
-- 
2.43.0


From d0d96c8876986b7dfb709144e1a12daa78862f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 02/77] fix: pad the bytes of Go byte string literals to two
 hex digits

A byte below 0x10 gave an escape Go does not accept, or one that took the
next character in.
---
 templates/goshared/register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index e532d08..6223918 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -199,7 +199,7 @@ func (fns goSharedFuncs) isBytes(f interface {
 func (fns goSharedFuncs) byteStr(x []byte) string {
 	elms := make([]string, len(x))
 	for i, b := range x {
-		elms[i] = fmt.Sprintf(`\x%X`, b)
+		elms[i] = fmt.Sprintf(`\x%02X`, b)
 	}
 
 	return fmt.Sprintf(`"%s"`, strings.Join(elms, ""))
-- 
2.43.0


From f4d56521ae6bef348b124949060eb98a77b8190a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 03/77] fix: define the uuid pattern when only a nested message
 needs it

---
 templates/shared/well_known.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/shared/well_known.go b/templates/shared/well_known.go
index 87f5e98..0747f16 100644
--- a/templates/shared/well_known.go
+++ b/templates/shared/well_known.go
@@ -14,7 +14,7 @@ const (
 )
 
 func FileNeeds(f pgs.File, wk WellKnown) bool {
-	for _, msg := range f.Messages() {
+	for _, msg := range f.AllMessages() {
 		needed := Needs(msg, wk)
 		if needed {
 			return true
-- 
2.43.0


From 7b2ccf0e303a452fd7073cae91a068287d7372e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 04/77] fix: mark errors on map keys as such

The Key() of a validation error was never true.
---
 templates/shared/context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/templates/shared/context.go b/templates/shared/context.go
index a374135..dd8b985 100644
--- a/templates/shared/context.go
+++ b/templates/shared/context.go
@@ -54,6 +54,7 @@ func (ctx RuleContext) Key(name, idx string) (out RuleContext, err error) {
 	out.Field = ctx.Field
 	out.AccessorOverride = name
 	out.Index = idx
+	out.OnKey = true
 
 	out.Typ, out.Rules, out.MessageRules, _ = resolveRules(ctx.Field.Type().Key(), rules.GetKeys())
 
-- 
2.43.0


From 6e645701cb63f9ba4a1216935fd89aac6effa4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 05/77] fix: hostnames with a Kelvin sign are invalid

U+212A lower-cases to an ASCII k.
---
 templates/goshared/known.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/goshared/known.go b/templates/goshared/known.go
index ad32cfc..d5b5c45 100644
--- a/templates/goshared/known.go
+++ b/templates/goshared/known.go
@@ -2,7 +2,7 @@ package goshared
 
 const hostTpl = `
 	func (m {{ (msgTyp .).Pointer }}) _validateHostname(host string) error {
-		s := strings.ToLower(strings.TrimSuffix(host, "."))
+		s := strings.TrimSuffix(host, ".")
 
 		if len(host) > 253 {
 			return errors.New("hostname cannot exceed 253 characters")
@@ -22,7 +22,7 @@ const hostTpl = `
 			}
 
 			for _, r := range part {
-				if (r < 'a' || r > 'z') && (r < '0' || r > '9') && r != '-' {
+				if (r < 'A' || r > 'Z') && (r < 'a' || r > 'z') && (r < '0' || r > '9') && r != '-' {
 					return fmt.Errorf("hostname parts can only contain alphanumeric characters or hyphens, got %q", string(r))
 				}
 			}
-- 
2.43.0


From 23ce279735660e13ded3b542133bcf79165847ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 06/77] fix: email addresses with an @ in the quoted local part
 are valid

The domain of an address starts after its last @.
---
 templates/goshared/known.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/templates/goshared/known.go b/templates/goshared/known.go
index d5b5c45..538ddca 100644
--- a/templates/goshared/known.go
+++ b/templates/goshared/known.go
@@ -44,13 +44,13 @@ const emailTpl = `
 			return errors.New("email addresses cannot exceed 254 characters")
 		}
 
-		parts := strings.SplitN(addr, "@", 2)
+		at := strings.LastIndex(addr, "@")
 
-		if len(parts[0]) > 64 {
+		if at > 64 {
 			return errors.New("email address local phrase cannot exceed 64 characters")
 		}
 
-		return m._validateHostname(parts[1])
+		return m._validateHostname(addr[at+1:])
 	}
 `
 
-- 
2.43.0


From 6e8992caa116a24580a53cea91fcfc2fe5e2b1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:59 +0000
Subject: [PATCH 07/77] fix: HTTP header names do not contain commas

"+-." in a character class is the range from "+" to ".".
---
 module/checker.go                       | 2 +-
 python/protoc_gen_validate/validator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/module/checker.go b/module/checker.go
index d8beabe..cad70d7 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -14,7 +14,7 @@ import (
 )
 
 var unknown = ""
-var httpHeaderName = "^:?[0-9a-zA-Z!#$%&'*+-.^_|~\x60]+$"
+var httpHeaderName = "^:?[0-9a-zA-Z!#$%&'*+\\-.^_|~\x60]+$"
 var httpHeaderValue = "^[^\u0000-\u0008\u000A-\u001F\u007F]*$"
 var headerString = "^[^\u0000\u000A\u000D]*$" // For non-strict validation.
 
diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index bdca00b..9b3bef1 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -16,7 +16,7 @@ printer = ""
 # Well known regex mapping.
 regex_map = {
     "UNKNOWN": "",
-    "HTTP_HEADER_NAME": r'^:?[0-9a-zA-Z!#$%&\'*+-.^_|~\x60]+$',
+    "HTTP_HEADER_NAME": r'^:?[0-9a-zA-Z!#$%&\'*+\-.^_|~\x60]+$',
     "HTTP_HEADER_VALUE": r'^[^\u0000-\u0008\u000A-\u001F\u007F]*$',
     "HEADER_STRING": r'^[^\u0000\u000A\u000D]*$'
 }
-- 
2.43.0


From 8279bf7d753b7e3ec833d5bb11ba50d7940546c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 08/77] fix: rules on list items and map values of wrapper
 types generate Go code

The plugin dereferenced the embedded type of the field itself, which a list
or a map has not, and errors named the field without the index.
---
 templates/goshared/register.go |  7 ++++++-
 templates/shared/context.go    |  2 ++
 templates/shared/well_known.go | 10 ++++++++--
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 6223918..f1982ae 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -291,8 +291,13 @@ func (fns goSharedFuncs) unwrap(ctx shared.RuleContext, name string) (shared.Rul
 		return ctx, err
 	}
 
+	emb := ctx.Field.Type().Embed()
+	if emb == nil { // an item of a list or a value of a map
+		emb = ctx.Field.Type().Element().Embed()
+	}
+
 	ctx.AccessorOverride = fmt.Sprintf("%s.Get%s()", name,
-		pgsgo.PGGUpperCamelCase(ctx.Field.Type().Embed().Fields()[0].Name()))
+		pgsgo.PGGUpperCamelCase(emb.Fields()[0].Name()))
 
 	return ctx, nil
 }
diff --git a/templates/shared/context.go b/templates/shared/context.go
index dd8b985..e857a5f 100644
--- a/templates/shared/context.go
+++ b/templates/shared/context.go
@@ -105,6 +105,8 @@ func (ctx RuleContext) Unwrap(name string) (out RuleContext, err error) {
 		Rules:            ctx.Rules,
 		MessageRules:     ctx.MessageRules,
 		Typ:              ctx.WrapperTyp,
+		OnKey:            ctx.OnKey,
+		Index:            ctx.Index,
 		AccessorOverride: name,
 	}, nil
 }
diff --git a/templates/shared/well_known.go b/templates/shared/well_known.go
index 0747f16..c3d80a2 100644
--- a/templates/shared/well_known.go
+++ b/templates/shared/well_known.go
@@ -34,7 +34,7 @@ func Needs(m pgs.Message, wk WellKnown) bool {
 		}
 
 		switch {
-		case f.Type().IsRepeated() && f.Type().Element().ProtoType() == pgs.StringT:
+		case f.Type().IsRepeated() && isString(f.Type().Element()):
 			if strRulesNeeds(rules.GetRepeated().GetItems().GetString_(), wk) {
 				return true
 			}
@@ -43,7 +43,7 @@ func Needs(m pgs.Message, wk WellKnown) bool {
 				strRulesNeeds(rules.GetMap().GetKeys().GetString_(), wk) {
 				return true
 			}
-			if f.Type().Element().ProtoType() == pgs.StringT &&
+			if isString(f.Type().Element()) &&
 				strRulesNeeds(rules.GetMap().GetValues().GetString_(), wk) {
 				return true
 			}
@@ -61,6 +61,12 @@ func Needs(m pgs.Message, wk WellKnown) bool {
 	return false
 }
 
+// isString returns true for the types that string rules can apply to.
+func isString(t pgs.FieldTypeElem) bool {
+	return t.ProtoType() == pgs.StringT ||
+		t.IsEmbed() && t.Embed().WellKnownType() == pgs.StringValueWKT
+}
+
 func strRulesNeeds(rules *validate.StringRules, wk WellKnown) bool {
 	switch wk {
 	case Email:
-- 
2.43.0


From 636858cd16604b87728774a3e2af4853491409fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:37 +0000
Subject: [PATCH 09/77] fix: import the packages of enums used in lists and
 maps

---
 templates/goshared/register.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index f1982ae..f313f31 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -311,7 +311,11 @@ func (fns goSharedFuncs) externalEnums(file pgs.File) []pgs.Enum {
 
 	for _, msg := range file.AllMessages() {
 		for _, fld := range msg.Fields() {
-			if en := fld.Type().Enum(); fld.Type().IsEnum() && en.Package().ProtoName() != fld.Package().ProtoName() && fns.PackageName(en) != fns.PackageName(fld) {
+			en := fld.Type().Enum()
+			if en == nil && (fld.Type().IsRepeated() || fld.Type().IsMap()) {
+				en = fld.Type().Element().Enum()
+			}
+			if en != nil && en.Package().ProtoName() != fld.Package().ProtoName() && fns.PackageName(en) != fns.PackageName(fld) {
 				out = append(out, en)
 			}
 		}
-- 
2.43.0


From a32b54e2810b23f655a8fb392f2732d6094febdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 10/77] fix: enforce const rules with an empty bytes value

An empty byte slice is false in a template condition, so the rule was
dropped.
---
 templates/cc/const.go          | 2 +-
 templates/goshared/bytes.go    | 2 +-
 templates/java/bytes.go        | 4 ++--
 templates/shared/functions.go  | 1 +
 templates/shared/reflection.go | 7 +++++++
 5 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/templates/cc/const.go b/templates/cc/const.go
index 2d6af9e..6fe87e9 100644
--- a/templates/cc/const.go
+++ b/templates/cc/const.go
@@ -1,7 +1,7 @@
 package cc
 
 const constTpl = `{{ $r := .Rules }}
-	{{ if $r.Const }}
+	{{ if isset $r.Const }}
 		if ({{ accessor . }} != {{ lit $r.GetConst }}) {
 			{{ err . "value must equal " (lit $r.GetConst) }}
 		}
diff --git a/templates/goshared/bytes.go b/templates/goshared/bytes.go
index e9caa66..c431f00 100644
--- a/templates/goshared/bytes.go
+++ b/templates/goshared/bytes.go
@@ -81,7 +81,7 @@ const bytesTpl = `
 		}
 	{{ end }}
 
-	{{ if $r.Const }}
+	{{ if isset $r.Const }}
 		if !bytes.Equal({{ accessor . }}, {{ lit $r.Const }}) {
 			err := {{ err . "value must equal " $r.Const }}
 			if !all { return err }
diff --git a/templates/java/bytes.go b/templates/java/bytes.go
index 52f9f4c..49f37e4 100644
--- a/templates/java/bytes.go
+++ b/templates/java/bytes.go
@@ -1,7 +1,7 @@
 package java
 
 const bytesConstTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
-{{- if $r.Const }}
+{{- if isset $r.Const }}
 		private final com.google.protobuf.ByteString {{ constantName . "Const" }} = com.google.protobuf.ByteString.copyFrom({{ byteArrayLit $r.GetConst }});
 {{- end -}}
 {{- if $r.In }}
@@ -35,7 +35,7 @@ const bytesTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.GetIgnoreEmpty }}
 			if ( !{{ accessor . }}.isEmpty() ) {
 {{- end -}}
-{{- if $r.Const }}
+{{- if isset $r.Const }}
 			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Const" }});
 {{- end -}}
 {{- if $r.Len }}
diff --git a/templates/shared/functions.go b/templates/shared/functions.go
index 2bf111a..36e80b2 100644
--- a/templates/shared/functions.go
+++ b/templates/shared/functions.go
@@ -14,6 +14,7 @@ func RegisterFunctions(tpl *template.Template, params pgs.Parameters) {
 		"context":   rulesContext,
 		"render":    Render(tpl),
 		"has":       Has,
+		"isset":     IsSet,
 		"needs":     Needs,
 		"fileneeds": FileNeeds,
 	})
diff --git a/templates/shared/reflection.go b/templates/shared/reflection.go
index 0e1272c..693cc30 100644
--- a/templates/shared/reflection.go
+++ b/templates/shared/reflection.go
@@ -26,3 +26,10 @@ func Has(msg proto.Message, fld string) bool {
 	return val.IsValid() &&
 		val.FieldByName(fld).IsValid()
 }
+
+// IsSet returns true if an optional value is set. Unlike a plain test in a
+// template, it takes empty bytes for set.
+func IsSet(x interface{}) bool {
+	val := reflect.ValueOf(x)
+	return val.IsValid() && !val.IsNil()
+}
-- 
2.43.0


From 68595679d95add11d2d9b83e77becdef77145ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 11/77] fix: name the undefined in value of an enum rule

---
 module/checker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/module/checker.go b/module/checker.go
index cad70d7..ddc56ae 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -264,7 +264,7 @@ func (m *Module) CheckEnum(ft FieldType, r *validate.EnumRules) {
 
 		for _, in := range r.In {
 			if _, ok = vals[in]; !ok {
-				m.Failf("undefined `in` value (%d) conflicts with `defined_only` rule")
+				m.Failf("undefined `in` value (%d) conflicts with `defined_only` rule", in)
 			}
 		}
 	}
-- 
2.43.0


From cd88b67739ff64e95b17ebd25fa7102ea14e698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 12/77] fix: refuse Any, Duration and Timestamp rules on other
 types

---
 module/checker.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/module/checker.go b/module/checker.go
index ddc56ae..c9a7a69 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -124,10 +124,13 @@ func (m *Module) CheckFieldRules(typ FieldType, rules *validate.FieldRules) {
 	case *validate.FieldRules_Map:
 		m.CheckMap(typ, r.Map)
 	case *validate.FieldRules_Any:
+		m.MustWellKnownType(typ, pgs.AnyWKT)
 		m.CheckAny(typ, r.Any)
 	case *validate.FieldRules_Duration:
+		m.MustWellKnownType(typ, pgs.DurationWKT)
 		m.CheckDuration(typ, r.Duration)
 	case *validate.FieldRules_Timestamp:
+		m.MustWellKnownType(typ, pgs.TimestampWKT)
 		m.CheckTimestamp(typ, r.Timestamp)
 	case nil: // noop
 	default:
@@ -154,6 +157,17 @@ func (m *Module) MustType(typ FieldType, pt pgs.ProtoType, wrapper pgs.WellKnown
 	)
 }
 
+func (m *Module) MustWellKnownType(typ FieldType, wkt pgs.WellKnownType) {
+	m.MustType(typ, pgs.MessageT, pgs.UnknownWKT)
+
+	emb := typ.Embed()
+	m.Assert(
+		emb != nil && emb.IsWellKnown() && emb.WellKnownType() == wkt,
+		" expected a field of type ",
+		wkt.Name(),
+	)
+}
+
 func (m *Module) CheckFloat(r *validate.FloatRules) {
 	m.checkNums(len(r.In), len(r.NotIn), r.Const, r.Lt, r.Lte, r.Gt, r.Gte)
 }
-- 
2.43.0


From 6d3bbe7ba8e881dd92f5e00e130433aa7a557223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 13/77] fix: check message rules on list items and map entries

---
 module/checker.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/module/checker.go b/module/checker.go
index c9a7a69..93216ca 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -55,11 +55,6 @@ func (m *Module) CheckRules(msg pgs.Message) {
 		_, err = f.Extension(validate.E_Rules, &rules)
 		m.CheckErr(err, "unable to read validation rules from field")
 
-		if rules.GetMessage() != nil {
-			m.MustType(f.Type(), pgs.MessageT, pgs.UnknownWKT)
-			m.CheckMessage(f, &rules)
-		}
-
 		m.CheckFieldRules(f.Type(), &rules)
 
 		m.Pop()
@@ -71,6 +66,11 @@ func (m *Module) CheckFieldRules(typ FieldType, rules *validate.FieldRules) {
 		return
 	}
 
+	if rules.GetMessage() != nil {
+		m.MustType(typ, pgs.MessageT, pgs.UnknownWKT)
+		m.CheckMessage(typ, rules)
+	}
+
 	switch r := rules.Type.(type) {
 	case *validate.FieldRules_Float:
 		m.MustType(typ, pgs.FloatT, pgs.FloatValueWKT)
@@ -284,10 +284,10 @@ func (m *Module) CheckEnum(ft FieldType, r *validate.EnumRules) {
 	}
 }
 
-func (m *Module) CheckMessage(f pgs.Field, rules *validate.FieldRules) {
-	m.Assert(f.Type().IsEmbed(), "field is not embedded but got message rules")
-	emb := f.Type().Embed()
-	if emb != nil && emb.IsWellKnown() {
+func (m *Module) CheckMessage(typ FieldType, rules *validate.FieldRules) {
+	emb := typ.Embed()
+	m.Assert(emb != nil, "field is not embedded but got message rules")
+	if emb.IsWellKnown() {
 		switch emb.WellKnownType() {
 		case pgs.AnyWKT:
 			m.Failf("Any rules should be used for Any fields")
-- 
2.43.0


From fb0f30b9b277119ed4d005c7663a2adc5b549138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 14/77] fix: refuse bytes rules with both len and min_len or
 max_len

---
 module/checker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/module/checker.go b/module/checker.go
index 93216ca..d4dd4d1 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -245,6 +245,7 @@ func (m *Module) CheckString(r *validate.StringRules) {
 }
 
 func (m *Module) CheckBytes(r *validate.BytesRules) {
+	m.checkLen(r.Len, r.MinLen, r.MaxLen)
 	m.checkMinMax(r.MinLen, r.MaxLen)
 	m.checkIns(len(r.In), len(r.NotIn))
 	m.checkPattern(r.Pattern, len(r.In))
-- 
2.43.0


From af61a814d6a3b8fc32991a07663e519ebc02ac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:44 +0000
Subject: [PATCH 15/77] fix: list items and map values of wrapper types in C++
 and Java

The plugin dereferenced the embedded type of the field itself, which a list
or a map has not.
---
 templates/cc/register.go   |  8 ++++++--
 templates/java/register.go | 10 ++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index 615932c..e183148 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -403,8 +403,12 @@ func (fns CCFuncs) unwrap(ctx shared.RuleContext, name string) (shared.RuleConte
 		return ctx, err
 	}
 
-	ctx.AccessorOverride = fmt.Sprintf("%s.%s()", name,
-		ctx.Field.Type().Embed().Fields()[0].Name())
+	emb := ctx.Field.Type().Embed()
+	if emb == nil { // an item of a list or a value of a map
+		emb = ctx.Field.Type().Element().Embed()
+	}
+
+	ctx.AccessorOverride = fmt.Sprintf("%s.%s()", name, emb.Fields()[0].Name())
 
 	return ctx, nil
 }
diff --git a/templates/java/register.go b/templates/java/register.go
index 534785a..51af1b6 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -498,12 +498,18 @@ func (fns javaFuncs) isOfStringType(f pgs.Field) bool {
 }
 
 func (fns javaFuncs) unwrap(ctx shared.RuleContext) (shared.RuleContext, error) {
+	wrapped := fns.accessor(ctx)
 	ctx, err := ctx.Unwrap("wrapped")
 	if err != nil {
 		return ctx, err
 	}
-	ctx.AccessorOverride = fmt.Sprintf("%s.get%s()", fns.fieldAccessor(ctx.Field),
-		fns.camelCase(ctx.Field.Type().Embed().Fields()[0].Name()))
+
+	emb := ctx.Field.Type().Embed()
+	if emb == nil { // an item of a list or a value of a map
+		emb = ctx.Field.Type().Element().Embed()
+	}
+
+	ctx.AccessorOverride = fmt.Sprintf("%s.get%s()", wrapped, fns.camelCase(emb.Fields()[0].Name()))
 	return ctx, nil
 }
 
-- 
2.43.0


From 9d10a35c12ddf30063e671373f15f055641cdac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:44 +0000
Subject: [PATCH 16/77] fix: in and not_in rules on wrapper fields in C++

The plugin crashed on the missing element type of the field.
---
 templates/cc/register.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index e183148..ca9854d 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -288,11 +288,14 @@ func (fns CCFuncs) inType(f pgs.Field, x interface{}) string {
 		return "string"
 	case pgs.MessageT:
 		switch x.(type) {
-		case []string:
+		case []string, [][]byte:
 			return "string"
 		case []*durationpb.Duration:
 			return "pgv::protobuf_wkt::Duration"
 		default:
+			if f.Type().IsEmbed() { // a wrapper: the type of its value
+				return fns.cTypeOfString(reflect.TypeOf(x).Elem().String())
+			}
 			return fns.className(f.Type().Element().Embed())
 		}
 	default:
-- 
2.43.0


From d27d7ce1ae8b6dd1b64396ec78123a351f09f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 17/77] fix: compare timestamp bounds outside 1678 to 2262
 exactly

Their nanosecond counts overflow, so that bounds centuries apart were taken to
be equal.
---
 module/checker.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/module/checker.go b/module/checker.go
index d4dd4d1..2dd7b01 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -8,7 +8,6 @@ import (
 
 	"github.com/envoyproxy/protoc-gen-validate/validate"
 	"github.com/lyft/protoc-gen-star"
-	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/durationpb"
 	"google.golang.org/protobuf/types/known/timestamppb"
 )
@@ -511,12 +510,12 @@ func (m *Module) checkDur(d *durationpb.Duration) *time.Duration {
 	return &dur
 }
 
-func (m *Module) checkTS(ts *timestamppb.Timestamp) *int64 {
+func (m *Module) checkTS(ts *timestamppb.Timestamp) *time.Time {
 	if ts == nil {
 		return nil
 	}
 
 	t, err := ts.AsTime(), ts.CheckValid()
 	m.CheckErr(err, "could not resolve timestamp")
-	return proto.Int64(t.UnixNano())
+	return &t
 }
-- 
2.43.0


From 390f7d3305579f101b9f540017042e09b8ecef06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:04 +0000
Subject: [PATCH 18/77] fix: lookup tables for the in, not_in and pattern rules
 of items, keys, values and pointers

The tables were declared for some of these rules only, or with the type of
the field, so that the generated Go code did not compile for in and not_in
rules on most items, keys and values, on bytes wrappers and on proto2 fields,
for patterns on bytes items, for patterns on both keys and values, and for
lists with duplicates. The tables of disabled messages, whose rules are not
checked, could panic at start.
---
 templates/goshared/any.go      |  4 +-
 templates/goshared/bytes.go    |  6 +--
 templates/goshared/duration.go |  4 +-
 templates/goshared/in.go       |  4 +-
 templates/goshared/msg.go      | 83 ++++++++-----------------------
 templates/goshared/register.go | 89 ++++++++++++++++++++++------------
 templates/goshared/repeated.go |  6 +--
 templates/goshared/string.go   |  2 +-
 8 files changed, 91 insertions(+), 107 deletions(-)

diff --git a/templates/goshared/any.go b/templates/goshared/any.go
index a120592..15817da 100644
--- a/templates/goshared/any.go
+++ b/templates/goshared/any.go
@@ -5,13 +5,13 @@ const anyTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 	if a := {{ accessor . }}; a != nil {
 		{{ if $r.In }}
-			if _, ok := {{ lookup $f "InLookup" }}[a.GetTypeUrl()]; !ok {
+			if _, ok := {{ lookup . "InLookup" }}[a.GetTypeUrl()]; !ok {
 				err := {{ err . "type URL must be in list " $r.In }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else if $r.NotIn }}
-			if _, ok := {{ lookup $f "NotInLookup" }}[a.GetTypeUrl()]; ok {
+			if _, ok := {{ lookup . "NotInLookup" }}[a.GetTypeUrl()]; ok {
 				err := {{ err . "type URL must not be in list " $r.NotIn }}
 				if !all { return err }
 				errors = append(errors, err)
diff --git a/templates/goshared/bytes.go b/templates/goshared/bytes.go
index c431f00..e2b70f8 100644
--- a/templates/goshared/bytes.go
+++ b/templates/goshared/bytes.go
@@ -68,13 +68,13 @@ const bytesTpl = `
 	{{ end }}
 
 	{{ if $r.In }}
-		if _, ok := {{ lookup $f "InLookup" }}[string({{ accessor . }})]; !ok {
+		if _, ok := {{ lookup . "InLookup" }}[string({{ accessor . }})]; !ok {
 			err := {{ err . "value must be in list " $r.In }}
 			if !all { return err }
 			errors = append(errors, err)
 		}
 	{{ else if $r.NotIn }}
-		if _, ok := {{ lookup $f "NotInLookup" }}[string({{ accessor . }})]; ok {
+		if _, ok := {{ lookup . "NotInLookup" }}[string({{ accessor . }})]; ok {
 			err := {{ err . "value must not be in list " $r.NotIn }}
 			if !all { return err }
 			errors = append(errors, err)
@@ -110,7 +110,7 @@ const bytesTpl = `
 	{{ end }}
 
 	{{ if $r.Pattern }}
-	if !{{ lookup $f "Pattern" }}.Match({{ accessor . }}) {
+	if !{{ lookup . "Pattern" }}.Match({{ accessor . }}) {
 		err := {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 		if !all { return err }
 		errors = append(errors, err)
diff --git a/templates/goshared/duration.go b/templates/goshared/duration.go
index c039ab5..758dbb0 100644
--- a/templates/goshared/duration.go
+++ b/templates/goshared/duration.go
@@ -103,13 +103,13 @@ const durationcmpTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 
 			{{ if $r.In }}
-				if _, ok := {{ lookup $f "InLookup" }}[dur]; !ok {
+				if _, ok := {{ lookup . "InLookup" }}[dur]; !ok {
 					err := {{ err . "value must be in list " $r.In }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else if $r.NotIn }}
-				if _, ok := {{ lookup $f "NotInLookup" }}[dur]; ok {
+				if _, ok := {{ lookup . "NotInLookup" }}[dur]; ok {
 					err := {{ err . "value must not be in list " $r.NotIn }}
 					if !all { return err }
 					errors = append(errors, err)
diff --git a/templates/goshared/in.go b/templates/goshared/in.go
index b6fdfa4..c72e670 100644
--- a/templates/goshared/in.go
+++ b/templates/goshared/in.go
@@ -2,13 +2,13 @@ package goshared
 
 const inTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ if $r.In }}
-		if _, ok := {{ lookup $f "InLookup" }}[{{ accessor . }}]; !ok {
+		if _, ok := {{ lookup . "InLookup" }}[{{ accessor . }}]; !ok {
 			err := {{ err . "value must be in list " $r.In }}
 			if !all { return err }
 			errors = append(errors, err)
 		}
 	{{ else if $r.NotIn }}
-		if _, ok := {{ lookup $f "NotInLookup" }}[{{ accessor . }}]; ok {
+		if _, ok := {{ lookup . "NotInLookup" }}[{{ accessor . }}]; ok {
 			err := {{ err . "value must not be in list " $r.NotIn }}
 			if !all { return err }
 			errors = append(errors, err)
diff --git a/templates/goshared/msg.go b/templates/goshared/msg.go
index 4e09f77..c53da3d 100644
--- a/templates/goshared/msg.go
+++ b/templates/goshared/msg.go
@@ -132,79 +132,36 @@ var _ interface{
 	ErrorName() string
 } = {{ errname . }}{}
 
-{{ range .Fields }}{{ with (context .) }}{{ $f := .Field }}
-	{{ if has .Rules "In" }}{{ if .Rules.In }}
-		var {{ lookup .Field "InLookup" }} = map[{{ inType .Field .Rules.In }}]struct{}{
-			{{- range .Rules.In }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[{{ inType .Field .Rules.In }}]struct{}{
-			{{- range .Rules.NotIn }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
+{{ if not (disabled .) }}{{ range .Fields }}{{ with (context .) }}
+	{{ template "lookups" . }}
 
-	{{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.GetPattern }})
-	{{ end }}{{ end }}
+	{{ if or (eq .Typ "repeated") (eq .Typ "map") }}{{ template "lookups" (.Elem "" "") }}{{ end }}
 
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "Pattern" }} {{ if .Rules.Items.GetString_.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.Items.GetString_.GetPattern }})
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
+	{{ if eq .Typ "map" }}{{ template "lookups" (.Key "" "") }}{{ end }}
+{{ end }}{{ end }}{{ end }}
+{{- end -}}
+`
 
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "In" }} {{ if .Rules.Items.GetString_.In }}
-		var {{ lookup .Field "InLookup" }} = map[string]struct{}{
-			{{- range .Rules.Items.GetString_.In }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "In" }} {{ if .Rules.Items.GetEnum.In }}
-		var {{ lookup .Field "InLookup" }} = map[{{ inType .Field .Rules.Items.GetEnum.In }}]struct{}{
-			{{- range .Rules.Items.GetEnum.In }}
-				{{ inKey $f . }}: {},
+// The package level variables that the rules of a field, or of its items, keys
+// or values refer to.
+const lookupsTpl = `
+	{{ if has .Rules "In" }}{{ if .Rules.In }}
+		var {{ lookup . "InLookup" }} = map[{{ inType . }}]struct{}{
+			{{- range (inKeys .Rules.In) }}
+				{{ . }}: {},
 			{{- end }}
 		}
 	{{ end }}{{ end }}
-	{{ end }}{{ end }}
 
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "NotIn" }} {{ if .Rules.Items.GetString_.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[string]struct{}{
-			{{- range .Rules.Items.GetString_.NotIn }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "NotIn" }} {{ if .Rules.Items.GetEnum.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[{{ inType .Field .Rules.Items.GetEnum.NotIn }}]struct{}{
-			{{- range .Rules.Items.GetEnum.NotIn }}
-				{{ inKey $f . }}: {},
+	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
+		var {{ lookup . "NotInLookup" }} = map[{{ inType . }}]struct{}{
+			{{- range (inKeys .Rules.NotIn) }}
+				{{ . }}: {},
 			{{- end }}
 		}
 	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Keys"}}{{ if .Rules.Keys }}
-	{{ if has .Rules.Keys.GetString_ "Pattern" }} {{ if .Rules.Keys.GetString_.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.Keys.GetString_.GetPattern }})
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
 
-	{{ if has .Rules "Values"}}{{ if .Rules.Values }}
-	{{ if has .Rules.Values.GetString_ "Pattern" }} {{ if .Rules.Values.GetString_.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.Values.GetString_.GetPattern }})
-	{{ end }}{{ end }}
+	{{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
+		var {{ lookup . "Pattern" }} = regexp.MustCompile({{ lit .Rules.GetPattern }})
 	{{ end }}{{ end }}
-
-{{ end }}{{ end }}
-{{- end -}}
 `
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index f313f31..7ee2ab2 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -32,7 +32,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"errIdxCause":   fns.errIdxCause,
 		"errname":       fns.errName,
 		"multierrname":  fns.multiErrName,
-		"inKey":         fns.inKey,
+		"inKeys":        fns.inKeys,
 		"inType":        fns.inType,
 		"isBytes":       fns.isBytes,
 		"lit":           fns.lit,
@@ -51,6 +51,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 	})
 
 	template.Must(tpl.New("msg").Parse(msgTpl))
+	template.Must(tpl.New("lookups").Parse(lookupsTpl))
 	template.Must(tpl.New("const").Parse(constTpl))
 	template.Must(tpl.New("ltgt").Parse(ltgtTpl))
 	template.Must(tpl.New("in").Parse(inTpl))
@@ -154,7 +155,13 @@ func (fns goSharedFuncs) errIdx(ctx shared.RuleContext, idx string, reason ...in
 	return fns.errIdxCause(ctx, idx, "nil", reason...)
 }
 
-func (fns goSharedFuncs) lookup(f pgs.Field, name string) string {
+func (fns goSharedFuncs) lookup(ctx shared.RuleContext, name string) string {
+	f := ctx.Field
+
+	if ctx.OnKey { // the keys of a map may have rules next to its values
+		name = "Key" + name
+	}
+
 	return fmt.Sprintf(
 		"_%s_%s_%s",
 		fns.Name(f.Message()),
@@ -209,40 +216,60 @@ func (fns goSharedFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
 	return pgsgo.TypeName(fns.OneofOption(f)).Pointer()
 }
 
-func (fns goSharedFuncs) inType(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.BytesT:
+// inType is the Go type that in and not_in rules look values up by.
+func (fns goSharedFuncs) inType(ctx shared.RuleContext) string {
+	typ := ctx.Typ
+	if typ == "wrapper" {
+		typ = ctx.WrapperTyp
+	}
+
+	switch typ {
+	case "float":
+		return "float32"
+	case "double":
+		return "float64"
+	case "int32", "sint32", "sfixed32":
+		return "int32"
+	case "int64", "sint64", "sfixed64":
+		return "int64"
+	case "uint32", "fixed32":
+		return "uint32"
+	case "uint64", "fixed64":
+		return "uint64"
+	case "enum":
+		return fns.Type(ctx.Field).Element().String()
+	case "duration":
+		return "time.Duration"
+	default: // string, bytes, any
 		return "string"
-	case pgs.MessageT:
-		switch x.(type) {
-		case []*durationpb.Duration:
-			return "time.Duration"
-		default:
-			return pgsgo.TypeName(fmt.Sprintf("%T", x)).Element().String()
-		}
-	case pgs.EnumT:
-		if f.Type().IsRepeated() {
-			return strings.TrimLeft(fns.Type(f).String(), "[]")
-		} else {
-			return fns.Type(f).String()
-		}
-	default:
-		return fns.Type(f).String()
 	}
 }
 
-func (fns goSharedFuncs) inKey(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.BytesT:
-		return fns.byteStr(x.([]byte))
-	case pgs.MessageT:
-		switch x := x.(type) {
-		case *durationpb.Duration:
-			dur := x.AsDuration()
-			return fns.lit(int64(dur))
-		default:
-			return fns.lit(x)
+// inKeys are the literals of the values of an in or not_in rule, each once.
+func (fns goSharedFuncs) inKeys(vals interface{}) []string {
+	list := reflect.ValueOf(vals)
+	seen := make(map[string]struct{}, list.Len())
+	out := make([]string, 0, list.Len())
+
+	for i := 0; i < list.Len(); i++ {
+		key := fns.inKey(list.Index(i).Interface())
+		if _, ok := seen[key]; ok {
+			continue
 		}
+
+		seen[key] = struct{}{}
+		out = append(out, key)
+	}
+
+	return out
+}
+
+func (fns goSharedFuncs) inKey(x interface{}) string {
+	switch x := x.(type) {
+	case []byte:
+		return fns.byteStr(x)
+	case *durationpb.Duration:
+		return fns.lit(int64(x.AsDuration()))
 	default:
 		return fns.lit(x)
 	}
diff --git a/templates/goshared/repeated.go b/templates/goshared/repeated.go
index a98f350..c5a7ce5 100644
--- a/templates/goshared/repeated.go
+++ b/templates/goshared/repeated.go
@@ -36,7 +36,7 @@ const repTpl = `
 	{{ end }}
 
 	{{ if $r.GetUnique }}
-		{{ lookup $f "Unique" }} := {{ if isBytes $f.Type.Element -}}
+		{{ lookup . "Unique" }} := {{ if isBytes $f.Type.Element -}}
 			make(map[string]struct{}, len({{ accessor . }}))
 		{{ else -}}
 			make(map[{{ (typ $f).Element }}]struct{}, len({{ accessor . }}))
@@ -47,12 +47,12 @@ const repTpl = `
 		for idx, item := range {{ accessor . }} {
 			_, _ = idx, item
 			{{ if $r.GetUnique }}
-				if _, exists := {{ lookup $f "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}]; exists {
+				if _, exists := {{ lookup . "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}]; exists {
 					err := {{ errIdx . "idx" "repeated value must contain unique items" }}
 					if !all { return err }
 					errors = append(errors, err)
 				} else {
-					{{ lookup $f "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}] = struct{}{}
+					{{ lookup . "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}] = struct{}{}
 				}
 			{{ end }}
 
diff --git a/templates/goshared/string.go b/templates/goshared/string.go
index 8df69b3..d64ba92 100644
--- a/templates/goshared/string.go
+++ b/templates/goshared/string.go
@@ -176,7 +176,7 @@ const strTpl = `
 	{{ end }}
 
 	{{ if $r.Pattern }}
-		if !{{ lookup $f "Pattern" }}.MatchString({{ accessor . }}) {
+		if !{{ lookup . "Pattern" }}.MatchString({{ accessor . }}) {
 			err := {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 			if !all { return err }
 			errors = append(errors, err)
-- 
2.43.0


From feeb5174d9be9ccfaeec051befbc9ad4f5937f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 19/77] fix: treat proto3 optional fields as fields and not as
 oneofs

The compiler wraps them in a oneof that has no counterpart in the generated
Go, C++ and Java code, so validators of such fields did not compile. Their
rules now apply if the field is set.
---
 templates/cc/msg.go           |  6 ++++--
 templates/goshared/msg.go     |  6 ++++--
 templates/java/msg.go         | 10 ++++++----
 templates/shared/disabled.go  | 28 ++++++++++++++++++++++++++++
 templates/shared/functions.go |  3 +++
 5 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/templates/cc/msg.go b/templates/cc/msg.go
index a54450e..1c508ef 100644
--- a/templates/cc/msg.go
+++ b/templates/cc/msg.go
@@ -99,10 +99,12 @@ bool Validate(const {{ class . }}& m, pgv::ValidationMsg* err) {
 {{- if disabled . }}
 	return true;
 {{ else -}}
-		{{ range .NonOneOfFields }}
+		{{ range (fields .) }}
+			{{- if optional . }}if ({{ hasAccessor (context .) }}) { {{ end -}}
 			{{- render (context .) -}}
+			{{- if optional . }} } {{ end -}}
 		{{ end -}}
-		{{ range .OneOfs }}
+		{{ range (oneofs .) }}
 			switch (m.{{ .Name }}_case()) {
 				{{ range .Fields -}}
 					case {{ oneof . }}:
diff --git a/templates/goshared/msg.go b/templates/goshared/msg.go
index c53da3d..28dcc0c 100644
--- a/templates/goshared/msg.go
+++ b/templates/goshared/msg.go
@@ -29,11 +29,13 @@ func (m {{ (msgTyp .).Pointer }}) validate(all bool) error {
 
 		var errors []error
 
-		{{ range .NonOneOfFields }}
+		{{ range (fields .) }}
+			{{ if optional . }}if m.{{ name . }} != nil { {{ end }}
 			{{ render (context .) }}
+			{{ if optional . }} } {{ end }}
 		{{ end }}
 
-		{{ range .OneOfs }}
+		{{ range (oneofs .) }}
 			switch m.{{ name . }}.(type) {
 				{{ range .Fields }}
 					case {{ oneof . }}:
diff --git a/templates/java/msg.go b/templates/java/msg.go
index 26ba40a..e800d94 100644
--- a/templates/java/msg.go
+++ b/templates/java/msg.go
@@ -12,10 +12,10 @@ const msgTpl = `
 `
 
 const msgInnerTpl = `
-	{{- range .NonOneOfFields }}
+	{{- range (fields .) }}
 		{{ renderConstants (context .) }}
 	{{ end }}
-	{{ range .OneOfs }}
+	{{ range (oneofs .) }}
 		{{ template "oneOfConst" . }}
 	{{ end }}
 
@@ -24,10 +24,12 @@ const msgInnerTpl = `
 		// Validate is disabled for {{ simpleName . }}
 		return;
 	{{- else -}}
-	{{ range .NonOneOfFields -}}
+	{{ range (fields .) -}}
+		{{ if optional . }}if ({{ hasAccessor (context .) }}) { {{ end -}}
 		{{ render (context .) }}
+		{{ if optional . }} } {{ end -}}
 	{{ end -}}
-	{{ range .OneOfs }}
+	{{ range (oneofs .) }}
 		{{ template "oneOf" . }}
 	{{- end -}}
 	{{- end }}
diff --git a/templates/shared/disabled.go b/templates/shared/disabled.go
index 4ad3c1c..66b84f8 100644
--- a/templates/shared/disabled.go
+++ b/templates/shared/disabled.go
@@ -22,3 +22,31 @@ func RequiredOneOf(oo pgs.OneOf) (required bool, err error) {
 	_, err = oo.Extension(validate.E_Required, &required)
 	return
 }
+
+// FieldsOutsideOneOfs returns the fields of msg that are not part of a oneof.
+// The oneof that the compiler wraps around an `optional` field does not count.
+func FieldsOutsideOneOfs(msg pgs.Message) (out []pgs.Field) {
+	for _, f := range msg.Fields() {
+		if !f.InOneOf() || f.Descriptor().GetProto3Optional() {
+			out = append(out, f)
+		}
+	}
+	return out
+}
+
+// RealOneOfs returns the oneofs that are declared in msg.
+func RealOneOfs(msg pgs.Message) (out []pgs.OneOf) {
+	for _, oo := range msg.OneOfs() {
+		if fs := oo.Fields(); len(fs) == 1 && fs[0].Descriptor().GetProto3Optional() {
+			continue
+		}
+		out = append(out, oo)
+	}
+	return out
+}
+
+// HasPresence returns true if f is an `optional` scalar. Its rules apply if it
+// is set.
+func HasPresence(f pgs.Field) bool {
+	return f.Descriptor().GetProto3Optional() && !f.Type().IsEmbed()
+}
diff --git a/templates/shared/functions.go b/templates/shared/functions.go
index 36e80b2..b6af602 100644
--- a/templates/shared/functions.go
+++ b/templates/shared/functions.go
@@ -8,6 +8,9 @@ import (
 
 func RegisterFunctions(tpl *template.Template, params pgs.Parameters) {
 	tpl.Funcs(map[string]interface{}{
+		"fields":    FieldsOutsideOneOfs,
+		"oneofs":    RealOneOfs,
+		"optional":  HasPresence,
 		"disabled":  Disabled,
 		"ignored":   Ignored,
 		"required":  RequiredOneOf,
-- 
2.43.0


From c14270081503b8db52fea699a73fcc1932646dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 20/77] fix: name fields and oneofs as protoc-gen-go does when
 their getters collide

---
 templates/goshared/register.go | 59 +++++++++++++++++++++++++++++++++-
 1 file changed, 58 insertions(+), 1 deletion(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 7ee2ab2..d419013 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -92,6 +92,49 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 
 type goSharedFuncs struct{ pgsgo.Context }
 
+// Name is the name that protoc-gen-go gives a node.
+func (fns goSharedFuncs) Name(node pgs.Node) pgs.Name {
+	switch n := node.(type) {
+	case pgs.Field:
+		if name, ok := fns.memberNames(n.Message())[n.FullyQualifiedName()]; ok {
+			return name
+		}
+	case pgs.OneOf:
+		if name, ok := fns.memberNames(n.Message())[n.FullyQualifiedName()]; ok {
+			return name
+		}
+	}
+
+	return fns.Context.Name(node)
+}
+
+// memberNames are the names of the fields and oneofs of m, which protoc-gen-go
+// chooses such that neither they nor the getters of the fields collide.
+func (fns goSharedFuncs) memberNames(m pgs.Message) map[string]pgs.Name {
+	used := map[pgs.Name]bool{
+		"Reset": true, "String": true, "ProtoMessage": true, "Marshal": true, "Unmarshal": true,
+		"ExtensionRangeArray": true, "ExtensionMap": true, "Descriptor": true,
+	}
+	unique := func(name pgs.Name, hasGetter bool) pgs.Name {
+		for used[name] || (hasGetter && used["Get"+name]) {
+			name += "_"
+		}
+		used[name] = true
+		used["Get"+name] = hasGetter
+		return name
+	}
+
+	out := make(map[string]pgs.Name, len(m.Fields()))
+	for _, f := range m.Fields() {
+		out[f.FullyQualifiedName()] = unique(pgsgo.PGGUpperCamelCase(f.Name()), true)
+		if f.InOneOf() && f.OneOf().Fields()[0] == f {
+			out[f.OneOf().FullyQualifiedName()] = unique(pgsgo.PGGUpperCamelCase(f.OneOf().Name()), false)
+		}
+	}
+
+	return out
+}
+
 func (fns goSharedFuncs) accessor(ctx shared.RuleContext) string {
 	if ctx.AccessorOverride != "" {
 		return ctx.AccessorOverride
@@ -213,7 +256,21 @@ func (fns goSharedFuncs) byteStr(x []byte) string {
 }
 
 func (fns goSharedFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
-	return pgsgo.TypeName(fns.OneofOption(f)).Pointer()
+	n := fmt.Sprintf("%s_%s", fns.Name(f.Message()), fns.Name(f))
+
+	for _, msg := range f.Message().Messages() {
+		if fns.Name(msg).String() == n {
+			n += "_"
+		}
+	}
+
+	for _, en := range f.Message().Enums() {
+		if fns.Name(en).String() == n {
+			n += "_"
+		}
+	}
+
+	return pgsgo.TypeName(n).Pointer()
 }
 
 // inType is the Go type that in and not_in rules look values up by.
-- 
2.43.0


From e2596ca406a07be51ef79b71d74520b35ef4ba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 21/77] fix: import the enums of all other Go packages, under
 names that nothing else has

---
 templates/go/file.go           |  5 ++-
 templates/goshared/enum.go     |  2 +-
 templates/goshared/register.go | 71 ++++++++++++++++++++++++++++++----
 templates/goshared/repeated.go |  2 +-
 4 files changed, 69 insertions(+), 11 deletions(-)

diff --git a/templates/go/file.go b/templates/go/file.go
index 81cbf64..4251b0a 100644
--- a/templates/go/file.go
+++ b/templates/go/file.go
@@ -19,7 +19,8 @@ import (
 
 	"google.golang.org/protobuf/types/known/anypb"
 
-	{{ range $path, $pkg := enumPackages (externalEnums .) }}
+	{{ $enumPkgs := enumPackages (externalEnums .) }}
+	{{ range $path, $pkg := $enumPkgs }}
 		{{ $pkg }} "{{ $path }}"
 	{{ end }}
 )
@@ -39,7 +40,7 @@ var (
 	_ = anypb.Any{}
 
 	{{ range (externalEnums .) }}
-		_ = {{ pkg . }}.{{ name . }}(0)
+		_ = {{ index $enumPkgs (importPath .) }}.{{ name . }}(0)
 	{{ end }}
 )
 
diff --git a/templates/goshared/enum.go b/templates/goshared/enum.go
index ffd6dc6..33dc647 100644
--- a/templates/goshared/enum.go
+++ b/templates/goshared/enum.go
@@ -6,7 +6,7 @@ const enumTpl = `
 		{{ template "in" . }}
 
 		{{ if $r.GetDefinedOnly }}
-			if _, ok := {{ (typ $f).Element }}_name[int32({{ accessor . }})]; !ok {
+			if _, ok := {{ enumTyp $f }}_name[int32({{ accessor . }})]; !ok {
 				err := {{ err . "value must be one of the defined enum values" }}
 				if !all { return err }
 				errors = append(errors, err)
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index d419013..dfaa2df 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -2,7 +2,9 @@ package goshared
 
 import (
 	"fmt"
+	"go/types"
 	"reflect"
+	"sort"
 	"strings"
 	"text/template"
 
@@ -48,6 +50,8 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"unwrap":        fns.unwrap,
 		"externalEnums": fns.externalEnums,
 		"enumPackages":  fns.enumPackages,
+		"enumTyp":       fns.enumTyp,
+		"importPath":    fns.ImportPath,
 	})
 
 	template.Must(tpl.New("msg").Parse(msgTpl))
@@ -294,7 +298,7 @@ func (fns goSharedFuncs) inType(ctx shared.RuleContext) string {
 	case "uint64", "fixed64":
 		return "uint64"
 	case "enum":
-		return fns.Type(ctx.Field).Element().String()
+		return fns.enumTyp(ctx.Field).String()
 	case "duration":
 		return "time.Duration"
 	default: // string, bytes, any
@@ -390,16 +394,13 @@ func (fns goSharedFuncs) msgTyp(message pgs.Message) pgsgo.TypeName {
 	return pgsgo.TypeName(fns.Name(message))
 }
 
+// externalEnums are the enums of other Go packages that the fields of file have.
 func (fns goSharedFuncs) externalEnums(file pgs.File) []pgs.Enum {
 	var out []pgs.Enum
 
 	for _, msg := range file.AllMessages() {
 		for _, fld := range msg.Fields() {
-			en := fld.Type().Enum()
-			if en == nil && (fld.Type().IsRepeated() || fld.Type().IsMap()) {
-				en = fld.Type().Element().Enum()
-			}
-			if en != nil && en.Package().ProtoName() != fld.Package().ProtoName() && fns.PackageName(en) != fns.PackageName(fld) {
+			if en := fieldEnum(fld); en != nil && fns.ImportPath(en) != fns.ImportPath(fld) {
 				out = append(out, en)
 			}
 		}
@@ -408,16 +409,72 @@ func (fns goSharedFuncs) externalEnums(file pgs.File) []pgs.Enum {
 	return out
 }
 
+// usedNames are names that generated code uses for other things than the
+// packages of enums.
+var usedNames = []pgs.Name{
+	"bytes", "errors", "fmt", "net", "mail", "url", "regexp", "strings", "time", "utf8", "anypb",
+	"addr", "all", "as", "cause", "d", "dur", "e", "email", "err", "exists", "gt", "gte", "host",
+	"i", "idx", "ip", "item", "key", "l", "lt", "lte", "m", "matched", "msgs", "now", "ok", "part",
+	"r", "s", "t", "ts", "uri", "uuid", "v", "val", "within", "wrapper",
+}
+
+// enumPackages are the packages of enums, by import path, each with a name
+// that nothing else in the generated file has.
 func (fns goSharedFuncs) enumPackages(enums []pgs.Enum) map[pgs.FilePath]pgs.Name {
+	used := make(map[pgs.Name]bool, len(usedNames)+len(enums))
+	for _, name := range usedNames {
+		used[name] = true
+	}
+
+	enums = append([]pgs.Enum(nil), enums...)
+	sort.SliceStable(enums, func(i, j int) bool {
+		return fns.ImportPath(enums[i]) < fns.ImportPath(enums[j])
+	})
+
 	out := make(map[pgs.FilePath]pgs.Name, len(enums))
 
 	for _, en := range enums {
-		out[fns.ImportPath(en)] = fns.PackageName(en)
+		path := fns.ImportPath(en)
+		if _, ok := out[path]; ok {
+			continue
+		}
+
+		pkg := fns.PackageName(en)
+		name := pkg
+		for i := 1; used[name] || types.Universe.Lookup(name.String()) != nil; i++ {
+			name = pgs.Name(fmt.Sprintf("%s%d", pkg, i))
+		}
+
+		used[name] = true
+		out[path] = name
 	}
 
 	return out
 }
 
+func fieldEnum(f pgs.Field) pgs.Enum {
+	if f.Type().IsRepeated() || f.Type().IsMap() {
+		return f.Type().Element().Enum()
+	}
+
+	return f.Type().Enum()
+}
+
+// enumTyp is the Go type of the enum of a field, or of its elements, as it is
+// called in the file of the field.
+func (fns goSharedFuncs) enumTyp(f pgs.Field) pgsgo.TypeName {
+	en := fieldEnum(f)
+	typ := pgsgo.TypeName(fns.Name(en))
+
+	if fns.ImportPath(en) == fns.ImportPath(f) {
+		return typ
+	}
+
+	pkgs := fns.enumPackages(fns.externalEnums(f.File()))
+
+	return pgsgo.TypeName(fmt.Sprintf("%s.%s", pkgs[fns.ImportPath(en)], typ))
+}
+
 func (fns goSharedFuncs) snakeCase(name string) string {
 	return strcase.ToSnake(name)
 }
diff --git a/templates/goshared/repeated.go b/templates/goshared/repeated.go
index c5a7ce5..5272f8e 100644
--- a/templates/goshared/repeated.go
+++ b/templates/goshared/repeated.go
@@ -39,7 +39,7 @@ const repTpl = `
 		{{ lookup . "Unique" }} := {{ if isBytes $f.Type.Element -}}
 			make(map[string]struct{}, len({{ accessor . }}))
 		{{ else -}}
-			make(map[{{ (typ $f).Element }}]struct{}, len({{ accessor . }}))
+			make(map[{{ if $f.Type.Element.IsEnum }}{{ enumTyp $f }}{{ else }}{{ (typ $f).Element }}{{ end }}]struct{}, len({{ accessor . }}))
 		{{ end -}}
 	{{ end }}
 
-- 
2.43.0


From 1e56ba0630c26192cc98718155110363251d9f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 22/77] fix: a valid name of its own for the uuid pattern of
 each file

---
 templates/go/file.go           |  2 +-
 templates/goshared/known.go    |  2 +-
 templates/goshared/register.go | 15 +++++++++++----
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/templates/go/file.go b/templates/go/file.go
index 4251b0a..f4a80d9 100644
--- a/templates/go/file.go
+++ b/templates/go/file.go
@@ -46,7 +46,7 @@ var (
 
 {{- if fileneeds . "uuid" }}
 // define the regex for a UUID once up-front
-var _{{ snakeCase .File.InputPath.BaseName }}_uuidPattern = regexp.MustCompile("^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$")
+var _{{ fileIdent .File }}_uuidPattern = regexp.MustCompile("^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$")
 {{ end }}
 
 {{ range .AllMessages }}
diff --git a/templates/goshared/known.go b/templates/goshared/known.go
index 538ddca..9044c04 100644
--- a/templates/goshared/known.go
+++ b/templates/goshared/known.go
@@ -56,7 +56,7 @@ const emailTpl = `
 
 const uuidTpl = `
 	func (m {{ (msgTyp .).Pointer }}) _validateUuid(uuid string) error {
-		if matched := _{{ snakeCase .File.InputPath.BaseName }}_uuidPattern.MatchString(uuid); !matched {
+		if matched := _{{ fileIdent .File }}_uuidPattern.MatchString(uuid); !matched {
 			return errors.New("invalid uuid format")
 		}
 
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index dfaa2df..a28889c 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -7,8 +7,8 @@ import (
 	"sort"
 	"strings"
 	"text/template"
+	"unicode"
 
-	"github.com/iancoleman/strcase"
 	"google.golang.org/protobuf/types/known/durationpb"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
@@ -23,7 +23,6 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 	tpl.Funcs(map[string]interface{}{
 		"accessor":      fns.accessor,
 		"byteStr":       fns.byteStr,
-		"snakeCase":	 fns.snakeCase,
 		"cmt":           pgs.C80,
 		"durGt":         fns.durGt,
 		"durLit":        fns.durLit,
@@ -49,6 +48,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"typ":           fns.Type,
 		"unwrap":        fns.unwrap,
 		"externalEnums": fns.externalEnums,
+		"fileIdent":     fns.fileIdent,
 		"enumPackages":  fns.enumPackages,
 		"enumTyp":       fns.enumTyp,
 		"importPath":    fns.ImportPath,
@@ -475,6 +475,13 @@ func (fns goSharedFuncs) enumTyp(f pgs.Field) pgsgo.TypeName {
 	return pgsgo.TypeName(fmt.Sprintf("%s.%s", pkgs[fns.ImportPath(en)], typ))
 }
 
-func (fns goSharedFuncs) snakeCase(name string) string {
-	return strcase.ToSnake(name)
+// fileIdent is what the package level identifiers that belong to a file have
+// in common, like those of protoc-gen-go.
+func (fns goSharedFuncs) fileIdent(f pgs.File) string {
+	return strings.Map(func(r rune) rune {
+		if unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, f.InputPath().SetExt("").String())
 }
-- 
2.43.0


From a3ebe587b3088b53a382a21b135e591dddfeb2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:27 +0000
Subject: [PATCH 23/77] fix: lt_now and gt_now set to false restrict nothing

---
 templates/cc/timestamp.go       | 8 ++++----
 templates/go/timestamp.go       | 2 +-
 templates/goshared/timestamp.go | 6 +++---
 templates/java/timestamp.go     | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/templates/cc/timestamp.go b/templates/cc/timestamp.go
index 9e27fcf..775dd3c 100644
--- a/templates/cc/timestamp.go
+++ b/templates/cc/timestamp.go
@@ -3,14 +3,14 @@ package cc
 const timestampTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ template "required" . }}
 
-	{{ if or $r.Lt $r.Lte $r.Gt $r.Gte $r.LtNow $r.GtNow $r.Within $r.Const }}
+	{{ if or $r.Lt $r.Lte $r.Gt $r.Gte $r.GetLtNow $r.GetGtNow $r.Within $r.Const }}
 		{{ unimplemented "C++ timestamp comparison validations are not implemented" }}
 		{{/*
 		if t := {{ accessor . }}; t != nil {
 			ts, err := ptypes.Timestamp(t)
 			if err != nil { return {{ errCause . "err" "value is not a valid timestamp" }} }
 
-			{{ if or $r.LtNow $r.GtNow $r.Within }} now := time.Now(); {{ end }}
+			{{ if or $r.GetLtNow $r.GetGtNow $r.Within }} now := time.Now(); {{ end }}
 			{{- if $r.Lt }}  lt  := {{ tsLit $r.Lt }};  {{ end }}
 			{{- if $r.Lte }} lte := {{ tsLit $r.Lte }}; {{ end }}
 			{{- if $r.Gt }}  gt  := {{ tsLit $r.Gt }};  {{ end }}
@@ -77,7 +77,7 @@ const timestampTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 				if ts.Sub(gte) < 0 {
 					return {{ err . "value must be greater than or equal to " (tsStr $r.GetGte) }}
 				}
-			{{ else if $r.LtNow }}
+			{{ else if $r.GetLtNow }}
 				{{ if $r.Within }}
 					if ts.Sub(now) >= 0 || ts.Sub(now.Add(-within)) < 0 {
 						return {{ err . "value must be less than now within " (durStr $r.GetWithin) }}
@@ -87,7 +87,7 @@ const timestampTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 						return {{ err . "value must be less than now" }}
 					}
 				{{ end }}
-			{{ else if $r.GtNow }}
+			{{ else if $r.GetGtNow }}
 				{{ if $r.Within }}
 					if ts.Sub(now) >= 0 || ts.Sub(now.Add(within)) > 0 {
 						return {{ err . "value must be greater than now within " (durStr $r.GetWithin) }}
diff --git a/templates/go/timestamp.go b/templates/go/timestamp.go
index a0943bf..4b85291 100644
--- a/templates/go/timestamp.go
+++ b/templates/go/timestamp.go
@@ -3,7 +3,7 @@ package golang
 const timestampTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ template "required" . }}
 
-	{{ if or $r.Lt $r.Lte $r.Gt $r.Gte $r.LtNow $r.GtNow $r.Within $r.Const }}
+	{{ if or $r.Lt $r.Lte $r.Gt $r.Gte $r.GetLtNow $r.GetGtNow $r.Within $r.Const }}
 		if t := {{ accessor . }}; t != nil {
 			ts, err := t.AsTime(), t.CheckValid()
 			if err != nil {
diff --git a/templates/goshared/timestamp.go b/templates/goshared/timestamp.go
index 3031626..60315c3 100644
--- a/templates/goshared/timestamp.go
+++ b/templates/goshared/timestamp.go
@@ -9,7 +9,7 @@ const timestampcmpTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 				}
 			{{ end }}
 
-			{{ if or $r.LtNow $r.GtNow $r.Within }} now := time.Now(); {{ end }}
+			{{ if or $r.GetLtNow $r.GetGtNow $r.Within }} now := time.Now(); {{ end }}
 			{{- if $r.Lt }}  lt  := {{ tsLit $r.Lt }};  {{ end }}
 			{{- if $r.Lte }} lte := {{ tsLit $r.Lte }}; {{ end }}
 			{{- if $r.Gt }}  gt  := {{ tsLit $r.Gt }};  {{ end }}
@@ -100,7 +100,7 @@ const timestampcmpTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
-			{{ else if $r.LtNow }}
+			{{ else if $r.GetLtNow }}
 				{{ if $r.Within }}
 					if ts.Sub(now) >= 0 || ts.Sub(now.Add(-within)) < 0 {
 						err := {{ err . "value must be less than now within " (durStr $r.GetWithin) }}
@@ -114,7 +114,7 @@ const timestampcmpTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 						errors = append(errors, err)
 					}
 				{{ end }}
-			{{ else if $r.GtNow }}
+			{{ else if $r.GetGtNow }}
 				{{ if $r.Within }}
 					if ts.Sub(now) <= 0 || ts.Sub(now.Add(within)) > 0 {
 						err := {{ err . "value must be greater than now within " (durStr $r.GetWithin) }}
diff --git a/templates/java/timestamp.go b/templates/java/timestamp.go
index 8ff860f..70f7775 100644
--- a/templates/java/timestamp.go
+++ b/templates/java/timestamp.go
@@ -42,10 +42,10 @@ const timestampTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			if ({{ hasAccessor . }}) io.envoyproxy.pgv.ComparativeValidation.greaterThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gte" }}, com.google.protobuf.util.Timestamps.comparator());
 {{- end -}}
 {{- end -}}
-{{- if $r.LtNow }}
+{{- if $r.GetLtNow }}
 			if ({{ hasAccessor . }}) io.envoyproxy.pgv.ComparativeValidation.lessThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, io.envoyproxy.pgv.TimestampValidation.currentTimestamp(), com.google.protobuf.util.Timestamps.comparator());
 {{- end -}}
-{{- if $r.GtNow }}
+{{- if $r.GetGtNow }}
 			if ({{ hasAccessor . }}) io.envoyproxy.pgv.ComparativeValidation.greaterThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, io.envoyproxy.pgv.TimestampValidation.currentTimestamp(), com.google.protobuf.util.Timestamps.comparator());
 {{- end -}}
 {{- if $r.Within }}
-- 
2.43.0


From 861a29cb94e9b57c6c4c46103b21dbf77a9a44d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 24/77] fix: generate the files in an order of their own, not
 in that of a map

---
 module/validate.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/module/validate.go b/module/validate.go
index 1ca8510..5b19b79 100644
--- a/module/validate.go
+++ b/module/validate.go
@@ -5,6 +5,7 @@ import (
 	"github.com/envoyproxy/protoc-gen-validate/templates/java"
 	pgs "github.com/lyft/protoc-gen-star"
 	pgsgo "github.com/lyft/protoc-gen-star/lang/go"
+	"sort"
 	"strings"
 )
 
@@ -37,7 +38,15 @@ func (m *Module) Execute(targets map[string]pgs.File, pkgs map[string]pgs.Packag
 	tpls := templates.Template(m.Parameters())[lang]
 	m.Assert(tpls != nil, "could not find templates for `lang`: ", lang)
 
-	for _, f := range targets {
+	// The same request has to have the same response, whatever the order of a map.
+	names := make([]string, 0, len(targets))
+	for name := range targets {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	for _, name := range names {
+		f := targets[name]
 		m.Push(f.Name().String())
 
 		for _, msg := range f.AllMessages() {
-- 
2.43.0


From b13c3ba7678f1a260010d45dfdb9b394063f410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 25/77] fix: module is removed from the start of the path only,
 and only as a whole

---
 module/validate.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/module/validate.go b/module/validate.go
index 5b19b79..9d7adef 100644
--- a/module/validate.go
+++ b/module/validate.go
@@ -60,7 +60,7 @@ func (m *Module) Execute(targets map[string]pgs.File, pkgs map[string]pgs.Packag
 			// implementation-specific FilePathFor implementations.
 			// Ex: Don't generate Java validators for files that don't reference PGV.
 			if out != nil {
-				outPath := strings.TrimLeft(strings.ReplaceAll(out.String(), module, ""), "/")
+				outPath := trimModule(out.String(), module)
 
 				if opts := f.Descriptor().GetOptions(); opts != nil && opts.GetJavaMultipleFiles() && lang == "java" {
 					// TODO: Only Java supports multiple file generation. If more languages add multiple file generation
@@ -80,4 +80,13 @@ func (m *Module) Execute(targets map[string]pgs.File, pkgs map[string]pgs.Packag
 	return m.Artifacts()
 }
 
+// trimModule removes the module from the start of the path, if the path is
+// below it.
+func trimModule(path, module string) string {
+	if module == "" {
+		return path
+	}
+	return strings.TrimPrefix(path, strings.TrimRight(module, "/")+"/")
+}
+
 var _ pgs.Module = (*Module)(nil)
-- 
2.43.0


From e393fdf00bcfe6c41e260dc6ac7e7939d41680d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 26/77] fix: the name of a required wrapper field in Java, not
 an address

---
 templates/java/wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/java/wrapper.go b/templates/java/wrapper.go
index 3e3984e..80e1adc 100644
--- a/templates/java/wrapper.go
+++ b/templates/java/wrapper.go
@@ -8,5 +8,5 @@ const wrapperTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 				{{- render (unwrap .) }}
 			}
 			{{ if .MessageRules.GetRequired }} else {
-				throw new io.envoyproxy.pgv.ValidationException("{{ $f }}", "null", "is required");
+				throw new io.envoyproxy.pgv.ValidationException("{{ $f.FullyQualifiedName }}", "null", "is required");
 			} {{ end }}`
-- 
2.43.0


From 776531a21325a798a366e2933cfb171518073fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 27/77] fix: no package statement in Java code of a file
 without a package

---
 templates/java/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/java/file.go b/templates/java/file.go
index 567831c..7c77fba 100644
--- a/templates/java/file.go
+++ b/templates/java/file.go
@@ -3,7 +3,7 @@ package java
 const fileTpl = `// Code generated by protoc-gen-validate. DO NOT EDIT.
 // source: {{ .File.InputPath }}
 
-package {{ javaPackage .File }};
+{{ with javaPackage .File }}package {{ . }};{{ end }}
 
 {{ if isOfFileType . }}
 @SuppressWarnings("all")
-- 
2.43.0


From d64b3a33049ce23aaafeaa88416dc77258b8c042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 28/77] fix: Java class names are those that protoc chooses

---
 templates/java/register.go | 96 +++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 53 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index 51af1b6..ecfe014 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -23,7 +23,7 @@ func RegisterIndex(tpl *template.Template, params pgs.Parameters) {
 		"classNameFile": classNameFile,
 		"importsPvg":    importsPvg,
 		"javaPackage":   javaPackage,
-		"simpleName":    fns.Name,
+		"simpleName":    simpleName,
 		"qualifiedName": fns.qualifiedName,
 	})
 }
@@ -46,7 +46,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"hasAccessor":              fns.hasAccessor,
 		"oneof":                    fns.oneofTypeName,
 		"sprintf":                  fmt.Sprintf,
-		"simpleName":               fns.Name,
+		"simpleName":               simpleName,
 		"tsLit":                    fns.tsLit,
 		"qualifiedName":            fns.qualifiedName,
 		"isOfFileType":             fns.isOfFileType,
@@ -154,30 +154,53 @@ func classNameFile(f pgs.File) string {
 
 	protoName := pgs.FilePath(f.Name().String()).BaseName()
 
-	className := sanitizeClassName(protoName)
+	className := outerClassName(protoName)
 	className = appendOuterClassName(className, f)
 
 	return className
 }
 
+// classNameMessage is the name protoc gives the class of a message, which is
+// that of the message.
 func classNameMessage(m pgs.Message) string {
-	className := m.Name().String()
-	// This is really silly, but when the multiple files option is true, protoc puts underscores in file names.
-	// When multiple files is false, underscores are stripped. Short of rewriting all the name sanitization
-	// logic for java, using "UnderscoreUnderscoreUnderscore" is an escape sequence seems to work with an extremely
-	// small likelihood of name conflict.
-	className = strings.Replace(className, "_", "UnderscoreUnderscoreUnderscore", -1)
-	className = sanitizeClassName(className)
-	className = strings.Replace(className, "UnderscoreUnderscoreUnderscore", "_", -1)
-	return className
+	return m.Name().String()
 }
 
-func sanitizeClassName(className string) string {
-	className = makeInvalidClassnameCharactersUnderscores(className)
-	className = underscoreBetweenConsecutiveUppercase(className)
-	className = strcase.ToCamel(strcase.ToSnake(className))
-	className = upperCaseAfterNumber(className)
-	return className
+// outerClassName is the name protoc gives the outer class of a file.
+func outerClassName(baseName string) string {
+	var sb strings.Builder
+	upper := true
+
+	for _, c := range baseName {
+		switch {
+		case c >= 'a' && c <= 'z':
+			if upper {
+				c = unicode.ToUpper(c)
+			}
+			upper = false
+			sb.WriteRune(c)
+		case c >= 'A' && c <= 'Z':
+			upper = false
+			sb.WriteRune(c)
+		case c >= '0' && c <= '9':
+			upper = true
+			sb.WriteRune(c)
+		default:
+			upper = true
+		}
+	}
+
+	return sb.String()
+}
+
+// simpleName is the name of a message, after those of the messages it is in.
+func simpleName(e pgs.Entity) string {
+	if msg, ok := e.(pgs.Message); ok {
+		if parent, ok := msg.Parent().(pgs.Message); ok {
+			return simpleName(parent) + "_" + msg.Name().String()
+		}
+	}
+	return e.Name().String()
 }
 
 func javaPackage(file pgs.File) string {
@@ -218,24 +241,6 @@ func (fns javaFuncs) qualifiedName(entity pgs.Entity) string {
 	return entity.Name().String()
 }
 
-// Replace invalid identifier characters with an underscore
-func makeInvalidClassnameCharactersUnderscores(name string) string {
-	var sb string
-	for _, c := range name {
-		switch {
-		case c >= '0' && c <= '9':
-			sb += string(c)
-		case c >= 'a' && c <= 'z':
-			sb += string(c)
-		case c >= 'A' && c <= 'Z':
-			sb += string(c)
-		default:
-			sb += "_"
-		}
-	}
-	return sb
-}
-
 func upperCaseAfterNumber(name string) string {
 	var sb string
 	var p rune
@@ -251,31 +256,16 @@ func upperCaseAfterNumber(name string) string {
 	return sb
 }
 
-func underscoreBetweenConsecutiveUppercase(name string) string {
-	var sb string
-	var p rune
-
-	for _, c := range name {
-		if unicode.IsUpper(p) && unicode.IsUpper(c) {
-			sb += "_" + string(c)
-		} else {
-			sb += string(c)
-		}
-		p = c
-	}
-	return sb
-}
-
 func appendOuterClassName(outerClassName string, file pgs.File) string {
 	conflict := false
 
-	for _, enum := range file.Enums() {
+	for _, enum := range file.AllEnums() {
 		if enum.Name().String() == outerClassName {
 			conflict = true
 		}
 	}
 
-	for _, message := range file.Messages() {
+	for _, message := range file.AllMessages() {
 		if message.Name().String() == outerClassName {
 			conflict = true
 		}
-- 
2.43.0


From d5d8db240f5827a4872c0a0c589f9820796faee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 29/77] fix: C++ ip rules refuse texts with a NUL

---
 validate/validate.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/validate/validate.h b/validate/validate.h
index b859497..b4380a3 100644
--- a/validate/validate.h
+++ b/validate/validate.h
@@ -96,11 +96,19 @@ static inline bool NotContains(const string& search_in, const string& to_find)
 
 static inline bool IsIpv4(const string& to_validate) {
 	struct sockaddr_in sa;
+	// inet_pton stops at a NUL
+	if (to_validate.find('\0') != string::npos) {
+		return false;
+	}
 	return !(inet_pton(AF_INET, to_validate.c_str(), &sa.sin_addr) < 1);
 }
 
 static inline bool IsIpv6(const string& to_validate) {
   struct sockaddr_in6 sa_six;
+	// inet_pton stops at a NUL
+	if (to_validate.find('\0') != string::npos) {
+		return false;
+	}
 	return !(inet_pton(AF_INET6, to_validate.c_str(), &sa_six.sin6_addr) < 1);
 }
 
-- 
2.43.0


From 16b326b7e24917865fe9cd48b4bfbda46a7917dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 30/77] fix: C++ accessor and case names are those that protoc
 chooses

---
 templates/cc/register.go | 57 +++++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index ca9854d..4f5b8f2 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -113,16 +113,53 @@ func CcFilePath(f pgs.File, ctx pgsgo.Context, tpl *template.Template) *pgs.File
 	return &out
 }
 
+// keywords are the names protoc appends an underscore to.
+var keywords = func() map[string]bool {
+	words := map[string]bool{}
+	for _, w := range strings.Fields(`
+		alignas alignof and and_eq asm auto bitand bitor bool break case
+		catch char class compl const constexpr const_cast continue decltype
+		default delete do double dynamic_cast else enum explicit export extern
+		false float for friend goto if inline int long mutable namespace new
+		noexcept not not_eq nullptr operator or or_eq private protected public
+		register reinterpret_cast return short signed sizeof static
+		static_assert static_cast struct switch template this thread_local
+		throw true try typedef typeid typename union unsigned using virtual
+		void volatile wchar_t while xor xor_eq`) {
+		words[w] = true
+	}
+	return words
+}()
+
 func (fns CCFuncs) methodName(name interface{}) string {
-	nameStr := fmt.Sprintf("%s", name)
-	switch nameStr {
-	case "const":
-		return "const_"
-	case "inline":
-		return "inline_"
-	default:
-		return nameStr
+	nameStr := strings.ToLower(fmt.Sprintf("%s", name))
+	if keywords[nameStr] {
+		return nameStr + "_"
+	}
+	return nameStr
+}
+
+// camelCase turns a name into the one protoc uses for case enumerations: the
+// letters behind underscores and digits are capitalized.
+func (fns CCFuncs) camelCase(name pgs.Name) string {
+	var out []byte
+	upper := true
+	for _, c := range []byte(name.String()) {
+		switch {
+		case 'a' <= c && c <= 'z':
+			if upper {
+				c -= 'a' - 'A'
+			}
+			out, upper = append(out, c), false
+		case 'A' <= c && c <= 'Z':
+			out, upper = append(out, c), false
+		case '0' <= c && c <= '9':
+			out, upper = append(out, c), true
+		default:
+			upper = true
+		}
 	}
+	return string(out)
 }
 
 func (fns CCFuncs) accessor(ctx shared.RuleContext) string {
@@ -278,8 +315,8 @@ func (fns CCFuncs) byteStr(x []byte) string {
 func (fns CCFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
 	return pgsgo.TypeName(fmt.Sprintf("%s::%sCase::k%s",
 		fns.className(f.Message()),
-		pgsgo.PGGUpperCamelCase(f.OneOf().Name()),
-		strings.ReplaceAll(pgsgo.PGGUpperCamelCase(f.Name()).String(), "_", "")))
+		fns.camelCase(f.OneOf().Name()),
+		fns.camelCase(f.Name())))
 }
 
 func (fns CCFuncs) inType(f pgs.Field, x interface{}) string {
-- 
2.43.0


From b2cc45ecc152fde928d3466ea7a2a32a2569d7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 31/77] fix: C++ literals keep the value of the strings, bytes
 and numbers of the rules

---
 templates/cc/bytes.go    |   6 +--
 templates/cc/const.go    |   2 +-
 templates/cc/ltgt.go     |  24 ++++-----
 templates/cc/register.go | 108 ++++++++++++++++++++++++++++-----------
 templates/cc/string.go   |   8 +--
 5 files changed, 98 insertions(+), 50 deletions(-)

diff --git a/templates/cc/bytes.go b/templates/cc/bytes.go
index 9bae2c8..2d84399 100644
--- a/templates/cc/bytes.go
+++ b/templates/cc/bytes.go
@@ -42,7 +42,7 @@ const bytesTpl = `
 
 	{{ if $r.Prefix }}
 	{
-		const std::string prefix = {{ lit $r.GetPrefix }};
+		const std::string prefix = {{ value $r.GetPrefix }};
 		if (!pgv::IsPrefix(prefix, {{ accessor . }})) {
 			{{ err . "value does not have prefix " (lit $r.GetPrefix) }}
 		}
@@ -51,7 +51,7 @@ const bytesTpl = `
 
 	{{ if $r.Suffix }}
 	{
-		const std::string suffix = {{ lit $r.GetSuffix }};
+		const std::string suffix = {{ value $r.GetSuffix }};
 		if (!pgv::IsSuffix(suffix, {{ accessor .}})) {
 			{{ err . "value does not have suffix " (lit $r.GetSuffix) }}
 		}
@@ -60,7 +60,7 @@ const bytesTpl = `
 
 	{{ if $r.Contains }}
 	{
-		if (!pgv::Contains({{ accessor . }}, {{ lit $r.GetContains }})) {
+		if (!pgv::Contains({{ accessor . }}, {{ value $r.GetContains }})) {
 			{{ err . "value does not contain substring " (lit $r.GetContains) }}
 		}
 	}
diff --git a/templates/cc/const.go b/templates/cc/const.go
index 6fe87e9..39bbd7e 100644
--- a/templates/cc/const.go
+++ b/templates/cc/const.go
@@ -2,7 +2,7 @@ package cc
 
 const constTpl = `{{ $r := .Rules }}
 	{{ if isset $r.Const }}
-		if ({{ accessor . }} != {{ lit $r.GetConst }}) {
+		if ({{ accessor . }} != {{ value $r.GetConst }}) {
 			{{ err . "value must equal " (lit $r.GetConst) }}
 		}
 	{{ end }}
diff --git a/templates/cc/ltgt.go b/templates/cc/ltgt.go
index f296d93..9f31025 100644
--- a/templates/cc/ltgt.go
+++ b/templates/cc/ltgt.go
@@ -4,61 +4,61 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}{{ $v := (accessor .) }}
 	{{ if $r.Lt }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLt $r.GetGt }}
-				if ({{ $v }} <= {{ $r.Gt }} || {{ $v }} >= {{ $r.Lt }}) {
+				if ({{ $v }} <= {{ lit $r.GetGt }} || {{ $v }} >= {{ lit $r.GetLt }}) {
 					{{ err . "value must be inside range (" $r.GetGt ", " $r.GetLt ")" }}
 				}
 			{{ else }}
-				if ({{ $v }} >= {{ $r.Lt }} && {{ $v }} <= {{ $r.Gt }}) {
+				if ({{ $v }} >= {{ lit $r.GetLt }} && {{ $v }} <= {{ lit $r.GetGt }}) {
 					{{ err . "value must be outside range [" $r.GetLt ", " $r.GetGt "]" }}
 				}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{  if gt $r.GetLt $r.GetGte }}
-				if ({{ $v }} < {{ $r.Gte }} || {{ $v }} >= {{ $r.Lt }}) {
+				if ({{ $v }} < {{ lit $r.GetGte }} || {{ $v }} >= {{ lit $r.GetLt }}) {
 					{{ err . "value must be inside range [" $r.GetGte ", " $r.GetLt ")" }}
 				}
 			{{ else }}
-				if ({{ $v }} >= {{ $r.Lt }} && {{ $v }} < {{ $r.Gte }}) {
+				if ({{ $v }} >= {{ lit $r.GetLt }} && {{ $v }} < {{ lit $r.GetGte }}) {
 					{{ err . "value must be outside range [" $r.GetLt ", " $r.GetGte ")" }}
 				}
 			{{ end }}
 		{{ else }}
-			if ({{ accessor . }} >= {{ $r.Lt }}) {
+			if ({{ accessor . }} >= {{ lit $r.GetLt }}) {
 				{{ err . "value must be less than " $r.GetLt }}
 			}
 		{{ end }}
 	{{ else if $r.Lte }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLte $r.GetGt }}
-				if ({{ $v }} <= {{ $r.Gt }} || {{ $v }} > {{ $r.Lte }}) {
+				if ({{ $v }} <= {{ lit $r.GetGt }} || {{ $v }} > {{ lit $r.GetLte }}) {
 					{{ err . "value must be inside range (" $r.GetGt ", " $r.GetLte "]" }}
 				}
 			{{ else }}
-				if ({{ $v }} > {{ $r.Lte }} && {{ $v }} <= {{ $r.Gt }}) {
+				if ({{ $v }} > {{ lit $r.GetLte }} && {{ $v }} <= {{ lit $r.GetGt }}) {
 					{{ err . "value must be outside range (" $r.GetLte ", " $r.GetGt "]" }}
 				}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{ if gt $r.GetLte $r.GetGte }}
-				if ({{ $v }} < {{ $r.Gte }} || {{ $v }} > {{ $r.Lte }}) {
+				if ({{ $v }} < {{ lit $r.GetGte }} || {{ $v }} > {{ lit $r.GetLte }}) {
 					{{ err . "value must be inside range [" $r.GetGte ", " $r.GetLte "]" }}
 				}
 			{{ else }}
-				if ({{ $v }} > {{ $r.Lte }} && {{ $v }} < {{ $r.Gte }}) {
+				if ({{ $v }} > {{ lit $r.GetLte }} && {{ $v }} < {{ lit $r.GetGte }}) {
 					{{ err . "value must be outside range (" $r.GetLte ", " $r.GetGte ")" }}
 				}
 			{{ end }}
 		{{ else }}
-			if ({{ accessor . }} > {{ $r.Lte }}) {
+			if ({{ accessor . }} > {{ lit $r.GetLte }}) {
 				{{ err . "value must be less than or equal to " $r.GetLte }}
 			}
 		{{ end }}
 	{{ else if $r.Gt }}
-		if ({{ accessor . }} <= {{ $r.Gt }}) {
+		if ({{ accessor . }} <= {{ lit $r.GetGt }}) {
 			{{ err . "value must be greater than " $r.GetGt }}
 		}
 	{{ else if $r.Gte }}
-		if ({{ accessor . }} < {{ $r.Gte }}) {
+		if ({{ accessor . }} < {{ lit $r.GetGte }}) {
 			{{ err . "value must be greater than or equal to " $r.GetGte }}
 		}
 	{{ end }}
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 4f5b8f2..6e2c89a 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -2,6 +2,7 @@ package cc
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -20,7 +21,6 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 
 	tpl.Funcs(map[string]interface{}{
 		"accessor":      fns.accessor,
-		"byteStr":       fns.byteStr,
 		"class":         fns.className,
 		"cmt":           pgs.C80,
 		"ctype":         fns.cType,
@@ -48,6 +48,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"typ":           fns.Type,
 		"unimplemented": fns.failUnimplemented,
 		"unwrap":        fns.unwrap,
+		"value":         fns.value,
 	})
 	template.Must(tpl.Parse(moduleFileTpl))
 	template.Must(tpl.New("msg").Parse(msgTpl))
@@ -233,8 +234,8 @@ func (fns CCFuncs) errIdxCause(ctx shared.RuleContext, idx, cause string, reason
 		output = append(output, `msg << "key for ";`)
 	}
 	output = append(output,
-		fmt.Sprintf(`msg << %q << "." << %s;`,
-			errName, fns.lit(pgsgo.PGGUpperCamelCase(f.Name()))))
+		fmt.Sprintf(`msg << %s << "." << %s;`,
+			fns.lit(errName), fns.lit(pgsgo.PGGUpperCamelCase(f.Name()))))
 
 	if idx != "" {
 		output = append(output, fmt.Sprintf(`msg << "[" << %s << "]";`, idx))
@@ -242,7 +243,7 @@ func (fns CCFuncs) errIdxCause(ctx shared.RuleContext, idx, cause string, reason
 		output = append(output, fmt.Sprintf(`msg << "[" << %s << "]";`, ctx.Index))
 	}
 
-	output = append(output, fmt.Sprintf(`msg << ": " << %q;`, fmt.Sprint(reason...)))
+	output = append(output, fmt.Sprintf(`msg << ": " << %s;`, fns.lit(fmt.Sprint(reason...))))
 
 	if cause != "nil" && cause != "" {
 		output = append(output, fmt.Sprintf(`msg << " | caused by " << %s;`, cause))
@@ -263,6 +264,8 @@ func (fns CCFuncs) lookup(f pgs.Field, name string) string {
 	)
 }
 
+// lit is a literal of the value. One of a string or of bytes is the address
+// of a C string, see value.
 func (fns CCFuncs) lit(x interface{}) string {
 	val := reflect.ValueOf(x)
 
@@ -276,40 +279,87 @@ func (fns CCFuncs) lit(x interface{}) string {
 
 	switch val.Kind() {
 	case reflect.String:
-		return fmt.Sprintf("%q", x)
-	case reflect.Uint8:
-		return fmt.Sprintf("%d", x)
+		return fns.cString(val.String())
 	case reflect.Slice:
-		els := make([]string, val.Len())
-		switch reflect.TypeOf(x).Elem().Kind() {
+		switch val.Type().Elem().Kind() {
 		case reflect.Uint8:
-			for i, l := 0, val.Len(); i < l; i++ {
-				els[i] = fmt.Sprintf("\\x%x", val.Index(i).Interface())
-			}
-			return fmt.Sprintf("\"%s\"", strings.Join(els, ""))
+			return fns.cString(string(val.Bytes()))
 		default:
 			panic(fmt.Sprintf("don't know how to format literals of type %v", val.Kind()))
 		}
 	case reflect.Float32:
-		return fmt.Sprintf("%fF", x)
-	default:
-		return fmt.Sprint(x)
+		return fns.floatLit(val.Float(), 32) + "F"
+	case reflect.Float64:
+		return fns.floatLit(val.Float(), 64)
+	case reflect.Int64:
+		if val.Int() == math.MinInt64 { // not a literal of its own in C++
+			return "(-9223372036854775807LL - 1)"
+		}
+	case reflect.Uint64:
+		if val.Uint() > math.MaxInt64 {
+			return fmt.Sprintf("%dULL", val.Uint())
+		}
 	}
+
+	return fmt.Sprint(val.Interface())
 }
 
-func (fns CCFuncs) isBytes(f interface {
-	ProtoType() pgs.ProtoType
-}) bool {
-	return f.ProtoType() == pgs.BytesT
+// value is an expression for the value. In contrast to lit, that of a string
+// or of bytes goes on after a NUL.
+func (fns CCFuncs) value(x interface{}) string {
+	var s string
+	switch x := x.(type) {
+	case string:
+		s = x
+	case []byte:
+		s = string(x)
+	}
+
+	if strings.IndexByte(s, 0) >= 0 {
+		return fmt.Sprintf("std::string(%s, %d)", fns.cString(s), len(s))
+	}
+
+	return fns.lit(x)
 }
 
-func (fns CCFuncs) byteStr(x []byte) string {
-	elms := make([]string, len(x))
-	for i, b := range x {
-		elms[i] = fmt.Sprintf(`\x%X`, b)
+// cString is a C string literal of the bytes of s.
+func (fns CCFuncs) cString(s string) string {
+	var b strings.Builder
+	b.WriteByte('"')
+	for _, c := range []byte(s) {
+		switch {
+		case c == '\n':
+			b.WriteString(`\n`)
+		case c == '\t':
+			b.WriteString(`\t`)
+		case c == '"', c == '\\', c == '?': // ? because of trigraphs
+			b.WriteByte('\\')
+			b.WriteByte(c)
+		case c < 0x20, c >= 0x7f:
+			// exactly three octal digits: a hexadecimal escape would go on
+			// with the characters behind it
+			fmt.Fprintf(&b, `\%03o`, c)
+		default:
+			b.WriteByte(c)
+		}
+	}
+	b.WriteByte('"')
+	return b.String()
+}
+
+// floatLit is the shortest literal with exactly the value of x.
+func (fns CCFuncs) floatLit(x float64, bits int) string {
+	s := strconv.FormatFloat(x, 'g', -1, bits)
+	if !strings.ContainsAny(s, ".e") {
+		s += ".0"
 	}
+	return s
+}
 
-	return fmt.Sprintf(`"%s"`, strings.Join(elms, ""))
+func (fns CCFuncs) isBytes(f interface {
+	ProtoType() pgs.ProtoType
+}) bool {
+	return f.ProtoType() == pgs.BytesT
 }
 
 func (fns CCFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
@@ -384,19 +434,17 @@ func (fns CCFuncs) cTypeOfString(s string) string {
 
 func (fns CCFuncs) inKey(f pgs.Field, x interface{}) string {
 	switch f.Type().ProtoType() {
-	case pgs.BytesT:
-		return fns.byteStr(x.([]byte))
 	case pgs.MessageT:
 		switch x := x.(type) {
 		case *durationpb.Duration:
 			return fns.durLit(x)
 		default:
-			return fns.lit(x)
+			return fns.value(x)
 		}
 	case pgs.EnumT:
 		return fmt.Sprintf("%s(%d)", fns.cType(f.Type()), x.(int32))
 	default:
-		return fns.lit(x)
+		return fns.value(x)
 	}
 }
 
@@ -458,7 +506,7 @@ func (fns CCFuncs) failUnimplemented(message string) string {
 		return "throw pgv::UnimplementedException();"
 	}
 
-	return fmt.Sprintf(`throw pgv::UnimplementedException(%q);`, message)
+	return fmt.Sprintf(`throw pgv::UnimplementedException(%s);`, fns.lit(message))
 }
 
 func (fns CCFuncs) staticVarName(msg pgs.Message) string {
diff --git a/templates/cc/string.go b/templates/cc/string.go
index 112966c..13b4fc5 100644
--- a/templates/cc/string.go
+++ b/templates/cc/string.go
@@ -76,7 +76,7 @@ const strTpl = `
 
 	{{ if $r.Prefix }}
 	{
-		const std::string prefix = {{ lit $r.GetPrefix }};
+		const std::string prefix = {{ value $r.GetPrefix }};
 		if (!pgv::IsPrefix(prefix, {{ accessor . }})) {
 			{{ err . "value does not have prefix " (lit $r.GetPrefix) }}
 		}
@@ -85,7 +85,7 @@ const strTpl = `
 
 	{{ if $r.Suffix }}
 	{
-		const std::string suffix = {{ lit $r.GetSuffix }};
+		const std::string suffix = {{ value $r.GetSuffix }};
 		const std::string& value = {{ accessor . }};
 		if (!pgv::IsSuffix(suffix, value)) {
 			{{ err . "value does not have suffix " (lit $r.GetSuffix) }}
@@ -95,7 +95,7 @@ const strTpl = `
 
 	{{ if $r.Contains }}
 	{
-		if (!pgv::Contains({{ accessor . }}, {{ lit $r.GetContains }})) {
+		if (!pgv::Contains({{ accessor . }}, {{ value $r.GetContains }})) {
 			{{ err . "value does not contain substring " (lit $r.GetContains) }}
 		}
 	}
@@ -103,7 +103,7 @@ const strTpl = `
 
 	{{ if $r.NotContains }}
 	{
-		if (pgv::Contains({{ accessor . }}, {{ lit $r.GetNotContains }})) {
+		if (pgv::Contains({{ accessor . }}, {{ value $r.GetNotContains }})) {
 			{{ err . "value contains substring " (lit $r.GetNotContains) }}
 		}
 	}
-- 
2.43.0


From 6a0e209bd4c42fbc962698b2a7e7caa55f1b3b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 32/77] fix: C++ names of enums of other packages

---
 templates/cc/register.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index 6e2c89a..1c64315 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -394,6 +394,12 @@ func (fns CCFuncs) cType(t pgs.FieldType) string {
 	if t.IsEmbed() {
 		return fns.className(t.Embed())
 	}
+	if t.IsEnum() {
+		return fns.className(t.Enum())
+	}
+	if (t.IsRepeated() || t.IsMap()) && t.Element().IsEnum() {
+		return fns.className(t.Element().Enum())
+	}
 	if t.IsRepeated() {
 		if t.ProtoType() == pgs.MessageT {
 			return fns.className(t.Element().Embed())
-- 
2.43.0


From 86404bd8ca0cf1cd13f56f99b29af4d0ae9e887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:06 +0000
Subject: [PATCH 33/77] fix: unique enums in C++

---
 templates/cc/repeated.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/cc/repeated.go b/templates/cc/repeated.go
index 53b2a35..9f85329 100644
--- a/templates/cc/repeated.go
+++ b/templates/cc/repeated.go
@@ -1,7 +1,7 @@
 package cc
 
 const repTpl = `
-	{{ $f := .Field }}{{ $r := .Rules }}{{ $typ := inType $f nil }}
+	{{ $f := .Field }}{{ $r := .Rules }}{{ $typ := inType $f nil }}{{ if $f.Type.Element.IsEnum }}{{ $typ = "int" }}{{ end }}
 	{{ if $r.GetIgnoreEmpty }}
 		if ({{ accessor . }}.size() > 0) {
 	{{ end }}
-- 
2.43.0


From 4c15d163c9d5fa0c000447eab710ac4cd45d8829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 34/77] fix: several unique fields in one message in C++

---
 templates/cc/repeated.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/templates/cc/repeated.go b/templates/cc/repeated.go
index 9f85329..6a25216 100644
--- a/templates/cc/repeated.go
+++ b/templates/cc/repeated.go
@@ -27,14 +27,14 @@ const repTpl = `
 
 	{{ if $r.GetUnique }}
 	// Implement comparison for wrapped reference types
-	struct cmp {
+	struct {{ lookup $f "Cmp" }} {
 		bool operator() (const std::reference_wrapper<{{ $typ }}> lhs, const std::reference_wrapper<{{ $typ }}> rhs) const {
 			return lhs.get() == rhs.get();
 		}
 	};
 
 	// Implement hashing for wrapped reference types
-	struct hash {
+	struct {{ lookup $f "Hash" }} {
 		std::hash<{{ $typ }}> hash_fn;
 		bool operator() (const std::reference_wrapper<{{ $typ }}> ref) const {
 			return hash_fn(ref.get());
@@ -42,7 +42,7 @@ const repTpl = `
 	};
 
 	// Save a set of references to avoid copying overhead
-	std::unordered_set<std::reference_wrapper<{{ $typ }}>, hash, cmp> {{ lookup $f "Unique" }};
+	std::unordered_set<std::reference_wrapper<{{ $typ }}>, {{ lookup $f "Hash" }}, {{ lookup $f "Cmp" }}> {{ lookup $f "Unique" }};
 	{{ end }}
 
 	{{ if or $r.GetUnique (ne (.Elem "" "").Typ "none") }}
-- 
2.43.0


From 513352988bb05ff292e1852fcb38375a74b64d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 35/77] fix: optional C++ fields without rules

---
 templates/cc/msg.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/templates/cc/msg.go b/templates/cc/msg.go
index 1c508ef..97ca351 100644
--- a/templates/cc/msg.go
+++ b/templates/cc/msg.go
@@ -100,9 +100,9 @@ bool Validate(const {{ class . }}& m, pgv::ValidationMsg* err) {
 	return true;
 {{ else -}}
 		{{ range (fields .) }}
-			{{- if optional . }}if ({{ hasAccessor (context .) }}) { {{ end -}}
-			{{- render (context .) -}}
-			{{- if optional . }} } {{ end -}}
+			{{ if optional . }}if ({{ hasAccessor (context .) }}) { {{ end }}
+			{{ render (context .) }}
+			{{ if optional . }} } {{ end }}
 		{{ end -}}
 		{{ range (oneofs .) }}
 			switch (m.{{ .Name }}_case()) {
-- 
2.43.0


From d91fff679e79af6de63305189ecf492a4bd74f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 36/77] fix: durations with seconds and nanos of different
 signs are invalid in C++

---
 templates/cc/duration.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templates/cc/duration.go b/templates/cc/duration.go
index 16f086f..3d198e0 100644
--- a/templates/cc/duration.go
+++ b/templates/cc/duration.go
@@ -10,7 +10,8 @@ const durationTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 			if (dur.nanos() > 999999999 || dur.nanos() < -999999999 ||
 			    dur.seconds() > pgv::protobuf::util::TimeUtil::kDurationMaxSeconds ||
-			    dur.seconds() < pgv::protobuf::util::TimeUtil::kDurationMinSeconds)
+			    dur.seconds() < pgv::protobuf::util::TimeUtil::kDurationMinSeconds ||
+			    (dur.seconds() > 0 && dur.nanos() < 0) || (dur.seconds() < 0 && dur.nanos() > 0))
 				{{ errCause . "err" "value is not a valid duration" }}
 
 
-- 
2.43.0


From 8201d91f1fcefc61395acab2aa96b523733e3dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 37/77] fix: C++ constants for the in, not_in and pattern rules
 of items, keys and values

There were some for strings and enums only, or the same one twice, so the C++
code of other rules did not compile.
---
 templates/cc/any.go      |   6 +--
 templates/cc/bytes.go    |   4 +-
 templates/cc/duration.go |   6 +--
 templates/cc/in.go       |   6 +--
 templates/cc/msg.go      | 104 +++++++++++----------------------------
 templates/cc/register.go |  68 +++++++++++++------------
 templates/cc/repeated.go |  10 ++--
 templates/cc/string.go   |   4 +-
 8 files changed, 84 insertions(+), 124 deletions(-)

diff --git a/templates/cc/any.go b/templates/cc/any.go
index 2dd32ca..28c820e 100644
--- a/templates/cc/any.go
+++ b/templates/cc/any.go
@@ -1,15 +1,15 @@
 package cc
 
-const anyTpl = `{{ $f := .Field }}{{ $r := .Rules }}
+const anyTpl = `{{ $r := .Rules }}
 	{{ template "required" . }}
 
 	{{ if $r.In }}
-		{{ $table := lookup $f "InLookup" }}
+		{{ $table := lookup . "InLookup" }}
 		if ({{ hasAccessor . }} && {{ $table }}.find({{ accessor . }}.type_url()) == {{ $table }}.end()) {
 			{{ err . "type URL must be in list " $r.In }}
 		}
 	{{ else if $r.NotIn }}
-		{{ $table := lookup $f "NotInLookup" }}
+		{{ $table := lookup . "NotInLookup" }}
 		if ({{ hasAccessor . }} && {{ $table }}.find({{ accessor . }}.type_url()) != {{ $table }}.end()) {
 			{{ err . "type URL must not be in list " $r.NotIn }}
 		}
diff --git a/templates/cc/bytes.go b/templates/cc/bytes.go
index 2d84399..33dc2ff 100644
--- a/templates/cc/bytes.go
+++ b/templates/cc/bytes.go
@@ -1,7 +1,7 @@
 package cc
 
 const bytesTpl = `
-	{{ $f := .Field }}{{ $r := .Rules }}
+	{{ $r := .Rules }}
 	{{ if $r.GetIgnoreEmpty }}
 		if ({{ accessor . }}.size() > 0) {
 	{{ end }}
@@ -69,7 +69,7 @@ const bytesTpl = `
         {{ if $r.Pattern }}
         {
                 if (!RE2::FullMatch(re2::StringPiece({{ accessor . }}.c_str(), {{ accessor . }}.size()),
-                                    {{ lookup $f "Pattern" }})) {
+                                    {{ lookup . "Pattern" }})) {
 		        {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 	        }
         }
diff --git a/templates/cc/duration.go b/templates/cc/duration.go
index 3d198e0..0158bb6 100644
--- a/templates/cc/duration.go
+++ b/templates/cc/duration.go
@@ -1,6 +1,6 @@
 package cc
 
-const durationTpl = `{{ $f := .Field }}{{ $r := .Rules }}
+const durationTpl = `{{ $r := .Rules }}
 	{{ template "required" . }}
 
 	{{ if or $r.In $r.NotIn $r.Lt $r.Lte $r.Gt $r.Gte $r.Const }}
@@ -77,10 +77,10 @@ const durationTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 
 			{{ if $r.In }}
-				if ({{ lookup $f "InLookup" }}.find(dur) == {{ lookup $f "InLookup" }}.end())
+				if ({{ lookup . "InLookup" }}.find(dur) == {{ lookup . "InLookup" }}.end())
 					{{ err . "value must be in list " $r.In }}
 			{{ else if $r.NotIn }}
-				if ({{ lookup $f "NotInLookup" }}.find(dur) != {{ lookup $f "NotInLookup" }}.end())
+				if ({{ lookup . "NotInLookup" }}.find(dur) != {{ lookup . "NotInLookup" }}.end())
 					{{ err . "value must not be in list " $r.NotIn }}
 			{{ end }}
 	        }
diff --git a/templates/cc/in.go b/templates/cc/in.go
index c9b8f75..dacb879 100644
--- a/templates/cc/in.go
+++ b/templates/cc/in.go
@@ -1,12 +1,12 @@
 package cc
 
-const inTpl = `{{ $f := .Field -}}{{ $r := .Rules -}}
+const inTpl = `{{ $r := .Rules -}}
 	{{- if $r.In }}
-		if ({{ lookup $f "InLookup" }}.find(static_cast<decltype({{ lookup $f "InLookup" }})::key_type>({{ accessor . }})) == {{ lookup $f "InLookup" }}.end()) {
+		if ({{ lookup . "InLookup" }}.find(static_cast<decltype({{ lookup . "InLookup" }})::key_type>({{ accessor . }})) == {{ lookup . "InLookup" }}.end()) {
 			{{ err . "value must be in list " $r.In }}
 		}
 	{{- else if $r.NotIn }}
-		if ({{ lookup $f "NotInLookup" }}.find(static_cast<decltype({{ lookup $f "NotInLookup" }})::key_type>({{ accessor . }})) != {{ lookup $f "NotInLookup" }}.end()) {
+		if ({{ lookup . "NotInLookup" }}.find(static_cast<decltype({{ lookup . "NotInLookup" }})::key_type>({{ accessor . }})) != {{ lookup . "NotInLookup" }}.end()) {
 			{{ err . "value must not be in list " $r.NotIn }}
 		}
 	{{- end }}
diff --git a/templates/cc/msg.go b/templates/cc/msg.go
index 97ca351..1298435 100644
--- a/templates/cc/msg.go
+++ b/templates/cc/msg.go
@@ -14,83 +14,12 @@ const msgTpl = `
 	{{ cmt "Validate checks the field values on " (class .) " with the rules defined in the proto definition for this message. If any rules are violated, the return value is false and an error message is written to the input string argument." }}
 {{- end -}}
 
-{{ range .Fields }}{{ with (context .) }}{{ $f := .Field }}
-	{{ if has .Rules "In" }}{{ if .Rules.In }}
-	const std::set<{{ inType .Field .Rules.In }}> {{ lookup .Field "InLookup" }} = {
-			{{- range .Rules.In }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
-	const std::set<{{ inType .Field .Rules.NotIn }}> {{ lookup .Field "NotInLookup" }} = {
-			{{- range .Rules.NotIn }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "In" }} {{ if .Rules.Items.GetString_.In }}
-	const std::set<string> {{ lookup .Field "InLookup" }} = {
-			{{- range .Rules.Items.GetString_.In }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "In" }} {{ if .Rules.Items.GetEnum.In }}
-	const std::set<{{ inType .Field .Rules.Items.GetEnum.In }}> {{ lookup .Field "InLookup" }} = {
-			{{- range .Rules.Items.GetEnum.In }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
+{{ range .Fields }}{{ with (context .) }}
+	{{ template "lookups" . }}
 
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "NotIn" }} {{ if .Rules.Items.GetString_.NotIn }}
-	const std::set<string> {{ lookup .Field "NotInLookup" }} = {
-			{{- range .Rules.Items.GetString_.NotIn }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "NotIn" }} {{ if .Rules.Items.GetEnum.NotIn }}
-	const std::set<{{ inType .Field .Rules.Items.GetEnum.NotIn }}> {{ lookup .Field "NotInLookup" }} = {
-			{{- range .Rules.Items.GetEnum.NotIn }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-        {{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
-               const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.GetPattern }},
-                                                            sizeof({{ lit .Rules.GetPattern }}) - 1));
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-        {{ if has .Rules.Items.GetString_ "Pattern" }} {{ if .Rules.Items.GetString_.Pattern }}
-               const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.Items.GetString_.GetPattern }},
-                                              sizeof({{ lit .Rules.Items.GetString_.GetPattern }}) - 1));
-	{{ end }}{{ end }}
-        {{ end }}{{ end }}
-
-        {{ if has .Rules "Keys"}}{{ if .Rules.Keys }}
-	{{ if has .Rules.Keys.GetString_ "Pattern" }} {{ if .Rules.Keys.GetString_.Pattern }}
-		const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.Keys.GetString_.GetPattern }},
-                                              sizeof({{ lit .Rules.Keys.GetString_.GetPattern }}) - 1));
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Values"}}{{ if .Rules.Values }}
-	{{ if has .Rules.Values.GetString_ "Pattern" }} {{ if .Rules.Values.GetString_.Pattern }}
-		const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.Values.GetString_.GetPattern }},
-                                              sizeof({{ lit .Rules.Values.GetString_.GetPattern }}) - 1));
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
+	{{ if or (eq .Typ "repeated") (eq .Typ "map") }}{{ template "lookups" (.Elem "" "") }}{{ end }}
 
+	{{ if eq .Typ "map" }}{{ template "lookups" (.Key "" "") }}{{ end }}
 {{ end }}{{ end }}
 
 bool Validate(const {{ class . }}& m, pgv::ValidationMsg* err) {
@@ -124,3 +53,28 @@ bool Validate(const {{ class . }}& m, pgv::ValidationMsg* err) {
 }
 {{- end -}}
 `
+
+// The constants that the rules of a field, or of its items, keys or values
+// refer to.
+const lookupsTpl = `
+	{{ if has .Rules "In" }}{{ if .Rules.In }}
+	const std::set<{{ inType . }}> {{ lookup . "InLookup" }} = {
+			{{- range .Rules.In }}
+				{{ inKey $ . }},
+			{{- end }}
+		};
+	{{ end }}{{ end }}
+
+	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
+	const std::set<{{ inType . }}> {{ lookup . "NotInLookup" }} = {
+			{{- range .Rules.NotIn }}
+				{{ inKey $ . }},
+			{{- end }}
+		};
+	{{ end }}{{ end }}
+
+	{{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
+	const re2::RE2 {{ lookup . "Pattern" }}(re2::StringPiece({{ lit .Rules.GetPattern }},
+						sizeof({{ lit .Rules.GetPattern }}) - 1));
+	{{ end }}{{ end }}
+`
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 1c64315..afa5fa8 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -55,6 +55,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 	template.Must(tpl.New("const").Parse(constTpl))
 	template.Must(tpl.New("ltgt").Parse(ltgtTpl))
 	template.Must(tpl.New("in").Parse(inTpl))
+	template.Must(tpl.New("lookups").Parse(lookupsTpl))
 	template.Must(tpl.New("required").Parse(requiredTpl))
 
 	template.Must(tpl.New("none").Parse(noneTpl))
@@ -255,11 +256,15 @@ func (fns CCFuncs) errIdxCause(ctx shared.RuleContext, idx, cause string, reason
 	return strings.Join(output, "\n")
 }
 
-func (fns CCFuncs) lookup(f pgs.Field, name string) string {
+func (fns CCFuncs) lookup(ctx shared.RuleContext, name string) string {
+	if ctx.OnKey { // the keys of a map may have rules next to its values
+		name = "Key" + name
+	}
+
 	return fmt.Sprintf(
 		"_%s_%s_%s",
-		pgsgo.PGGUpperCamelCase(f.Message().Name()),
-		pgsgo.PGGUpperCamelCase(f.Name()),
+		fns.classBaseName(ctx.Field.Message()),
+		ctx.Field.Name(),
 		name,
 	)
 }
@@ -369,24 +374,30 @@ func (fns CCFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
 		fns.camelCase(f.Name())))
 }
 
-func (fns CCFuncs) inType(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.BytesT:
+// inType is the C++ type that in and not_in rules look values up by.
+func (fns CCFuncs) inType(ctx shared.RuleContext) string {
+	typ := ctx.Typ
+	if typ == "wrapper" {
+		typ = ctx.WrapperTyp
+	}
+
+	switch typ {
+	case "float", "double":
+		return typ
+	case "int32", "sint32", "sfixed32":
+		return "int32_t"
+	case "int64", "sint64", "sfixed64":
+		return "int64_t"
+	case "uint32", "fixed32":
+		return "uint32_t"
+	case "uint64", "fixed64":
+		return "uint64_t"
+	case "enum":
+		return fns.cType(ctx.Field.Type())
+	case "duration":
+		return "pgv::protobuf_wkt::Duration"
+	default: // string, bytes, any
 		return "string"
-	case pgs.MessageT:
-		switch x.(type) {
-		case []string, [][]byte:
-			return "string"
-		case []*durationpb.Duration:
-			return "pgv::protobuf_wkt::Duration"
-		default:
-			if f.Type().IsEmbed() { // a wrapper: the type of its value
-				return fns.cTypeOfString(reflect.TypeOf(x).Elem().String())
-			}
-			return fns.className(f.Type().Element().Embed())
-		}
-	default:
-		return fns.cType(f.Type())
 	}
 }
 
@@ -438,17 +449,12 @@ func (fns CCFuncs) cTypeOfString(s string) string {
 	}
 }
 
-func (fns CCFuncs) inKey(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.MessageT:
-		switch x := x.(type) {
-		case *durationpb.Duration:
-			return fns.durLit(x)
-		default:
-			return fns.value(x)
-		}
-	case pgs.EnumT:
-		return fmt.Sprintf("%s(%d)", fns.cType(f.Type()), x.(int32))
+func (fns CCFuncs) inKey(ctx shared.RuleContext, x interface{}) string {
+	switch ctx.Typ {
+	case "duration":
+		return fns.durLit(x.(*durationpb.Duration))
+	case "enum":
+		return fmt.Sprintf("%s(%d)", fns.cType(ctx.Field.Type()), x.(int32))
 	default:
 		return fns.value(x)
 	}
diff --git a/templates/cc/repeated.go b/templates/cc/repeated.go
index 6a25216..71f936f 100644
--- a/templates/cc/repeated.go
+++ b/templates/cc/repeated.go
@@ -1,7 +1,7 @@
 package cc
 
 const repTpl = `
-	{{ $f := .Field }}{{ $r := .Rules }}{{ $typ := inType $f nil }}{{ if $f.Type.Element.IsEnum }}{{ $typ = "int" }}{{ end }}
+	{{ $f := .Field }}{{ $r := .Rules }}{{ $typ := ctype $f.Type }}{{ if $f.Type.Element.IsEnum }}{{ $typ = "int" }}{{ end }}
 	{{ if $r.GetIgnoreEmpty }}
 		if ({{ accessor . }}.size() > 0) {
 	{{ end }}
@@ -27,14 +27,14 @@ const repTpl = `
 
 	{{ if $r.GetUnique }}
 	// Implement comparison for wrapped reference types
-	struct {{ lookup $f "Cmp" }} {
+	struct {{ lookup . "Cmp" }} {
 		bool operator() (const std::reference_wrapper<{{ $typ }}> lhs, const std::reference_wrapper<{{ $typ }}> rhs) const {
 			return lhs.get() == rhs.get();
 		}
 	};
 
 	// Implement hashing for wrapped reference types
-	struct {{ lookup $f "Hash" }} {
+	struct {{ lookup . "Hash" }} {
 		std::hash<{{ $typ }}> hash_fn;
 		bool operator() (const std::reference_wrapper<{{ $typ }}> ref) const {
 			return hash_fn(ref.get());
@@ -42,7 +42,7 @@ const repTpl = `
 	};
 
 	// Save a set of references to avoid copying overhead
-	std::unordered_set<std::reference_wrapper<{{ $typ }}>, {{ lookup $f "Hash" }}, {{ lookup $f "Cmp" }}> {{ lookup $f "Unique" }};
+	std::unordered_set<std::reference_wrapper<{{ $typ }}>, {{ lookup . "Hash" }}, {{ lookup . "Cmp" }}> {{ lookup . "Unique" }};
 	{{ end }}
 
 	{{ if or $r.GetUnique (ne (.Elem "" "").Typ "none") }}
@@ -51,7 +51,7 @@ const repTpl = `
 			(void)item;
 
 			{{ if $r.GetUnique }}
-				auto p = {{ lookup $f "Unique" }}.emplace(const_cast<{{ $typ }}&>(item));
+				auto p = {{ lookup . "Unique" }}.emplace(const_cast<{{ $typ }}&>(item));
 				if (p.second == false) {
 					{{ errIdx . "i" "repeated value must contain unique items" }}
 				}
diff --git a/templates/cc/string.go b/templates/cc/string.go
index 13b4fc5..7a8112d 100644
--- a/templates/cc/string.go
+++ b/templates/cc/string.go
@@ -1,7 +1,7 @@
 package cc
 
 const strTpl = `
-	{{ $f := .Field }}{{ $r := .Rules }}
+	{{ $r := .Rules }}
 	{{ if $r.GetIgnoreEmpty }}
 		if ({{ accessor . }} != "") {
 	{{ end }}
@@ -112,7 +112,7 @@ const strTpl = `
         {{ if $r.Pattern }}
         {
                 if (!RE2::FullMatch(re2::StringPiece({{ accessor . }}.c_str(), {{ accessor . }}.size()),
-                                    {{ lookup $f "Pattern" }})) {
+                                    {{ lookup . "Pattern" }})) {
 		        {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 	        }
         }
-- 
2.43.0


From dabed5d12842011cfdf0ecbcc484062375f2fc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 38/77] fix: NaN and the in and not_in rules of C++

---
 templates/cc/msg.go      |  4 ++--
 templates/cc/register.go | 19 ++++++++++---------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/templates/cc/msg.go b/templates/cc/msg.go
index 1298435..682fa65 100644
--- a/templates/cc/msg.go
+++ b/templates/cc/msg.go
@@ -58,7 +58,7 @@ bool Validate(const {{ class . }}& m, pgv::ValidationMsg* err) {
 // refer to.
 const lookupsTpl = `
 	{{ if has .Rules "In" }}{{ if .Rules.In }}
-	const std::set<{{ inType . }}> {{ lookup . "InLookup" }} = {
+	const {{ inType . }} {{ lookup . "InLookup" }} = {
 			{{- range .Rules.In }}
 				{{ inKey $ . }},
 			{{- end }}
@@ -66,7 +66,7 @@ const lookupsTpl = `
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
-	const std::set<{{ inType . }}> {{ lookup . "NotInLookup" }} = {
+	const {{ inType . }} {{ lookup . "NotInLookup" }} = {
 			{{- range .Rules.NotIn }}
 				{{ inKey $ . }},
 			{{- end }}
diff --git a/templates/cc/register.go b/templates/cc/register.go
index afa5fa8..858fd37 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -374,7 +374,8 @@ func (fns CCFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
 		fns.camelCase(f.Name())))
 }
 
-// inType is the C++ type that in and not_in rules look values up by.
+// inType is the C++ type of the set that in and not_in rules look values up
+// in. NaN is equivalent to anything in an ordered set.
 func (fns CCFuncs) inType(ctx shared.RuleContext) string {
 	typ := ctx.Typ
 	if typ == "wrapper" {
@@ -383,21 +384,21 @@ func (fns CCFuncs) inType(ctx shared.RuleContext) string {
 
 	switch typ {
 	case "float", "double":
-		return typ
+		return "std::unordered_set<" + typ + ">"
 	case "int32", "sint32", "sfixed32":
-		return "int32_t"
+		return "std::set<int32_t>"
 	case "int64", "sint64", "sfixed64":
-		return "int64_t"
+		return "std::set<int64_t>"
 	case "uint32", "fixed32":
-		return "uint32_t"
+		return "std::set<uint32_t>"
 	case "uint64", "fixed64":
-		return "uint64_t"
+		return "std::set<uint64_t>"
 	case "enum":
-		return fns.cType(ctx.Field.Type())
+		return "std::set<" + fns.cType(ctx.Field.Type()) + ">"
 	case "duration":
-		return "pgv::protobuf_wkt::Duration"
+		return "std::set<pgv::protobuf_wkt::Duration>"
 	default: // string, bytes, any
-		return "string"
+		return "std::set<string>"
 	}
 }
 
-- 
2.43.0


From 16292a6793bd9bedb870ffdebb3217a4bcddb633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 39/77] fix: unsigned numbers in Java rules

Their literals did not fit int and long, and they were compared as if they were signed.
---
 templates/java/num.go      |  24 ++++-----
 templates/java/register.go | 104 +++++++++++++++++--------------------
 2 files changed, 59 insertions(+), 69 deletions(-)

diff --git a/templates/java/num.go b/templates/java/num.go
index e0a25e9..11ac368 100644
--- a/templates/java/num.go
+++ b/templates/java/num.go
@@ -2,31 +2,31 @@ package java
 
 const numConstTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.Const }}
-		private final {{ javaTypeFor .}} {{ constantName . "Const" }} = {{ $r.GetConst }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Const" }} = {{ numLit $r.GetConst }};
 {{- end -}}
 {{- if $r.Lt }}
-		private final {{ javaTypeFor .}} {{ constantName . "Lt" }} = {{ $r.GetLt }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Lt" }} = {{ numLit $r.GetLt }};
 {{- end -}}
 {{- if $r.Lte }}
-		private final {{ javaTypeFor .}} {{ constantName . "Lte" }} = {{ $r.GetLte }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Lte" }} = {{ numLit $r.GetLte }};
 {{- end -}}
 {{- if $r.Gt }}
-		private final {{ javaTypeFor .}} {{ constantName . "Gt" }} = {{ $r.GetGt }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Gt" }} = {{ numLit $r.GetGt }};
 {{- end -}}
 {{- if $r.Gte }}
-		private final {{ javaTypeFor .}} {{ constantName . "Gte" }} = {{ $r.GetGte }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Gte" }} = {{ numLit $r.GetGte }};
 {{- end -}}
 {{- if $r.In }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "In" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.In -}}
-				{{- sprintf "%v" . -}}{{ javaTypeLiteralSuffixFor $ }},
+				{{- numLit . -}},
 			{{- end -}}
 		};
 {{- end -}}
 {{- if $r.NotIn }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "NotIn" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.NotIn -}}
-				{{- sprintf "%v" . -}}{{ javaTypeLiteralSuffixFor $ }},
+				{{- numLit . -}},
 			{{- end -}}
 		};
 {{- end -}}`
@@ -39,19 +39,19 @@ const numTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Const" }});
 {{- end -}}
 {{- if and (or $r.Lt $r.Lte) (or $r.Gt $r.Gte)}}
-			io.envoyproxy.pgv.ComparativeValidation.range("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ if $r.Lt }}{{ constantName . "Lt" }}{{ else }}null{{ end }}, {{ if $r.Lte }}{{ constantName . "Lte" }}{{ else }}null{{ end }}, {{ if $r.Gt }}{{ constantName . "Gt" }}{{ else }}null{{ end }}, {{ if $r.Gte }}{{ constantName . "Gte" }}{{ else }}null{{ end }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.range("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ if $r.Lt }}{{ constantName . "Lt" }}{{ else }}null{{ end }}, {{ if $r.Lte }}{{ constantName . "Lte" }}{{ else }}null{{ end }}, {{ if $r.Gt }}{{ constantName . "Gt" }}{{ else }}null{{ end }}, {{ if $r.Gte }}{{ constantName . "Gte" }}{{ else }}null{{ end }}, {{ numComparator . }});
 {{- else -}}
 {{- if $r.Lt }}
-			io.envoyproxy.pgv.ComparativeValidation.lessThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lt" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.lessThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lt" }}, {{ numComparator . }});
 {{- end -}}
 {{- if $r.Lte }}
-			io.envoyproxy.pgv.ComparativeValidation.lessThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lte" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.lessThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lte" }}, {{ numComparator . }});
 {{- end -}}
 {{- if $r.Gt }}
-			io.envoyproxy.pgv.ComparativeValidation.greaterThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gt" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.greaterThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gt" }}, {{ numComparator . }});
 {{- end -}}
 {{- if $r.Gte }}
-			io.envoyproxy.pgv.ComparativeValidation.greaterThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gte" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.greaterThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gte" }}, {{ numComparator . }});
 {{- end -}}
 {{- end -}}
 {{- if $r.In }}
diff --git a/templates/java/register.go b/templates/java/register.go
index ecfe014..2148ff9 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -32,29 +32,30 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 	fns := javaFuncs{pgsgo.InitContext(params)}
 
 	tpl.Funcs(map[string]interface{}{
-		"accessor":                 fns.accessor,
-		"byteArrayLit":             fns.byteArrayLit,
-		"camelCase":                fns.camelCase,
-		"classNameFile":            classNameFile,
-		"classNameMessage":         classNameMessage,
-		"durLit":                   fns.durLit,
-		"fieldName":                fns.fieldName,
-		"javaPackage":              javaPackage,
-		"javaStringEscape":         fns.javaStringEscape,
-		"javaTypeFor":              fns.javaTypeFor,
-		"javaTypeLiteralSuffixFor": fns.javaTypeLiteralSuffixFor,
-		"hasAccessor":              fns.hasAccessor,
-		"oneof":                    fns.oneofTypeName,
-		"sprintf":                  fmt.Sprintf,
-		"simpleName":               simpleName,
-		"tsLit":                    fns.tsLit,
-		"qualifiedName":            fns.qualifiedName,
-		"isOfFileType":             fns.isOfFileType,
-		"isOfMessageType":          fns.isOfMessageType,
-		"isOfStringType":           fns.isOfStringType,
-		"unwrap":                   fns.unwrap,
-		"renderConstants":          fns.renderConstants(tpl),
-		"constantName":             fns.constantName,
+		"accessor":         fns.accessor,
+		"byteArrayLit":     fns.byteArrayLit,
+		"camelCase":        fns.camelCase,
+		"classNameFile":    classNameFile,
+		"classNameMessage": classNameMessage,
+		"durLit":           fns.durLit,
+		"fieldName":        fns.fieldName,
+		"javaPackage":      javaPackage,
+		"javaStringEscape": fns.javaStringEscape,
+		"javaTypeFor":      fns.javaTypeFor,
+		"hasAccessor":      fns.hasAccessor,
+		"oneof":            fns.oneofTypeName,
+		"numComparator":    fns.numComparator,
+		"numLit":           fns.numLit,
+		"sprintf":          fmt.Sprintf,
+		"simpleName":       simpleName,
+		"tsLit":            fns.tsLit,
+		"qualifiedName":    fns.qualifiedName,
+		"isOfFileType":     fns.isOfFileType,
+		"isOfMessageType":  fns.isOfMessageType,
+		"isOfStringType":   fns.isOfStringType,
+		"unwrap":           fns.unwrap,
+		"renderConstants":  fns.renderConstants(tpl),
+		"constantName":     fns.constantName,
 	})
 
 	template.Must(tpl.Parse(fileTpl))
@@ -388,44 +389,33 @@ func (fns javaFuncs) javaTypeForProtoType(t pgs.ProtoType) string {
 	}
 }
 
-func (fns javaFuncs) javaTypeLiteralSuffixFor(ctx shared.RuleContext) string {
-	t := ctx.Field.Type()
-
-	if t.IsMap() {
-		switch ctx.AccessorOverride {
-		case "key":
-			return fns.javaTypeLiteralSuffixForPrototype(t.Key().ProtoType())
-		case "value":
-			return fns.javaTypeLiteralSuffixForPrototype(t.Element().ProtoType())
-		}
-	}
-
-	if t.IsEmbed() {
-		if embed := t.Embed(); embed.IsWellKnown() {
-			switch embed.WellKnownType() {
-			case pgs.Int64ValueWKT, pgs.UInt64ValueWKT:
-				return "L"
-			case pgs.FloatValueWKT:
-				return "F"
-			case pgs.DoubleValueWKT:
-				return "D"
-			}
-		}
+// numLit is the literal of a rule's number. An int or a long has the bits of an
+// unsigned number.
+func (fns javaFuncs) numLit(n interface{}) string {
+	switch n := n.(type) {
+	case uint32:
+		return fmt.Sprintf("%d", int32(n))
+	case uint64:
+		return fmt.Sprintf("%dL", int64(n))
+	case int64:
+		return fmt.Sprintf("%dL", n)
+	case float32:
+		return fmt.Sprintf("%vF", n)
+	case float64:
+		return fmt.Sprintf("%vD", n)
+	default:
+		return fmt.Sprintf("%v", n)
 	}
-
-	return fns.javaTypeLiteralSuffixForPrototype(t.ProtoType())
 }
 
-func (fns javaFuncs) javaTypeLiteralSuffixForPrototype(t pgs.ProtoType) string {
-	switch t {
-	case pgs.Int64T, pgs.UInt64T, pgs.SInt64, pgs.Fixed64T, pgs.SFixed64:
-		return "L"
-	case pgs.FloatT:
-		return "F"
-	case pgs.DoubleT:
-		return "D"
+func (fns javaFuncs) numComparator(ctx shared.RuleContext) string {
+	switch ctx.Typ {
+	case "uint32", "fixed32":
+		return "Integer::compareUnsigned"
+	case "uint64", "fixed64":
+		return "Long::compareUnsigned"
 	default:
-		return ""
+		return "java.util.Comparator.naturalOrder()"
 	}
 }
 
-- 
2.43.0


From 5418c61e426106012396ad73f868ad5289771adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 40/77] fix: seconds above 2^31 in Java rules do not compile

---
 templates/java/register.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index 2148ff9..d7613a7 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -446,13 +446,13 @@ func (fns javaFuncs) byteArrayLit(bytes []uint8) string {
 
 func (fns javaFuncs) durLit(dur *durationpb.Duration) string {
 	return fmt.Sprintf(
-		"io.envoyproxy.pgv.TimestampValidation.toDuration(%d,%d)",
+		"io.envoyproxy.pgv.TimestampValidation.toDuration(%dL,%d)",
 		dur.GetSeconds(), dur.GetNanos())
 }
 
 func (fns javaFuncs) tsLit(ts *timestamppb.Timestamp) string {
 	return fmt.Sprintf(
-		"io.envoyproxy.pgv.TimestampValidation.toTimestamp(%d,%d)",
+		"io.envoyproxy.pgv.TimestampValidation.toTimestamp(%dL,%d)",
 		ts.GetSeconds(), ts.GetNanos())
 }
 
-- 
2.43.0


From 5feecb68cf6d82ccd19a0175c86cd41dc6bc2dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 41/77] fix: escape the strings of Java rules

Strings and type URLs with quotes, backslashes or control characters made code that does not compile, or other strings; so did some patterns.
---
 templates/java/any.go      |  4 ++--
 templates/java/register.go | 27 ++++++++++++++++++++-------
 templates/java/string.go   | 14 +++++++-------
 3 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/templates/java/any.go b/templates/java/any.go
index e7ec579..ec7f6e7 100644
--- a/templates/java/any.go
+++ b/templates/java/any.go
@@ -4,14 +4,14 @@ const anyConstTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 {{- if $r.In }}
 		private final String[] {{ constantName . "In" }} = new String[]{
 			{{- range $r.In }}
-			"{{ . }}",
+			{{ javaStringEscape . }},
 			{{- end }}
 		};
 {{- end -}}
 {{- if $r.NotIn }}
 		private final String[] {{ constantName . "NotIn" }} = new String[]{
 			{{- range $r.NotIn }}
-			"{{ . }}",
+			{{ javaStringEscape . }},
 			{{- end }}
 		};
 {{- end -}}`
diff --git a/templates/java/register.go b/templates/java/register.go
index d7613a7..7961dc9 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 	"text/template"
 	"unicode"
+	"unicode/utf16"
 
 	"github.com/envoyproxy/protoc-gen-validate/templates/shared"
 	"github.com/iancoleman/strcase"
@@ -419,14 +420,26 @@ func (fns javaFuncs) numComparator(ctx shared.RuleContext) string {
 	}
 }
 
+// javaStringEscape is the literal of a string. Java translates \u escapes
+// before it splits the text into tokens, so those cannot be used for ASCII.
 func (fns javaFuncs) javaStringEscape(s string) string {
-	s = fmt.Sprintf("%q", s)
-	s = s[1 : len(s)-1]
-	s = strings.Replace(s, `\u00`, `\x`, -1)
-	s = strings.Replace(s, `\x`, `\\x`, -1)
-	// s = strings.Replace(s, `\`, `\\`, -1)
-	s = strings.Replace(s, `"`, `\"`, -1)
-	return `"` + s + `"`
+	var sb strings.Builder
+	sb.WriteByte('"')
+	for _, c := range utf16.Encode([]rune(s)) {
+		switch {
+		case c == '"' || c == '\\':
+			sb.WriteByte('\\')
+			sb.WriteByte(byte(c))
+		case c < ' ' || c == 0x7f:
+			fmt.Fprintf(&sb, "\\%03o", c)
+		case c < 0x7f:
+			sb.WriteByte(byte(c))
+		default:
+			fmt.Fprintf(&sb, "\\u%04x", c)
+		}
+	}
+	sb.WriteByte('"')
+	return sb.String()
 }
 
 func (fns javaFuncs) camelCase(name pgs.Name) string {
diff --git a/templates/java/string.go b/templates/java/string.go
index 2a11215..9dd6699 100644
--- a/templates/java/string.go
+++ b/templates/java/string.go
@@ -4,14 +4,14 @@ const stringConstTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.In }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "In" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.In -}}
-				"{{- sprintf "%v" . -}}",
+				{{- javaStringEscape . -}},
 			{{- end -}}
 		};
 {{- end -}}
 {{- if $r.NotIn }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "NotIn" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.NotIn -}}
-				"{{- sprintf "%v" . -}}",
+				{{- javaStringEscape . -}},
 			{{- end -}}
 		};
 {{- end -}}
@@ -24,7 +24,7 @@ const stringTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			if ( !{{ accessor . }}.isEmpty() ) {
 {{- end -}}
 {{- if $r.Const }}
-			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetConst }}");
+			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetConst }});
 {{- end -}}
 {{- if $r.In }}
 			io.envoyproxy.pgv.CollectiveValidation.in("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "In" }});
@@ -54,16 +54,16 @@ const stringTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			io.envoyproxy.pgv.StringValidation.pattern("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Pattern" }});
 {{- end -}}
 {{- if $r.Prefix }}
-			io.envoyproxy.pgv.StringValidation.prefix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetPrefix }}");
+			io.envoyproxy.pgv.StringValidation.prefix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetPrefix }});
 {{- end -}}
 {{- if $r.Contains }}
-			io.envoyproxy.pgv.StringValidation.contains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetContains }}");
+			io.envoyproxy.pgv.StringValidation.contains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetContains }});
 {{- end -}}
 {{- if $r.NotContains }}
-			io.envoyproxy.pgv.StringValidation.notContains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetNotContains }}");
+			io.envoyproxy.pgv.StringValidation.notContains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetNotContains }});
 {{- end -}}
 {{- if $r.Suffix }}
-			io.envoyproxy.pgv.StringValidation.suffix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetSuffix }}");
+			io.envoyproxy.pgv.StringValidation.suffix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetSuffix }});
 {{- end -}}
 {{- if $r.GetEmail }}
 			io.envoyproxy.pgv.StringValidation.email("{{ $f.FullyQualifiedName }}", {{ accessor . }});
-- 
2.43.0


From a733903a68902782f0a82e9620c866662ed207b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 42/77] fix: Java rules for the values of maps of enums and for
 lists of wrappers

The constants of their in, not_in and const rules had the wrong type: the code did not compile.
---
 templates/java/register.go | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index 7961dc9..b400bd6 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -322,18 +322,17 @@ func (fns javaFuncs) fieldName(ctx shared.RuleContext) string {
 func (fns javaFuncs) javaTypeFor(ctx shared.RuleContext) string {
 	t := ctx.Field.Type()
 
-	// Map key and value types
-	if t.IsMap() {
-		switch ctx.AccessorOverride {
-		case "key":
-			return fns.javaTypeForProtoType(t.Key().ProtoType())
-		case "value":
-			return fns.javaTypeForProtoType(t.Element().ProtoType())
-		}
+	if t.IsMap() && ctx.AccessorOverride == "key" {
+		return fns.javaTypeForProtoType(t.Key().ProtoType())
+	}
+
+	protoType, embed, enum := t.ProtoType(), t.Embed(), t.Enum()
+	if t.IsRepeated() || t.IsMap() {
+		protoType, embed, enum = t.Element().ProtoType(), t.Element().Embed(), t.Element().Enum()
 	}
 
-	if t.IsEmbed() {
-		if embed := t.Embed(); embed.IsWellKnown() {
+	if embed != nil {
+		if embed.IsWellKnown() {
 			switch embed.WellKnownType() {
 			case pgs.AnyWKT:
 				return "String"
@@ -349,23 +348,18 @@ func (fns javaFuncs) javaTypeFor(ctx shared.RuleContext) string {
 				return "Double"
 			case pgs.FloatValueWKT:
 				return "Float"
+			case pgs.StringValueWKT:
+				return "String"
 			}
 		}
+		return fns.qualifiedName(embed)
 	}
 
-	if t.IsRepeated() {
-		if t.ProtoType() == pgs.MessageT {
-			return fns.qualifiedName(t.Element().Embed())
-		} else if t.ProtoType() == pgs.EnumT {
-			return fns.qualifiedName(t.Element().Enum())
-		}
-	}
-
-	if t.IsEnum() {
-		return fns.qualifiedName(t.Enum())
+	if enum != nil {
+		return fns.qualifiedName(enum)
 	}
 
-	return fns.javaTypeForProtoType(t.ProtoType())
+	return fns.javaTypeForProtoType(protoType)
 }
 
 func (fns javaFuncs) javaTypeForProtoType(t pgs.ProtoType) string {
-- 
2.43.0


From 4512c73afafd2b16777420c286218d5b0eff7977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 43/77] fix: ExplicitValidatorIndex does not call the
 validators of its fallback index

---
 .../src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java
index 828d13e..f1051d3 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java
@@ -33,7 +33,7 @@ public final class ExplicitValidatorIndex implements ValidatorIndex {
     @SuppressWarnings("unchecked")
     public <T> Validator<T> validatorFor(Class clazz) {
         return VALIDATOR_INDEX.computeIfAbsent(clazz, c ->
-                proto -> VALIDATOR_IMPL_INDEX.getOrDefault(c, (p, i) -> fallbackIndex.validatorFor(c))
+                proto -> VALIDATOR_IMPL_INDEX.getOrDefault(c, (p, i) -> fallbackIndex.validatorFor(c).assertValid(p))
                         .assertValid(proto, ExplicitValidatorIndex.this));
     }
 }
-- 
2.43.0


From 98281b8b5437fef58ed15c9efb1752244d7836c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 44/77] fix: Java ignores max_items: 0 and max_pairs: 0

---
 templates/java/map.go      | 2 +-
 templates/java/repeated.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/java/map.go b/templates/java/map.go
index 632d7eb..7d960d8 100644
--- a/templates/java/map.go
+++ b/templates/java/map.go
@@ -14,7 +14,7 @@ const mapTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.GetMinPairs }}
 			io.envoyproxy.pgv.MapValidation.min("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinPairs }});
 {{- end -}}
-{{- if $r.GetMaxPairs }}
+{{- if $r.MaxPairs }}
 			io.envoyproxy.pgv.MapValidation.max("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxPairs }});
 {{- end -}}
 {{- if $r.GetNoSparse }}
diff --git a/templates/java/repeated.go b/templates/java/repeated.go
index 776b407..0ceb9b2 100644
--- a/templates/java/repeated.go
+++ b/templates/java/repeated.go
@@ -9,7 +9,7 @@ const repeatedTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.GetMinItems }}
 			io.envoyproxy.pgv.RepeatedValidation.minItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinItems }});
 {{- end -}}
-{{- if $r.GetMaxItems }}
+{{- if $r.MaxItems }}
 			io.envoyproxy.pgv.RepeatedValidation.maxItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxItems }});
 {{- end -}}
 {{- if $r.GetUnique }}
-- 
2.43.0


From 4583cd0cb9b915724ea3422a24b44cbc16455a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 45/77] fix: Java ignores the required rule of messages with
 skip

---
 templates/java/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/java/message.go b/templates/java/message.go
index a9b7a62..b176101 100644
--- a/templates/java/message.go
+++ b/templates/java/message.go
@@ -1,10 +1,10 @@
 package java
 
 const messageTpl = `{{ $f := .Field }}{{ $r := .Rules }}
+	{{- template "required" . }}
 	{{- if .MessageRules.GetSkip }}
 			// skipping validation for {{ $f.Name }}
 	{{- else -}}
-		{{- template "required" . }}
 		{{- if (isOfMessageType $f) }}
 			// Validate {{ $f.Name }}
 			if ({{ hasAccessor . }}) index.validatorFor({{ accessor . }}).assertValid({{ accessor . }});
-- 
2.43.0


From 2a88d51a7e60ab68e9242678913ec3348674f392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 46/77] fix: NullPointerException of ReflectiveValidatorIndex
 for ignored messages

---
 .../main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
index f9f7778..67935bd 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
@@ -48,6 +48,9 @@ public final class ReflectiveValidatorIndex implements ValidatorIndex {
         String validatorClassName = enclosingClass.getName() + "Validator";
         Class validatorClass = clazz.getClassLoader().loadClass(validatorClassName);
         ValidatorImpl impl = (ValidatorImpl) validatorClass.getDeclaredMethod("validatorFor", Class.class).invoke(null, clazz);
+        if (impl == null) { // an ignored message
+            return fallbackIndex.validatorFor(clazz);
+        }
 
         return proto -> impl.assertValid(proto, ReflectiveValidatorIndex.this);
     }
-- 
2.43.0


From 83eed398e3a9b5ebfc7f8e8360c6854ce16106de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 47/77] fix: IllegalArgumentException of Java validators for
 invalid durations and timestamps

---
 templates/java/duration.go  | 3 +++
 templates/java/timestamp.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/templates/java/duration.go b/templates/java/duration.go
index 49e991b..7d2b96e 100644
--- a/templates/java/duration.go
+++ b/templates/java/duration.go
@@ -34,6 +34,9 @@ const durationConstTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 const durationTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- template "required" . -}}
 
+{{- if or $r.Const $r.Lt $r.Lte $r.Gt $r.Gte $r.In $r.NotIn }}
+			if ({{ hasAccessor . }} && !com.google.protobuf.util.Durations.isValid({{ accessor . }})) throw new io.envoyproxy.pgv.ValidationException("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "value is not a valid duration");
+{{- end -}}
 {{- if $r.Const }}
 			if ({{ hasAccessor . }}) io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Const" }});
 {{- end -}}
diff --git a/templates/java/timestamp.go b/templates/java/timestamp.go
index 70f7775..4d73f28 100644
--- a/templates/java/timestamp.go
+++ b/templates/java/timestamp.go
@@ -23,6 +23,9 @@ const timestampConstTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 const timestampTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- template "required" . -}}
 
+{{- if or $r.Const $r.Lt $r.Lte $r.Gt $r.Gte $r.GetLtNow $r.GetGtNow $r.Within }}
+			if ({{ hasAccessor . }} && !com.google.protobuf.util.Timestamps.isValid({{ accessor . }})) throw new io.envoyproxy.pgv.ValidationException("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "value is not a valid timestamp");
+{{- end -}}
 {{- if $r.Const }}
 			if ({{ hasAccessor . }}) io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Const" }});
 {{- end -}}
-- 
2.43.0


From f1ae9b166697f5a153ba0252a2b66b492cbd1f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 48/77] fix: Java validates ignored messages of files with
 java_multiple_files

---
 templates/java/file.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/templates/java/file.go b/templates/java/file.go
index 7c77fba..c86dea2 100644
--- a/templates/java/file.go
+++ b/templates/java/file.go
@@ -26,9 +26,11 @@ public class {{ classNameFile . }}Validator {
 * Validates {@code {{ simpleName . }}} protobuf objects.
 */
 @SuppressWarnings("all")
-public class {{ classNameMessage .}}Validator implements io.envoyproxy.pgv.ValidatorImpl<{{ qualifiedName . }}>{
+public class {{ classNameMessage .}}Validator {{ if not (ignored .) }}implements io.envoyproxy.pgv.ValidatorImpl<{{ qualifiedName . }}>{{ end }}{
 	public static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class clazz) {
+		{{ if not (ignored .) -}}
 		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ simpleName .}}Validator();
+		{{- end }}
 		{{ range .AllMessages }}
 		{{ if not (ignored .) -}}
 		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ simpleName .}}Validator();
@@ -36,7 +38,9 @@ public class {{ classNameMessage .}}Validator implements io.envoyproxy.pgv.Valid
 		{{- end }}
 		return null;
 	}
+	{{- if not (ignored .) -}}
 	{{- template "msgInner" . -}}
+	{{- end }}
 	{{ range .AllMessages -}}
 	{{- template "msg" . -}}
 	{{- end }}
-- 
2.43.0


From cf3c529c3659d9f78ae6759912221377a6bdeb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 49/77] fix: ArithmeticException of the Java within rule for
 timestamps more than 292 years away

---
 .../main/java/io/envoyproxy/pgv/TimestampValidation.java    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java
index ff51948..072766c 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java
@@ -13,11 +13,15 @@ public final class TimestampValidation {
 
     public static void within(String field, Timestamp value, Duration duration, Timestamp when) throws ValidationException {
         Duration between = Timestamps.between(when, value);
-        if (Long.compare(Math.abs(Durations.toNanos(between)), Math.abs(Durations.toNanos(duration))) == 1) {
+        if (Durations.comparator().compare(abs(between), abs(duration)) > 0) {
             throw new ValidationException(field, value, "value must be within " + Durations.toString(duration) + " of " + Timestamps.toString(when));
         }
     }
 
+    private static Duration abs(Duration duration) {
+        return toDuration(Math.abs(duration.getSeconds()), Math.abs(duration.getNanos()));
+    }
+
     /**
      * Converts {@code seconds} and {@code nanos} to a protobuf {@code Timestamp}.
      */
-- 
2.43.0


From ef9768fb2c3f379c5e96f960e9ca109703609bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:08 +0000
Subject: [PATCH 50/77] fix: Java names of messages and enums without a package

---
 templates/java/register.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index b400bd6..be8d72c 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -220,10 +220,10 @@ func (fns javaFuncs) qualifiedName(entity pgs.Entity) string {
 		name := javaPackage(file)
 		if file.Descriptor().GetOptions() != nil {
 			if !file.Descriptor().GetOptions().GetJavaMultipleFiles() {
-				name += ("." + classNameFile(file))
+				name = joinNames(name, classNameFile(file))
 			}
 		} else {
-			name += ("." + classNameFile(file))
+			name = joinNames(name, classNameFile(file))
 		}
 		return name
 	}
@@ -231,18 +231,26 @@ func (fns javaFuncs) qualifiedName(entity pgs.Entity) string {
 	message, isMessage := entity.(pgs.Message)
 	if isMessage && message.Parent() != nil {
 		// recurse
-		return fns.qualifiedName(message.Parent()) + "." + entity.Name().String()
+		return joinNames(fns.qualifiedName(message.Parent()), entity.Name().String())
 	}
 
 	enum, isEnum := entity.(pgs.Enum)
 	if isEnum && enum.Parent() != nil {
 		// recurse
-		return fns.qualifiedName(enum.Parent()) + "." + entity.Name().String()
+		return joinNames(fns.qualifiedName(enum.Parent()), entity.Name().String())
 	}
 
 	return entity.Name().String()
 }
 
+// joinNames puts a name into a scope, which may be the unnamed package.
+func joinNames(scope, name string) string {
+	if scope == "" {
+		return name
+	}
+	return scope + "." + name
+}
+
 func upperCaseAfterNumber(name string) string {
 	var sb string
 	var p rune
-- 
2.43.0


From da089496b692b01c0da5ee697b4fdd00a73ab3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:08 +0000
Subject: [PATCH 51/77] fix: Java code for messages named String, Integer,
 Long, Class ...

---
 templates/java/any.go      |  4 ++--
 templates/java/file.go     |  8 ++++----
 templates/java/register.go | 30 +++++++++++++++---------------
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/templates/java/any.go b/templates/java/any.go
index ec7f6e7..680af28 100644
--- a/templates/java/any.go
+++ b/templates/java/any.go
@@ -2,14 +2,14 @@ package java
 
 const anyConstTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 {{- if $r.In }}
-		private final String[] {{ constantName . "In" }} = new String[]{
+		private final java.lang.String[] {{ constantName . "In" }} = new java.lang.String[]{
 			{{- range $r.In }}
 			{{ javaStringEscape . }},
 			{{- end }}
 		};
 {{- end -}}
 {{- if $r.NotIn }}
-		private final String[] {{ constantName . "NotIn" }} = new String[]{
+		private final java.lang.String[] {{ constantName . "NotIn" }} = new java.lang.String[]{
 			{{- range $r.NotIn }}
 			{{ javaStringEscape . }},
 			{{- end }}
diff --git a/templates/java/file.go b/templates/java/file.go
index c86dea2..93bd3a5 100644
--- a/templates/java/file.go
+++ b/templates/java/file.go
@@ -6,9 +6,9 @@ const fileTpl = `// Code generated by protoc-gen-validate. DO NOT EDIT.
 {{ with javaPackage .File }}package {{ . }};{{ end }}
 
 {{ if isOfFileType . }}
-@SuppressWarnings("all")
+@java.lang.SuppressWarnings("all")
 public class {{ classNameFile . }}Validator {
-	public static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class clazz) {
+	public static io.envoyproxy.pgv.ValidatorImpl validatorFor(java.lang.Class clazz) {
 		{{ range .AllMessages }}
 		{{ if not (ignored .) -}}
 		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ simpleName .}}Validator();
@@ -25,9 +25,9 @@ public class {{ classNameFile . }}Validator {
 /**
 * Validates {@code {{ simpleName . }}} protobuf objects.
 */
-@SuppressWarnings("all")
+@java.lang.SuppressWarnings("all")
 public class {{ classNameMessage .}}Validator {{ if not (ignored .) }}implements io.envoyproxy.pgv.ValidatorImpl<{{ qualifiedName . }}>{{ end }}{
-	public static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class clazz) {
+	public static io.envoyproxy.pgv.ValidatorImpl validatorFor(java.lang.Class clazz) {
 		{{ if not (ignored .) -}}
 		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ simpleName .}}Validator();
 		{{- end }}
diff --git a/templates/java/register.go b/templates/java/register.go
index be8d72c..f5279f1 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -343,21 +343,21 @@ func (fns javaFuncs) javaTypeFor(ctx shared.RuleContext) string {
 		if embed.IsWellKnown() {
 			switch embed.WellKnownType() {
 			case pgs.AnyWKT:
-				return "String"
+				return "java.lang.String"
 			case pgs.DurationWKT:
 				return "com.google.protobuf.Duration"
 			case pgs.TimestampWKT:
 				return "com.google.protobuf.Timestamp"
 			case pgs.Int32ValueWKT, pgs.UInt32ValueWKT:
-				return "Integer"
+				return "java.lang.Integer"
 			case pgs.Int64ValueWKT, pgs.UInt64ValueWKT:
-				return "Long"
+				return "java.lang.Long"
 			case pgs.DoubleValueWKT:
-				return "Double"
+				return "java.lang.Double"
 			case pgs.FloatValueWKT:
-				return "Float"
+				return "java.lang.Float"
 			case pgs.StringValueWKT:
-				return "String"
+				return "java.lang.String"
 			}
 		}
 		return fns.qualifiedName(embed)
@@ -374,21 +374,21 @@ func (fns javaFuncs) javaTypeForProtoType(t pgs.ProtoType) string {
 
 	switch t {
 	case pgs.Int32T, pgs.UInt32T, pgs.SInt32, pgs.Fixed32T, pgs.SFixed32:
-		return "Integer"
+		return "java.lang.Integer"
 	case pgs.Int64T, pgs.UInt64T, pgs.SInt64, pgs.Fixed64T, pgs.SFixed64:
-		return "Long"
+		return "java.lang.Long"
 	case pgs.DoubleT:
-		return "Double"
+		return "java.lang.Double"
 	case pgs.FloatT:
-		return "Float"
+		return "java.lang.Float"
 	case pgs.BoolT:
-		return "Boolean"
+		return "java.lang.Boolean"
 	case pgs.StringT:
-		return "String"
+		return "java.lang.String"
 	case pgs.BytesT:
 		return "com.google.protobuf.ByteString"
 	default:
-		return "Object"
+		return "java.lang.Object"
 	}
 }
 
@@ -414,9 +414,9 @@ func (fns javaFuncs) numLit(n interface{}) string {
 func (fns javaFuncs) numComparator(ctx shared.RuleContext) string {
 	switch ctx.Typ {
 	case "uint32", "fixed32":
-		return "Integer::compareUnsigned"
+		return "java.lang.Integer::compareUnsigned"
 	case "uint64", "fixed64":
-		return "Long::compareUnsigned"
+		return "java.lang.Long::compareUnsigned"
 	default:
 		return "java.util.Comparator.naturalOrder()"
 	}
-- 
2.43.0


From 918efc35b15a451964e03859685f2b3b30b3623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 52/77] fix: Java accessors of fields are those that protoc
 chooses

---
 templates/java/register.go | 70 ++++++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 21 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index f5279f1..e80c7b6 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -156,7 +156,7 @@ func classNameFile(f pgs.File) string {
 
 	protoName := pgs.FilePath(f.Name().String()).BaseName()
 
-	className := outerClassName(protoName)
+	className := upperCamelCase(protoName)
 	className = appendOuterClassName(className, f)
 
 	return className
@@ -168,12 +168,13 @@ func classNameMessage(m pgs.Message) string {
 	return m.Name().String()
 }
 
-// outerClassName is the name protoc gives the outer class of a file.
-func outerClassName(baseName string) string {
+// upperCamelCase is what protoc makes the names of outer classes and accessors
+// of.
+func upperCamelCase(name string) string {
 	var sb strings.Builder
 	upper := true
 
-	for _, c := range baseName {
+	for _, c := range name {
 		switch {
 		case c >= 'a' && c <= 'z':
 			if upper {
@@ -251,19 +252,49 @@ func joinNames(scope, name string) string {
 	return scope + "." + name
 }
 
-func upperCaseAfterNumber(name string) string {
-	var sb string
-	var p rune
-
-	for _, c := range name {
-		if unicode.IsDigit(p) {
-			sb += string(unicode.ToUpper(c))
-		} else {
-			sb += string(c)
+// forbiddenNames are those of methods that every message has.
+var forbiddenNames = map[string]bool{
+	"Class":                     true,
+	"DefaultInstanceForType":    true,
+	"ParserForType":             true,
+	"SerializedSize":            true,
+	"AllFields":                 true,
+	"DescriptorForType":         true,
+	"InitializationErrorString": true,
+	"UnknownFields":             true,
+	"CachedSize":                true,
+}
+
+// fieldAccessorName is the name protoc gives a field in accessors, without
+// that it adds if it conflicts with another.
+func fieldAccessorName(f pgs.Field) string {
+	name := upperCamelCase(f.Name().String())
+	if forbiddenNames[name] {
+		name += "_"
+	}
+	return name
+}
+
+// accessorName is the name protoc gives a field in accessors. It has the
+// number of the field if it conflicts with another one.
+func accessorName(f pgs.Field) string {
+	name := fieldAccessorName(f)
+	for _, other := range f.Message().Fields() {
+		if other.Descriptor() == f.Descriptor() {
+			continue
+		}
+		otherName := fieldAccessorName(other)
+		if name == otherName || conflictsWithList(f, name, otherName) || conflictsWithList(other, otherName, name) {
+			return fmt.Sprintf("%s%d", name, f.Descriptor().GetNumber())
 		}
-		p = c
 	}
-	return sb
+	return name
+}
+
+// conflictsWithList tells if the field is a list or a map one of whose other
+// accessors is that of the field with the other name.
+func conflictsWithList(f pgs.Field, name, other string) bool {
+	return (f.Type().IsRepeated() || f.Type().IsMap()) && (other == name+"Count" || other == name+"List")
 }
 
 func appendOuterClassName(outerClassName string, file pgs.File) string {
@@ -302,7 +333,7 @@ func (fns javaFuncs) accessor(ctx shared.RuleContext) string {
 }
 
 func (fns javaFuncs) fieldAccessor(f pgs.Field) string {
-	fieldName := strcase.ToCamel(f.Name().String())
+	fieldName := accessorName(f)
 	if f.Type().IsMap() {
 		fieldName += "Map"
 	}
@@ -310,7 +341,6 @@ func (fns javaFuncs) fieldAccessor(f pgs.Field) string {
 		fieldName += "List"
 	}
 
-	fieldName = upperCaseAfterNumber(fieldName)
 	return fmt.Sprintf("proto.get%s()", fieldName)
 }
 
@@ -318,9 +348,7 @@ func (fns javaFuncs) hasAccessor(ctx shared.RuleContext) string {
 	if ctx.AccessorOverride != "" {
 		return "true"
 	}
-	fiedlName := strcase.ToCamel(ctx.Field.Name().String())
-	fiedlName = upperCaseAfterNumber(fiedlName)
-	return "proto.has" + fiedlName + "()"
+	return "proto.has" + accessorName(ctx.Field) + "()"
 }
 
 func (fns javaFuncs) fieldName(ctx shared.RuleContext) string {
@@ -445,7 +473,7 @@ func (fns javaFuncs) javaStringEscape(s string) string {
 }
 
 func (fns javaFuncs) camelCase(name pgs.Name) string {
-	return strcase.ToCamel(name.String())
+	return upperCamelCase(name.String())
 }
 
 func (fns javaFuncs) byteArrayLit(bytes []uint8) string {
-- 
2.43.0


From c1ff65097d64f4d21255d92f51e4563b8eddfa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:40 +0000
Subject: [PATCH 53/77] fix: C++ names of messages and enums named by keywords

---
 templates/cc/register.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index 858fd37..9c82b70 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -190,10 +190,14 @@ type childEntity interface {
 }
 
 func (fns CCFuncs) classBaseName(ent childEntity) string {
+	name := ent.Name().String()
 	if m, ok := ent.Parent().(pgs.Message); ok {
-		return fmt.Sprintf("%s_%s", fns.classBaseName(m), ent.Name().String())
+		name = fmt.Sprintf("%s_%s", fns.classBaseName(m), name)
 	}
-	return ent.Name().String()
+	if keywords[name] {
+		return name + "_"
+	}
+	return name
 }
 
 func (fns CCFuncs) className(ent childEntity) string {
-- 
2.43.0


From 77724e7201b45f90225d8449657121b876f7a4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:40 +0000
Subject: [PATCH 54/77] fix: C++ namespaces of packages that have one part, or
 none

---
 templates/cc/file.go     |  8 ++++----
 templates/cc/register.go | 14 +++++++++++++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/templates/cc/file.go b/templates/cc/file.go
index a85cf82..de6cc7f 100644
--- a/templates/cc/file.go
+++ b/templates/cc/file.go
@@ -34,7 +34,7 @@ pgv::Validator<{{ class . }}> {{ staticVarName . }}(static_cast<bool(*)(const {{
 } // namespace validate
 } // namespace pgv
 
-{{ range .Package.ProtoName.Split }}
+{{ range (namespaces .Package) }}
 namespace {{ . }} {
 {{- end }}
 
@@ -42,7 +42,7 @@ namespace {{ . }} {
 	{{- template "msg" . }}
 {{ end }}
 
-{{ range .Package.ProtoName.Split -}}
+{{ range (namespaces .Package) -}}
 } // namespace
 {{ end }}
 `
@@ -62,7 +62,7 @@ const headerFileTpl = `// Code generated by protoc-gen-validate
 #include "validate/validate.h"
 #include "{{ output .File ".h" }}"
 
-{{ range .Package.ProtoName.Split }}
+{{ range (namespaces .Package) }}
 namespace {{ . }} {
 {{- end }}
 
@@ -72,7 +72,7 @@ using std::string;
 	{{- template "decl" . }}
 {{ end }}
 
-{{ range .Package.ProtoName.Split -}}
+{{ range (namespaces .Package) -}}
 } // namespace
 {{ end }}
 
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 9c82b70..b12ada6 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -37,6 +37,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"isBytes":       fns.isBytes,
 		"lit":           fns.lit,
 		"lookup":        fns.lookup,
+		"namespaces":    fns.namespaces,
 		"oneof":         fns.oneofTypeName,
 		"output":        fns.output,
 		"package":       fns.packageName,
@@ -98,6 +99,7 @@ func RegisterHeader(tpl *template.Template, params pgs.Parameters) {
 
 	tpl.Funcs(map[string]interface{}{
 		"class":                fns.className,
+		"namespaces":           fns.namespaces,
 		"output":               fns.output,
 		"screaming_snake_case": strcase.ToScreamingSnake,
 	})
@@ -205,7 +207,17 @@ func (fns CCFuncs) className(ent childEntity) string {
 }
 
 func (fns CCFuncs) packageName(msg pgs.Entity) string {
-	return "::" + strings.Join(msg.Package().ProtoName().Split(), "::")
+	name := ""
+	for _, ns := range fns.namespaces(msg.Package()) {
+		name += "::" + ns
+	}
+	return name
+}
+
+// namespaces are those of the package. In contrast to those of its Split,
+// they are the parts between dots only. Files may come without a package.
+func (fns CCFuncs) namespaces(pkg pgs.Package) []string {
+	return strings.FieldsFunc(pkg.ProtoName().String(), func(c rune) bool { return c == '.' })
 }
 
 func (fns CCFuncs) quote(s interface {
-- 
2.43.0


From 57b01876eefbf0633e3f4c258f71e53112500084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:40 +0000
Subject: [PATCH 55/77] fix: C++ macro of files named with dots, dashes ...

---
 templates/cc/register.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index b12ada6..54594e8 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -7,6 +7,7 @@ import (
 	"strconv"
 	"strings"
 	"text/template"
+	"unicode"
 
 	"github.com/envoyproxy/protoc-gen-validate/templates/shared"
 	"github.com/iancoleman/strcase"
@@ -101,7 +102,7 @@ func RegisterHeader(tpl *template.Template, params pgs.Parameters) {
 		"class":                fns.className,
 		"namespaces":           fns.namespaces,
 		"output":               fns.output,
-		"screaming_snake_case": strcase.ToScreamingSnake,
+		"screaming_snake_case": fns.screamingSnakeCase,
 	})
 
 	template.Must(tpl.Parse(headerFileTpl))
@@ -542,6 +543,17 @@ func (fns CCFuncs) staticVarName(msg pgs.Message) string {
 	return "validator_" + strings.Replace(fns.className(msg), ":", "_", -1)
 }
 
+// screamingSnakeCase is a part of the name of a macro. Names of files may hold
+// characters that such a name does not.
+func (fns CCFuncs) screamingSnakeCase(name string) string {
+	return strings.Map(func(c rune) rune {
+		if c == '_' || c < 0x80 && (unicode.IsLetter(c) || unicode.IsDigit(c)) {
+			return c
+		}
+		return '_'
+	}, strcase.ToScreamingSnake(name))
+}
+
 func (fns CCFuncs) output(file pgs.File, ext string) string {
 	return pgs.FilePath(file.Name().String()).SetExt(".pb" + ext).String()
 }
-- 
2.43.0


From faf53c3520a7a817acfc777c324753ce4dee51bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:49 +0000
Subject: [PATCH 56/77] fix: C++ code of packages and messages named pgv or re2

---
 templates/cc/bytes.go    |  8 ++++----
 templates/cc/duration.go | 14 +++++++-------
 templates/cc/file.go     |  4 ++--
 templates/cc/message.go  |  4 ++--
 templates/cc/msg.go      |  6 +++---
 templates/cc/register.go |  8 ++++----
 templates/cc/string.go   | 32 ++++++++++++++++----------------
 7 files changed, 38 insertions(+), 38 deletions(-)

diff --git a/templates/cc/bytes.go b/templates/cc/bytes.go
index 33dc2ff..28183e1 100644
--- a/templates/cc/bytes.go
+++ b/templates/cc/bytes.go
@@ -43,7 +43,7 @@ const bytesTpl = `
 	{{ if $r.Prefix }}
 	{
 		const std::string prefix = {{ value $r.GetPrefix }};
-		if (!pgv::IsPrefix(prefix, {{ accessor . }})) {
+		if (!::pgv::IsPrefix(prefix, {{ accessor . }})) {
 			{{ err . "value does not have prefix " (lit $r.GetPrefix) }}
 		}
 	}
@@ -52,7 +52,7 @@ const bytesTpl = `
 	{{ if $r.Suffix }}
 	{
 		const std::string suffix = {{ value $r.GetSuffix }};
-		if (!pgv::IsSuffix(suffix, {{ accessor .}})) {
+		if (!::pgv::IsSuffix(suffix, {{ accessor .}})) {
 			{{ err . "value does not have suffix " (lit $r.GetSuffix) }}
 		}
 	}
@@ -60,7 +60,7 @@ const bytesTpl = `
 
 	{{ if $r.Contains }}
 	{
-		if (!pgv::Contains({{ accessor . }}, {{ value $r.GetContains }})) {
+		if (!::pgv::Contains({{ accessor . }}, {{ value $r.GetContains }})) {
 			{{ err . "value does not contain substring " (lit $r.GetContains) }}
 		}
 	}
@@ -68,7 +68,7 @@ const bytesTpl = `
 
         {{ if $r.Pattern }}
         {
-                if (!RE2::FullMatch(re2::StringPiece({{ accessor . }}.c_str(), {{ accessor . }}.size()),
+                if (!::re2::RE2::FullMatch(::re2::StringPiece({{ accessor . }}.c_str(), {{ accessor . }}.size()),
                                     {{ lookup . "Pattern" }})) {
 		        {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 	        }
diff --git a/templates/cc/duration.go b/templates/cc/duration.go
index 0158bb6..8fc7d57 100644
--- a/templates/cc/duration.go
+++ b/templates/cc/duration.go
@@ -6,11 +6,11 @@ const durationTpl = `{{ $r := .Rules }}
 	{{ if or $r.In $r.NotIn $r.Lt $r.Lte $r.Gt $r.Gte $r.Const }}
 	    {
 	        if ({{ hasAccessor . }}) {
-			const pgv::protobuf_wkt::Duration& dur = {{ accessor . }};
+			const ::pgv::protobuf_wkt::Duration& dur = {{ accessor . }};
 
 			if (dur.nanos() > 999999999 || dur.nanos() < -999999999 ||
-			    dur.seconds() > pgv::protobuf::util::TimeUtil::kDurationMaxSeconds ||
-			    dur.seconds() < pgv::protobuf::util::TimeUtil::kDurationMinSeconds ||
+			    dur.seconds() > ::pgv::protobuf::util::TimeUtil::kDurationMaxSeconds ||
+			    dur.seconds() < ::pgv::protobuf::util::TimeUtil::kDurationMinSeconds ||
 			    (dur.seconds() > 0 && dur.nanos() < 0) || (dur.seconds() < 0 && dur.nanos() > 0))
 				{{ errCause . "err" "value is not a valid duration" }}
 
@@ -20,10 +20,10 @@ const durationTpl = `{{ $r := .Rules }}
 					{{ err . "value must equal " (durStr $r.Const) }}
 			{{ end }}
 
-			{{  if $r.Lt }}  const pgv::protobuf_wkt::Duration lt  = {{ durLit $r.Lt }};  {{ end }}
-			{{- if $r.Lte }} const pgv::protobuf_wkt::Duration lte = {{ durLit $r.Lte }}; {{ end }}
-			{{- if $r.Gt }}  const pgv::protobuf_wkt::Duration gt  = {{ durLit $r.Gt }};  {{ end }}
-			{{- if $r.Gte }} const pgv::protobuf_wkt::Duration gte = {{ durLit $r.Gte }}; {{ end }}
+			{{  if $r.Lt }}  const ::pgv::protobuf_wkt::Duration lt  = {{ durLit $r.Lt }};  {{ end }}
+			{{- if $r.Lte }} const ::pgv::protobuf_wkt::Duration lte = {{ durLit $r.Lte }}; {{ end }}
+			{{- if $r.Gt }}  const ::pgv::protobuf_wkt::Duration gt  = {{ durLit $r.Gt }};  {{ end }}
+			{{- if $r.Gte }} const ::pgv::protobuf_wkt::Duration gte = {{ durLit $r.Gte }}; {{ end }}
 
 			{{ if $r.Lt }}
 				{{ if $r.Gt }}
diff --git a/templates/cc/file.go b/templates/cc/file.go
index de6cc7f..801affb 100644
--- a/templates/cc/file.go
+++ b/templates/cc/file.go
@@ -19,13 +19,13 @@ namespace validate {
 using std::string;
 
 // define the regex for a UUID once up-front
-const re2::RE2 _uuidPattern("^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$");
+const ::re2::RE2 _uuidPattern("^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$");
 
 {{ range .AllMessages }}
 {{- if not (ignored .) -}}
 {{- if not (disabled .) -}}
 
-pgv::Validator<{{ class . }}> {{ staticVarName . }}(static_cast<bool(*)(const {{ class .}}&, pgv::ValidationMsg*)>({{ package .}}::Validate));
+::pgv::Validator<{{ class . }}> {{ staticVarName . }}(static_cast<bool(*)(const {{ class .}}&, ::pgv::ValidationMsg*)>({{ package .}}::Validate));
 
 {{- end -}}
 {{ end }}
diff --git a/templates/cc/message.go b/templates/cc/message.go
index a92cf3e..b2b2d54 100644
--- a/templates/cc/message.go
+++ b/templates/cc/message.go
@@ -7,8 +7,8 @@ const messageTpl = `
 		// skipping validation for {{ $f.Name }}
 	{{ else }}
 	{
-		pgv::ValidationMsg inner_err;
-		if ({{ hasAccessor .}} && !pgv::Validator<{{ ctype $f.Type }}>::CheckMessage({{ accessor . }}, &inner_err)) {
+		::pgv::ValidationMsg inner_err;
+		if ({{ hasAccessor .}} && !::pgv::Validator<{{ ctype $f.Type }}>::CheckMessage({{ accessor . }}, &inner_err)) {
 			{{ errCause . "inner_err" "embedded message failed validation" }}
 		}
 	}
diff --git a/templates/cc/msg.go b/templates/cc/msg.go
index 682fa65..7fa6d47 100644
--- a/templates/cc/msg.go
+++ b/templates/cc/msg.go
@@ -2,7 +2,7 @@ package cc
 
 const declTpl = `
 {{ if not (ignored .) -}}
-extern bool Validate(const {{ class . }}& m, pgv::ValidationMsg* err);
+extern bool Validate(const {{ class . }}& m, ::pgv::ValidationMsg* err);
 {{- end -}}
 `
 
@@ -22,7 +22,7 @@ const msgTpl = `
 	{{ if eq .Typ "map" }}{{ template "lookups" (.Key "" "") }}{{ end }}
 {{ end }}{{ end }}
 
-bool Validate(const {{ class . }}& m, pgv::ValidationMsg* err) {
+bool Validate(const {{ class . }}& m, ::pgv::ValidationMsg* err) {
 	(void)m;
 	(void)err;
 {{- if disabled . }}
@@ -74,7 +74,7 @@ const lookupsTpl = `
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
-	const re2::RE2 {{ lookup . "Pattern" }}(re2::StringPiece({{ lit .Rules.GetPattern }},
+	const ::re2::RE2 {{ lookup . "Pattern" }}(::re2::StringPiece({{ lit .Rules.GetPattern }},
 						sizeof({{ lit .Rules.GetPattern }}) - 1));
 	{{ end }}{{ end }}
 `
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 54594e8..1a303a1 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -413,7 +413,7 @@ func (fns CCFuncs) inType(ctx shared.RuleContext) string {
 	case "enum":
 		return "std::set<" + fns.cType(ctx.Field.Type()) + ">"
 	case "duration":
-		return "std::set<pgv::protobuf_wkt::Duration>"
+		return "std::set<::pgv::protobuf_wkt::Duration>"
 	default: // string, bytes, any
 		return "std::set<string>"
 	}
@@ -480,7 +480,7 @@ func (fns CCFuncs) inKey(ctx shared.RuleContext, x interface{}) string {
 
 func (fns CCFuncs) durLit(dur *durationpb.Duration) string {
 	return fmt.Sprintf(
-		"pgv::protobuf::util::TimeUtil::SecondsToDuration(%d) + pgv::protobuf::util::TimeUtil::NanosecondsToDuration(%d)",
+		"::pgv::protobuf::util::TimeUtil::SecondsToDuration(%d) + ::pgv::protobuf::util::TimeUtil::NanosecondsToDuration(%d)",
 		dur.GetSeconds(), dur.GetNanos())
 }
 
@@ -533,10 +533,10 @@ func (fns CCFuncs) unwrap(ctx shared.RuleContext, name string) (shared.RuleConte
 
 func (fns CCFuncs) failUnimplemented(message string) string {
 	if len(message) == 0 {
-		return "throw pgv::UnimplementedException();"
+		return "throw ::pgv::UnimplementedException();"
 	}
 
-	return fmt.Sprintf(`throw pgv::UnimplementedException(%s);`, fns.lit(message))
+	return fmt.Sprintf(`throw ::pgv::UnimplementedException(%s);`, fns.lit(message))
 }
 
 func (fns CCFuncs) staticVarName(msg pgs.Message) string {
diff --git a/templates/cc/string.go b/templates/cc/string.go
index 7a8112d..022658e 100644
--- a/templates/cc/string.go
+++ b/templates/cc/string.go
@@ -9,29 +9,29 @@ const strTpl = `
 	{{ template "in" . }}
 	{{ if or $r.Len (and $r.MinLen $r.MaxLen (eq $r.GetMinLen $r.GetMaxLen)) }}
 		{{ if $r.Len }}
-			if (pgv::Utf8Len({{ accessor . }}) != {{ $r.GetLen }}) {
+			if (::pgv::Utf8Len({{ accessor . }}) != {{ $r.GetLen }}) {
 				{{ err . "value must be " $r.GetLen " characters" }}
 			}
 		{{ else }}
-			if (pgv::Utf8Len({{ accessor . }}) != {{ $r.GetMinLen }}) {
+			if (::pgv::Utf8Len({{ accessor . }}) != {{ $r.GetMinLen }}) {
 				{{ err . "value must be " $r.GetMinLen " characters" }}
 			}
 		{{ end }}
 	{{ else if $r.MinLen }}
 		{{ if $r.MaxLen }}
 			{
-				const auto length = pgv::Utf8Len({{ accessor . }});
+				const auto length = ::pgv::Utf8Len({{ accessor . }});
 				if (length < {{ $r.GetMinLen }} || length > {{ $r.GetMaxLen }}) {
 					{{ err . "value must have between " $r.GetMinLen " and " $r.GetMaxLen " characters inclusive" }}
 				}
 			}
 		{{ else }}
-			if (pgv::Utf8Len({{ accessor . }}) < {{ $r.GetMinLen }}) {
+			if (::pgv::Utf8Len({{ accessor . }}) < {{ $r.GetMinLen }}) {
 				{{ err . "value length must be at least " $r.GetMinLen " characters" }}
 			}
 		{{ end }}
 	{{ else if $r.MaxLen }}
-		if (pgv::Utf8Len({{ accessor . }}) > {{ $r.GetMaxLen }}) {
+		if (::pgv::Utf8Len({{ accessor . }}) > {{ $r.GetMaxLen }}) {
 			{{ err . "value length must be at most " $r.GetMaxLen " characters" }}
 		}
 	{{ end }}
@@ -77,7 +77,7 @@ const strTpl = `
 	{{ if $r.Prefix }}
 	{
 		const std::string prefix = {{ value $r.GetPrefix }};
-		if (!pgv::IsPrefix(prefix, {{ accessor . }})) {
+		if (!::pgv::IsPrefix(prefix, {{ accessor . }})) {
 			{{ err . "value does not have prefix " (lit $r.GetPrefix) }}
 		}
 	}
@@ -87,7 +87,7 @@ const strTpl = `
 	{
 		const std::string suffix = {{ value $r.GetSuffix }};
 		const std::string& value = {{ accessor . }};
-		if (!pgv::IsSuffix(suffix, value)) {
+		if (!::pgv::IsSuffix(suffix, value)) {
 			{{ err . "value does not have suffix " (lit $r.GetSuffix) }}
 		}
 	}
@@ -95,7 +95,7 @@ const strTpl = `
 
 	{{ if $r.Contains }}
 	{
-		if (!pgv::Contains({{ accessor . }}, {{ value $r.GetContains }})) {
+		if (!::pgv::Contains({{ accessor . }}, {{ value $r.GetContains }})) {
 			{{ err . "value does not contain substring " (lit $r.GetContains) }}
 		}
 	}
@@ -103,7 +103,7 @@ const strTpl = `
 
 	{{ if $r.NotContains }}
 	{
-		if (pgv::Contains({{ accessor . }}, {{ value $r.GetNotContains }})) {
+		if (::pgv::Contains({{ accessor . }}, {{ value $r.GetNotContains }})) {
 			{{ err . "value contains substring " (lit $r.GetNotContains) }}
 		}
 	}
@@ -111,7 +111,7 @@ const strTpl = `
 
         {{ if $r.Pattern }}
         {
-                if (!RE2::FullMatch(re2::StringPiece({{ accessor . }}.c_str(), {{ accessor . }}.size()),
+                if (!::re2::RE2::FullMatch(::re2::StringPiece({{ accessor . }}.c_str(), {{ accessor . }}.size()),
                                     {{ lookup . "Pattern" }})) {
 		        {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 	        }
@@ -121,21 +121,21 @@ const strTpl = `
 	{{ if $r.GetIp }}
 	{
 		const std::string& value = {{ accessor . }};
-		if (!pgv::IsIp(value)) {
+		if (!::pgv::IsIp(value)) {
 			{{ err . "value must be a valid IP Address" }}
 		}
 	}
 	{{ else if $r.GetIpv4 }}
 	{
 		const std::string& value = {{ accessor . }};
-		if (!pgv::IsIpv4(value)) {
+		if (!::pgv::IsIpv4(value)) {
 			{{ err . "value must be a valid IPv4 Address" }}
 		}
 	}
 	{{ else if $r.GetIpv6 }}
 	{
 		const std::string& value = {{ accessor . }};
-		if (!pgv::IsIpv6(value)) {
+		if (!::pgv::IsIpv6(value)) {
 			{{ err . "value must be a valid IPv6 Address" }}
 		}
 	}
@@ -150,7 +150,7 @@ const strTpl = `
 	{
 		const std::string& value = {{ accessor . }};
 
-		if (!pgv::IsHostname(value) && !pgv::IsIp(value)) {
+		if (!::pgv::IsHostname(value) && !::pgv::IsIp(value)) {
 			{{ err . "value must be an ip address, or a hostname." }}
 		}
 	}
@@ -158,7 +158,7 @@ const strTpl = `
 	{
 		const std::string& value = {{ accessor . }};
 
-		if (!pgv::IsHostname(value)) {
+		if (!::pgv::IsHostname(value)) {
 			{{ err . "value must be a valid hostname" }}
 		}
 	}
@@ -179,7 +179,7 @@ const strTpl = `
 		}
 		*/}}
 	{{ else if $r.GetUuid }}
-                if (!RE2::FullMatch(re2::StringPiece({{ accessor . }}), pgv::validate::_uuidPattern)) {
+                if (!::re2::RE2::FullMatch(::re2::StringPiece({{ accessor . }}), ::pgv::validate::_uuidPattern)) {
                         {{ err . "value must be a valid UUID" }}
                 }
 	{{ end }}
-- 
2.43.0


From 0d77c9c53e68edc4b912cae7e166fe591c1a4a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:49 +0000
Subject: [PATCH 57/77] fix: C++ macro over messages of packages or messages
 named X

---
 templates/cc/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/cc/file.go b/templates/cc/file.go
index 801affb..60bcb1a 100644
--- a/templates/cc/file.go
+++ b/templates/cc/file.go
@@ -76,10 +76,10 @@ using std::string;
 } // namespace
 {{ end }}
 
-#define X_{{ .Package.ProtoName.ScreamingSnakeCase }}_{{ .File.InputPath.BaseName | screaming_snake_case }}(X) \
+#define X_{{ .Package.ProtoName.ScreamingSnakeCase }}_{{ .File.InputPath.BaseName | screaming_snake_case }}(PGV_X_) \
 {{ range .AllMessages -}}
 {{- if not (ignored .) -}}
-	X({{class . }}) \
+	PGV_X_({{class . }}) \
 {{ end -}}
 {{ end }}
 `
-- 
2.43.0


From f27246bc55bc0159f1db245dcde9154b136c435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:57 +0000
Subject: [PATCH 58/77] fix: Go constants of A.B_C and A_B.C have different
 names

---
 templates/goshared/register.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index a28889c..0a9fc9c 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -209,10 +209,14 @@ func (fns goSharedFuncs) lookup(ctx shared.RuleContext, name string) string {
 		name = "Key" + name
 	}
 
+	// underscores of the message and the field are doubled, the one between
+	// them is not: A_B.C and A.B_C are different fields
+	double := strings.NewReplacer("_", "__")
+
 	return fmt.Sprintf(
 		"_%s_%s_%s",
-		fns.Name(f.Message()),
-		fns.Name(f),
+		double.Replace(fns.Name(f.Message()).String()),
+		double.Replace(fns.Name(f).String()),
 		name,
 	)
 }
-- 
2.43.0


From e16e3e25bfa54b474183df8a7588f9b59272c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:57 +0000
Subject: [PATCH 59/77] fix: C++ constants of A.B_C and A_B.C do not meet

---
 templates/cc/msg.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/templates/cc/msg.go b/templates/cc/msg.go
index 7fa6d47..1f0315c 100644
--- a/templates/cc/msg.go
+++ b/templates/cc/msg.go
@@ -14,6 +14,12 @@ const msgTpl = `
 	{{ cmt "Validate checks the field values on " (class .) " with the rules defined in the proto definition for this message. If any rules are violated, the return value is false and an error message is written to the input string argument." }}
 {{- end -}}
 
+bool Validate(const {{ class . }}& m, ::pgv::ValidationMsg* err) {
+	(void)m;
+	(void)err;
+{{- if disabled . }}
+	return true;
+{{ else }}
 {{ range .Fields }}{{ with (context .) }}
 	{{ template "lookups" . }}
 
@@ -22,12 +28,6 @@ const msgTpl = `
 	{{ if eq .Typ "map" }}{{ template "lookups" (.Key "" "") }}{{ end }}
 {{ end }}{{ end }}
 
-bool Validate(const {{ class . }}& m, ::pgv::ValidationMsg* err) {
-	(void)m;
-	(void)err;
-{{- if disabled . }}
-	return true;
-{{ else -}}
 		{{ range (fields .) }}
 			{{ if optional . }}if ({{ hasAccessor (context .) }}) { {{ end }}
 			{{ render (context .) }}
@@ -55,10 +55,10 @@ bool Validate(const {{ class . }}& m, ::pgv::ValidationMsg* err) {
 `
 
 // The constants that the rules of a field, or of its items, keys or values
-// refer to.
+// refer to. Those of other messages may have the same names.
 const lookupsTpl = `
 	{{ if has .Rules "In" }}{{ if .Rules.In }}
-	const {{ inType . }} {{ lookup . "InLookup" }} = {
+	static const {{ inType . }} {{ lookup . "InLookup" }} = {
 			{{- range .Rules.In }}
 				{{ inKey $ . }},
 			{{- end }}
@@ -66,7 +66,7 @@ const lookupsTpl = `
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
-	const {{ inType . }} {{ lookup . "NotInLookup" }} = {
+	static const {{ inType . }} {{ lookup . "NotInLookup" }} = {
 			{{- range .Rules.NotIn }}
 				{{ inKey $ . }},
 			{{- end }}
@@ -74,7 +74,7 @@ const lookupsTpl = `
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
-	const ::re2::RE2 {{ lookup . "Pattern" }}(::re2::StringPiece({{ lit .Rules.GetPattern }},
+	static const ::re2::RE2 {{ lookup . "Pattern" }}(::re2::StringPiece({{ lit .Rules.GetPattern }},
 						sizeof({{ lit .Rules.GetPattern }}) - 1));
 	{{ end }}{{ end }}
 `
-- 
2.43.0


From b9f1d0a27d417ad71e6684d2f3379846d6887893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 60/77] fix: Python: fields with empty rules do not raise an
 AttributeError

FieldRules has no field "required"; rules without any constraint, such as
{float: {}}, got to look at it.
---
 python/protoc_gen_validate/validator.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 9b3bef1..e1ac4e2 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -986,8 +986,6 @@ def rule_type(field):
                     return repeated_template(option_value, name, field)
                 elif str(option_value.map):
                     return map_template(option_value, name, field)
-                elif str(option_value.required):
-                    return required_template(option_value, name)
     if field.message_type:
         for option_descriptor, option_value in field.GetOptions().ListFields():
             if option_descriptor.full_name == "validate.rules":
@@ -1007,8 +1005,6 @@ def rule_type(field):
                     return repeated_template(option_value, name, field)
                 elif str(option_value.map):
                     return map_template(option_value, name, field)
-                elif str(option_value.required):
-                    return required_template(option_value, name)
         if field.message_type.full_name.startswith("google.protobuf"):
             return ""
         elif is_map(field):
-- 
2.43.0


From b9f6308723ba289711514438b84c0907f885950c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 61/77] fix: Python: rules with no more than ignore_empty do
 not raise an IndentationError

The generated if statements had no body.
---
 python/protoc_gen_validate/validator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index e1ac4e2..cebeb85 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -183,6 +183,7 @@ def string_template(option_value, name):
     {% set i = 0 %}
     {%- if s['ignore_empty'] -%}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
@@ -328,6 +329,7 @@ def num_template(option_value, name, num):
     {% set i = 0 %}
     {%- if num.HasField('ignore_empty') -%}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
@@ -618,6 +620,7 @@ def wrapper_template(option_value, name, repeated=False):
     {% else %}
     if p.HasField(\"{{ name[2:] }}\"):
     {% endif %}
+        pass
         {%- if str(option_value.float) %}
         {{- num_template(option_value, name + ".value", option_value.float)|indent(4,True) -}}
         {% endif -%}
@@ -703,6 +706,7 @@ def bytes_template(option_value, name):
     {% set i = 0 %}
     {%- if b['ignore_empty'] -%}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
@@ -838,6 +842,7 @@ def repeated_template(option_value, name, field):
     {% set i = 0 %}
     {%- if o and o.repeated['ignore_empty'] %}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
@@ -887,6 +892,7 @@ def map_template(option_value, name, field):
     {% set i = 0 %}
     {%- if o and o.map['ignore_empty'] %}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
-- 
2.43.0


From a188a9222712b3f15fa8089d13ac13265cc15a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 62/77] fix: Python: limits and constants that are zero are
 rules, too

len, max_len, len_bytes, max_bytes, max_items and max_pairs of 0, an enum
constant 0 and an empty not_contains were taken for rules that are not set.
---
 python/protoc_gen_validate/validator.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index cebeb85..0836438 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -139,7 +139,7 @@ def const_template(option_value, name):
     {%- elif str(o.bool) and o.bool['const'] != "" -%}
     if {{ name }} != {{ o.bool['const'] }}:
         raise ValidationFailed(\"{{ name }} not equal to {{ o.bool['const'] }}\")
-    {%- elif str(o.enum) and o.enum['const'] -%}
+    {%- elif str(o.enum) and o.enum.HasField('const') -%}
     if {{ name }} != {{ o.enum['const'] }}:
         raise ValidationFailed(\"{{ name }} not equal to {{ o.enum['const'] }}\")
     {%- elif str(o.bytes) and o.bytes.HasField('const') -%}
@@ -189,7 +189,7 @@ def string_template(option_value, name):
     {% filter indent(i,True) %}
     {{ const_template(o, name) -}}
     {{ in_template(o.string, name) -}}
-    {%- if s['len'] %}
+    {%- if s.HasField('len') %}
     if len({{ name }}) != {{ s['len'] }}:
         raise ValidationFailed(\"{{ name }} length does not equal {{ s['len'] }}\")
     {%- endif -%}
@@ -197,11 +197,11 @@ def string_template(option_value, name):
     if len({{ name }}) < {{ s['min_len'] }}:
         raise ValidationFailed(\"{{ name }} length is less than {{ s['min_len'] }}\")
     {%- endif -%}
-    {%- if s['max_len'] %}
+    {%- if s.HasField('max_len') %}
     if len({{ name }}) > {{ s['max_len'] }}:
         raise ValidationFailed(\"{{ name }} length is more than {{ s['max_len'] }}\")
     {%- endif -%}
-    {%- if s['len_bytes'] %}
+    {%- if s.HasField('len_bytes') %}
     if byte_len({{ name }}) != {{ s['len_bytes'] }}:
         raise ValidationFailed(\"{{ name }} length does not equal {{ s['len_bytes'] }}\")
     {%- endif -%}
@@ -209,7 +209,7 @@ def string_template(option_value, name):
     if byte_len({{ name }}) < {{ s['min_bytes'] }}:
         raise ValidationFailed(\"{{ name }} length is less than {{ s['min_bytes'] }}\")
     {%- endif -%}
-    {%- if s['max_bytes'] %}
+    {%- if s.HasField('max_bytes') %}
     if byte_len({{ name }}) > {{ s['max_bytes'] }}:
         raise ValidationFailed(\"{{ name }} length is greater than {{ s['max_bytes'] }}\")
     {%- endif -%}
@@ -229,7 +229,7 @@ def string_template(option_value, name):
     if not \"{{ s['contains'] }}\" in {{ name }}:
         raise ValidationFailed(\"{{ name }} does not contain {{ s['contains'] }}\")
     {%- endif -%}
-    {%- if s['not_contains'] %}
+    {%- if s.HasField('not_contains') %}
     if \"{{ s['not_contains'] }}\" in {{ name }}:
         raise ValidationFailed(\"{{ name }} contains {{ s['not_contains'] }}\")
     {%- endif -%}
@@ -712,7 +712,7 @@ def bytes_template(option_value, name):
     {% filter indent(i,True) %}
     {{ const_template(o, name) -}}
     {{ in_template(o.bytes, name) -}}
-    {%- if b['len'] %}
+    {%- if b.HasField('len') %}
     if len({{ name }}) != {{ b['len'] }}:
         raise ValidationFailed(\"{{ name }} length does not equal {{ b['len'] }}\")
     {%- endif -%}
@@ -720,7 +720,7 @@ def bytes_template(option_value, name):
     if len({{ name }}) < {{ b['min_len'] }}:
         raise ValidationFailed(\"{{ name }} length is less than {{ b['min_len'] }}\")
     {%- endif -%}
-    {%- if b['max_len'] %}
+    {%- if b.HasField('max_len') %}
     if len({{ name }}) > {{ b['max_len'] }}:
         raise ValidationFailed(\"{{ name }} length is more than {{ b['max_len'] }}\")
     {%- endif -%}
@@ -850,7 +850,7 @@ def repeated_template(option_value, name, field):
     if len({{ name }}) < {{ o.repeated['min_items'] }}:
         raise ValidationFailed(\"{{ name }} needs to contain at least {{ o.repeated['min_items'] }} items\")
     {%- endif %}
-    {%- if o and o.repeated['max_items'] %}
+    {%- if o and o.repeated.HasField('max_items') %}
     if len({{ name }}) > {{ o.repeated['max_items'] }}:
         raise ValidationFailed(\"{{ name }} needs to contain at most {{ o.repeated['max_items'] }} items\")
     {%- endif %}
@@ -900,7 +900,7 @@ def map_template(option_value, name, field):
     if len({{ name }}) < {{ o.map['min_pairs'] }}:
         raise ValidationFailed(\"{{ name }} needs to contain at least {{ o.map['min_pairs'] }} items\")
     {%- endif %}
-    {%- if o and o.map['max_pairs'] %}
+    {%- if o and o.map.HasField('max_pairs') %}
     if len({{ name }}) > {{ o.map['max_pairs'] }}:
         raise ValidationFailed(\"{{ name }} can contain at most {{ o.map['max_pairs'] }} items\")
     {%- endif %}
-- 
2.43.0


From 3f9d4f7aa1f9a3e9b410f6784edc899a81ad4548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 63/77] fix: Python: ignore_empty, lt_now and gt_now can be
 false

For numbers and timestamps it was enough that they are set.
---
 python/protoc_gen_validate/validator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 0836438..c53212a 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -327,7 +327,7 @@ def bool_template(option_value, name):
 def num_template(option_value, name, num):
     num_tmpl = """
     {% set i = 0 %}
-    {%- if num.HasField('ignore_empty') -%}
+    {%- if num['ignore_empty'] -%}
     if {{ name }}:
         pass
     {% set i = 4 %}
@@ -582,7 +582,7 @@ def timestamp_template(option_value, name, repeated=False):
         {%- elif ts.HasField('gte') %}
         if ts < gte:
             raise ValidationFailed(\"{{ name }} is not greater than or equal to {{ dur_lit(ts['gte']) }}\")
-        {%- elif ts.HasField('lt_now') %}
+        {%- elif ts['lt_now'] %}
         now = time.time()
             {%- if ts.HasField('within') %}
         within = {{ dur_lit(ts['within']) }}
@@ -592,7 +592,7 @@ def timestamp_template(option_value, name, repeated=False):
         if ts >= now:
             raise ValidationFailed(\"{{ name }} is not lesser than now\")
             {%- endif -%}
-        {%- elif ts.HasField('gt_now') %}
+        {%- elif ts['gt_now'] %}
         now = time.time()
             {%- if ts.HasField('within') %}
         within = {{ dur_lit(ts['within']) }}
-- 
2.43.0


From 4b888496953e001193127021166b59172229cfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:58 +0000
Subject: [PATCH 64/77] fix: Python: message rules of items and map values

required rejected every list and map (no field is called "item"), and rules
of map values named a field of the message that does not exist. Map values
were not validated at all if there were rules for the keys only. Now lists and
maps themselves validate their elements, unless they are to be skipped.
---
 python/protoc_gen_validate/validator.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index c53212a..f396ca3 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -296,25 +296,20 @@ def required_template(value, name):
     return Template(req_tmpl).render(value=value, name=name)
 
 
-def message_template(option_value, name, repeated=False):
+def message_template(option_value, name):
     message_tmpl = """{%- if m.message %}
     {{- required_template(m.message, name) }}
     {%- endif -%}
     {%- if m.message and m.message['skip'] %}
     # Skipping validation for {{ name }}
     {%- else %}
-    {% if repeated %}
-    if {{ name }}:
-    {% else %}
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
-    {% endif %}
         embedded = validate(p.{{ name }})
         if embedded is not None:
             return embedded
     {%- endif -%}
     """
-    return Template(message_tmpl).render(
-        m=option_value, name=name, required_template=required_template, repeated=repeated)
+    return Template(message_tmpl).render(m=option_value, name=name, required_template=required_template)
 
 
 def bool_template(option_value, name):
@@ -414,7 +409,9 @@ def dur_lit(dur):
 
 def duration_template(option_value, name, repeated=False):
     dur_tmpl = """
+    {%- if not repeated %}
     {{- required_template(o.duration, name) }}
+    {%- endif %}
     {% if repeated %}
     if {{ name }}:
     {% else %}
@@ -502,7 +499,9 @@ def duration_template(option_value, name, repeated=False):
 
 def timestamp_template(option_value, name, repeated=False):
     timestamp_tmpl = """
+    {%- if not repeated %}
     {{- required_template(o.timestamp, name) }}
+    {%- endif %}
     {% if repeated %}
     if {{ name }}:
     {% else %}
@@ -677,7 +676,9 @@ def enum_template(option_value, name, field):
 
 def any_template(option_value, name, repeated=False):
     any_tmpl = """
+    {%- if not repeated %}
     {{- required_template(o, name) }}
+    {%- endif %}
     {%- if o['in'] %}
     {% if repeated %}
     if {{ name }}:
@@ -822,19 +823,15 @@ def switcher_template(accessor, name, field, map=False):
     {{- duration_template(accessor, name, True)|indent(4,True) -}}
     {%- elif str(accessor.timestamp) %}
     {{- timestamp_template(accessor, name, True)|indent(4,True) -}}
-    {%- elif str(accessor.message) %}
-    {{- message_template(accessor, name, True)|indent(4,True) -}}
     {%- elif str(accessor.any) %}
     {{- any_template(accessor, name, True)|indent(4,True) -}}
-    {%- elif str(accessor.message) %}
-    {{- message_template(accessor, name, True)|indent(4,True) -}}
     {%- endif %}
     """
     return Template(switcher_tmpl).render(accessor=accessor, name=name, str=str, num_template=num_template,
                                           bool_template=bool_template, string_template=string_template,
                                           enum_template=enum_template, duration_template=duration_template,
                                           timestamp_template=timestamp_template, any_template=any_template,
-                                          message_template=message_template, field=field, map=map)
+                                          field=field, map=map)
 
 
 def repeated_template(option_value, name, field):
@@ -938,7 +935,8 @@ def map_template(option_value, name, field):
         {%- set values = o.map['values'] -%}
         {{ switcher_template(values, name +'[key]', field, True) }}
         pass
-    {%- elif field.message_type.fields[1].message_type %}
+    {%- endif %}
+    {%- if field.message_type.fields[1].message_type and not (o and o.map['values'].message.skip) %}
     for key in {{ name }}:
         validate({{ name }}[key])
     {%- endif %}
-- 
2.43.0


From 8e077f728b77160ec8b38b7cf8442c5315a74f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:58 +0000
Subject: [PATCH 65/77] fix: Python: rules of wrappers in lists and maps are
 about their values

They were applied to the wrapper messages, which raised a TypeError.
---
 python/protoc_gen_validate/validator.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index f396ca3..c27ccca 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -22,6 +22,12 @@ regex_map = {
 }
 
 
+# The messages that wrap one scalar value.
+WRAPPERS = frozenset("google.protobuf.%sValue" % kind for kind in [
+    "Float", "Double", "Int64", "UInt64", "Int32", "UInt32", "Bool", "String", "Bytes"
+])
+
+
 class ValidationFailed(Exception):
     pass
 
@@ -785,7 +791,13 @@ def bytes_template(option_value, name):
                                        const_template=const_template, in_template=in_template, b=option_value.bytes)
 
 
+def is_wrapper(field):
+    return field.message_type is not None and field.message_type.full_name in WRAPPERS
+
+
 def switcher_template(accessor, name, field, map=False):
+    if is_wrapper(field.message_type.fields[1] if map else field):
+        name += ".value"
     switcher_tmpl = """
     {%- if str(accessor.float) %}
     {{- num_template(accessor, name, accessor.float)|indent(4,True) -}}
-- 
2.43.0


From 690747c32441a6a2a887032b1f7e8334ded0c1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:58 +0000
Subject: [PATCH 66/77] fix: Python: bytes in lists and maps have rules, too

---
 python/protoc_gen_validate/validator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index c27ccca..4da10c1 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -827,6 +827,8 @@ def switcher_template(accessor, name, field, map=False):
     {{- bool_template(accessor, name)|indent(4,True) -}}
     {%- elif str(accessor.string) %}
     {{- string_template(accessor, name)|indent(4,True) -}}
+    {%- elif str(accessor.bytes) %}
+    {{- bytes_template(accessor, name)|indent(4,True) -}}
     {%- elif str(accessor.enum) and map %}
     {{- enum_template(accessor, name, field.message_type.fields[1])|indent(4,True) -}}
     {%- elif str(accessor.enum) and not map %}
@@ -841,6 +843,7 @@ def switcher_template(accessor, name, field, map=False):
     """
     return Template(switcher_tmpl).render(accessor=accessor, name=name, str=str, num_template=num_template,
                                           bool_template=bool_template, string_template=string_template,
+                                          bytes_template=bytes_template,
                                           enum_template=enum_template, duration_template=duration_template,
                                           timestamp_template=timestamp_template, any_template=any_template,
                                           field=field, map=map)
-- 
2.43.0


From a6cafe1848aea86c34c91081221ff5fb83703b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:58 +0000
Subject: [PATCH 67/77] fix: Python: only map fields are maps

Repeated messages that have two fields, key and value, were taken for maps and
not validated.
---
 python/protoc_gen_validate/validator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 4da10c1..c32680a 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -895,8 +895,7 @@ def repeated_template(option_value, name, field):
 
 
 def is_map(field):
-    return field.label == 3 and field.message_type and len(field.message_type.fields) == 2 and \
-        field.message_type.fields[0].name == "key" and field.message_type.fields[1].name == "value"
+    return field.label == 3 and field.message_type and field.message_type.GetOptions().map_entry
 
 
 def map_template(option_value, name, field):
-- 
2.43.0


From 308ecb883b0cb78782479d924fa4f627c671b9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:58 +0000
Subject: [PATCH 68/77] fix: Python: URIs need no path, and references may have
 fragments

http://example.com and urn:isbn:0 were rejected as URIs, and a/b#c as a
reference. What urlparse raises a ValueError for, and what has malformed
escapes, is rejected.
---
 python/protoc_gen_validate/validator.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index c32680a..2447eae 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -127,6 +127,18 @@ def _validateEmail(addr):
     return _validateHostName(parts[1])
 
 
+def _validateURIRef(ref):
+    try:
+        urlparse.urlparse(ref)
+    except ValueError:
+        return False
+    return re.search(r'%(?![0-9A-Fa-f]{2})', ref) is None
+
+
+def _validateURI(uri):
+    return _validateURIRef(uri) and urlparse.urlparse(uri).scheme != ''
+
+
 def _has_field(message_pb, property_name):
     # NOTE: As of proto3, HasField() only works for message fields, not for
     #       singular (non-message) fields. First try to use HasField and
@@ -273,13 +285,11 @@ def string_template(option_value, name):
         raise ValidationFailed(\"{{ name }} is not a valid ipv6\")
     {%- endif %}
     {%- if s['uri'] %}
-    url = urlparse.urlparse({{ name }})
-    if not all([url.scheme, url.netloc, url.path]):
+    if not _validateURI({{ name }}):
         raise ValidationFailed(\"{{ name }} is not a valid uri\")
     {%- endif %}
     {%- if s['uri_ref'] %}
-    url = urlparse.urlparse({{ name }})
-    if not all([url.scheme, url.path]) and url.fragment:
+    if not _validateURIRef({{ name }}):
         raise ValidationFailed(\"{{ name }} is not a valid uri ref\")
     {%- endif -%}
     {%- if s['uuid'] %}
-- 
2.43.0


From d8e5eb1e95d4198d9d32fc525e7abe1d940d7e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:53 +0000
Subject: [PATCH 69/77] fix: Python: ignore_empty strings in oneofs, lists and
 maps

The first line of the generated code was not indented like the others, which
raised an IndentationError.
---
 python/protoc_gen_validate/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 2447eae..b6e301f 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -197,7 +197,7 @@ def string_template(option_value, name):
         else:
             option_value.string.pattern = regex_map[regex_name]
     str_templ = """
-    {%- set s = o.string -%}
+    {%- set s = o.string %}
     {% set i = 0 %}
     {%- if s['ignore_empty'] -%}
     if {{ name }}:
-- 
2.43.0


From 0e1539128852f19ab34f1eeab70f50fd568ff477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:53 +0000
Subject: [PATCH 70/77] fix: Python: parameters with quotes, backslashes and
 newlines

They were put into the generated code between quotes as they are, which raised
a SyntaxError or changed the rule.
---
 python/protoc_gen_validate/validator.py | 56 +++++++++++++------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index b6e301f..e9e3372 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -152,8 +152,8 @@ def _has_field(message_pb, property_name):
 
 def const_template(option_value, name):
     const_tmpl = """{%- if str(o.string) and o.string.HasField('const') -%}
-    if {{ name }} != \"{{ o.string['const'] }}\":
-        raise ValidationFailed(\"{{ name }} not equal to {{ o.string['const'] }}\")
+    if {{ name }} != {{ repr(o.string['const']) }}:
+        raise ValidationFailed(\"{{ name }} not equal to \" + {{ repr(o.string['const']) }})
     {%- elif str(o.bool) and o.bool['const'] != "" -%}
     if {{ name }} != {{ o.bool['const'] }}:
         raise ValidationFailed(\"{{ name }} not equal to {{ o.bool['const'] }}\")
@@ -163,28 +163,28 @@ def const_template(option_value, name):
     {%- elif str(o.bytes) and o.bytes.HasField('const') -%}
         {% if sys.version_info[0] >= 3 %}
     if {{ name }} != {{ o.bytes['const'] }}:
-        raise ValidationFailed(\"{{ name }} not equal to {{ o.bytes['const'] }}\")
+        raise ValidationFailed(\"{{ name }} not equal to \" + {{ repr(str(o.bytes['const'])) }})
         {% else %}
     if {{ name }} != b\"{{ o.bytes['const'].encode('string_escape') }}\":
         raise ValidationFailed(\"{{ name }} not equal to {{ o.bytes['const'].encode('string_escape') }}\")
         {% endif %}
     {%- endif -%}
     """
-    return Template(const_tmpl).render(sys=sys, o=option_value, name=name, str=str)
+    return Template(const_tmpl).render(sys=sys, o=option_value, name=name, str=str, repr=repr)
 
 
 def in_template(value, name):
     in_tmpl = """
     {%- if value['in'] %}
     if {{ name }} not in {{ value['in'] }}:
-        raise ValidationFailed(\"{{ name }} not in {{ value['in'] }}\")
+        raise ValidationFailed(\"{{ name }} not in \" + {{ repr(str(value['in'])) }})
     {%- endif -%}
     {%- if value['not_in'] %}
     if {{ name }} in {{ value['not_in'] }}:
-        raise ValidationFailed(\"{{ name }} in {{ value['not_in'] }}\")
+        raise ValidationFailed(\"{{ name }} in \" + {{ repr(str(value['not_in'])) }})
     {%- endif -%}
     """
-    return Template(in_tmpl).render(value=value, name=name)
+    return Template(in_tmpl).render(value=value, name=name, str=str, repr=repr)
 
 
 def string_template(option_value, name):
@@ -232,24 +232,24 @@ def string_template(option_value, name):
         raise ValidationFailed(\"{{ name }} length is greater than {{ s['max_bytes'] }}\")
     {%- endif -%}
     {%- if s['pattern'] %}
-    if re.search(r\'{{ s['pattern'] }}\', {{ name }}) is None:
-        raise ValidationFailed(\"{{ name }} pattern does not match {{ s['pattern'] }}\")
+    if re.search({{ repr(s['pattern']) }}, {{ name }}) is None:
+        raise ValidationFailed(\"{{ name }} pattern does not match \" + {{ repr(s['pattern']) }})
     {%- endif -%}
     {%- if s['prefix'] %}
-    if not {{ name }}.startswith(\"{{ s['prefix'] }}\"):
-        raise ValidationFailed(\"{{ name }} does not start with prefix {{ s['prefix'] }}\")
+    if not {{ name }}.startswith({{ repr(s['prefix']) }}):
+        raise ValidationFailed(\"{{ name }} does not start with prefix \" + {{ repr(s['prefix']) }})
     {%- endif -%}
     {%- if s['suffix'] %}
-    if not {{ name }}.endswith(\"{{ s['suffix'] }}\"):
-        raise ValidationFailed(\"{{ name }} does not end with suffix {{ s['suffix'] }}\")
+    if not {{ name }}.endswith({{ repr(s['suffix']) }}):
+        raise ValidationFailed(\"{{ name }} does not end with suffix \" + {{ repr(s['suffix']) }})
     {%- endif -%}
     {%- if s['contains'] %}
-    if not \"{{ s['contains'] }}\" in {{ name }}:
-        raise ValidationFailed(\"{{ name }} does not contain {{ s['contains'] }}\")
+    if not {{ repr(s['contains']) }} in {{ name }}:
+        raise ValidationFailed(\"{{ name }} does not contain \" + {{ repr(s['contains']) }})
     {%- endif -%}
     {%- if s.HasField('not_contains') %}
-    if \"{{ s['not_contains'] }}\" in {{ name }}:
-        raise ValidationFailed(\"{{ name }} contains {{ s['not_contains'] }}\")
+    if {{ repr(s['not_contains']) }} in {{ name }}:
+        raise ValidationFailed(\"{{ name }} contains \" + {{ repr(s['not_contains']) }})
     {%- endif -%}
     {%- if s['email'] %}
     if not _validateEmail({{ name }}):
@@ -300,7 +300,8 @@ def string_template(option_value, name):
     {%- endif -%}
     {% endfilter %}
     """
-    return Template(str_templ).render(o=option_value, name=name, const_template=const_template, in_template=in_template)
+    return Template(str_templ).render(o=option_value, name=name, const_template=const_template, in_template=in_template,
+                                      repr=repr)
 
 
 def required_template(value, name):
@@ -702,7 +703,7 @@ def any_template(option_value, name, repeated=False):
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
         if {{ name }}.type_url not in {{ o['in'] }}:
-            raise ValidationFailed(\"{{ name }} not in {{ o['in'] }}\")
+            raise ValidationFailed(\"{{ name }} not in \" + {{ repr(str(o['in'])) }})
     {%- endif %}
     {%- if o['not_in'] %}
     {% if repeated %}
@@ -711,11 +712,11 @@ def any_template(option_value, name, repeated=False):
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
         if {{ name }}.type_url in {{ o['not_in'] }}:
-            raise ValidationFailed(\"{{ name }} in {{ o['not_in'] }}\")
+            raise ValidationFailed(\"{{ name }} in \" + {{ repr(str(o['not_in'])) }})
     {%- endif %}
     """
-    return Template(any_tmpl).render(
-        o=option_value.any, name=name, required_template=required_template, repeated=repeated)
+    return Template(any_tmpl).render(o=option_value.any, name=name, required_template=required_template,
+                                     repeated=repeated, str=str, repr=repr)
 
 
 def bytes_template(option_value, name):
@@ -771,7 +772,7 @@ def bytes_template(option_value, name):
     {% if b['contains'] %}
         {% if sys.version_info[0] >= 3 %}
     if not {{ b['contains'] }} in {{ name }}:
-        raise ValidationFailed(\"{{ name }} does not contain {{ b['contains'] }}\")
+        raise ValidationFailed(\"{{ name }} does not contain \" + {{ repr(str(b['contains'])) }})
         {% else %}
     if not b\"{{ b['contains'].encode('string_escape') }}\" in {{ name }}:
         raise ValidationFailed(\"{{ name }} does not contain \")
@@ -780,7 +781,7 @@ def bytes_template(option_value, name):
     {% if b['prefix'] %}
         {% if sys.version_info[0] >= 3 %}
     if not {{ name }}.startswith({{ b['prefix'] }}):
-        raise ValidationFailed(\"{{ name }} does not start with prefix {{ b['prefix'] }}\")
+        raise ValidationFailed(\"{{ name }} does not start with prefix \" + {{ repr(str(b['prefix'])) }})
         {% else %}
     if not {{name}}.startswith(b\"{{ b['prefix'].encode('string_escape') }}\"):
         raise ValidationFailed(\"{{ name }} does not start with prefix {{ b['prefix'].encode('string_escape') }}\")
@@ -789,16 +790,17 @@ def bytes_template(option_value, name):
     {% if b['suffix'] %}
         {% if sys.version_info[0] >= 3 %}
     if not {{ name }}.endswith({{ b['suffix'] }}):
-        raise ValidationFailed(\"{{ name }} does not end with suffix {{ b['suffix'] }}\")
+        raise ValidationFailed(\"{{ name }} does not end with suffix \" + {{ repr(str(b['suffix'])) }})
         {% else %}
     if not {{name}}.endswith(b\"{{ b['suffix'].encode('string_escape') }}\"):
-        raise ValidationFailed(\"{{ name }} does not end with suffix {{ b['suffix'] }}\")
+        raise ValidationFailed(\"{{ name }} does not end with suffix \" + {{ repr(str(b['suffix'])) }})
         {% endif %}
     {% endif %}
     {% endfilter %}
     """
     return Template(bytes_tmpl).render(sys=sys, o=option_value, name=name,
-                                       const_template=const_template, in_template=in_template, b=option_value.bytes)
+                                       const_template=const_template, in_template=in_template, b=option_value.bytes,
+                                       str=str, repr=repr)
 
 
 def is_wrapper(field):
-- 
2.43.0


From 51694d0dc52c5e4ff1f7ec3bf60cbac8cc8ae5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 71/77] fix: Python: UUIDs have the form of RFC 4122

uuid.UUID takes braces, prefixes and hyphens anywhere.
---
 python/protoc_gen_validate/validator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index e9e3372..809338e 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -2,7 +2,6 @@ import re
 import struct
 import sys
 import time
-import uuid
 from functools import lru_cache
 from ipaddress import IPv4Address, IPv6Address, ip_address
 from urllib import parse as urlparse
@@ -139,6 +138,10 @@ def _validateURI(uri):
     return _validateURIRef(uri) and urlparse.urlparse(uri).scheme != ''
 
 
+def _validateUUID(text):
+    return re.match(r'^[0-9a-fA-F]{8}(-[0-9a-fA-F]{4}){3}-[0-9a-fA-F]{12}\Z', text) is not None
+
+
 def _has_field(message_pb, property_name):
     # NOTE: As of proto3, HasField() only works for message fields, not for
     #       singular (non-message) fields. First try to use HasField and
@@ -293,9 +296,7 @@ def string_template(option_value, name):
         raise ValidationFailed(\"{{ name }} is not a valid uri ref\")
     {%- endif -%}
     {%- if s['uuid'] %}
-    try:
-        uuid.UUID({{ name }})
-    except ValueError:
+    if not _validateUUID({{ name }}):
         raise ValidationFailed(\"{{ name }} is not a valid UUID\")
     {%- endif -%}
     {% endfilter %}
-- 
2.43.0


From d270d9d7f984dba44aa5385e14df0b2acbdd274c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 72/77] fix: Python: HTTP headers do not end in a newline

$ matches before a newline at the end of the string, too.
---
 python/protoc_gen_validate/validator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 809338e..d61d249 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -15,9 +15,9 @@ printer = ""
 # Well known regex mapping.
 regex_map = {
     "UNKNOWN": "",
-    "HTTP_HEADER_NAME": r'^:?[0-9a-zA-Z!#$%&\'*+\-.^_|~\x60]+$',
-    "HTTP_HEADER_VALUE": r'^[^\u0000-\u0008\u000A-\u001F\u007F]*$',
-    "HEADER_STRING": r'^[^\u0000\u000A\u000D]*$'
+    "HTTP_HEADER_NAME": r'^:?[0-9a-zA-Z!#$%&\'*+\-.^_|~\x60]+\Z',
+    "HTTP_HEADER_VALUE": r'^[^\u0000-\u0008\u000A-\u001F\u007F]*\Z',
+    "HEADER_STRING": r'^[^\u0000\u000A\u000D]*\Z'
 }
 
 
-- 
2.43.0


From 2ffa0e66de981a5411de324a1a7c35620796de07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 73/77] fix: Python: patterns of bytes with backslashes

unicode-escape doubled them: \d was a backslash and a d.
---
 python/protoc_gen_validate/validator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index d61d249..f0944eb 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -763,8 +763,8 @@ def bytes_template(option_value, name):
     {%- endif -%}
     {% if b['pattern'] %}
         {% if sys.version_info[0] >= 3%}
-    if re.search({{ b['pattern'].encode('unicode-escape') }}, {{ name }}) is None:
-        raise ValidationFailed(\"{{ name }} pattern does not match b['pattern'].encode('unicode-escape')\")
+    if re.search({{ b['pattern'].encode('utf-8') }}, {{ name }}) is None:
+        raise ValidationFailed(\"{{ name }} pattern does not match \" + {{ repr(b['pattern']) }})
         {% else %}
     if re.search(b\"{{ b['pattern'].encode('unicode-escape') }}\", {{ name }}) is None:
         raise ValidationFailed(\"{{ name }} pattern does not match \")
-- 
2.43.0


From efc4ef8ba1b2ddfab98810254a4e8d083e9452ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:03 +0000
Subject: [PATCH 74/77] fix: Python: durations and timestamps are compared
 exactly

As floats they have no nanoseconds when the seconds are many, and 3 ns were
not equal to 3 ns, one of which was rounded.
---
 python/protoc_gen_validate/validator.py | 75 ++++++++++++++-----------
 1 file changed, 43 insertions(+), 32 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index f0944eb..dd7c653 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -425,6 +425,15 @@ def dur_lit(dur):
     return value
 
 
+def dur_ns(dur):
+    # floats do not have the nanoseconds of all durations and timestamps
+    return dur.seconds * 10**9 + dur.nanos
+
+
+def dur_ns_arr(dur):
+    return [dur_ns(val) for val in dur]
+
+
 def duration_template(option_value, name, repeated=False):
     dur_tmpl = """
     {%- if not repeated %}
@@ -435,35 +444,35 @@ def duration_template(option_value, name, repeated=False):
     {% else %}
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
-        dur = {{ name }}.seconds + round((10**-9 * {{ name }}.nanos), 9)
+        dur = {{ name }}.seconds * 10**9 + {{ name }}.nanos
         {%- set dur = o.duration -%}
         {%- if dur.HasField('lt') %}
-        lt = {{ dur_lit(dur['lt']) }}
+        lt = {{ dur_ns(dur['lt']) }}
         {% endif %}
         {%- if dur.HasField('lte') %}
-        lte = {{ dur_lit(dur['lte']) }}
+        lte = {{ dur_ns(dur['lte']) }}
         {% endif %}
         {%- if dur.HasField('gt') %}
-        gt = {{ dur_lit(dur['gt']) }}
+        gt = {{ dur_ns(dur['gt']) }}
         {% endif %}
         {%- if dur.HasField('gte') %}
-        gte = {{ dur_lit(dur['gte']) }}
+        gte = {{ dur_ns(dur['gte']) }}
         {% endif %}
         {%- if dur.HasField('const') %}
-        if dur != {{ dur_lit(dur['const']) }}:
+        if dur != {{ dur_ns(dur['const']) }}:
             raise ValidationFailed(\"{{ name }} is not equal to {{ dur_lit(dur['const']) }}\")
         {%- endif -%}
         {%- if dur['in'] %}
-        if dur not in {{ dur_arr(dur['in']) }}:
+        if dur not in {{ dur_ns_arr(dur['in']) }}:
             raise ValidationFailed(\"{{ name }} is not in {{ dur_arr(dur['in']) }}\")
         {%- endif -%}
         {%- if dur['not_in'] %}
-        if dur in {{ dur_arr(dur['not_in']) }}:
+        if dur in {{ dur_ns_arr(dur['not_in']) }}:
             raise ValidationFailed(\"{{ name }} is not in {{ dur_arr(dur['not_in']) }}\")
         {%- endif -%}
         {%- if dur.HasField('lt') %}
             {%- if dur.HasField('gt') %}
-                {%- if dur_lit(dur['lt']) > dur_lit(dur['gt']) %}
+                {%- if dur_ns(dur['lt']) > dur_ns(dur['gt']) %}
         if dur <= gt or dur >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lt']), dur_lit(dur['gt']) }}\")
                 {%- else -%}
@@ -471,7 +480,7 @@ def duration_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['gt']), dur_lit(dur['lt']) }}\")
                 {%- endif -%}
             {%- elif dur.HasField('gte') %}
-                {%- if dur_lit(dur['lt']) > dur_lit(dur['gte']) %}
+                {%- if dur_ns(dur['lt']) > dur_ns(dur['gte']) %}
         if dur < gte or dur >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lt']), dur_lit(dur['gte']) }}\")
                 {%- else -%}
@@ -484,7 +493,7 @@ def duration_template(option_value, name, repeated=False):
             {%- endif -%}
         {%- elif dur.HasField('lte') %}
             {%- if dur.HasField('gt') %}
-                {%- if dur_lit(dur['lte']) > dur_lit(dur['gt']) %}
+                {%- if dur_ns(dur['lte']) > dur_ns(dur['gt']) %}
         if dur <= gt or dur > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lte']), dur_lit(dur['gt']) }}\")
                 {%- else -%}
@@ -492,7 +501,7 @@ def duration_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['gt']), dur_lit(dur['lte']) }}\")
                 {%- endif -%}
             {%- elif dur.HasField('gte') %}
-                {%- if dur_lit(dur['lte']) > dur_lit(dur['gte']) %}
+                {%- if dur_ns(dur['lte']) > dur_ns(dur['gte']) %}
         if dur < gte or dur > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lte']), dur_lit(dur['gte']) }}\")
                 {%- else -%}
@@ -512,7 +521,8 @@ def duration_template(option_value, name, repeated=False):
         {%- endif -%}
     """
     return Template(dur_tmpl).render(o=option_value, name=name, required_template=required_template,
-                                     dur_lit=dur_lit, dur_arr=dur_arr, repeated=repeated)
+                                     dur_lit=dur_lit, dur_arr=dur_arr,
+                                     dur_ns=dur_ns, dur_ns_arr=dur_ns_arr, repeated=repeated)
 
 
 def timestamp_template(option_value, name, repeated=False):
@@ -525,35 +535,35 @@ def timestamp_template(option_value, name, repeated=False):
     {% else %}
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
-        ts = {{ name }}.seconds + round((10**-9 * {{ name }}.nanos), 9)
+        ts = {{ name }}.seconds * 10**9 + {{ name }}.nanos
         {%- set ts = o.timestamp -%}
         {%- if ts.HasField('lt') %}
-        lt = {{ dur_lit(ts['lt']) }}
+        lt = {{ dur_ns(ts['lt']) }}
         {% endif -%}
         {%- if ts.HasField('lte') %}
-        lte = {{ dur_lit(ts['lte']) }}
+        lte = {{ dur_ns(ts['lte']) }}
         {% endif -%}
         {%- if ts.HasField('gt') %}
-        gt = {{ dur_lit(ts['gt']) }}
+        gt = {{ dur_ns(ts['gt']) }}
         {% endif -%}
         {%- if ts.HasField('gte') %}
-        gte = {{ dur_lit(ts['gte']) }}
+        gte = {{ dur_ns(ts['gte']) }}
         {% endif -%}
         {%- if ts.HasField('const') %}
-        if ts != {{ dur_lit(ts['const']) }}:
+        if ts != {{ dur_ns(ts['const']) }}:
             raise ValidationFailed(\"{{ name }} is not equal to {{ dur_lit(ts['const']) }}\")
         {% endif %}
         {%- if ts['in'] %}
-        if ts not in {{ dur_arr(ts['in']) }}:
+        if ts not in {{ dur_ns_arr(ts['in']) }}:
             raise ValidationFailed(\"{{ name }} is not in {{ dur_arr(ts['in']) }}\")
         {%- endif %}
         {%- if ts['not_in'] %}
-        if ts in {{ dur_arr(ts['not_in']) }}:
+        if ts in {{ dur_ns_arr(ts['not_in']) }}:
             raise ValidationFailed(\"{{ name }} is not in {{ dur_arr(ts['not_in']) }}\")
         {%- endif %}
         {%- if ts.HasField('lt') %}
             {%- if ts.HasField('gt') %}
-                {%- if dur_lit(ts['lt']) > dur_lit(ts['gt']) %}
+                {%- if dur_ns(ts['lt']) > dur_ns(ts['gt']) %}
         if ts <= gt or ts >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lt']), dur_lit(ts['gt']) }}\")
                 {%- else -%}
@@ -561,7 +571,7 @@ def timestamp_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['gt']), dur_lit(ts['lt']) }}\")
                 {%- endif -%}
             {%- elif ts.HasField('gte') %}
-                {%- if dur_lit(ts['lt']) > dur_lit(ts['gte']) %}
+                {%- if dur_ns(ts['lt']) > dur_ns(ts['gte']) %}
         if ts < gte or ts >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lt']), dur_lit(ts['gte']) }}\")
                 {%- else -%}
@@ -574,7 +584,7 @@ def timestamp_template(option_value, name, repeated=False):
             {%- endif -%}
         {%- elif ts.HasField('lte') %}
             {%- if ts.HasField('gt') %}
-                {%- if dur_lit(ts['lte']) > dur_lit(ts['gt']) %}
+                {%- if dur_ns(ts['lte']) > dur_ns(ts['gt']) %}
         if ts <= gt or ts > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lte']), dur_lit(ts['gt']) }}\")
                 {%- else -%}
@@ -582,7 +592,7 @@ def timestamp_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['gt']), dur_lit(ts['lte']) }}\")
                 {%- endif -%}
             {%- elif ts.HasField('gte') %}
-                {%- if dur_lit(ts['lte']) > dur_lit(ts['gte']) %}
+                {%- if dur_ns(ts['lte']) > dur_ns(ts['gte']) %}
         if ts < gte or ts > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lte']), dur_lit(ts['gte']) }}\")
                 {%- else -%}
@@ -600,9 +610,9 @@ def timestamp_template(option_value, name, repeated=False):
         if ts < gte:
             raise ValidationFailed(\"{{ name }} is not greater than or equal to {{ dur_lit(ts['gte']) }}\")
         {%- elif ts['lt_now'] %}
-        now = time.time()
+        now = int(time.time() * 10**9)
             {%- if ts.HasField('within') %}
-        within = {{ dur_lit(ts['within']) }}
+        within = {{ dur_ns(ts['within']) }}
         if ts >= now or ts <= now - within:
             raise ValidationFailed(\"{{ name }} is not within range {{ dur_lit(ts['within']) }}\")
             {%- else %}
@@ -610,9 +620,9 @@ def timestamp_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not lesser than now\")
             {%- endif -%}
         {%- elif ts['gt_now'] %}
-        now = time.time()
+        now = int(time.time() * 10**9)
             {%- if ts.HasField('within') %}
-        within = {{ dur_lit(ts['within']) }}
+        within = {{ dur_ns(ts['within']) }}
         if ts <= now or ts >= now + within:
             raise ValidationFailed(\"{{ name }} is not within range {{ dur_lit(ts['within']) }}\")
             {%- else %}
@@ -620,14 +630,15 @@ def timestamp_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not greater than now\")
             {%- endif -%}
         {%- elif ts.HasField('within') %}
-        now = time.time()
-        within = {{ dur_lit(ts['within']) }}
+        now = int(time.time() * 10**9)
+        within = {{ dur_ns(ts['within']) }}
         if ts >= now + within or ts <= now - within:
              raise ValidationFailed(\"{{ name }} is not within range {{ dur_lit(ts['within']) }}\")
         {%- endif -%}
     """
     return Template(timestamp_tmpl).render(o=option_value, name=name, required_template=required_template,
-                                           dur_lit=dur_lit, dur_arr=dur_arr, repeated=repeated)
+                                           dur_lit=dur_lit, dur_arr=dur_arr,
+                                           dur_ns=dur_ns, dur_ns_arr=dur_ns_arr, repeated=repeated)
 
 
 def wrapper_template(option_value, name, repeated=False):
-- 
2.43.0


From 11432fec83ca7a322b04b6c69d52dbfdc9923711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:31 +0000
Subject: [PATCH 75/77] fix: Python: durations and timestamps with lists and
 bounds

The line after the one about the list went on in it, a SyntaxError.
---
 python/protoc_gen_validate/validator.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index dd7c653..3193cd0 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -475,7 +475,7 @@ def duration_template(option_value, name, repeated=False):
                 {%- if dur_ns(dur['lt']) > dur_ns(dur['gt']) %}
         if dur <= gt or dur >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lt']), dur_lit(dur['gt']) }}\")
-                {%- else -%}
+                {%- else %}
         if dur >= lt and dur <= gt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['gt']), dur_lit(dur['lt']) }}\")
                 {%- endif -%}
@@ -483,11 +483,11 @@ def duration_template(option_value, name, repeated=False):
                 {%- if dur_ns(dur['lt']) > dur_ns(dur['gte']) %}
         if dur < gte or dur >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lt']), dur_lit(dur['gte']) }}\")
-                {%- else -%}
+                {%- else %}
         if dur >= lt and dur < gte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['gte']), dur_lit(dur['lt']) }}\")
                 {%- endif -%}
-            {%- else -%}
+            {%- else %}
         if dur >= lt:
             raise ValidationFailed(\"{{ name }} is not lesser than {{ dur_lit(dur['lt']) }}\")
             {%- endif -%}
@@ -496,7 +496,7 @@ def duration_template(option_value, name, repeated=False):
                 {%- if dur_ns(dur['lte']) > dur_ns(dur['gt']) %}
         if dur <= gt or dur > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lte']), dur_lit(dur['gt']) }}\")
-                {%- else -%}
+                {%- else %}
         if dur > lte and dur <= gt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['gt']), dur_lit(dur['lte']) }}\")
                 {%- endif -%}
@@ -504,11 +504,11 @@ def duration_template(option_value, name, repeated=False):
                 {%- if dur_ns(dur['lte']) > dur_ns(dur['gte']) %}
         if dur < gte or dur > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lte']), dur_lit(dur['gte']) }}\")
-                {%- else -%}
+                {%- else %}
         if dur > lte and dur < gte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['gte']), dur_lit(dur['lte']) }}\")
                 {%- endif -%}
-            {%- else -%}
+            {%- else %}
         if dur > lte:
             raise ValidationFailed(\"{{ name }} is not lesser than or equal to {{ dur_lit(dur['lte']) }}\")
             {%- endif -%}
@@ -566,7 +566,7 @@ def timestamp_template(option_value, name, repeated=False):
                 {%- if dur_ns(ts['lt']) > dur_ns(ts['gt']) %}
         if ts <= gt or ts >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lt']), dur_lit(ts['gt']) }}\")
-                {%- else -%}
+                {%- else %}
         if ts >= lt and ts <= gt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['gt']), dur_lit(ts['lt']) }}\")
                 {%- endif -%}
@@ -574,11 +574,11 @@ def timestamp_template(option_value, name, repeated=False):
                 {%- if dur_ns(ts['lt']) > dur_ns(ts['gte']) %}
         if ts < gte or ts >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lt']), dur_lit(ts['gte']) }}\")
-                {%- else -%}
+                {%- else %}
         if ts >= lt and ts < gte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['gte']), dur_lit(ts['lt']) }}\")
                 {%- endif -%}
-            {%- else -%}
+            {%- else %}
         if ts >= lt:
             raise ValidationFailed(\"{{ name }} is not lesser than {{ dur_lit(ts['lt']) }}\")
             {%- endif -%}
@@ -587,7 +587,7 @@ def timestamp_template(option_value, name, repeated=False):
                 {%- if dur_ns(ts['lte']) > dur_ns(ts['gt']) %}
         if ts <= gt or ts > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lte']), dur_lit(ts['gt']) }}\")
-                {%- else -%}
+                {%- else %}
         if ts > lte and ts <= gt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['gt']), dur_lit(ts['lte']) }}\")
                 {%- endif -%}
@@ -595,11 +595,11 @@ def timestamp_template(option_value, name, repeated=False):
                 {%- if dur_ns(ts['lte']) > dur_ns(ts['gte']) %}
         if ts < gte or ts > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lte']), dur_lit(ts['gte']) }}\")
-                {%- else -%}
+                {%- else %}
         if ts > lte and ts < gte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['gte']), dur_lit(ts['lte']) }}\")
                 {%- endif -%}
-            {%- else -%}
+            {%- else %}
         if ts > lte:
             raise ValidationFailed(\"{{ name }} is not lesser than or equal to {{ dur_lit(ts['lte']) }}\")
             {%- endif -%}
-- 
2.43.0


From 069270f6ea5ed7eeaf5a727553c6ae4215f4f56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:31 +0000
Subject: [PATCH 76/77] fix: Python: optional messages can be required

The oneof of a proto3 optional field is no choice: what is required in it has
to be there.
---
 python/protoc_gen_validate/validator.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 3193cd0..284f0c8 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -1058,6 +1058,13 @@ def rule_type(field):
     return ""
 
 
+def in_oneof(field):
+    """Whether the field is a choice; proto3 optional messages are fields like others."""
+    oneof = field.containing_oneof
+    return oneof is not None and not (
+        field.message_type is not None and len(oneof.fields) == 1 and oneof.name == "_" + field.name)
+
+
 def file_template(proto_message):
     file_tmp = """
 # Validates {{ p.DESCRIPTOR.name }}
@@ -1071,7 +1078,7 @@ def generate_validate(p):
     {%- endfor -%}
     {%- for oneof in p.DESCRIPTOR.oneofs %}
     present = False
-        {%- for field in oneof.fields %}
+        {%- for field in oneof.fields if in_oneof(field) %}
     if _has_field(p, \"{{ field.name }}\"):
         present = True
         {{ rule_type(field)|indent(4,True) }}
@@ -1084,9 +1091,9 @@ def generate_validate(p):
         {% endfor %}
     {%- endfor %}
     {%- for field in p.DESCRIPTOR.fields -%}
-        {%- if not field.containing_oneof %}
+        {%- if not in_oneof(field) %}
     {{ rule_type(field) -}}
         {%- endif %}
     {%- endfor %}
     return None"""
-    return Template(file_tmp).render(rule_type=rule_type, p=proto_message)
+    return Template(file_tmp).render(rule_type=rule_type, in_oneof=in_oneof, p=proto_message)
-- 
2.43.0


From 739654284b1fc653f45ee14d6a7312a1da175541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:24 +0000
Subject: [PATCH 77/77] fix: the Java server interceptor drops messages after
 an invalid one

---
 .../io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java b/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java
index 60b5147..3da1056 100644
--- a/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java
+++ b/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java
@@ -25,6 +25,11 @@ public class ValidatingServerInterceptor implements ServerInterceptor {
 
             @Override
             public void onMessage(ReqT message) {
+                if (aborted) {
+                    // The call is closed already: it may not be closed again, and nothing more may be delivered.
+                    return;
+                }
+
                 try {
                     index.validatorFor(message.getClass()).assertValid(message);
                     super.onMessage(message);
-- 
2.43.0

