From 5ad989a9c62a8898ce11a1e77413275a3f588909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:46 +0000
Subject: [PATCH 01/29] fix: sibling conditionals nested four deep shared one
 backing array

Appending the condition to a slice with spare capacity let a later sibling
overwrite the condition guarding an earlier sibling's attributes.
---
 element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/element.go b/element.go
index 3393d73..7cfd572 100644
--- a/element.go
+++ b/element.go
@@ -251,7 +251,7 @@ func attributesAndContents(conditions []ConditionalFunc, content []Node) (attrs
 					attrs = append(attrs, addA...)
 					condAttrs = append(condAttrs, addCa...)
 				case *conditional:
-					newConditions := append(conditions, cn.fn)
+					newConditions := append(conditions[:len(conditions):len(conditions)], cn.fn)
 					for _, a := range cn.attributes {
 						condAttrs = append(condAttrs, conditionalAttribute{
 							attribute:  a,
-- 
2.43.0


From e5a6a7d47a7be098a34ddb7ccaf3d0340e0f1fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 02/29] fix: merging delimited attributes modified the shared
 attribute node

A Class() or Style() node used in two elements accumulated the values of
both; merge into a new node instead.
---
 element.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/element.go b/element.go
index 7cfd572..6b8f04d 100644
--- a/element.go
+++ b/element.go
@@ -88,7 +88,9 @@ func (e *voidElement) addAttributes(attrs []Node) Node {
 			existing := e.attributes[idx]
 			if delimited, ok := existing.(*delimitedAttribute); ok {
 				if addD, ok := att.(*delimitedAttribute); ok {
-					delimited.values = append(delimited.values, addD.values...)
+					merged := &delimitedAttribute{name: delimited.name, delimiter: delimited.delimiter}
+					merged.values = append(append(merged.values, delimited.values...), addD.values...)
+					e.attributes[idx] = merged
 					continue
 				}
 			}
@@ -154,7 +156,9 @@ func (e *element) addAttributes(attrs []Node) Node {
 			existing := e.attributes[idx]
 			if delimited, ok := existing.(*delimitedAttribute); ok {
 				if addD, ok := att.(*delimitedAttribute); ok {
-					delimited.values = append(delimited.values, addD.values...)
+					merged := &delimitedAttribute{name: delimited.name, delimiter: delimited.delimiter}
+					merged.values = append(append(merged.values, delimited.values...), addD.values...)
+					e.attributes[idx] = merged
 					continue
 				}
 			}
-- 
2.43.0


From b9836350f73538961b7e731bf6e1de44d65c5207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 03/29] fix: attribute order was random on elements with
 conditional attributes

Range over the ordered attributes and conditionals rather than over maps.
---
 element.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/element.go b/element.go
index 6b8f04d..71a931f 100644
--- a/element.go
+++ b/element.go
@@ -8,8 +8,8 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 	if len(conditionals) > 0 {
 		if evaluated := conditionals.evaluate(ctx); len(evaluated) > 0 {
 			use := &delimitedAttribute{}
-			for name, index := range attIndices {
-				attr := attributes[index]
+			for _, attr := range attributes {
+				name := attr.Name()
 				if eAttr, ok := evaluated[name]; ok {
 					switch at := attr.(type) {
 					case *delimitedAttribute:
@@ -30,8 +30,11 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 					_ = attr.Render(ctx)
 				}
 			}
-			for name, ca := range evaluated {
+			for _, conditional := range conditionals {
+				name := conditional.attribute.Name()
+				ca := evaluated[name]
 				if _, ok := attIndices[name]; !ok && len(ca) > 0 {
+					delete(evaluated, name)
 					first := ca[0]
 					switch at := first.(type) {
 					case *delimitedAttribute:
-- 
2.43.0


From ebf06fe5364635d85bce886192f35469341ac854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 04/29] fix: IterateYield kept the data of the previous item

An item that is not a map now sees the outer data, as with Iterate, not
that of an earlier map item (or none).
---
 iterate.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iterate.go b/iterate.go
index 6a300d8..9465efa 100644
--- a/iterate.go
+++ b/iterate.go
@@ -155,6 +155,8 @@ func (i *yieldIterator) Render(ctx *context.Context) error {
 		ictx.Cargo = item
 		if mi, ok := item.(map[string]any); ok {
 			ictx.Data = mi
+		} else {
+			ictx.Data = ctx.Data
 		}
 		for _, n := range i.nodes {
 			if err := n.Render(ictx); err != nil {
-- 
2.43.0


From c6c7a54dc5b4191cea300a8cb9dcd68dbb11ed37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 05/29] fix: nil nodes crashed Conditional, When and the
 iterators

Element(), Attribute() etc. return nil for an invalid name; ignore nil
nodes here as elements and collections already do.
---
 conditional.go | 3 +++
 iterate.go     | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/conditional.go b/conditional.go
index 580f1bb..016da1a 100644
--- a/conditional.go
+++ b/conditional.go
@@ -72,6 +72,9 @@ func Conditional(fn ConditionalFunc, nodes ...Node) Node {
 		fn:         fn,
 	}
 	for _, n := range nodes {
+		if n == nil {
+			continue
+		}
 		if n.Type() == AttributeNode {
 			result.attributes = append(result.attributes, n)
 		} else {
diff --git a/iterate.go b/iterate.go
index 9465efa..420e1af 100644
--- a/iterate.go
+++ b/iterate.go
@@ -23,7 +23,7 @@ func Iterate(fn func(ctx *context.Context) []any, nodes ...Node) Node {
 		fn:    fn,
 	}
 	for _, n := range nodes {
-		if n.Type() != AttributeNode {
+		if n != nil && n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
@@ -59,7 +59,7 @@ func IterateKey(key string, nodes ...Node) Node {
 		},
 	}
 	for _, n := range nodes {
-		if n.Type() != AttributeNode {
+		if n != nil && n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
@@ -128,7 +128,7 @@ func IterateYield(fn func(ctx *context.Context, yield func(any)), nodes ...Node)
 		nodes: make([]Node, 0, len(nodes)),
 	}
 	for _, n := range nodes {
-		if n.Type() != AttributeNode {
+		if n != nil && n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
-- 
2.43.0


From e0c377f111b3cf3e543d29f581c756b4ff3ac65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 06/29] fix: values were written after an error and cleared it

A value ignored Context.Error, so after a failed write the next value was
written all the same and, if that succeeded, the error was lost.
---
 value.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/value.go b/value.go
index c499054..5ca4bec 100644
--- a/value.go
+++ b/value.go
@@ -33,9 +33,15 @@ func NewConcatValue(values ...any) Value {
 }
 
 func (v Value) render(ctx *context.Context) (bool, error) {
+	if ctx.Error != nil {
+		return false, ctx.Error
+	}
 	var l int
 	if v.dynamicFunc != nil {
 		data := v.dynamicFunc(ctx)
+		if ctx.Error != nil {
+			return false, ctx.Error
+		}
 		l, ctx.Error = ctx.Writer.Write(data)
 	} else if len(v.concats) > 0 {
 		var written bool
-- 
2.43.0


From 050aef146598ac22d9c9d51f556876131cb544f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 07/29] fix: errors from imperative and custom nodes were lost

Containers overwrote Context.Error with the result of each child, or
ignored it, so an error was dropped as soon as a sibling rendered, and an
imperative returning nil cleared a write error.
---
 aitch.go         |  7 +++++++
 collection.go    |  4 ++--
 conditional.go   |  2 +-
 element.go       | 10 +++++-----
 html/document.go |  4 +++-
 imperative.go    |  6 +++++-
 iterate.go       | 15 +++++++++------
 7 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/aitch.go b/aitch.go
index a8f5e44..33d5fdb 100644
--- a/aitch.go
+++ b/aitch.go
@@ -22,6 +22,13 @@ type Node interface {
 	Name() string
 }
 
+// renderNode renders the node, keeping the first error of the rendering in Context.Error
+func renderNode(n Node, ctx *context.Context) {
+	if err := n.Render(ctx); ctx.Error == nil {
+		ctx.Error = err
+	}
+}
+
 // NodeType is the node type (e.g. ElementNode, AttributeNode etc.) for a Node
 type NodeType int
 
diff --git a/collection.go b/collection.go
index 69243c3..2dba88f 100644
--- a/collection.go
+++ b/collection.go
@@ -11,7 +11,7 @@ type collection struct {
 func (c *collection) Render(ctx *context.Context) error {
 	for _, n := range c.nodes {
 		if n.Type() != AttributeNode {
-			if ctx.Error = n.Render(ctx); ctx.Error != nil {
+			if renderNode(n, ctx); ctx.Error != nil {
 				return ctx.Error
 			}
 		}
@@ -47,7 +47,7 @@ type contentCollector struct {
 func (c *contentCollector) Render(ctx *context.Context) error {
 	for _, n := range c.collector(ctx) {
 		if n != nil && n.Type() != AttributeNode {
-			_ = n.Render(ctx)
+			renderNode(n, ctx)
 		}
 	}
 	return ctx.Error
diff --git a/conditional.go b/conditional.go
index 016da1a..e4257b9 100644
--- a/conditional.go
+++ b/conditional.go
@@ -43,7 +43,7 @@ func (c conditionalAttributes) evaluate(ctx *context.Context) map[string][]Node
 func (c *conditional) Render(ctx *context.Context) error {
 	if c.fn(ctx) {
 		for _, n := range c.nodes {
-			if ctx.Error = n.Render(ctx); ctx.Error != nil {
+			if renderNode(n, ctx); ctx.Error != nil {
 				break
 			}
 		}
diff --git a/element.go b/element.go
index 71a931f..0152ffa 100644
--- a/element.go
+++ b/element.go
@@ -24,10 +24,10 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 						}
 						_ = use.Render(ctx)
 					default:
-						_ = eAttr[len(eAttr)-1].Render(ctx)
+						renderNode(eAttr[len(eAttr)-1], ctx)
 					}
 				} else {
-					_ = attr.Render(ctx)
+					renderNode(attr, ctx)
 				}
 			}
 			for _, conditional := range conditionals {
@@ -49,7 +49,7 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 						}
 						_ = use.Render(ctx)
 					default:
-						_ = ca[len(ca)-1].Render(ctx)
+						renderNode(ca[len(ca)-1], ctx)
 					}
 				}
 			}
@@ -57,7 +57,7 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 		}
 	}
 	for _, attr := range attributes {
-		_ = attr.Render(ctx)
+		renderNode(attr, ctx)
 	}
 }
 
@@ -136,7 +136,7 @@ func (e *element) Render(ctx *context.Context) error {
 	renderAttributes(ctx, e.attributes, e.attIndices, e.conditionals)
 	ctx.Write(closeAngleBracket)
 	for _, c := range e.contents {
-		ctx.Error = c.Render(ctx)
+		renderNode(c, ctx)
 	}
 	ctx.Write(closeTagStart)
 	ctx.Write(e.name)
diff --git a/html/document.go b/html/document.go
index 829565b..ece0395 100644
--- a/html/document.go
+++ b/html/document.go
@@ -15,7 +15,9 @@ func (d *document) Render(ctx *context.Context) error {
 		_ = d.prologue.Render(ctx)
 	}
 	for _, n := range d.contents {
-		_ = n.Render(ctx)
+		if err := n.Render(ctx); ctx.Error == nil {
+			ctx.Error = err
+		}
 	}
 	return ctx.Error
 }
diff --git a/imperative.go b/imperative.go
index 45fcf7c..fc331d1 100644
--- a/imperative.go
+++ b/imperative.go
@@ -38,6 +38,10 @@ type imperative struct {
 func (i *imperative) Render(ctx *context.Context) (err error) {
 	if i.fn != nil {
 		err = i.fn(&imperativeContext{ctx: ctx})
+		if ctx.Error == nil {
+			ctx.Error = err
+		}
+		err = ctx.Error
 	}
 	return
 }
@@ -70,7 +74,7 @@ func (ic *imperativeContext) WriteRaw(data []byte) {
 func (ic *imperativeContext) WriteNodes(nodes ...Node) {
 	for _, node := range nodes {
 		if node != nil && node.Type() != AttributeNode {
-			_ = node.Render(ic.ctx)
+			renderNode(node, ic.ctx)
 		}
 	}
 }
diff --git a/iterate.go b/iterate.go
index 420e1af..58d849d 100644
--- a/iterate.go
+++ b/iterate.go
@@ -91,14 +91,14 @@ func (i *iterator) Render(ctx *context.Context) error {
 				ictx.Data = ctx.Data
 			}
 			for _, n := range i.nodes {
-				if err := n.Render(ictx); err != nil {
-					ctx.Error = err
-					return err
+				if renderNode(n, ictx); ictx.Error != nil {
+					ctx.Error = ictx.Error
+					return ctx.Error
 				}
 			}
 		}
 	}
-	return nil
+	return ctx.Error
 }
 
 func (i *iterator) Type() NodeType {
@@ -152,6 +152,9 @@ func (i *yieldIterator) Render(ctx *context.Context) error {
 		Parent: ctx,
 	}
 	i.fn(ctx, func(item any) {
+		if ctx.Error != nil {
+			return
+		}
 		ictx.Cargo = item
 		if mi, ok := item.(map[string]any); ok {
 			ictx.Data = mi
@@ -159,8 +162,8 @@ func (i *yieldIterator) Render(ctx *context.Context) error {
 			ictx.Data = ctx.Data
 		}
 		for _, n := range i.nodes {
-			if err := n.Render(ictx); err != nil {
-				ctx.Error = err
+			if renderNode(n, ictx); ictx.Error != nil {
+				ctx.Error = ictx.Error
 				return
 			}
 		}
-- 
2.43.0


From 2090d950bdf0c1966c5cc139325c6af2e2e0a632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 08/29] fix: context.Get panicked on some cargo values

Unexported fields, fields promoted through a nil embedded pointer and maps
with a named string key type are now looked up or skipped without a panic.
---
 context/context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/context/context.go b/context/context.go
index cdbec55..7df739b 100644
--- a/context/context.go
+++ b/context/context.go
@@ -60,7 +60,7 @@ func Get[T any](ctx *Context, key string) (T, bool) {
 		switch v.Kind() {
 		case reflect.Map:
 			if v.Type().Key().Kind() == reflect.String {
-				if val := v.MapIndex(reflect.ValueOf(key)); val.IsValid() {
+				if val := v.MapIndex(reflect.ValueOf(key).Convert(v.Type().Key())); val.IsValid() {
 					if typed, ok := val.Interface().(T); ok {
 						return typed, true
 					}
@@ -68,7 +68,7 @@ func Get[T any](ctx *Context, key string) (T, bool) {
 			}
 		case reflect.Struct:
 			if f, ok := v.Type().FieldByName(key); ok {
-				if val := v.FieldByIndex(f.Index); val.IsValid() {
+				if val, err := v.FieldByIndexErr(f.Index); err == nil && val.CanInterface() {
 					if typed, ok := val.Interface().(T); ok {
 						return typed, true
 					}
-- 
2.43.0


From 41221b739f475d2d566ba2c6dfb2a380fbacd6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 09/29] fix: css units overwrote the caller's slice

Appending the unit to a variadic slice with spare capacity wrote into the
caller's backing array.
---
 css/units.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/css/units.go b/css/units.go
index f7d4c47..936323b 100644
--- a/css/units.go
+++ b/css/units.go
@@ -22,75 +22,75 @@ var (
 
 // Px creates a value with "px" (pixels)
 func Px(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPx)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitPx)...)
 }
 
 // Pt creates a value with "pt" (points)
 func Pt(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPt)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitPt)...)
 }
 
 // Pc creates a value with "pc" (picas)
 func Pc(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPc)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitPc)...)
 }
 
 // In creates a value with "in" (inches)
 func In(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitInch)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitInch)...)
 }
 
 // Cm creates a value with "cm" (centimeters)
 func Cm(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitCm)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitCm)...)
 }
 
 // Mm creates a value with "mm" (millimeters)
 func Mm(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitMm)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitMm)...)
 }
 
 // Em creates a value with "em" (relative to parent font size)
 func Em(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitEm)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitEm)...)
 }
 
 // Rem creates a value with "rem" (relative to root font size)
 func Rem(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitRem)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitRem)...)
 }
 
 // Percent creates a value with "%" (unitPercent)
 func Percent(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPercent)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitPercent)...)
 }
 
 // Vw creates a value with "vw" (viewport width)
 func Vw(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVw)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitVw)...)
 }
 
 // Vh creates a value with "vh" (viewport height)
 func Vh(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVh)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitVh)...)
 }
 
 // VMin creates a value with "vmin" (smaller of vw or vh)
 func VMin(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVmin)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitVmin)...)
 }
 
 // VMax creates a value with "vmax" (larger of vw or vh)
 func VMax(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVmax)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitVmax)...)
 }
 
 // Ch creates a value with "ch" (width of 0 glyph)
 func Ch(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitCh)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitCh)...)
 }
 
 // Ex creates a value with "ex" (x-height of current font)
 func Ex(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitEx)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitEx)...)
 }
-- 
2.43.0


From 0cbf856e6bcf47327daebe5394f303064e7f895e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 10/29] fix: the text of a fmt.Stringer was not escaped

A Stringer (e.g. *url.URL) holding quotes, ampersands or angle brackets
ended the attribute or element it was written in; only []byte is raw.
---
 value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.go b/value.go
index 5ca4bec..cfa83c9 100644
--- a/value.go
+++ b/value.go
@@ -163,7 +163,7 @@ func valueToBytes(v any) []byte {
 	case float64:
 		return []byte(strconv.FormatFloat(vt, 'g', -1, 64))
 	case fmt.Stringer:
-		return []byte(vt.String())
+		return htmlEscapeString(vt.String())
 	case func() any:
 		return valueToBytes(vt())
 	}
-- 
2.43.0


From 05a0ea212d273490e118e487d0959821a22c1140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 11/29] fix: attributes inside a conditional were applied out
 of order

Direct attributes of a conditional were taken before those of collections
and conditionals declared ahead of them, so the last one did not win.
---
 conditional.go | 2 ++
 element.go     | 8 +-------
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/conditional.go b/conditional.go
index e4257b9..6e06903 100644
--- a/conditional.go
+++ b/conditional.go
@@ -10,6 +10,7 @@ type ConditionalFunc func(ctx *context.Context) bool
 type conditional struct {
 	nodes      []Node
 	attributes []Node
+	declared   []Node
 	fn         ConditionalFunc
 }
 
@@ -75,6 +76,7 @@ func Conditional(fn ConditionalFunc, nodes ...Node) Node {
 		if n == nil {
 			continue
 		}
+		result.declared = append(result.declared, n)
 		if n.Type() == AttributeNode {
 			result.attributes = append(result.attributes, n)
 		} else {
diff --git a/element.go b/element.go
index 0152ffa..0474f93 100644
--- a/element.go
+++ b/element.go
@@ -259,13 +259,7 @@ func attributesAndContents(conditions []ConditionalFunc, content []Node) (attrs
 					condAttrs = append(condAttrs, addCa...)
 				case *conditional:
 					newConditions := append(conditions[:len(conditions):len(conditions)], cn.fn)
-					for _, a := range cn.attributes {
-						condAttrs = append(condAttrs, conditionalAttribute{
-							attribute:  a,
-							conditions: newConditions,
-						})
-					}
-					_, addCa, _ := attributesAndContents(newConditions, cn.nodes)
+					_, addCa, _ := attributesAndContents(newConditions, cn.declared)
 					condAttrs = append(condAttrs, addCa...)
 				}
 			}
-- 
2.43.0


From 9647edd38003d48413ec59a0a735588d5f233ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 12/29] fix: htmx header names were not fully escaped

Only the quote was, so a name with an ampersand was read back as another.
---
 htmx/attributes.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/htmx/attributes.go b/htmx/attributes.go
index d6612c5..32336f9 100644
--- a/htmx/attributes.go
+++ b/htmx/attributes.go
@@ -3,7 +3,6 @@ package htmx
 import (
 	"github.com/go-andiamo/aitch"
 	"sort"
-	"strings"
 )
 
 // Get declares an "hx-get" attribute for issuing a GET request via htmx
@@ -313,7 +312,7 @@ func HeadersJS(value ...HeadersMap) aitch.Node {
 type HeadersMap map[string]any
 
 func (m HeadersMap) serialize(prefix []byte) []any {
-	result := make([]any, 0, (len(m)*2)+3)
+	result := make([]any, 0, (len(m)*4)+3)
 	if len(prefix) > 0 {
 		result = append(result, prefix)
 	}
@@ -325,7 +324,7 @@ func (m HeadersMap) serialize(prefix []byte) []any {
 	sort.Strings(keys)
 	delimit := ""
 	for _, key := range keys {
-		result = append(result, []byte(delimit+`'`+strings.ReplaceAll(key, `"`, `&quot;`)+`': `), m[key])
+		result = append(result, []byte(delimit+`'`), key, []byte(`': `), m[key])
 		delimit = ", "
 	}
 	result = append(result, []byte{'}'})
-- 
2.43.0


From 239e01168c74d4121c442bbfcb2d01249f262e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 13/29] fix: svg.Class values were not merged

Repeated classes replaced each other and several values ran together,
unlike html.Class and svg.Style and what the README promises.
---
 svg/attributes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svg/attributes.go b/svg/attributes.go
index 72511d0..3ce53a3 100644
--- a/svg/attributes.go
+++ b/svg/attributes.go
@@ -48,8 +48,10 @@ func CalcMode(value ...any) aitch.Node {
 }
 
 // Class declares an SVG "class" attribute
+//
+// Use multiple Class() declarations on a single element - the values are joined into one "class" attribute delimited with " "
 func Class(value ...any) aitch.Node {
-	return aitch.NewAttribute(attrClass, value...)
+	return aitch.NewDelimitedAttribute(attrClass, classDelim, value...)
 }
 
 // Clip declares an SVG "clip" attribute
@@ -720,6 +722,7 @@ func Y2(value ...any) aitch.Node {
 }
 
 var (
+	classDelim                     = []byte{' '}
 	stylesDelim                    = []byte{';', ' '}
 	attrAccumulate                 = []byte("accumulate")
 	attrAdditive                   = []byte("additive")
-- 
2.43.0


From 73952afaad626807c983019cd934c41051de49c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 14/29] fix: Element gave upper-case void elements an end tag

HTML names are case-insensitive: <BR></BR> is read as two line breaks.
---
 element.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/element.go b/element.go
index 0474f93..4aba5fc 100644
--- a/element.go
+++ b/element.go
@@ -2,6 +2,7 @@ package aitch
 
 import (
 	"github.com/go-andiamo/aitch/context"
+	"strings"
 )
 
 func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[string]int, conditionals conditionalAttributes) {
@@ -188,7 +189,7 @@ func Element(name string, contents ...any) Node {
 		}
 		return nil
 	}
-	if _, void := voidElementNames[name]; void {
+	if _, void := voidElementNames[strings.ToLower(name)]; void {
 		return NewVoidElement([]byte(name), contents...)
 	}
 	return NewElement([]byte(name), contents...)
-- 
2.43.0


From cc2d621d5803e52ecfa75db6d9a9f75ca9de31ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 15/29] fix: imperative Start could write into a shared
 attribute's values

Merging a delimited attribute into a plain one of the same name appended
to the plain attribute node's own slice, shared by concurrent renders.
---
 imperative.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imperative.go b/imperative.go
index fc331d1..394e3cc 100644
--- a/imperative.go
+++ b/imperative.go
@@ -89,7 +89,7 @@ func (ic *imperativeContext) Start(elementName []byte, isVoid bool, attrs ...Nod
 		if attr != nil && attr.Type() == AttributeNode {
 			if idx, ok := attIndices[attr.Name()]; ok {
 				if da, ok := attr.(*delimitedAttribute); ok {
-					avs := attValues[idx]
+					avs := attValues[idx][:len(attValues[idx]):len(attValues[idx])]
 					for _, dv := range da.values {
 						if len(avs) > 0 {
 							avs = append(avs, Value{value: da.delimiter})
-- 
2.43.0


From 1e83882f935bb5e3b09adb91e8a6e8df95284814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 16/29] fix: GenerateCode lost write errors

---
 html/generator.go | 17 +++++++++++++++++
 svg/generator.go  | 17 +++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/html/generator.go b/html/generator.go
index ea0701f..2462036 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -14,6 +14,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	if w == nil {
 		w = os.Stdout
 	}
+	w = &stickyWriter{w: w}
 	elemMap, attrMap, boolAttrs := mappings()
 	tokenizer := html.NewTokenizer(r)
 	indent := []byte{}
@@ -137,6 +138,22 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	return err
 }
 
+// stickyWriter writes nothing more after the first error, and keeps returning that error
+type stickyWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (s *stickyWriter) Write(p []byte) (n int, err error) {
+	if s.err != nil {
+		return 0, s.err
+	}
+	if n, s.err = s.w.Write(p); s.err == nil && n < len(p) {
+		s.err = io.ErrShortWrite
+	}
+	return n, s.err
+}
+
 func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[string]bool) {
 	elems = map[string]any{
 		"a":          A,
diff --git a/svg/generator.go b/svg/generator.go
index e5bfdfe..ae18f72 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -14,6 +14,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	if w == nil {
 		w = os.Stdout
 	}
+	w = &stickyWriter{w: w}
 	elemMap, attrMap := mappings()
 	tokenizer := html.NewTokenizer(r)
 	indent := []byte{}
@@ -129,6 +130,22 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	return err
 }
 
+// stickyWriter writes nothing more after the first error, and keeps returning that error
+type stickyWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (s *stickyWriter) Write(p []byte) (n int, err error) {
+	if s.err != nil {
+		return 0, s.err
+	}
+	if n, s.err = s.w.Write(p); s.err == nil && n < len(p) {
+		s.err = io.ErrShortWrite
+	}
+	return n, s.err
+}
+
 func mappings() (elems map[string]any, attrs map[string]any) {
 	elems = map[string]any{
 		"altGlyph":            AltGlyph,
-- 
2.43.0


From 0662f03ceb5700e1943bb7ce7eb07efbedae45df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 17/29] fix: GenerateCode wrote invalid Go for some text and
 names

---
 html/generator.go | 11 +++++------
 svg/generator.go  | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index 2462036..87a6059 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"reflect"
 	"runtime"
+	"strconv"
 	"strings"
 )
 
@@ -49,17 +50,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 	}
 	escape := func(s string) string {
-		return strings.Replace(
-			strings.Replace(
-				strings.Replace(strings.Replace(s, "\\", `\\`, -1), "\t", `\t`, -1), "\n", `\n`, -1),
-			`"`, `\"`, -1)
+		quoted := strconv.Quote(s)
+		return quoted[1 : len(quoted)-1]
 	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
 			start = funcName(elem) + "("
 		} else {
-			start = `aitch.Element("` + string(name) + `", `
+			start = `aitch.Element("` + escape(name) + `", `
 		}
 		_, err = w.Write(indent)
 		_, err = w.Write([]byte(start))
@@ -83,7 +82,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 				}
 			} else {
 				_, err = w.Write([]byte(`aitch.Attribute("`))
-				_, err = w.Write([]byte(a.Key))
+				_, err = w.Write([]byte(escape(a.Key)))
 				_, err = w.Write([]byte{'"', ' ', ',', '"'})
 				_, err = w.Write([]byte(escape(a.Val)))
 				_, err = w.Write([]byte{'"', ')'})
diff --git a/svg/generator.go b/svg/generator.go
index ae18f72..9b3aa9f 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"reflect"
 	"runtime"
+	"strconv"
 	"strings"
 )
 
@@ -49,17 +50,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 	}
 	escape := func(s string) string {
-		return strings.Replace(
-			strings.Replace(
-				strings.Replace(strings.Replace(s, "\\", `\\`, -1), "\t", `\t`, -1), "\n", `\n`, -1),
-			`"`, `\"`, -1)
+		quoted := strconv.Quote(s)
+		return quoted[1 : len(quoted)-1]
 	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
 			start = funcName(elem) + "("
 		} else {
-			start = `aitch.Element("` + string(name) + `", `
+			start = `aitch.Element("` + escape(name) + `", `
 		}
 		_, err = w.Write(indent)
 		_, err = w.Write([]byte(start))
@@ -78,7 +77,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 				_, err = w.Write([]byte{'"', ')'})
 			} else {
 				_, err = w.Write([]byte(`aitch.Attribute("`))
-				_, err = w.Write([]byte(a.Key))
+				_, err = w.Write([]byte(escape(a.Key)))
 				_, err = w.Write([]byte{'"', ' ', ',', '"'})
 				_, err = w.Write([]byte(escape(a.Val)))
 				_, err = w.Write([]byte{'"', ')'})
-- 
2.43.0


From ea5dbd40f0d50d33155d86e804f5d3dec082bca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:51 +0000
Subject: [PATCH 18/29] fix: html.GenerateCode never closed void elements
 without a slash

---
 html/generator.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index 87a6059..87b0ab4 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -115,13 +115,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			}
 		case html.StartTagToken:
 			token := tokenizer.Token()
-			writeElementStart(token.Data, token.Attr, false)
+			writeElementStart(token.Data, token.Attr, voidElements[token.Data])
 		case html.SelfClosingTagToken:
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, true)
 		case html.EndTagToken:
-			decIndent()
-			write("),")
+			if token := tokenizer.Token(); !voidElements[token.Data] {
+				decIndent()
+				write("),")
+			}
 		case html.CommentToken:
 			token := tokenizer.Token()
 			write(`html.Comment("` + escape(token.Data) + `"),`)
@@ -137,6 +139,24 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	return err
 }
 
+// voidElements are the elements that have no content and no end tag (even without a self-closing slash)
+var voidElements = map[string]bool{
+	"area":   true,
+	"base":   true,
+	"br":     true,
+	"col":    true,
+	"embed":  true,
+	"hr":     true,
+	"img":    true,
+	"input":  true,
+	"link":   true,
+	"meta":   true,
+	"param":  true,
+	"source": true,
+	"track":  true,
+	"wbr":    true,
+}
+
 // stickyWriter writes nothing more after the first error, and keeps returning that error
 type stickyWriter struct {
 	w   io.Writer
-- 
2.43.0


From 8f8b67637bc28343cd29ef699bec5398ef117aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 19/29] fix: html.GenerateCode dropped the values of boolean
 attributes

---
 html/generator.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index 87b0ab4..4dda294 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -72,8 +72,12 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			}
 			if attr, ok := attrMap[strings.ToLower(a.Key)]; ok {
 				if boolAttrs[strings.ToLower(a.Key)] {
-					_, err = w.Write([]byte(funcName(attr)))
-					_, err = w.Write([]byte{'(', ')'})
+					if a.Val == "" || strings.EqualFold(a.Val, a.Key) {
+						_, err = w.Write([]byte(funcName(attr)))
+						_, err = w.Write([]byte{'(', ')'})
+					} else {
+						_, err = w.Write([]byte(`aitch.Attribute("` + escape(a.Key) + `", "` + escape(a.Val) + `")`))
+					}
 				} else {
 					_, err = w.Write([]byte(funcName(attr)))
 					_, err = w.Write([]byte{'(', '"'})
-- 
2.43.0


From 589ae52019be7c67aa4d2b4e6e22f06423e19c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 20/29] fix: html.GenerateCode escaped the text of scripts and
 styles

---
 html/generator.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/html/generator.go b/html/generator.go
index 4dda294..b40d25e 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -53,6 +53,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		quoted := strconv.Quote(s)
 		return quoted[1 : len(quoted)-1]
 	}
+	rawText := false
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
@@ -115,11 +116,17 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		case html.TextToken:
 			token := tokenizer.Token()
 			if strings.Trim(token.Data, " \n\t") != "" {
-				write(`html.Text("` + escape(token.Data) + `"),`)
+				if rawText {
+					write(`html.Text([]byte("` + escape(token.Data) + `")),`)
+				} else {
+					write(`html.Text("` + escape(token.Data) + `"),`)
+				}
 			}
 		case html.StartTagToken:
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, voidElements[token.Data])
+			rawText = rawTextElements[token.Data]
+			continue
 		case html.SelfClosingTagToken:
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, true)
@@ -135,6 +142,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			token := tokenizer.Token()
 			write(`html.PI("DOCTYPE", "` + escape(token.Data) + `"),`)
 		}
+		rawText = false
 	}
 	if err == nil {
 		decIndent()
@@ -161,6 +169,18 @@ var voidElements = map[string]bool{
 	"wbr":    true,
 }
 
+// rawTextElements are the elements whose text is neither escaped nor parsed as markup
+var rawTextElements = map[string]bool{
+	"iframe":    true,
+	"noembed":   true,
+	"noframes":  true,
+	"noscript":  true,
+	"plaintext": true,
+	"script":    true,
+	"style":     true,
+	"xmp":       true,
+}
+
 // stickyWriter writes nothing more after the first error, and keeps returning that error
 type stickyWriter struct {
 	w   io.Writer
-- 
2.43.0


From 8578a8de8b5226daa6b32207628cc7e7732e7ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 21/29] fix: html.GenerateCode escaped the quotes of a doctype

---
 html/generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/html/generator.go b/html/generator.go
index b40d25e..c01c77b 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -140,7 +140,11 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			write(`html.Comment("` + escape(token.Data) + `"),`)
 		case html.DoctypeToken:
 			token := tokenizer.Token()
-			write(`html.PI("DOCTYPE", "` + escape(token.Data) + `"),`)
+			if strings.ContainsAny(token.Data, `"'`) && !strings.ContainsAny(token.Data, "<>&") {
+				write(`html.PI("DOCTYPE", []byte("` + escape(token.Data) + `")),`)
+			} else {
+				write(`html.PI("DOCTYPE", "` + escape(token.Data) + `"),`)
+			}
 		}
 		rawText = false
 	}
-- 
2.43.0


From f59445c48d0eba571a1f691bfed12da6f7ea33db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 22/29] fix: svg.GenerateCode read title, style and script as
 raw text

---
 svg/generator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svg/generator.go b/svg/generator.go
index 9b3aa9f..ba3178a 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -109,9 +109,11 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 				write(`svg.Text("` + escape(token.Data) + `"),`)
 			}
 		case html.StartTagToken:
+			tokenizer.NextIsNotRawText()
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, false)
 		case html.SelfClosingTagToken:
+			tokenizer.NextIsNotRawText()
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, true)
 		case html.EndTagToken:
-- 
2.43.0


From b700fd56b0ead4e37b866758b9df34d815e1668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 23/29] fix: callbacks ran after an error and could replace it

---
 aitch.go       | 8 ++++++--
 conditional.go | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/aitch.go b/aitch.go
index 33d5fdb..78fa995 100644
--- a/aitch.go
+++ b/aitch.go
@@ -23,9 +23,13 @@ type Node interface {
 }
 
 // renderNode renders the node, keeping the first error of the rendering in Context.Error
+//
+// nothing is rendered once there is an error
 func renderNode(n Node, ctx *context.Context) {
-	if err := n.Render(ctx); ctx.Error == nil {
-		ctx.Error = err
+	if ctx.Error == nil {
+		if err := n.Render(ctx); ctx.Error == nil {
+			ctx.Error = err
+		}
 	}
 }
 
diff --git a/conditional.go b/conditional.go
index 6e06903..dcb9092 100644
--- a/conditional.go
+++ b/conditional.go
@@ -21,7 +21,7 @@ type conditionalAttribute struct {
 
 func (a conditionalAttribute) evaluate(ctx *context.Context) bool {
 	for _, condition := range a.conditions {
-		if !condition(ctx) {
+		if ctx.Error != nil || !condition(ctx) {
 			return false
 		}
 	}
-- 
2.43.0


From 626e8d0da0c1504c1916e1c12021f1b6ceab6f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:00 +0000
Subject: [PATCH 24/29] fix: html.GenerateCode lost the value of attributes
 named just "aria-" or "data-"

---
 html/generator.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index c01c77b..f56bc72 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -313,7 +313,6 @@ func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[strin
 		"action":              Action,
 		"allowfullscreen":     AllowFullScreen,
 		"alt":                 Alt,
-		"aria-":               Aria,
 		"aria-atomic":         AriaAtomic,
 		"aria-busy":           AriaBusy,
 		"aria-checked":        AriaChecked,
@@ -355,7 +354,6 @@ func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[strin
 		"contenteditable":     ContentEditable,
 		"controls":            Controls,
 		"crossorigin":         CrossOrigin,
-		"data-":               Data,
 		"datetime":            DateTime,
 		"default":             Default,
 		"defer":               Defer,
-- 
2.43.0


From a1cecdac1f1f862251a06cd9ff4e6c96e9c5d4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:19 +0000
Subject: [PATCH 25/29] fix: generated code lost elements and attributes whose
 names aitch.Element/Attribute reject

---
 html/generator.go | 17 +++++++++++++----
 svg/generator.go  | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index f56bc72..e2a3e72 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"reflect"
+	"regexp"
 	"runtime"
 	"strconv"
 	"strings"
@@ -54,12 +55,18 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		return quoted[1 : len(quoted)-1]
 	}
 	rawText := false
+	checked := func(kind string, name string) string {
+		if checkedName.MatchString(name) {
+			return `aitch.` + kind + `("` + escape(name) + `"`
+		}
+		return `aitch.New` + kind + `([]byte("` + escape(name) + `")`
+	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
 			start = funcName(elem) + "("
 		} else {
-			start = `aitch.Element("` + escape(name) + `", `
+			start = checked("Element", name) + `, `
 		}
 		_, err = w.Write(indent)
 		_, err = w.Write([]byte(start))
@@ -86,9 +93,8 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 					_, err = w.Write([]byte{'"', ')'})
 				}
 			} else {
-				_, err = w.Write([]byte(`aitch.Attribute("`))
-				_, err = w.Write([]byte(escape(a.Key)))
-				_, err = w.Write([]byte{'"', ' ', ',', '"'})
+				_, err = w.Write([]byte(checked("Attribute", a.Key)))
+				_, err = w.Write([]byte{' ', ',', '"'})
 				_, err = w.Write([]byte(escape(a.Val)))
 				_, err = w.Write([]byte{'"', ')'})
 			}
@@ -185,6 +191,9 @@ var rawTextElements = map[string]bool{
 	"xmp":       true,
 }
 
+// checkedName matches the names that aitch.Element and aitch.Attribute accept
+var checkedName = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9._\-:]*$`)
+
 // stickyWriter writes nothing more after the first error, and keeps returning that error
 type stickyWriter struct {
 	w   io.Writer
diff --git a/svg/generator.go b/svg/generator.go
index ba3178a..03daa5b 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"reflect"
+	"regexp"
 	"runtime"
 	"strconv"
 	"strings"
@@ -53,12 +54,18 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		quoted := strconv.Quote(s)
 		return quoted[1 : len(quoted)-1]
 	}
+	checked := func(kind string, name string) string {
+		if checkedName.MatchString(name) {
+			return `aitch.` + kind + `("` + escape(name) + `"`
+		}
+		return `aitch.New` + kind + `([]byte("` + escape(name) + `")`
+	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
 			start = funcName(elem) + "("
 		} else {
-			start = `aitch.Element("` + escape(name) + `", `
+			start = checked("Element", name) + `, `
 		}
 		_, err = w.Write(indent)
 		_, err = w.Write([]byte(start))
@@ -76,9 +83,8 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 				_, err = w.Write([]byte(escape(a.Val)))
 				_, err = w.Write([]byte{'"', ')'})
 			} else {
-				_, err = w.Write([]byte(`aitch.Attribute("`))
-				_, err = w.Write([]byte(escape(a.Key)))
-				_, err = w.Write([]byte{'"', ' ', ',', '"'})
+				_, err = w.Write([]byte(checked("Attribute", a.Key)))
+				_, err = w.Write([]byte{' ', ',', '"'})
 				_, err = w.Write([]byte(escape(a.Val)))
 				_, err = w.Write([]byte{'"', ')'})
 			}
@@ -131,6 +137,9 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	return err
 }
 
+// checkedName matches the names that aitch.Element and aitch.Attribute accept
+var checkedName = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9._\-:]*$`)
+
 // stickyWriter writes nothing more after the first error, and keeps returning that error
 type stickyWriter struct {
 	w   io.Writer
-- 
2.43.0


From 12fd9ab377b0568d6dd8ae51782eb76bce5cbfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:42 +0000
Subject: [PATCH 26/29] fix: svg.GenerateCode turned CDATA sections into
 comments

---
 svg/generator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/svg/generator.go b/svg/generator.go
index 03daa5b..0365f18 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -19,6 +19,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	w = &stickyWriter{w: w}
 	elemMap, attrMap := mappings()
 	tokenizer := html.NewTokenizer(r)
+	tokenizer.AllowCDATA(true)
 	indent := []byte{}
 	eof := false
 	var err error
@@ -110,7 +111,12 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 				err = nil
 			}
 		case html.TextToken:
+			raw := string(tokenizer.Raw())
 			token := tokenizer.Token()
+			if strings.HasPrefix(raw, "<![CDATA[") {
+				// entities are not resolved in CDATA sections
+				token.Data = strings.TrimSuffix(raw[len("<![CDATA["):], "]]>")
+			}
 			if strings.Trim(token.Data, " \n\t") != "" {
 				write(`svg.Text("` + escape(token.Data) + `"),`)
 			}
-- 
2.43.0


From 96f13eb16fcf2f4923cf77475304128f6a88d476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:44 +0000
Subject: [PATCH 27/29] fix: svg.GenerateCode lost the content of elements
 named like HTML void elements

---
 svg/generator.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/svg/generator.go b/svg/generator.go
index 0365f18..b9c1d12 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -55,8 +55,8 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		quoted := strconv.Quote(s)
 		return quoted[1 : len(quoted)-1]
 	}
-	checked := func(kind string, name string) string {
-		if checkedName.MatchString(name) {
+	checked := func(kind string, name string, endTag bool) string {
+		if checkedName.MatchString(name) && !(endTag && htmlVoidElements[name]) {
 			return `aitch.` + kind + `("` + escape(name) + `"`
 		}
 		return `aitch.New` + kind + `([]byte("` + escape(name) + `")`
@@ -66,7 +66,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
 			start = funcName(elem) + "("
 		} else {
-			start = checked("Element", name) + `, `
+			start = checked("Element", name, !selfClosing) + `, `
 		}
 		_, err = w.Write(indent)
 		_, err = w.Write([]byte(start))
@@ -84,7 +84,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 				_, err = w.Write([]byte(escape(a.Val)))
 				_, err = w.Write([]byte{'"', ')'})
 			} else {
-				_, err = w.Write([]byte(checked("Attribute", a.Key)))
+				_, err = w.Write([]byte(checked("Attribute", a.Key, false)))
 				_, err = w.Write([]byte{' ', ',', '"'})
 				_, err = w.Write([]byte(escape(a.Val)))
 				_, err = w.Write([]byte{'"', ')'})
@@ -143,6 +143,24 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	return err
 }
 
+// htmlVoidElements are the elements that aitch.Element gives neither content nor end tag
+var htmlVoidElements = map[string]bool{
+	"area":   true,
+	"base":   true,
+	"br":     true,
+	"col":    true,
+	"embed":  true,
+	"hr":     true,
+	"img":    true,
+	"input":  true,
+	"link":   true,
+	"meta":   true,
+	"param":  true,
+	"source": true,
+	"track":  true,
+	"wbr":    true,
+}
+
 // checkedName matches the names that aitch.Element and aitch.Attribute accept
 var checkedName = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9._\-:]*$`)
 
-- 
2.43.0


From 16b22ec7b144f5d126ba9b42d30cb76d44eba9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 28/29] fix: errors a custom node records while rendered as a
 template marker were lost

---
 template.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/template.go b/template.go
index f75e7fe..5816b57 100644
--- a/template.go
+++ b/template.go
@@ -66,13 +66,13 @@ func contextFuncMap(nodeMap NodeMap) template.FuncMap {
 func contextFunc(node Node) any {
 	if node.Type() == AttributeNode {
 		return func(ctx *context.Context) (template.HTMLAttr, error) {
-			err := node.Render(ctx)
-			return "", err
+			renderNode(node, ctx)
+			return "", ctx.Error
 		}
 	} else {
 		return func(ctx *context.Context) (template.HTML, error) {
-			err := node.Render(ctx)
-			return "", err
+			renderNode(node, ctx)
+			return "", ctx.Error
 		}
 	}
 }
-- 
2.43.0


From f8934517d8157c828e79d106ceb5cf047ad435e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 29/29] fix: render application-defined attribute nodes given
 to imperative Start

Only their names were written, as if they were boolean attributes.
---
 imperative.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/imperative.go b/imperative.go
index 394e3cc..c332c2a 100644
--- a/imperative.go
+++ b/imperative.go
@@ -84,10 +84,12 @@ func (ic *imperativeContext) Start(elementName []byte, isVoid bool, attrs ...Nod
 	ic.ctx.Write(elementName)
 	attValues := make([][]Value, 0, len(attrs))
 	attNames := make([][]byte, 0, len(attrs))
+	attNodes := make([]Node, 0, len(attrs))
 	attIndices := map[string]int{}
 	for _, attr := range attrs {
 		if attr != nil && attr.Type() == AttributeNode {
 			if idx, ok := attIndices[attr.Name()]; ok {
+				attNodes[idx] = attr
 				if da, ok := attr.(*delimitedAttribute); ok {
 					avs := attValues[idx][:len(attValues[idx]):len(attValues[idx])]
 					for _, dv := range da.values {
@@ -105,6 +107,7 @@ func (ic *imperativeContext) Start(elementName []byte, isVoid bool, attrs ...Nod
 			} else {
 				attIndices[attr.Name()] = len(attNames)
 				attNames = append(attNames, []byte(attr.Name()))
+				attNodes = append(attNodes, attr)
 				if da, ok := attr.(*delimitedAttribute); ok {
 					avs := make([]Value, 0, len(da.values)*2)
 					for i, v := range da.values {
@@ -123,6 +126,12 @@ func (ic *imperativeContext) Start(elementName []byte, isVoid bool, attrs ...Nod
 		}
 	}
 	for a, attName := range attNames {
+		switch attNodes[a].(type) {
+		case valuesNode, *booleanAttribute:
+		default:
+			renderNode(attNodes[a], ic.ctx)
+			continue
+		}
 		ic.ctx.Write(space)
 		ic.ctx.Write(attName)
 		if vs := attValues[a]; vs != nil {
-- 
2.43.0

