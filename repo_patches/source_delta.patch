From 918ce3dbaf264f80defac2859e83eb6fef1bb11c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 01/86] fix: include map keys in low model hashes so renamed
 entries are seen as changes

---
 datamodel/low/base/discriminator.go |  4 +++-
 datamodel/low/v2/examples.go        |  4 +++-
 datamodel/low/v2/paths.go           |  4 +++-
 datamodel/low/v2/response.go        |  4 +++-
 datamodel/low/v3/callback.go        |  4 +++-
 datamodel/low/v3/components.go      |  4 +++-
 datamodel/low/v3/link.go            |  4 +++-
 datamodel/low/v3/media_type.go      | 12 +++++++++---
 datamodel/low/v3/operation.go       |  4 +++-
 datamodel/low/v3/parameter.go       |  8 ++++++--
 datamodel/low/v3/request_body.go    |  4 +++-
 datamodel/low/v3/server.go          |  4 +++-
 12 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/datamodel/low/base/discriminator.go b/datamodel/low/base/discriminator.go
index 936af14..d3cfacb 100644
--- a/datamodel/low/base/discriminator.go
+++ b/datamodel/low/base/discriminator.go
@@ -122,7 +122,9 @@ func (d *Discriminator) Hash() uint64 {
 			h.WriteString(d.PropertyName.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(d.Mapping.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(d.Mapping.Value).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(v.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v2/examples.go b/datamodel/low/v2/examples.go
index 6e18c58..dae38cb 100644
--- a/datamodel/low/v2/examples.go
+++ b/datamodel/low/v2/examples.go
@@ -56,7 +56,9 @@ func (e *Examples) Build(_ context.Context, _, root *yaml.Node, _ *index.SpecInd
 // Hash will return a consistent Hash of the Examples object
 func (e *Examples) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
-		for v := range orderedmap.SortAlpha(e.Values).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(e.Values).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v2/paths.go b/datamodel/low/v2/paths.go
index b484635..e5a8004 100644
--- a/datamodel/low/v2/paths.go
+++ b/datamodel/low/v2/paths.go
@@ -156,7 +156,9 @@ func (p *Paths) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecIn
 // Hash will return a consistent Hash of the Paths object
 func (p *Paths) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
-		for v := range orderedmap.SortAlpha(p.PathItems).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(p.PathItems).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v2/response.go b/datamodel/low/v2/response.go
index a5bf463..62abcf8 100644
--- a/datamodel/low/v2/response.go
+++ b/datamodel/low/v2/response.go
@@ -89,7 +89,9 @@ func (r *Response) Hash() uint64 {
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !r.Examples.IsEmpty() {
-			for v := range orderedmap.SortAlpha(r.Examples.Value.Values).ValuesFromOldest() {
+			for k, v := range orderedmap.SortAlpha(r.Examples.Value.Values).FromOldest() {
+				h.WriteString(k.Value)
+				h.WriteByte('-')
 				h.WriteString(low.GenerateHashString(v.Value))
 				h.WriteByte(low.HASH_PIPE)
 			}
diff --git a/datamodel/low/v3/callback.go b/datamodel/low/v3/callback.go
index 1642b37..c42bb4c 100644
--- a/datamodel/low/v3/callback.go
+++ b/datamodel/low/v3/callback.go
@@ -104,7 +104,9 @@ func (cb *Callback) Build(ctx context.Context, keyNode, root *yaml.Node, idx *in
 // Hash will return a consistent Hash of the Callback object
 func (cb *Callback) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
-		for v := range orderedmap.SortAlpha(cb.Expression).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(cb.Expression).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/components.go b/datamodel/low/v3/components.go
index ce6dbdb..667156c 100644
--- a/datamodel/low/v3/components.go
+++ b/datamodel/low/v3/components.go
@@ -107,7 +107,9 @@ func (co *Components) Hash() uint64 {
 }
 
 func generateHashForObjectMap[T any](collection *orderedmap.Map[low.KeyReference[string], low.ValueReference[T]], h *maphash.Hash) {
-	for v := range orderedmap.SortAlpha(collection).ValuesFromOldest() {
+	for k, v := range orderedmap.SortAlpha(collection).FromOldest() {
+		h.WriteString(k.Value)
+		h.WriteByte('-')
 		h.WriteString(low.GenerateHashString(v.Value))
 		h.WriteByte(low.HASH_PIPE)
 	}
diff --git a/datamodel/low/v3/link.go b/datamodel/low/v3/link.go
index 5e262c9..0319b33 100644
--- a/datamodel/low/v3/link.go
+++ b/datamodel/low/v3/link.go
@@ -142,7 +142,9 @@ func (l *Link) Hash() uint64 {
 			h.WriteString(low.GenerateHashString(l.Server.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(l.Parameters.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(l.Parameters.Value).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(v.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/media_type.go b/datamodel/low/v3/media_type.go
index 122e027..dbd2b0f 100644
--- a/datamodel/low/v3/media_type.go
+++ b/datamodel/low/v3/media_type.go
@@ -205,15 +205,21 @@ func (mt *MediaType) Hash() uint64 {
 			h.WriteString(low.GenerateHashString(mt.Example.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(mt.Examples.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(mt.Examples.Value).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(mt.Encoding.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(mt.Encoding.Value).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(mt.ItemEncoding.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(mt.ItemEncoding.Value).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/operation.go b/datamodel/low/v3/operation.go
index e54657d..8d6fa35 100644
--- a/datamodel/low/v3/operation.go
+++ b/datamodel/low/v3/operation.go
@@ -290,7 +290,9 @@ func (o *Operation) Hash() uint64 {
 		}
 
 		// Callbacks
-		for v := range orderedmap.SortAlpha(o.Callbacks.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(o.Callbacks.Value).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/parameter.go b/datamodel/low/v3/parameter.go
index 8cf942e..0912a7d 100644
--- a/datamodel/low/v3/parameter.go
+++ b/datamodel/low/v3/parameter.go
@@ -201,11 +201,15 @@ func (p *Parameter) Hash() uint64 {
 			h.WriteString(low.GenerateHashString(p.Example.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(p.Examples.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(p.Examples.Value).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(p.Content.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(p.Content.Value).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/request_body.go b/datamodel/low/v3/request_body.go
index 344822e..9c41534 100644
--- a/datamodel/low/v3/request_body.go
+++ b/datamodel/low/v3/request_body.go
@@ -121,7 +121,9 @@ func (rb *RequestBody) Hash() uint64 {
 			low.HashBool(h, rb.Required.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(rb.Content.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(rb.Content.Value).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/server.go b/datamodel/low/v3/server.go
index 0c7dc14..5379cb0 100644
--- a/datamodel/low/v3/server.go
+++ b/datamodel/low/v3/server.go
@@ -121,7 +121,9 @@ func (s *Server) Hash() uint64 {
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if s.Variables.Value != nil {
-			for v := range orderedmap.SortAlpha(s.Variables.Value).ValuesFromOldest() {
+			for k, v := range orderedmap.SortAlpha(s.Variables.Value).FromOldest() {
+				h.WriteString(k.Value)
+				h.WriteByte('-')
 				h.WriteString(low.GenerateHashString(v.Value))
 				h.WriteByte(low.HASH_PIPE)
 			}
-- 
2.43.0


From 82e9b0e65598f40e73696e215be322757c890758 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 02/86] fix: include headers in the hash of a v2 response

---
 datamodel/low/v2/response.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/datamodel/low/v2/response.go b/datamodel/low/v2/response.go
index 62abcf8..beccb58 100644
--- a/datamodel/low/v2/response.go
+++ b/datamodel/low/v2/response.go
@@ -96,6 +96,14 @@ func (r *Response) Hash() uint64 {
 				h.WriteByte(low.HASH_PIPE)
 			}
 		}
+		if !r.Headers.IsEmpty() {
+			for k, v := range orderedmap.SortAlpha(r.Headers.Value).FromOldest() {
+				h.WriteString(k.Value)
+				h.WriteByte('-')
+				h.WriteString(low.GenerateHashString(v.Value))
+				h.WriteByte(low.HASH_PIPE)
+			}
+		}
 		for _, ext := range low.HashExtensions(r.Extensions) {
 			h.WriteString(ext)
 			h.WriteByte(low.HASH_PIPE)
-- 
2.43.0


From e50ce7287abcf7556bd4299d10009f73202c2eaa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 03/86] fix: report added and removed server variables

---
 what-changed/model/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/what-changed/model/server.go b/what-changed/model/server.go
index 86914a0..c50e160 100644
--- a/what-changed/model/server.go
+++ b/what-changed/model/server.go
@@ -79,9 +79,9 @@ func CompareServers(l, r *v3.Server) *ServerChanges {
 
 	CheckProperties(props)
 	sc := new(ServerChanges)
-	sc.PropertyChanges = NewPropertyChanges(changes)
 	sc.ServerVariableChanges = CheckMapForChanges(l.Variables.Value, r.Variables.Value,
 		&changes, v3.VariablesLabel, CompareServerVariables)
+	sc.PropertyChanges = NewPropertyChanges(changes)
 
 	sc.ExtensionChanges = CompareExtensions(l.Extensions, r.Extensions)
 	sc.Server = r
-- 
2.43.0


From 032bff4010a7bf4eed6f3c7c4e0a45f95c6142e9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 04/86] fix: include definition names in the hash of v2
 definitions

---
 datamodel/low/v2/definitions.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datamodel/low/v2/definitions.go b/datamodel/low/v2/definitions.go
index cbc6156..8b26ad7 100644
--- a/datamodel/low/v2/definitions.go
+++ b/datamodel/low/v2/definitions.go
@@ -158,6 +158,8 @@ func (d *Definitions) Build(ctx context.Context, _, root *yaml.Node, idx *index.
 func (d *Definitions) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		for k := range orderedmap.SortAlpha(d.Schemas).KeysFromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte('-')
 			h.WriteString(low.GenerateHashString(d.FindSchema(k.Value).Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-- 
2.43.0


From c815b306c7b54f21fb9bba8bfbdaec6f301f97aa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 05/86] fix: report the values of added v2 examples, and the
 examples (not the schema) of v2 responses

---
 what-changed/model/examples.go | 6 +++---
 what-changed/model/response.go | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/what-changed/model/examples.go b/what-changed/model/examples.go
index c271c27..fa67b28 100644
--- a/what-changed/model/examples.go
+++ b/what-changed/model/examples.go
@@ -68,7 +68,7 @@ func CompareExamplesV2(l, r *v2.Examples) *ExamplesChanges {
 		}
 		CreateChange(&changes, Modified, k,
 			lValues[k].GetValueNode(), rValues[k].GetValueNode(), false,
-			lValues[k].GetValue(), lValues[k].GetValue())
+			lValues[k].GetValue(), rValues[k].GetValue())
 
 	}
 
@@ -77,8 +77,8 @@ func CompareExamplesV2(l, r *v2.Examples) *ExamplesChanges {
 		lhash := lHashes[k]
 		if lhash == "" {
 			CreateChange(&changes, ObjectAdded, k,
-				nil, lValues[k].GetValueNode(), false,
-				nil, lValues[k].GetValue())
+				nil, rValues[k].GetValueNode(), false,
+				nil, rValues[k].GetValue())
 			continue
 		}
 	}
diff --git a/what-changed/model/response.go b/what-changed/model/response.go
index dab97c3..e47550d 100644
--- a/what-changed/model/response.go
+++ b/what-changed/model/response.go
@@ -160,13 +160,13 @@ func CompareResponse(l, r any) *ResponseChanges {
 		}
 		if !lResponse.Examples.IsEmpty() && rResponse.Examples.IsEmpty() {
 			CreateChange(&changes, PropertyRemoved, v3.ExamplesLabel,
-				lResponse.Schema.ValueNode, nil, BreakingRemoved(CompResponse, PropExamples),
-				lResponse.Schema.Value, nil)
+				lResponse.Examples.ValueNode, nil, BreakingRemoved(CompResponse, PropExamples),
+				lResponse.Examples.Value, nil)
 		}
 		if lResponse.Examples.IsEmpty() && !rResponse.Examples.IsEmpty() {
 			CreateChange(&changes, ObjectAdded, v3.ExamplesLabel,
-				nil, rResponse.Schema.ValueNode, BreakingAdded(CompResponse, PropExamples),
-				nil, lResponse.Schema.Value)
+				nil, rResponse.Examples.ValueNode, BreakingAdded(CompResponse, PropExamples),
+				nil, rResponse.Examples.Value)
 		}
 
 		rc.ExtensionChanges = CompareExtensions(lResponse.Extensions, rResponse.Extensions)
-- 
2.43.0


From 5eb578d0e62b8096d628a9dbb9355ff7c2ae33ef Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 06/86] fix: label the removal of v2 header items as items

---
 what-changed/model/header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/what-changed/model/header.go b/what-changed/model/header.go
index c59a5a1..558ce31 100644
--- a/what-changed/model/header.go
+++ b/what-changed/model/header.go
@@ -260,7 +260,7 @@ func CompareHeaders(l, r any) *HeaderChanges {
 				rHeader.Items.ValueNode, BreakingAdded(CompHeader, PropItems), nil, rHeader.Items.Value)
 		}
 		if !lHeader.Items.IsEmpty() && rHeader.Items.IsEmpty() {
-			CreateChange(&changes, ObjectRemoved, v3.SchemaLabel, lHeader.Items.ValueNode,
+			CreateChange(&changes, ObjectRemoved, v3.ItemsLabel, lHeader.Items.ValueNode,
 				nil, BreakingRemoved(CompHeader, PropItems), lHeader.Items.Value, nil)
 		}
 		hc.ExtensionChanges = CompareExtensions(lHeader.Extensions, rHeader.Extensions)
-- 
2.43.0


From f20ad1b769dd420627af2d36da80d45cc9ea3fae Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 07/86] fix: report a removed schema property at its original
 position

---
 what-changed/model/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index 77a497b..ab60e16 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -747,7 +747,7 @@ func buildProperty(lProps, rProps []string, lEntities, rEntities map[string]*bas
 				go checkProperty(propName, lEntities[propName], rEntities[propName])
 			} else {
 				CreateChange(changes, ObjectRemoved, v3.PropertiesLabel,
-					nil, lKeyNodes[propName], BreakingRemoved(CompSchema, PropProperties), lEntities[propName], nil)
+					lKeyNodes[propName], nil, BreakingRemoved(CompSchema, PropProperties), lEntities[propName], nil)
 			}
 		}
 	}
-- 
2.43.0


From de80f69c9d79ce0603be1c16e967f90d030efdc0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 08/86] fix: do not dereference a missing right schema when
 comparing else

---
 what-changed/model/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index ab60e16..daabd5d 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -1473,7 +1473,7 @@ func checkSchemaPropertyChanges(
 			lSchema.If.ValueNode, nil, BreakingRemoved(CompSchema, PropIf), lSchema.If.Value, nil)
 	}
 	// Else
-	if (lSchema != nil && lSchema.Else.Value != nil) && (rSchema == nil || rSchema.Else.Value != nil) {
+	if (lSchema != nil && lSchema.Else.Value != nil) && (rSchema != nil && rSchema.Else.Value != nil) {
 		if !low.AreEqual(lSchema.Else.Value, rSchema.Else.Value) {
 			sc.ElseChanges = CompareSchemas(lSchema.Else.Value, rSchema.Else.Value)
 		}
-- 
2.43.0


From 4734ed4e65154bfae29a6497ba16cd19acb5a223 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 09/86] fix: compare the default of v2 headers and items

---
 what-changed/model/header.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/what-changed/model/header.go b/what-changed/model/header.go
index 558ce31..3fc8e65 100644
--- a/what-changed/model/header.go
+++ b/what-changed/model/header.go
@@ -197,6 +197,10 @@ func addSwaggerHeaderProperties(left, right low.SwaggerHeader, changes *[]*Chang
 	addPropertyCheck(&props, left.GetMultipleOf().ValueNode, right.GetMultipleOf().ValueNode,
 		left.GetMultipleOf(), right.GetMultipleOf(), changes, v3.MultipleOfLabel, true, CompHeader, PropMultipleOf)
 
+	// default
+	addPropertyCheck(&props, left.GetDefault().ValueNode, right.GetDefault().ValueNode,
+		left.GetDefault(), right.GetDefault(), changes, v3.DefaultLabel, true, CompHeader, PropDefault)
+
 	return props
 }
 
-- 
2.43.0


From e8fd53a30dbc48386b61d636fba15409632a6e8a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 10/86] fix: compare the enum of v2 items

---
 what-changed/model/items.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/what-changed/model/items.go b/what-changed/model/items.go
index 04b0161..b56e351 100644
--- a/what-changed/model/items.go
+++ b/what-changed/model/items.go
@@ -66,6 +66,11 @@ func CompareItems(l, r *v2.Items) *ItemsChanges {
 	props = append(props, addSwaggerHeaderProperties(l, r, &changes)...)
 	CheckProperties(props)
 
+	// enum
+	if len(l.Enum.Value) > 0 || len(r.Enum.Value) > 0 {
+		ExtractRawValueSliceChanges(l.Enum.Value, r.Enum.Value, &changes, v3.EnumLabel, true)
+	}
+
 	if !l.Items.IsEmpty() && !r.Items.IsEmpty() {
 		// inline, check hashes, if they don't match, compare.
 		if l.Items.Value.Hash() != r.Items.Value.Hash() {
-- 
2.43.0


From cfa4d229cb31148a786d071ecf559518bcfaacf5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 11/86] fix: compare the anchor, minContains and maxContains of
 schemas

---
 what-changed/model/schema.go | 57 ++++++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index daabd5d..189437c 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -1710,6 +1710,63 @@ func checkSchemaPropertyChanges(
 	lnv = nil
 	rnv = nil
 
+	// $anchor (JSON Schema 2020-12)
+	if lSchema != nil && lSchema.Anchor.ValueNode != nil {
+		lnv = lSchema.Anchor.ValueNode
+	}
+	if rSchema != nil && rSchema.Anchor.ValueNode != nil {
+		rnv = rSchema.Anchor.ValueNode
+	}
+	props = append(props, &PropertyCheck{
+		LeftNode:  lnv,
+		RightNode: rnv,
+		Label:     base.AnchorLabel,
+		Changes:   changes,
+		Breaking:  false,
+		Original:  lSchema,
+		New:       rSchema,
+	})
+	lnv = nil
+	rnv = nil
+
+	// minContains (JSON Schema 2020-12)
+	if lSchema != nil && lSchema.MinContains.ValueNode != nil {
+		lnv = lSchema.MinContains.ValueNode
+	}
+	if rSchema != nil && rSchema.MinContains.ValueNode != nil {
+		rnv = rSchema.MinContains.ValueNode
+	}
+	props = append(props, &PropertyCheck{
+		LeftNode:  lnv,
+		RightNode: rnv,
+		Label:     v3.MinContainsLabel,
+		Changes:   changes,
+		Breaking:  true,
+		Original:  lSchema,
+		New:       rSchema,
+	})
+	lnv = nil
+	rnv = nil
+
+	// maxContains (JSON Schema 2020-12)
+	if lSchema != nil && lSchema.MaxContains.ValueNode != nil {
+		lnv = lSchema.MaxContains.ValueNode
+	}
+	if rSchema != nil && rSchema.MaxContains.ValueNode != nil {
+		rnv = rSchema.MaxContains.ValueNode
+	}
+	props = append(props, &PropertyCheck{
+		LeftNode:  lnv,
+		RightNode: rnv,
+		Label:     v3.MaxContainsLabel,
+		Changes:   changes,
+		Breaking:  true,
+		Original:  lSchema,
+		New:       rSchema,
+	})
+	lnv = nil
+	rnv = nil
+
 	// contentSchema (JSON Schema 2020-12) - recursive schema comparison
 	if lSchema != nil && !lSchema.ContentSchema.IsEmpty() && rSchema != nil && !rSchema.ContentSchema.IsEmpty() {
 		sc.ContentSchemaChanges = CompareSchemas(lSchema.ContentSchema.Value, rSchema.ContentSchema.Value)
-- 
2.43.0


From 99c30dfe17447f058cdc1e5b0ab24c4998c4d717 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 12/86] fix: attach the object that was added or removed to its
 change

---
 what-changed/model/document.go  |  2 +-
 what-changed/model/info.go      |  2 +-
 what-changed/model/path_item.go | 28 ++++++++++++++--------------
 what-changed/model/responses.go |  4 ++--
 4 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/what-changed/model/document.go b/what-changed/model/document.go
index 5c9263c..083aefd 100644
--- a/what-changed/model/document.go
+++ b/what-changed/model/document.go
@@ -281,7 +281,7 @@ func CompareDocuments(l, r any) *DocumentChanges {
 		}
 		if lDoc.Components.IsEmpty() && !rDoc.Components.IsEmpty() {
 			CreateChange(&changes, PropertyAdded, v3.ComponentsLabel,
-				nil, rDoc.Components.ValueNode, BreakingAdded(CompComponents, ""), nil, lDoc.Components.Value)
+				nil, rDoc.Components.ValueNode, BreakingAdded(CompComponents, ""), nil, rDoc.Components.Value)
 		}
 
 		// compare servers
diff --git a/what-changed/model/info.go b/what-changed/model/info.go
index b042ed9..f9730eb 100644
--- a/what-changed/model/info.go
+++ b/what-changed/model/info.go
@@ -125,7 +125,7 @@ func CompareInfo(l, r *base.Info) *InfoChanges {
 		}
 		if l.License.Value != nil && r.License.Value == nil {
 			CreateChange(&changes, ObjectRemoved, v3.LicenseLabel,
-				l.License.ValueNode, nil, BreakingRemoved(CompInfo, PropLicense), r.License.Value, nil)
+				l.License.ValueNode, nil, BreakingRemoved(CompInfo, PropLicense), l.License.Value, nil)
 		}
 	}
 
diff --git a/what-changed/model/path_item.go b/what-changed/model/path_item.go
index 803be6f..b07eaf2 100644
--- a/what-changed/model/path_item.go
+++ b/what-changed/model/path_item.go
@@ -261,7 +261,7 @@ func compareSwaggerPathItem(lPath, rPath *v2.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Put.IsEmpty() && !rPath.Put.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.PutLabel,
-			nil, rPath.Put.ValueNode, BreakingAdded(CompPathItem, PropPut), nil, lPath.Put.Value)
+			nil, rPath.Put.ValueNode, BreakingAdded(CompPathItem, PropPut), nil, rPath.Put.Value)
 	}
 
 	// post
@@ -275,7 +275,7 @@ func compareSwaggerPathItem(lPath, rPath *v2.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Post.IsEmpty() && !rPath.Post.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.PostLabel,
-			nil, rPath.Post.ValueNode, BreakingAdded(CompPathItem, PropPost), nil, lPath.Post.Value)
+			nil, rPath.Post.ValueNode, BreakingAdded(CompPathItem, PropPost), nil, rPath.Post.Value)
 	}
 
 	// delete
@@ -289,7 +289,7 @@ func compareSwaggerPathItem(lPath, rPath *v2.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Delete.IsEmpty() && !rPath.Delete.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.DeleteLabel,
-			nil, rPath.Delete.ValueNode, BreakingAdded(CompPathItem, PropDelete), nil, lPath.Delete.Value)
+			nil, rPath.Delete.ValueNode, BreakingAdded(CompPathItem, PropDelete), nil, rPath.Delete.Value)
 	}
 
 	// options
@@ -303,7 +303,7 @@ func compareSwaggerPathItem(lPath, rPath *v2.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Options.IsEmpty() && !rPath.Options.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.OptionsLabel,
-			nil, rPath.Options.ValueNode, BreakingAdded(CompPathItem, PropOptions), nil, lPath.Options.Value)
+			nil, rPath.Options.ValueNode, BreakingAdded(CompPathItem, PropOptions), nil, rPath.Options.Value)
 	}
 
 	// head
@@ -317,7 +317,7 @@ func compareSwaggerPathItem(lPath, rPath *v2.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Head.IsEmpty() && !rPath.Head.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.HeadLabel,
-			nil, rPath.Head.ValueNode, BreakingAdded(CompPathItem, PropHead), nil, lPath.Head.Value)
+			nil, rPath.Head.ValueNode, BreakingAdded(CompPathItem, PropHead), nil, rPath.Head.Value)
 	}
 
 	// patch
@@ -331,7 +331,7 @@ func compareSwaggerPathItem(lPath, rPath *v2.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Patch.IsEmpty() && !rPath.Patch.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.PatchLabel,
-			nil, rPath.Patch.ValueNode, BreakingAdded(CompPathItem, PropPatch), nil, lPath.Patch.Value)
+			nil, rPath.Patch.ValueNode, BreakingAdded(CompPathItem, PropPatch), nil, rPath.Patch.Value)
 	}
 
 	// parameters
@@ -493,7 +493,7 @@ func compareOpenAPIPathItem(lPath, rPath *v3.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Get.IsEmpty() && !rPath.Get.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.GetLabel,
-			nil, rPath.Get.ValueNode, BreakingAdded(CompPathItem, PropGet), nil, lPath.Get.Value)
+			nil, rPath.Get.ValueNode, BreakingAdded(CompPathItem, PropGet), nil, rPath.Get.Value)
 	}
 
 	// put
@@ -507,7 +507,7 @@ func compareOpenAPIPathItem(lPath, rPath *v3.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Put.IsEmpty() && !rPath.Put.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.PutLabel,
-			nil, rPath.Put.ValueNode, BreakingAdded(CompPathItem, PropPut), nil, lPath.Put.Value)
+			nil, rPath.Put.ValueNode, BreakingAdded(CompPathItem, PropPut), nil, rPath.Put.Value)
 	}
 
 	// post
@@ -521,7 +521,7 @@ func compareOpenAPIPathItem(lPath, rPath *v3.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Post.IsEmpty() && !rPath.Post.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.PostLabel,
-			nil, rPath.Post.ValueNode, BreakingAdded(CompPathItem, PropPost), nil, lPath.Post.Value)
+			nil, rPath.Post.ValueNode, BreakingAdded(CompPathItem, PropPost), nil, rPath.Post.Value)
 	}
 
 	// delete
@@ -535,7 +535,7 @@ func compareOpenAPIPathItem(lPath, rPath *v3.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Delete.IsEmpty() && !rPath.Delete.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.DeleteLabel,
-			nil, rPath.Delete.ValueNode, BreakingAdded(CompPathItem, PropDelete), nil, lPath.Delete.Value)
+			nil, rPath.Delete.ValueNode, BreakingAdded(CompPathItem, PropDelete), nil, rPath.Delete.Value)
 	}
 
 	// options
@@ -549,7 +549,7 @@ func compareOpenAPIPathItem(lPath, rPath *v3.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Options.IsEmpty() && !rPath.Options.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.OptionsLabel,
-			nil, rPath.Options.ValueNode, BreakingAdded(CompPathItem, PropOptions), nil, lPath.Options.Value)
+			nil, rPath.Options.ValueNode, BreakingAdded(CompPathItem, PropOptions), nil, rPath.Options.Value)
 	}
 
 	// head
@@ -563,7 +563,7 @@ func compareOpenAPIPathItem(lPath, rPath *v3.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Head.IsEmpty() && !rPath.Head.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.HeadLabel,
-			nil, rPath.Head.ValueNode, BreakingAdded(CompPathItem, PropHead), nil, lPath.Head.Value)
+			nil, rPath.Head.ValueNode, BreakingAdded(CompPathItem, PropHead), nil, rPath.Head.Value)
 	}
 
 	// patch
@@ -577,7 +577,7 @@ func compareOpenAPIPathItem(lPath, rPath *v3.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Patch.IsEmpty() && !rPath.Patch.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.PatchLabel,
-			nil, rPath.Patch.ValueNode, BreakingAdded(CompPathItem, PropPatch), nil, lPath.Patch.Value)
+			nil, rPath.Patch.ValueNode, BreakingAdded(CompPathItem, PropPatch), nil, rPath.Patch.Value)
 	}
 
 	// trace
@@ -591,7 +591,7 @@ func compareOpenAPIPathItem(lPath, rPath *v3.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Trace.IsEmpty() && !rPath.Trace.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.TraceLabel,
-			nil, rPath.Trace.ValueNode, BreakingAdded(CompPathItem, PropTrace), nil, lPath.Trace.Value)
+			nil, rPath.Trace.ValueNode, BreakingAdded(CompPathItem, PropTrace), nil, rPath.Trace.Value)
 	}
 
 	// query
diff --git a/what-changed/model/responses.go b/what-changed/model/responses.go
index a7ad56d..e4a7b83 100644
--- a/what-changed/model/responses.go
+++ b/what-changed/model/responses.go
@@ -102,7 +102,7 @@ func CompareResponses(l, r any) *ResponsesChanges {
 		if lResponses.Default.IsEmpty() && !rResponses.Default.IsEmpty() {
 			CreateChange(&changes, ObjectAdded, v3.DefaultLabel,
 				nil, rResponses.Default.ValueNode, BreakingAdded(CompResponses, PropDefault),
-				nil, lResponses.Default.Value)
+				nil, rResponses.Default.Value)
 		}
 
 		rc.ResponseChanges = CheckMapForChangesWithRules(lResponses.Codes, rResponses.Codes,
@@ -134,7 +134,7 @@ func CompareResponses(l, r any) *ResponsesChanges {
 		if lResponses.Default.IsEmpty() && !rResponses.Default.IsEmpty() {
 			CreateChange(&changes, ObjectAdded, v3.DefaultLabel,
 				nil, rResponses.Default.ValueNode, BreakingAdded(CompResponses, PropDefault),
-				nil, lResponses.Default.Value)
+				nil, rResponses.Default.Value)
 		}
 
 		rc.ResponseChanges = CheckMapForChangesWithRules(lResponses.Codes, rResponses.Codes,
-- 
2.43.0


From 1883aaeaa607a49907891b96b72afcc5a47a80ab Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 13/86] fix: compare an additional operation with its namesake

---
 what-changed/model/path_item.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/what-changed/model/path_item.go b/what-changed/model/path_item.go
index b07eaf2..65f08ff 100644
--- a/what-changed/model/path_item.go
+++ b/what-changed/model/path_item.go
@@ -636,7 +636,7 @@ func compareOpenAPIPathItem(lPath, rPath *v3.PathItem, changes *[]*Change, pc *P
 					found = true
 					// compare the two operations
 					totalOps++
-					go checkOperation(lPath.AdditionalOperations.Value.GetOrZero(lKeys[j]).Value,
+					go checkOperation(lPath.AdditionalOperations.Value.GetOrZero(lKeys[i]).Value,
 						rPath.AdditionalOperations.Value.GetOrZero(rKeys[j]).Value, opChan, lKeys[i].Value)
 					break
 				}
-- 
2.43.0


From aed755dca7a494b06284b2bd2fd96a1a08f05c2b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 14/86] fix: label pattern properties and dependent schemas
 with their own keyword

---
 what-changed/model/schema.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index 189437c..0901ba7 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -545,10 +545,10 @@ func CompareSchemas(l, r *base.SchemaProxy) *SchemaChanges {
 			ranyOf = nil
 		}
 
-		props := checkMappedSchemaOfASchema(lProperties, rProperties, &changes)
+		props := checkMappedSchemaOfASchema(lProperties, rProperties, &changes, v3.PropertiesLabel)
 		sc.SchemaPropertyChanges = props
 
-		deps := checkMappedSchemaOfASchema(lDepSchemas, rDepSchemas, &changes)
+		deps := checkMappedSchemaOfASchema(lDepSchemas, rDepSchemas, &changes, base.DependentSchemasLabel)
 		sc.DependentSchemasChanges = deps
 
 		// Check dependent required changes
@@ -565,7 +565,7 @@ func CompareSchemas(l, r *base.SchemaProxy) *SchemaChanges {
 			sc.DependentRequiredChanges = depRequiredChanges
 		}
 
-		patterns := checkMappedSchemaOfASchema(lPattProp, rPattProp, &changes)
+		patterns := checkMappedSchemaOfASchema(lPattProp, rPattProp, &changes, base.PatternPropertiesLabel)
 		sc.PatternPropertiesChanges = patterns
 
 		var wg sync.WaitGroup
@@ -632,6 +632,7 @@ func checkMappedSchemaOfASchema(
 	lSchema,
 	rSchema *orderedmap.Map[low.KeyReference[string], low.ValueReference[*base.SchemaProxy]],
 	changes *[]*Change,
+	label string,
 ) map[string]*SchemaChanges {
 	var syncPropChanges sync.Map // concurrent-safe map
 	var lProps []string
@@ -653,7 +654,7 @@ func checkMappedSchemaOfASchema(
 	}
 	sort.Strings(lProps)
 	sort.Strings(rProps)
-	buildProperty(lProps, rProps, lEntities, rEntities, &syncPropChanges, changes, rKeyNodes, lKeyNodes)
+	buildProperty(lProps, rProps, lEntities, rEntities, &syncPropChanges, changes, rKeyNodes, lKeyNodes, label)
 
 	// Convert the sync.Map into a regular map[string]*SchemaChanges.
 	propChanges := make(map[string]*SchemaChanges)
@@ -665,7 +666,7 @@ func checkMappedSchemaOfASchema(
 }
 
 func buildProperty(lProps, rProps []string, lEntities, rEntities map[string]*base.SchemaProxy,
-	propChanges *sync.Map, changes *[]*Change, rKeyNodes, lKeyNodes map[string]*yaml.Node,
+	propChanges *sync.Map, changes *[]*Change, rKeyNodes, lKeyNodes map[string]*yaml.Node, label string,
 ) {
 	var wg sync.WaitGroup
 	checkProperty := func(key string, lp, rp *base.SchemaProxy) {
@@ -690,11 +691,11 @@ func buildProperty(lProps, rProps []string, lEntities, rEntities map[string]*bas
 			if lProps[w] != rProps[w] {
 				if !slices.Contains(lProps, rProps[w]) {
 					// new property added.
-					CreateChange(changes, ObjectAdded, v3.PropertiesLabel,
+					CreateChange(changes, ObjectAdded, label,
 						nil, rKeyNodes[rProps[w]], BreakingAdded(CompSchema, PropProperties), nil, rEntities[rProps[w]])
 				}
 				if !slices.Contains(rProps, lProps[w]) {
-					CreateChange(changes, ObjectRemoved, v3.PropertiesLabel,
+					CreateChange(changes, ObjectRemoved, label,
 						lKeyNodes[lProps[w]], nil, BreakingRemoved(CompSchema, PropProperties), lEntities[lProps[w]], nil)
 				}
 				if slices.Contains(lProps, rProps[w]) {
@@ -715,7 +716,7 @@ func buildProperty(lProps, rProps []string, lEntities, rEntities map[string]*bas
 				wg.Add(1)
 				go checkProperty(lProps[w], lEntities[lProps[w]], rEntities[lProps[w]])
 			} else {
-				CreateChange(changes, ObjectRemoved, v3.PropertiesLabel,
+				CreateChange(changes, ObjectRemoved, label,
 					lKeyNodes[lProps[w]], nil, BreakingRemoved(CompSchema, PropProperties), lEntities[lProps[w]], nil)
 			}
 		}
@@ -724,7 +725,7 @@ func buildProperty(lProps, rProps []string, lEntities, rEntities map[string]*bas
 				wg.Add(1)
 				go checkProperty(rProps[w], lEntities[rProps[w]], rEntities[rProps[w]])
 			} else {
-				CreateChange(changes, ObjectAdded, v3.PropertiesLabel,
+				CreateChange(changes, ObjectAdded, label,
 					nil, rKeyNodes[rProps[w]], BreakingAdded(CompSchema, PropProperties), nil, rEntities[rProps[w]])
 			}
 		}
@@ -737,7 +738,7 @@ func buildProperty(lProps, rProps []string, lEntities, rEntities map[string]*bas
 				wg.Add(1)
 				go checkProperty(propName, lEntities[propName], rEntities[propName])
 			} else {
-				CreateChange(changes, ObjectAdded, v3.PropertiesLabel,
+				CreateChange(changes, ObjectAdded, label,
 					nil, rKeyNodes[propName], BreakingAdded(CompSchema, PropProperties), nil, rEntities[propName])
 			}
 		}
@@ -746,7 +747,7 @@ func buildProperty(lProps, rProps []string, lEntities, rEntities map[string]*bas
 				wg.Add(1)
 				go checkProperty(propName, lEntities[propName], rEntities[propName])
 			} else {
-				CreateChange(changes, ObjectRemoved, v3.PropertiesLabel,
+				CreateChange(changes, ObjectRemoved, label,
 					lKeyNodes[propName], nil, BreakingRemoved(CompSchema, PropProperties), lEntities[propName], nil)
 			}
 		}
-- 
2.43.0


From cdc609769f3d4b1a19e41d30a813c3bc5db1f366 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 15/86] fix: label a changed bearer format as bearerFormat

---
 datamodel/low/v3/constants.go         | 1 +
 what-changed/model/security_scheme.go | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/datamodel/low/v3/constants.go b/datamodel/low/v3/constants.go
index 473c267..908e364 100644
--- a/datamodel/low/v3/constants.go
+++ b/datamodel/low/v3/constants.go
@@ -132,6 +132,7 @@ const (
 	FlowLabel                  = "flow"
 	FlowsLabel                 = "flows"
 	SchemeLabel                = "scheme"
+	BearerFormatLabel          = "bearerFormat"
 	OpenIdConnectUrlLabel      = "openIdConnectUrl"
 	OAuth2MetadataUrlLabel     = "oauth2MetadataUrl" // OpenAPI 3.2+ OAuth2 metadata URL
 	ScopesLabel                = "scopes"
diff --git a/what-changed/model/security_scheme.go b/what-changed/model/security_scheme.go
index 4b6b5d4..706868e 100644
--- a/what-changed/model/security_scheme.go
+++ b/what-changed/model/security_scheme.go
@@ -166,7 +166,7 @@ func CompareSecuritySchemes(l, r any) *SecuritySchemeChanges {
 			BreakingModified(CompSecurityScheme, PropScheme), CompSecurityScheme, PropScheme)
 
 		addPropertyCheck(&props, lSS.BearerFormat.ValueNode, rSS.BearerFormat.ValueNode,
-			lSS.BearerFormat.Value, rSS.BearerFormat.Value, &changes, v3.SchemeLabel,
+			lSS.BearerFormat.Value, rSS.BearerFormat.Value, &changes, v3.BearerFormatLabel,
 			BreakingModified(CompSecurityScheme, PropBearerFormat), CompSecurityScheme, PropBearerFormat)
 
 		addPropertyCheck(&props, lSS.OpenIdConnectUrl.ValueNode, rSS.OpenIdConnectUrl.ValueNode,
-- 
2.43.0


From 6f69042b4f8ae2ee6890349542c7aef20d01c780 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 16/86] fix: label changes of v2 security definitions as
 securityDefinitions

---
 what-changed/model/components.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/what-changed/model/components.go b/what-changed/model/components.go
index e646de5..845aa00 100644
--- a/what-changed/model/components.go
+++ b/what-changed/model/components.go
@@ -108,7 +108,7 @@ func CompareComponents(l, r any) *ComponentsChanges {
 			b = rDef.Definitions
 		}
 		cc.SecuritySchemeChanges = CheckMapForChanges(a, b, &changes,
-			v3.SecurityDefinitionLabel, CompareSecuritySchemesV2)
+			v2.SecurityDefinitionsLabel, CompareSecuritySchemesV2)
 	}
 
 	// OpenAPI Components
-- 
2.43.0


From 002929b67b5d889744e0067507ea5b62be428024 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 17/86] fix: report added and removed components.pathItems

---
 what-changed/model/components.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/what-changed/model/components.go b/what-changed/model/components.go
index 845aa00..6c47f6d 100644
--- a/what-changed/model/components.go
+++ b/what-changed/model/components.go
@@ -186,6 +186,12 @@ func CompareComponents(l, r any) *ComponentsChanges {
 				&changes, v3.MediaTypesLabel, CompareMediaTypes, doneChan)
 		}
 
+		if !lComponents.PathItems.IsEmpty() || !rComponents.PathItems.IsEmpty() {
+			comparisons++
+			go runComparison(lComponents.PathItems.Value, rComponents.PathItems.Value,
+				&changes, v3.PathItemsLabel, ComparePathItemsV3, doneChan)
+		}
+
 		cc.ExtensionChanges = CompareExtensions(lComponents.Extensions, rComponents.Extensions)
 
 		completedComponents := 0
@@ -199,7 +205,7 @@ func CompareComponents(l, r any) *ComponentsChanges {
 				completedComponents++
 				cc.SecuritySchemeChanges = res.result.(map[string]*SecuritySchemeChanges)
 			case v3.ResponsesLabel, v3.ParametersLabel, v3.ExamplesLabel, v3.RequestBodiesLabel, v3.HeadersLabel,
-				v3.LinksLabel, v3.CallbacksLabel, v3.MediaTypesLabel:
+				v3.LinksLabel, v3.CallbacksLabel, v3.MediaTypesLabel, v3.PathItemsLabel:
 				completedComponents++
 			}
 		}
-- 
2.43.0


From 01a77fa666115ceddb7e806cf9c402d13bbe4ae3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 18/86] fix: return changes of a content schema with the other
 schema changes

---
 what-changed/model/schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index 0901ba7..f314b19 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -180,6 +180,9 @@ func (s *SchemaChanges) GetAllChanges() []*Change {
 			}
 		}
 	}
+	if s.ContentSchemaChanges != nil {
+		changes = append(changes, s.ContentSchemaChanges.GetAllChanges()...)
+	}
 	if s.ExternalDocChanges != nil {
 		changes = append(changes, s.ExternalDocChanges.GetAllChanges()...)
 	}
-- 
2.43.0


From fb0ab0528e12d6d337092783608de242e74a425e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 19/86] fix: count breaking changes of the external docs of
 tags and schemas

---
 what-changed/model/schema.go | 3 +++
 what-changed/model/tags.go   | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index f314b19..7fb615c 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -387,6 +387,9 @@ func (s *SchemaChanges) TotalBreakingChanges() int {
 			}
 		}
 	}
+	if s.ExternalDocChanges != nil {
+		t += s.ExternalDocChanges.TotalBreakingChanges()
+	}
 	if s.XMLChanges != nil {
 		t += s.XMLChanges.TotalBreakingChanges()
 	}
diff --git a/what-changed/model/tags.go b/what-changed/model/tags.go
index d839c40..2067e7a 100644
--- a/what-changed/model/tags.go
+++ b/what-changed/model/tags.go
@@ -49,7 +49,11 @@ func (t *TagChanges) TotalChanges() int {
 
 // TotalBreakingChanges returns the number of breaking changes made by Tags
 func (t *TagChanges) TotalBreakingChanges() int {
-	return t.PropertyChanges.TotalBreakingChanges()
+	c := t.PropertyChanges.TotalBreakingChanges()
+	if t.ExternalDocs != nil {
+		c += t.ExternalDocs.TotalBreakingChanges()
+	}
+	return c
 }
 
 // CompareTags will compare a left (original) and a right (new) slice of ValueReference nodes for
-- 
2.43.0


From 87ced32433079e05f35b41ff34fa13cdb1d4559a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 20/86] fix: return vocabulary changes with the other schema
 changes

---
 what-changed/model/schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index 7fb615c..db04fdf 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -180,6 +180,9 @@ func (s *SchemaChanges) GetAllChanges() []*Change {
 			}
 		}
 	}
+	if len(s.VocabularyChanges) > 0 {
+		changes = append(changes, s.VocabularyChanges...)
+	}
 	if s.ContentSchemaChanges != nil {
 		changes = append(changes, s.ContentSchemaChanges.GetAllChanges()...)
 	}
-- 
2.43.0


From f6e334619eec6c13fd75de63b0828db116bc6714 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 21/86] fix: classify added and removed examples by their own
 breaking rules

---
 what-changed/model/header.go    | 8 +++++---
 what-changed/model/parameter.go | 8 +++++---
 what-changed/model/schema.go    | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/what-changed/model/header.go b/what-changed/model/header.go
index 3fc8e65..0da72a4 100644
--- a/what-changed/model/header.go
+++ b/what-changed/model/header.go
@@ -116,9 +116,11 @@ func addOpenAPIHeaderProperties(left, right low.OpenAPIHeader, changes *[]*Chang
 		BreakingModified(CompHeader, PropExplode), CompHeader, PropExplode)
 
 	// example
-	CheckPropertyAdditionOrRemovalWithEncoding(left.GetExample().ValueNode, right.GetExample().ValueNode,
-		v3.ExampleLabel, changes,
-		BreakingAdded(CompHeader, PropExample) || BreakingRemoved(CompHeader, PropExample),
+	CheckForRemovalWithEncoding(left.GetExample().ValueNode, right.GetExample().ValueNode,
+		v3.ExampleLabel, changes, BreakingRemoved(CompHeader, PropExample),
+		left.GetExample(), right.GetExample())
+	CheckForAdditionWithEncoding(left.GetExample().ValueNode, right.GetExample().ValueNode,
+		v3.ExampleLabel, changes, BreakingAdded(CompHeader, PropExample),
 		left.GetExample(), right.GetExample())
 	CheckForModificationWithEncoding(left.GetExample().ValueNode, right.GetExample().ValueNode,
 		v3.ExampleLabel, changes, BreakingModified(CompHeader, PropExample),
diff --git a/what-changed/model/parameter.go b/what-changed/model/parameter.go
index 3a29d14..a851387 100644
--- a/what-changed/model/parameter.go
+++ b/what-changed/model/parameter.go
@@ -359,9 +359,11 @@ func CompareParameters(l, r any) *ParameterChanges {
 }
 
 func checkParameterExample(expLeft, expRight low.NodeReference[*yaml.Node], changes []*Change) {
-	CheckPropertyAdditionOrRemovalWithEncoding(expLeft.ValueNode, expRight.ValueNode,
-		v3.ExampleLabel, &changes,
-		BreakingAdded(CompParameter, PropExample) || BreakingRemoved(CompParameter, PropExample),
+	CheckForRemovalWithEncoding(expLeft.ValueNode, expRight.ValueNode,
+		v3.ExampleLabel, &changes, BreakingRemoved(CompParameter, PropExample),
+		expLeft.Value, expRight.Value)
+	CheckForAdditionWithEncoding(expLeft.ValueNode, expRight.ValueNode,
+		v3.ExampleLabel, &changes, BreakingAdded(CompParameter, PropExample),
 		expLeft.Value, expRight.Value)
 	CheckForModificationWithEncoding(expLeft.ValueNode, expRight.ValueNode,
 		v3.ExampleLabel, &changes, BreakingModified(CompParameter, PropExample),
diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index db04fdf..c313e69 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -1347,10 +1347,12 @@ func checkSchemaPropertyChanges(
 		rnv = rSchema.Example.ValueNode
 	}
 	// Example
-	CheckPropertyAdditionOrRemovalWithEncoding(lnv, rnv,
-		v3.ExampleLabel, changes, false, lSchema, rSchema)
+	CheckForRemovalWithEncoding(lnv, rnv,
+		v3.ExampleLabel, changes, BreakingRemoved(CompSchema, PropExample), lSchema, rSchema)
+	CheckForAdditionWithEncoding(lnv, rnv,
+		v3.ExampleLabel, changes, BreakingAdded(CompSchema, PropExample), lSchema, rSchema)
 	CheckForModificationWithEncoding(lnv, rnv,
-		v3.ExampleLabel, changes, false, lSchema, rSchema)
+		v3.ExampleLabel, changes, BreakingModified(CompSchema, PropExample), lSchema, rSchema)
 	lnv = nil
 	rnv = nil
 
-- 
2.43.0


From 94d9a4a77f84dacd1013dd956ab5c0d66dafb11d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 22/86] fix: classify added and removed parameters by the
 configured rules

---
 what-changed/model/operation.go | 6 +++---
 what-changed/model/path_item.go | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/what-changed/model/operation.go b/what-changed/model/operation.go
index 6643623..bd4d067 100644
--- a/what-changed/model/operation.go
+++ b/what-changed/model/operation.go
@@ -263,7 +263,7 @@ func CompareOperations(l, r any) *OperationChanges {
 			for n := range rv {
 				if _, ok := lv[n]; !ok {
 					CreateChange(&changes, ObjectAdded, v3.ParametersLabel,
-						nil, rv[n].Name.ValueNode, rv[n].Required.Value, nil,
+						nil, rv[n].Name.ValueNode, BreakingAdded(CompOperation, PropParameters) || rv[n].Required.Value, nil,
 						rv[n])
 				}
 			}
@@ -271,12 +271,12 @@ func CompareOperations(l, r any) *OperationChanges {
 		}
 		if !lParamsUntyped.IsEmpty() && rParamsUntyped.IsEmpty() {
 			CreateChange(&changes, PropertyRemoved, v3.ParametersLabel,
-				lParamsUntyped.ValueNode, nil, true, lParamsUntyped.Value,
+				lParamsUntyped.ValueNode, nil, BreakingRemoved(CompOperation, PropParameters), lParamsUntyped.Value,
 				nil)
 		}
 		if lParamsUntyped.IsEmpty() && !rParamsUntyped.IsEmpty() {
 			rParams := rParamsUntyped.Value.([]low.ValueReference[*v2.Parameter])
-			breaking := false
+			breaking := BreakingAdded(CompOperation, PropParameters)
 			for i := range rParams {
 				if rParams[i].Value.Required.Value {
 					breaking = true
diff --git a/what-changed/model/path_item.go b/what-changed/model/path_item.go
index 65f08ff..999d1d8 100644
--- a/what-changed/model/path_item.go
+++ b/what-changed/model/path_item.go
@@ -462,14 +462,14 @@ func checkParameters(lParams, rParams []low.ValueReference[low.SharedParameters]
 			continue
 		}
 		CreateChange(changes, ObjectRemoved, v3.ParametersLabel,
-			lv[n].GetName().ValueNode, nil, true, lv[n],
+			lv[n].GetName().ValueNode, nil, BreakingRemoved(CompPathItem, PropParameters), lv[n],
 			nil)
 
 	}
 	for n := range rv {
 		if _, ok := lv[n]; !ok {
 			CreateChange(changes, ObjectAdded, v3.ParametersLabel,
-				nil, rv[n].GetName().ValueNode, rv[n].GetRequired().Value, nil,
+				nil, rv[n].GetName().ValueNode, BreakingAdded(CompPathItem, PropParameters) || rv[n].GetRequired().Value, nil,
 				rv[n])
 		}
 	}
-- 
2.43.0


From 4b75321df5e62e80ebdb17a6ae43f23c95ca10f7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 23/86] fix: classify media type examples and item encodings by
 the configured rules

---
 what-changed/model/media_type.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/what-changed/model/media_type.go b/what-changed/model/media_type.go
index 3ab5427..c20bc2e 100644
--- a/what-changed/model/media_type.go
+++ b/what-changed/model/media_type.go
@@ -116,9 +116,11 @@ func CompareMediaTypes(l, r *v3.MediaType) *MediaTypeChanges {
 	}
 
 	// Example
-	CheckPropertyAdditionOrRemovalWithEncoding(l.Example.ValueNode, r.Example.ValueNode,
-		v3.ExampleLabel, &changes,
-		BreakingAdded(CompMediaType, PropExample) || BreakingRemoved(CompMediaType, PropExample),
+	CheckForRemovalWithEncoding(l.Example.ValueNode, r.Example.ValueNode,
+		v3.ExampleLabel, &changes, BreakingRemoved(CompMediaType, PropExample),
+		l.Example.Value, r.Example.Value)
+	CheckForAdditionWithEncoding(l.Example.ValueNode, r.Example.ValueNode,
+		v3.ExampleLabel, &changes, BreakingAdded(CompMediaType, PropExample),
 		l.Example.Value, r.Example.Value)
 	CheckForModificationWithEncoding(l.Example.ValueNode, r.Example.ValueNode,
 		v3.ExampleLabel, &changes, BreakingModified(CompMediaType, PropExample),
@@ -161,8 +163,8 @@ func CompareMediaTypes(l, r *v3.MediaType) *MediaTypeChanges {
 	}
 
 	// itemEncoding
-	mc.ItemEncodingChanges = CheckMapForChanges(l.ItemEncoding.Value, r.ItemEncoding.Value,
-		&changes, v3.ItemEncodingLabel, CompareEncoding)
+	mc.ItemEncodingChanges = CheckMapForChangesWithRules(l.ItemEncoding.Value, r.ItemEncoding.Value,
+		&changes, v3.ItemEncodingLabel, CompareEncoding, CompMediaType, PropItemEncoding)
 
 	mc.ExtensionChanges = CompareExtensions(l.Extensions, r.Extensions)
 	mc.PropertyChanges = NewPropertyChanges(changes)
-- 
2.43.0


From 1795ed466f3d57a870024f8157282b59bea635dc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 24/86] fix: high-level v2 Header.Format carries the header's
 format, not its type

---
 datamodel/high/v2/header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datamodel/high/v2/header.go b/datamodel/high/v2/header.go
index bb356ae..ff06096 100644
--- a/datamodel/high/v2/header.go
+++ b/datamodel/high/v2/header.go
@@ -45,7 +45,7 @@ func NewHeader(header *low.Header) *Header {
 		h.Type = header.Type.Value
 	}
 	if !header.Format.IsEmpty() {
-		h.Format = header.Type.Value
+		h.Format = header.Format.Value
 	}
 	if !header.Description.IsEmpty() {
 		h.Description = header.Description.Value
-- 
2.43.0


From c7f713dc269d2a5057396793dbc8066a03307f8a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 25/86] fix: high-level v2 PathItem carries the path item's
 $ref

---
 datamodel/high/v2/path_item.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datamodel/high/v2/path_item.go b/datamodel/high/v2/path_item.go
index ee7b13b..1a7362f 100644
--- a/datamodel/high/v2/path_item.go
+++ b/datamodel/high/v2/path_item.go
@@ -40,6 +40,9 @@ func NewPathItem(pathItem *lowV2.PathItem) *PathItem {
 	p := new(PathItem)
 	p.low = pathItem
 	p.Extensions = high.ExtractExtensions(pathItem.Extensions)
+	if !pathItem.Ref.IsEmpty() {
+		p.Ref = pathItem.Ref.Value
+	}
 	if !pathItem.Parameters.IsEmpty() {
 		var params []*Parameter
 		for k := range pathItem.Parameters.Value {
-- 
2.43.0


From f4cfa6a3b76a45bb28afe277175e31e2df37f6b7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:01:37 +0000
Subject: [PATCH 26/86] fix: inline rendering of links, request bodies,
 security schemes and examples reports errors of their external references

---
 datamodel/high/base/example.go       |  8 +++-----
 datamodel/high/v3/link.go            | 18 +++++++++---------
 datamodel/high/v3/request_body.go    | 18 +++++++++---------
 datamodel/high/v3/security_scheme.go | 18 +++++++++---------
 4 files changed, 30 insertions(+), 32 deletions(-)

diff --git a/datamodel/high/base/example.go b/datamodel/high/base/example.go
index fecae5b..af02b36 100644
--- a/datamodel/high/base/example.go
+++ b/datamodel/high/base/example.go
@@ -104,7 +104,6 @@ func (e *Example) MarshalYAMLInline() (interface{}, error) {
 
 	// resolve external reference if present
 	if e.low != nil {
-		// buildLowExample never returns an error, so we can ignore it
 		rendered, err := high.RenderExternalRef(e.low, buildLowExample, NewExample)
 		if rendered != nil || err != nil {
 			return rendered, err
@@ -125,10 +124,9 @@ func (e *Example) MarshalYAMLInlineWithContext(ctx any) (interface{}, error) {
 
 	// resolve external reference if present
 	if e.low != nil {
-		// buildLowExample never returns an error, so we can ignore it
-		rendered, _ := high.RenderExternalRefWithContext(e.low, buildLowExample, NewExample, ctx)
-		if rendered != nil {
-			return rendered, nil
+		rendered, err := high.RenderExternalRefWithContext(e.low, buildLowExample, NewExample, ctx)
+		if rendered != nil || err != nil {
+			return rendered, err
 		}
 	}
 
diff --git a/datamodel/high/v3/link.go b/datamodel/high/v3/link.go
index 68956cb..a26cc3b 100644
--- a/datamodel/high/v3/link.go
+++ b/datamodel/high/v3/link.go
@@ -20,7 +20,9 @@ import (
 func buildLowLink(node *yaml.Node, idx *index.SpecIndex) (*lowv3.Link, error) {
 	var link lowv3.Link
 	lowmodel.BuildModel(node, &link)
-	link.Build(context.Background(), nil, node, idx)
+	if err := link.Build(context.Background(), nil, node, idx); err != nil {
+		return nil, err
+	}
 	return &link, nil
 }
 
@@ -109,10 +111,9 @@ func (l *Link) MarshalYAMLInline() (interface{}, error) {
 
 	// resolve external reference if present
 	if l.low != nil {
-		// buildLowLink never returns an error, so we can ignore it
-		rendered, _ := high.RenderExternalRef(l.low, buildLowLink, NewLink)
-		if rendered != nil {
-			return rendered, nil
+		rendered, err := high.RenderExternalRef(l.low, buildLowLink, NewLink)
+		if rendered != nil || err != nil {
+			return rendered, err
 		}
 	}
 
@@ -130,10 +131,9 @@ func (l *Link) MarshalYAMLInlineWithContext(ctx any) (interface{}, error) {
 
 	// resolve external reference if present
 	if l.low != nil {
-		// buildLowLink never returns an error, so we can ignore it
-		rendered, _ := high.RenderExternalRefWithContext(l.low, buildLowLink, NewLink, ctx)
-		if rendered != nil {
-			return rendered, nil
+		rendered, err := high.RenderExternalRefWithContext(l.low, buildLowLink, NewLink, ctx)
+		if rendered != nil || err != nil {
+			return rendered, err
 		}
 	}
 
diff --git a/datamodel/high/v3/request_body.go b/datamodel/high/v3/request_body.go
index 0ce7bd9..381e211 100644
--- a/datamodel/high/v3/request_body.go
+++ b/datamodel/high/v3/request_body.go
@@ -19,7 +19,9 @@ import (
 func buildLowRequestBody(node *yaml.Node, idx *index.SpecIndex) (*low.RequestBody, error) {
 	var rb low.RequestBody
 	lowmodel.BuildModel(node, &rb)
-	rb.Build(context.Background(), nil, node, idx)
+	if err := rb.Build(context.Background(), nil, node, idx); err != nil {
+		return nil, err
+	}
 	return &rb, nil
 }
 
@@ -97,10 +99,9 @@ func (r *RequestBody) MarshalYAMLInline() (interface{}, error) {
 
 	// resolve external reference if present
 	if r.low != nil {
-		// buildLowRequestBody never returns an error, so we can ignore it
-		rendered, _ := high.RenderExternalRef(r.low, buildLowRequestBody, NewRequestBody)
-		if rendered != nil {
-			return rendered, nil
+		rendered, err := high.RenderExternalRef(r.low, buildLowRequestBody, NewRequestBody)
+		if rendered != nil || err != nil {
+			return rendered, err
 		}
 	}
 
@@ -118,10 +119,9 @@ func (r *RequestBody) MarshalYAMLInlineWithContext(ctx any) (interface{}, error)
 
 	// resolve external reference if present
 	if r.low != nil {
-		// buildLowRequestBody never returns an error, so we can ignore it
-		rendered, _ := high.RenderExternalRefWithContext(r.low, buildLowRequestBody, NewRequestBody, ctx)
-		if rendered != nil {
-			return rendered, nil
+		rendered, err := high.RenderExternalRefWithContext(r.low, buildLowRequestBody, NewRequestBody, ctx)
+		if rendered != nil || err != nil {
+			return rendered, err
 		}
 	}
 
diff --git a/datamodel/high/v3/security_scheme.go b/datamodel/high/v3/security_scheme.go
index 512117f..a495223 100644
--- a/datamodel/high/v3/security_scheme.go
+++ b/datamodel/high/v3/security_scheme.go
@@ -19,7 +19,9 @@ import (
 func buildLowSecurityScheme(node *yaml.Node, idx *index.SpecIndex) (*low.SecurityScheme, error) {
 	var ss low.SecurityScheme
 	lowmodel.BuildModel(node, &ss)
-	ss.Build(context.Background(), nil, node, idx)
+	if err := ss.Build(context.Background(), nil, node, idx); err != nil {
+		return nil, err
+	}
 	return &ss, nil
 }
 
@@ -114,10 +116,9 @@ func (s *SecurityScheme) MarshalYAMLInline() (interface{}, error) {
 
 	// resolve external reference if present
 	if s.low != nil {
-		// buildLowSecurityScheme never returns an error, so we can ignore it
-		rendered, _ := high.RenderExternalRef(s.low, buildLowSecurityScheme, NewSecurityScheme)
-		if rendered != nil {
-			return rendered, nil
+		rendered, err := high.RenderExternalRef(s.low, buildLowSecurityScheme, NewSecurityScheme)
+		if rendered != nil || err != nil {
+			return rendered, err
 		}
 	}
 
@@ -135,10 +136,9 @@ func (s *SecurityScheme) MarshalYAMLInlineWithContext(ctx any) (interface{}, err
 
 	// resolve external reference if present
 	if s.low != nil {
-		// buildLowSecurityScheme never returns an error, so we can ignore it
-		rendered, _ := high.RenderExternalRefWithContext(s.low, buildLowSecurityScheme, NewSecurityScheme, ctx)
-		if rendered != nil {
-			return rendered, nil
+		rendered, err := high.RenderExternalRefWithContext(s.low, buildLowSecurityScheme, NewSecurityScheme, ctx)
+		if rendered != nil || err != nil {
+			return rendered, err
 		}
 	}
 
-- 
2.43.0


From 032e7479cb04e98fa3b55fff73934509acf8cb04 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 27/86] fix: errors of additional operations fail the path
 item's build

---
 datamodel/low/v3/path_item.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datamodel/low/v3/path_item.go b/datamodel/low/v3/path_item.go
index 5d7146a..05be6cc 100644
--- a/datamodel/low/v3/path_item.go
+++ b/datamodel/low/v3/path_item.go
@@ -444,7 +444,7 @@ func (p *PathItem) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 			Value: additionalOps,
 		}
 	}
-	return nil
+	return err
 }
 
 // resolveOperationReference handles the resolution of operation references ($ref)
-- 
2.43.0


From ac218b5e9108fe879f49b0e40423afa33ef8e57c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 28/86] fix: Info.Build reports contact and license build
 errors

---
 datamodel/low/base/info.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/datamodel/low/base/info.go b/datamodel/low/base/info.go
index 8cb2dc5..00926cc 100644
--- a/datamodel/low/base/info.go
+++ b/datamodel/low/base/info.go
@@ -87,11 +87,17 @@ func (i *Info) Build(ctx context.Context, keyNode, root *yaml.Node, idx *index.S
 	i.Extensions = low.ExtractExtensions(root)
 
 	// extract contact
-	contact, _ := low.ExtractObject[*Contact](ctx, ContactLabel, root, idx)
+	contact, err := low.ExtractObject[*Contact](ctx, ContactLabel, root, idx)
+	if err != nil {
+		return err
+	}
 	i.Contact = contact
 
 	// extract license
-	lic, _ := low.ExtractObject[*License](ctx, LicenseLabel, root, idx)
+	lic, err := low.ExtractObject[*License](ctx, LicenseLabel, root, idx)
+	if err != nil {
+		return err
+	}
 	i.License = lic
 	return nil
 }
-- 
2.43.0


From 46ac6ce1200f53738c733b254c4116e4ddfea9f6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 29/86] fix: LocalFS reports a file that cannot be read instead
 of an empty one

---
 index/rolodex_file_loader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/index/rolodex_file_loader.go b/index/rolodex_file_loader.go
index 3a2547e..45d488f 100644
--- a/index/rolodex_file_loader.go
+++ b/index/rolodex_file_loader.go
@@ -515,7 +515,11 @@ func (l *LocalFS) extractFile(p string) (*LocalFile, error) {
 		if stat != nil {
 			modTime = stat.ModTime()
 		}
-		fileData, _ = io.ReadAll(file)
+		var readError error
+		fileData, readError = io.ReadAll(file)
+		if readError != nil {
+			return nil, readError
+		}
 
 		lf := &LocalFile{
 			filename:         p,
-- 
2.43.0


From 3970d18a000a69ff9af732b1fc5f53bbb0d0cc21 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 30/86] fix: FindNodes reports input that is not YAML

---
 utils/utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/utils.go b/utils/utils.go
index f903ce9..8ea2dcd 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -114,7 +114,9 @@ func getJSONPathWithOptions(rawPath string, options JSONPathLookupOptions) (*jso
 // FindNodes will find a node based on JSONPath, it accepts raw yaml/json as input.
 func FindNodes(yamlData []byte, jsonPath string) ([]*yaml.Node, error) {
 	var node yaml.Node
-	yaml.Unmarshal(yamlData, &node)
+	if err := yaml.Unmarshal(yamlData, &node); err != nil {
+		return nil, err
+	}
 
 	path, err := getJSONPath(jsonPath)
 	if err != nil {
-- 
2.43.0


From 86443ffc28f64d5d709d6f0bd883f744c2ad56c0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 31/86] fix: inline bundling reports a target that cannot be
 built

---
 bundler/inline_references.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bundler/inline_references.go b/bundler/inline_references.go
index c3308bf..503d7d2 100644
--- a/bundler/inline_references.go
+++ b/bundler/inline_references.go
@@ -68,7 +68,10 @@ func prepareCollectedInlineReferences(model *v3.Document, ctx *highbase.InlineRe
 			if existingNames[componentName] {
 				componentName = calculateCollisionNameInline(componentName, target.fullDefinition, "__", existingNames)
 			}
-			schema, _ := buildSchema(target.node, target.index)
+			schema, err := buildSchema(target.node, target.index)
+			if err != nil {
+				return err
+			}
 			model.Components.Schemas.Set(componentName, schema)
 			existingNames[componentName] = true
 		}
-- 
2.43.0


From b5b45154082ff5d29fc1c91afccb8fd6d0725584 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 32/86] fix: schema providers' build errors are reported, not
 dereferenced

---
 generator/golang/from_reflect.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/generator/golang/from_reflect.go b/generator/golang/from_reflect.go
index 682d0ba..b254979 100644
--- a/generator/golang/from_reflect.go
+++ b/generator/golang/from_reflect.go
@@ -166,7 +166,10 @@ func (g *Generator) irFromSchemaMetadataProvider(t reflect.Type, name, path stri
 	if t.Name() != "" {
 		schemaName = g.publicName(typeName(t))
 	}
-	ir, _ := g.irFromOpenAPI(schemaName, proxy, path)
+	ir, err := g.irFromOpenAPI(schemaName, proxy, path)
+	if err != nil {
+		return nil, err
+	}
 	base := *ir
 	base.ExactSource = true
 	g.reflectCache[t] = &base
@@ -188,7 +191,10 @@ func (g *Generator) irFromSchemaYAMLProvider(t reflect.Type, name, path string,
 	if err != nil {
 		return nil, wrapPath(err, path)
 	}
-	ir, _ := g.irFromOpenAPI(schemaName, proxy, path)
+	ir, err := g.irFromOpenAPI(schemaName, proxy, path)
+	if err != nil {
+		return nil, err
+	}
 	base := *ir
 	base.ExactSource = true
 	g.reflectCache[t] = &base
@@ -398,7 +404,10 @@ func schemaProxyFromProviderYAML(name, schemaYAML string) (*highbase.SchemaProxy
 	if err != nil {
 		return nil, err
 	}
-	model, _ := doc.BuildV3Model()
+	model, err := doc.BuildV3Model()
+	if err != nil {
+		return nil, err
+	}
 	schema, _ := model.Model.Components.Schemas.Get(name)
 	return schema, nil
 }
-- 
2.43.0


From 56706b1e20132ff6395ba4040748706453ac1b4c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:08:40 +0000
Subject: [PATCH 33/86] fix: a local file system that cannot be read is
 reported by document creation

---
 datamodel/low/v2/swagger.go         | 23 +++++++++++++++++------
 datamodel/low/v3/create_document.go | 24 +++++++++++++++++-------
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/datamodel/low/v2/swagger.go b/datamodel/low/v2/swagger.go
index 7e5211b..044a9e8 100644
--- a/datamodel/low/v2/swagger.go
+++ b/datamodel/low/v2/swagger.go
@@ -157,6 +157,8 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 	rolodex.SetRootNode(info.RootNode)
 	doc.Rolodex = rolodex
 
+	var errs []error
+
 	// If basePath is provided, add a local filesystem to the rolodex.
 	if idxConfig.BasePath != "" {
 		var cwd string
@@ -175,11 +177,18 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 					DirFS:         config.LocalFS,
 				}
 
-				localFS, _ = index.NewLocalFSWithConfig(&localFSConf)
+				wrappedFS, fsErr := index.NewLocalFSWithConfig(&localFSConf)
+				if fsErr != nil {
+					errs = append(errs, fsErr)
+				} else {
+					localFS = wrappedFS
+				}
 				idxConfig.AllowFileLookup = true
 			}
 
-			rolodex.AddLocalFS(cwd, localFS)
+			if localFS != nil {
+				rolodex.AddLocalFS(cwd, localFS)
+			}
 		} else {
 
 			// create a local filesystem
@@ -188,11 +197,15 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 				IndexConfig:   idxConfig,
 				FileFilters:   config.FileFilter,
 			}
-			fileFS, _ := index.NewLocalFSWithConfig(&localFSConf)
+			fileFS, fsErr := index.NewLocalFSWithConfig(&localFSConf)
 			idxConfig.AllowFileLookup = true
 
 			// add the filesystem to the rolodex
-			rolodex.AddLocalFS(cwd, fileFS)
+			if fsErr != nil {
+				errs = append(errs, fsErr)
+			} else {
+				rolodex.AddLocalFS(cwd, fileFS)
+			}
 		}
 	}
 
@@ -217,8 +230,6 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 
 	doc.Rolodex = rolodex
 
-	var errs []error
-
 	// index all the things!
 	_ = rolodex.IndexTheRolodex(context.Background())
 
diff --git a/datamodel/low/v3/create_document.go b/datamodel/low/v3/create_document.go
index 90e228e..572bf31 100644
--- a/datamodel/low/v3/create_document.go
+++ b/datamodel/low/v3/create_document.go
@@ -209,6 +209,8 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 	rolodex.SetRootNode(info.RootNode)
 	doc.Rolodex = rolodex
 
+	var errs []error
+
 	// If basePath is provided, add a local filesystem to the rolodex.
 	if idxConfig.BasePath != "" || config.AllowFileReferences {
 		var cwd string
@@ -227,11 +229,18 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 					DirFS:         config.LocalFS,
 				}
 
-				localFS, _ = index.NewLocalFSWithConfig(&localFSConf)
+				wrappedFS, fsErr := index.NewLocalFSWithConfig(&localFSConf)
+				if fsErr != nil {
+					errs = append(errs, fsErr)
+				} else {
+					localFS = wrappedFS
+				}
 				idxConfig.AllowFileLookup = true
 			}
 
-			rolodex.AddLocalFS(cwd, localFS)
+			if localFS != nil {
+				rolodex.AddLocalFS(cwd, localFS)
+			}
 		} else {
 
 			// create a local filesystem
@@ -241,11 +250,15 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 				FileFilters:   config.FileFilter,
 			}
 
-			fileFS, _ := index.NewLocalFSWithConfig(&localFSConf)
+			fileFS, fsErr := index.NewLocalFSWithConfig(&localFSConf)
 			idxConfig.AllowFileLookup = true
 
 			// add the filesystem to the rolodex
-			rolodex.AddLocalFS(cwd, fileFS)
+			if fsErr != nil {
+				errs = append(errs, fsErr)
+			} else {
+				rolodex.AddLocalFS(cwd, fileFS)
+			}
 		}
 	}
 	// Only create a remote filesystem when the caller explicitly allows remote references.
@@ -266,9 +279,6 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 		rolodex.AddRemoteFS(u, remoteFS)
 	}
 
-	// index the rolodex
-	var errs []error
-
 	// index all the things.
 	if config.Logger != nil {
 		config.Logger.Debug("indexing rolodex")
-- 
2.43.0


From eb477378fdd724edbe1bc875b6fd883247ba5793 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:08:40 +0000
Subject: [PATCH 34/86] fix: CompareDocuments reports v2 build errors instead
 of dereferencing a missing model

---
 document.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/document.go b/document.go
index 9c9bf3e..ff2f9ad 100644
--- a/document.go
+++ b/document.go
@@ -405,8 +405,12 @@ func CompareDocuments(original, updated Document) (*model.DocumentChanges, error
 		if uErrs != nil {
 			errs = append(errs, uErrs)
 		}
-		return what_changed.CompareSwaggerDocuments(v2ModelLeft.Model.GoLow(), v2ModelRight.Model.GoLow()),
-			errors.Join(errs...)
+		if v2ModelLeft != nil && v2ModelRight != nil {
+			return what_changed.CompareSwaggerDocuments(v2ModelLeft.Model.GoLow(), v2ModelRight.Model.GoLow()),
+				errors.Join(errs...)
+		} else {
+			return nil, errors.Join(errs...)
+		}
 	}
 	return nil, fmt.Errorf("unable to compare documents, one or both documents are not of the same version")
 }
-- 
2.43.0


From f6c697e022ced84c39ed95b12a609fb174cc5d68 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:08:40 +0000
Subject: [PATCH 35/86] fix: model building reports a document with no version
 instead of dereferencing nil

---
 document.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/document.go b/document.go
index ff2f9ad..52bf403 100644
--- a/document.go
+++ b/document.go
@@ -298,6 +298,9 @@ func (d *document) BuildV2Model() (*DocumentModel[v2high.Swagger], error) {
 
 	var docErr error
 	lowDoc, docErr = v2low.CreateDocumentFromConfig(d.info, d.config)
+	if lowDoc == nil {
+		return nil, docErr
+	}
 	d.rolodex = lowDoc.Rolodex
 
 	if docErr != nil {
@@ -344,6 +347,9 @@ func (d *document) BuildV3Model() (*DocumentModel[v3high.Document], error) {
 
 	var docErr error
 	lowDoc, docErr = v3low.CreateDocumentFromConfig(d.info, d.config)
+	if lowDoc == nil {
+		return nil, docErr
+	}
 	d.rolodex = lowDoc.Rolodex
 
 	if docErr != nil {
-- 
2.43.0


From c5a630d4c499f09ddc9fe7a1bdec343dac6ec31c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:13:35 +0000
Subject: [PATCH 36/86] fix: document creation reports info build errors

---
 datamodel/low/v3/create_document.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datamodel/low/v3/create_document.go b/datamodel/low/v3/create_document.go
index 572bf31..34e3f05 100644
--- a/datamodel/low/v3/create_document.go
+++ b/datamodel/low/v3/create_document.go
@@ -379,9 +379,12 @@ func extractInfo(ctx context.Context, root *yaml.Node, nodes documentTopLevelNod
 	if vn != nil {
 		ir := base.Info{}
 		_ = low.BuildModel(vn, &ir)
-		_ = ir.Build(ctx, ln, vn, idx)
+		err := ir.Build(ctx, ln, vn, idx)
 		nr := low.NodeReference[*base.Info]{Value: &ir, ValueNode: vn, KeyNode: ln}
 		doc.Info = nr
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 9c76acfb2c3e7b0c0ba528bb46faea638cf353bb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:19:12 +0000
Subject: [PATCH 37/86] fix: RenderInline reports rendering errors

---
 datamodel/high/base/tag.go        | 5 ++++-
 datamodel/high/v3/callback.go     | 5 ++++-
 datamodel/high/v3/components.go   | 5 ++++-
 datamodel/high/v3/header.go       | 5 ++++-
 datamodel/high/v3/media_type.go   | 5 ++++-
 datamodel/high/v3/operation.go    | 5 ++++-
 datamodel/high/v3/parameter.go    | 5 ++++-
 datamodel/high/v3/path_item.go    | 5 ++++-
 datamodel/high/v3/paths.go        | 5 ++++-
 datamodel/high/v3/request_body.go | 5 ++++-
 datamodel/high/v3/response.go     | 5 ++++-
 datamodel/high/v3/responses.go    | 5 ++++-
 12 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/datamodel/high/base/tag.go b/datamodel/high/base/tag.go
index 988f613..9fcb98d 100644
--- a/datamodel/high/base/tag.go
+++ b/datamodel/high/base/tag.go
@@ -71,7 +71,10 @@ func (t *Tag) Render() ([]byte, error) {
 
 // Render will return a YAML representation of the Info object as a byte slice.
 func (t *Tag) RenderInline() ([]byte, error) {
-	d, _ := t.MarshalYAMLInline()
+	d, err := t.MarshalYAMLInline()
+	if err != nil {
+		return nil, err
+	}
 	return yaml.Marshal(d)
 }
 
diff --git a/datamodel/high/v3/callback.go b/datamodel/high/v3/callback.go
index f5c79f9..0bb289d 100644
--- a/datamodel/high/v3/callback.go
+++ b/datamodel/high/v3/callback.go
@@ -78,7 +78,10 @@ func (c *Callback) Render() ([]byte, error) {
 
 // RenderInline will return an YAML representation of the Callback object as a byte slice with references resolved.
 func (c *Callback) RenderInline() ([]byte, error) {
-	d, _ := c.MarshalYAMLInline()
+	d, err := c.MarshalYAMLInline()
+	if err != nil {
+		return nil, err
+	}
 	return yaml.Marshal(d)
 }
 
diff --git a/datamodel/high/v3/components.go b/datamodel/high/v3/components.go
index 3d8b8c5..94ce569 100644
--- a/datamodel/high/v3/components.go
+++ b/datamodel/high/v3/components.go
@@ -184,7 +184,10 @@ func (c *Components) MarshalYAML() (interface{}, error) {
 
 // RenderInline will return a YAML representation of the Components object as a byte slice with references resolved.
 func (c *Components) RenderInline() ([]byte, error) {
-	d, _ := c.MarshalYAMLInline()
+	d, err := c.MarshalYAMLInline()
+	if err != nil {
+		return nil, err
+	}
 	return yaml.Marshal(d)
 }
 
diff --git a/datamodel/high/v3/header.go b/datamodel/high/v3/header.go
index 2d9cd52..78d9e3d 100644
--- a/datamodel/high/v3/header.go
+++ b/datamodel/high/v3/header.go
@@ -104,7 +104,10 @@ func (h *Header) Render() ([]byte, error) {
 
 // RenderInline will return a YAML representation of the Header object as a byte slice with references resolved.
 func (h *Header) RenderInline() ([]byte, error) {
-	d, _ := h.MarshalYAMLInline()
+	d, err := h.MarshalYAMLInline()
+	if err != nil {
+		return nil, err
+	}
 	return yaml.Marshal(d)
 }
 
diff --git a/datamodel/high/v3/media_type.go b/datamodel/high/v3/media_type.go
index 4609069..776c75f 100644
--- a/datamodel/high/v3/media_type.go
+++ b/datamodel/high/v3/media_type.go
@@ -66,7 +66,10 @@ func (m *MediaType) Render() ([]byte, error) {
 }
 
 func (m *MediaType) RenderInline() ([]byte, error) {
-	d, _ := m.MarshalYAMLInline()
+	d, err := m.MarshalYAMLInline()
+	if err != nil {
+		return nil, err
+	}
 	return yaml.Marshal(d)
 }
 
diff --git a/datamodel/high/v3/operation.go b/datamodel/high/v3/operation.go
index 25cc1e3..b715341 100644
--- a/datamodel/high/v3/operation.go
+++ b/datamodel/high/v3/operation.go
@@ -106,7 +106,10 @@ func (o *Operation) Render() ([]byte, error) {
 }
 
 func (o *Operation) RenderInline() ([]byte, error) {
-	d, _ := o.MarshalYAMLInline()
+	d, err := o.MarshalYAMLInline()
+	if err != nil {
+		return nil, err
+	}
 	return yaml.Marshal(d)
 }
 
diff --git a/datamodel/high/v3/parameter.go b/datamodel/high/v3/parameter.go
index f7ac1f2..8cc26a2 100644
--- a/datamodel/high/v3/parameter.go
+++ b/datamodel/high/v3/parameter.go
@@ -117,7 +117,10 @@ func (p *Parameter) Render() ([]byte, error) {
 }
 
 func (p *Parameter) RenderInline() ([]byte, error) {
-	d, _ := p.MarshalYAMLInline()
+	d, err := p.MarshalYAMLInline()
+	if err != nil {
+		return nil, err
+	}
 	return yaml.Marshal(d)
 }
 
diff --git a/datamodel/high/v3/path_item.go b/datamodel/high/v3/path_item.go
index 9c1c325..59f3626 100644
--- a/datamodel/high/v3/path_item.go
+++ b/datamodel/high/v3/path_item.go
@@ -257,7 +257,10 @@ func (p *PathItem) Render() ([]byte, error) {
 }
 
 func (p *PathItem) RenderInline() ([]byte, error) {
-	d, _ := p.MarshalYAMLInline()
+	d, err := p.MarshalYAMLInline()
+	if err != nil {
+		return nil, err
+	}
 	return yaml.Marshal(d)
 }
 
diff --git a/datamodel/high/v3/paths.go b/datamodel/high/v3/paths.go
index b50f80d..3a0d034 100644
--- a/datamodel/high/v3/paths.go
+++ b/datamodel/high/v3/paths.go
@@ -70,7 +70,10 @@ func (p *Paths) Render() ([]byte, error) {
 }
 
 func (p *Paths) RenderInline() ([]byte, error) {
-	d, _ := p.MarshalYAMLInline()
+	d, err := p.MarshalYAMLInline()
+	if err != nil {
+		return nil, err
+	}
 	return yaml.Marshal(d)
 }
 
diff --git a/datamodel/high/v3/request_body.go b/datamodel/high/v3/request_body.go
index 381e211..38ecdb2 100644
--- a/datamodel/high/v3/request_body.go
+++ b/datamodel/high/v3/request_body.go
@@ -75,7 +75,10 @@ func (r *RequestBody) Render() ([]byte, error) {
 }
 
 func (r *RequestBody) RenderInline() ([]byte, error) {
-	d, _ := r.MarshalYAMLInline()
+	d, err := r.MarshalYAMLInline()
+	if err != nil {
+		return nil, err
+	}
 	return yaml.Marshal(d)
 }
 
diff --git a/datamodel/high/v3/response.go b/datamodel/high/v3/response.go
index 418065b..4e5811c 100644
--- a/datamodel/high/v3/response.go
+++ b/datamodel/high/v3/response.go
@@ -87,7 +87,10 @@ func (r *Response) Render() ([]byte, error) {
 }
 
 func (r *Response) RenderInline() ([]byte, error) {
-	d, _ := r.MarshalYAMLInline()
+	d, err := r.MarshalYAMLInline()
+	if err != nil {
+		return nil, err
+	}
 	return yaml.Marshal(d)
 }
 
diff --git a/datamodel/high/v3/responses.go b/datamodel/high/v3/responses.go
index ff48297..f8cb8f6 100644
--- a/datamodel/high/v3/responses.go
+++ b/datamodel/high/v3/responses.go
@@ -85,7 +85,10 @@ func (r *Responses) Render() ([]byte, error) {
 }
 
 func (r *Responses) RenderInline() ([]byte, error) {
-	d, _ := r.MarshalYAMLInline()
+	d, err := r.MarshalYAMLInline()
+	if err != nil {
+		return nil, err
+	}
 	return yaml.Marshal(d)
 }
 
-- 
2.43.0


From 1730c27c497d216ffca6bd861c9aa9c2cf1e0351 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 38/86] fix: a schema made by hand can be rendered

---
 datamodel/high/base/schema.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/datamodel/high/base/schema.go b/datamodel/high/base/schema.go
index 3a7059c..027463e 100644
--- a/datamodel/high/base/schema.go
+++ b/datamodel/high/base/schema.go
@@ -539,9 +539,8 @@ func (s *Schema) MarshalYAML() (interface{}, error) {
 	nb := high.NewNodeBuilder(s, s.low)
 
 	// determine index version
-	idx := s.GoLow().Index
-	if idx != nil {
-		if idx.GetConfig().SpecInfo != nil {
+	if s.low != nil && s.low.Index != nil {
+		if idx := s.low.Index; idx.GetConfig().SpecInfo != nil {
 			nb.Version = idx.GetConfig().SpecInfo.VersionNumeric
 		}
 	}
@@ -561,9 +560,8 @@ func (s *Schema) MarshalJSON() ([]byte, error) {
 	nb := high.NewNodeBuilder(s, s.low)
 
 	// determine index version
-	idx := s.GoLow().Index
-	if idx != nil {
-		if idx.GetConfig().SpecInfo != nil {
+	if s.low != nil && s.low.Index != nil {
+		if idx := s.low.Index; idx.GetConfig().SpecInfo != nil {
 			nb.Version = idx.GetConfig().SpecInfo.VersionNumeric
 		}
 	}
@@ -611,9 +609,8 @@ func (s *Schema) MarshalYAMLInlineWithContext(ctx any) (interface{}, error) {
 	nb.Resolve = true
 	nb.RenderContext = ctx
 	// determine index version
-	idx := s.GoLow().Index
-	if idx != nil {
-		if idx.GetConfig().SpecInfo != nil {
+	if s.low != nil && s.low.Index != nil {
+		if idx := s.low.Index; idx.GetConfig().SpecInfo != nil {
 			nb.Version = idx.GetConfig().SpecInfo.VersionNumeric
 		}
 	}
@@ -648,9 +645,8 @@ func (s *Schema) MarshalJSONInline() ([]byte, error) {
 	nb := high.NewNodeBuilder(s, s.low)
 	nb.Resolve = true
 	// determine index version
-	idx := s.GoLow().Index
-	if idx != nil {
-		if idx.GetConfig().SpecInfo != nil {
+	if s.low != nil && s.low.Index != nil {
+		if idx := s.low.Index; idx.GetConfig().SpecInfo != nil {
 			nb.Version = idx.GetConfig().SpecInfo.VersionNumeric
 		}
 	}
-- 
2.43.0


From 50d03c40edffc1a53cccab6ccb237a29bb16fdc3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 39/86] fix: looking up a response code in responses made by
 hand without codes no longer panics

---
 datamodel/high/v3/responses.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datamodel/high/v3/responses.go b/datamodel/high/v3/responses.go
index f8cb8f6..67ce4ae 100644
--- a/datamodel/high/v3/responses.go
+++ b/datamodel/high/v3/responses.go
@@ -66,6 +66,9 @@ func NewResponses(responses *low.Responses) *Responses {
 
 // FindResponseByCode is a shortcut for looking up code by an integer vs. a string
 func (r *Responses) FindResponseByCode(code int) *Response {
+	if r.Codes == nil {
+		return nil
+	}
 	return r.Codes.GetOrZero(fmt.Sprintf("%d", code))
 }
 
-- 
2.43.0


From ca249762cf099ec82e6e4f32cf3529859770a4e6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 40/86] fix: a mock can be rendered from a schema made by hand

---
 renderer/schema_renderer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/renderer/schema_renderer.go b/renderer/schema_renderer.go
index 9c3c8ba..37db0c3 100644
--- a/renderer/schema_renderer.go
+++ b/renderer/schema_renderer.go
@@ -279,7 +279,7 @@ func (wr *SchemaRenderer) DiveIntoSchema(schema *base.Schema, key string, struct
 	if slices.Contains(schema.Type, objectType) || (schema.Properties != nil && schema.Properties.Len() > 0) ||
 		schema.AllOf != nil || (schema.DependentSchemas != nil && schema.DependentSchemas.Len() > 0) || schema.OneOf != nil || schema.AnyOf != nil {
 
-		if schema.ParentProxy.IsReference() {
+		if schema.ParentProxy != nil && schema.ParentProxy.IsReference() {
 			if visited[schema.ParentProxy.GetReference()] {
 				return false
 			}
-- 
2.43.0


From 64fda5239c73f6944c940b22c35f7fafb79ffc6c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:49:56 +0000
Subject: [PATCH 41/86] fix: a required property that refers to something
 missing no longer panics circular checks

---
 index/resolver_circular.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/index/resolver_circular.go b/index/resolver_circular.go
index 836f4f4..f4417b6 100644
--- a/index/resolver_circular.go
+++ b/index/resolver_circular.go
@@ -99,6 +99,9 @@ func (resolver *Resolver) isInfiniteCircularDependency(
 	}
 	for refDefinition := range ref.RequiredRefProperties {
 		r, _ := resolver.specIndex.SearchIndexForReference(refDefinition)
+		if r == nil {
+			continue // the reference cannot be found, which is reported elsewhere.
+		}
 
 		// Direct loop back to the original starting reference — infinite cycle.
 		if initialRef != nil && initialRef.FullDefinition == r.FullDefinition {
-- 
2.43.0


From 39216849a89ccdaf6f88a84669c510a50d4365d4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:51:23 +0000
Subject: [PATCH 42/86] fix: looking for the origin of a node that is in no
 document no longer panics

---
 index/search_rolodex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/search_rolodex.go b/index/search_rolodex.go
index d61c6c5..6d46813 100644
--- a/index/search_rolodex.go
+++ b/index/search_rolodex.go
@@ -56,7 +56,7 @@ func (r *Rolodex) FindNodeOriginWithValue(key, value, refNode *yaml.Node, refVal
 					nHash := HashNode(n.Node)
 
 					if valueHash == nHash {
-						if keyOrigin.AbsoluteLocation != n.AbsoluteLocation {
+						if keyOrigin != nil && keyOrigin.AbsoluteLocation != n.AbsoluteLocation {
 							if refNode == nil && refValue == "" {
 								keyOrigin.AbsoluteLocationValue = n.AbsoluteLocation
 								keyOrigin.LineValue = n.Line
-- 
2.43.0


From 85cded0ff87957105e74d74de12076a4be20a2da Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:51:23 +0000
Subject: [PATCH 43/86] fix: a base address that is not a valid URL no longer
 panics

---
 datamodel/low/extraction_functions.go |  5 ++---
 index/extract_refs_ref.go             |  4 ++--
 index/resolver_paths.go               |  7 +++----
 index/resolver_relatives.go           |  7 +++----
 index/utility_methods.go              |  4 ++--
 utils/parse_url.go                    | 16 ++++++++++++++++
 6 files changed, 28 insertions(+), 15 deletions(-)
 create mode 100644 utils/parse_url.go

diff --git a/datamodel/low/extraction_functions.go b/datamodel/low/extraction_functions.go
index 222aeec..96d5c1f 100644
--- a/datamodel/low/extraction_functions.go
+++ b/datamodel/low/extraction_functions.go
@@ -14,7 +14,6 @@ import (
 	"go.yaml.in/yaml/v4"
 	"hash/maphash"
 	"math/big"
-	"net/url"
 	"os"
 	"path/filepath"
 	"reflect"
@@ -247,7 +246,7 @@ func LocateRefNodeWithContext(ctx context.Context, root *yaml.Node, idx *index.S
 					// The ref is not an absolute local file path.
 					if strings.HasPrefix(specPath, "http") {
 						// The schema containing the ref is itself a remote file.
-						u, _ := url.Parse(specPath)
+						u := utils.ParseURLOrOpaque(specPath)
 						// p is the directory the referenced file is expected to be in.
 						p := ""
 						if u.Path != "" && explodedRefValue[0] != "" {
@@ -307,7 +306,7 @@ func LocateRefNodeWithContext(ctx context.Context, root *yaml.Node, idx *index.S
 			if !strings.HasPrefix(explodedRefValue[0], "http") {
 				if !filepath.IsAbs(explodedRefValue[0]) {
 					if strings.HasPrefix(specPath, "http") {
-						u, _ := url.Parse(specPath)
+						u := utils.ParseURLOrOpaque(specPath)
 						p := filepath.Dir(u.Path)
 						abs, _ := filepath.Abs(utils.CheckPathOverlap(p, rv, string(os.PathSeparator)))
 						u.Path = utils.ReplaceWindowsDriveWithLinuxPath(abs)
diff --git a/index/extract_refs_ref.go b/index/extract_refs_ref.go
index 2aeef7f..ccedd95 100644
--- a/index/extract_refs_ref.go
+++ b/index/extract_refs_ref.go
@@ -229,7 +229,7 @@ func (index *SpecIndex) resolveReferenceTarget(value string) (string, string) {
 				// Relative path with a configured BaseURL — resolve against the base URL.
 				var u url.URL
 				if strings.HasPrefix(defRoot, "http") {
-					up, _ := url.Parse(defRoot)
+					up := utils.ParseURLOrOpaque(defRoot)
 					up.Path = utils.ReplaceWindowsDriveWithLinuxPath(filepath.Dir(up.Path))
 					u = *up
 				} else {
@@ -254,7 +254,7 @@ func (index *SpecIndex) resolveReferenceTarget(value string) (string, string) {
 		if strings.HasPrefix(defRoot, "http") {
 			// Spec root is remote — resolve the relative path against the remote URL.
 			if !filepath.IsAbs(uri[0]) {
-				u, _ := url.Parse(defRoot)
+				u := utils.ParseURLOrOpaque(defRoot)
 				pathDir := filepath.Dir(u.Path)
 				pathAbs, _ := filepath.Abs(utils.CheckPathOverlap(pathDir, uri[0], string(os.PathSeparator)))
 				pathAbs = utils.ReplaceWindowsDriveWithLinuxPath(pathAbs)
diff --git a/index/resolver_paths.go b/index/resolver_paths.go
index dc7d49e..db91524 100644
--- a/index/resolver_paths.go
+++ b/index/resolver_paths.go
@@ -4,7 +4,6 @@
 package index
 
 import (
-	"net/url"
 	"path"
 	"path/filepath"
 	"strings"
@@ -25,7 +24,7 @@ func (resolver *Resolver) buildDefPath(ref *Reference, l string) string {
 					// Relative file path — resolve against the parent ref's location.
 					if strings.HasPrefix(ref.FullDefinition, "http") {
 						// Parent is a remote URL: resolve relative path against the URL's directory.
-						u, _ := url.Parse(ref.FullDefinition)
+						u := utils.ParseURLOrOpaque(ref.FullDefinition)
 						p, _ := filepath.Abs(utils.CheckPathOverlap(path.Dir(u.Path), exp[0], string(filepath.Separator)))
 						u.Path = utils.ReplaceWindowsDriveWithLinuxPath(p)
 						def = l
@@ -58,7 +57,7 @@ func (resolver *Resolver) buildDefPath(ref *Reference, l string) string {
 			}
 		} else if strings.HasPrefix(ref.FullDefinition, "http") {
 			// Fragment-only ref (e.g. "#/components/schemas/Foo") with a remote parent.
-			u, _ := url.Parse(ref.FullDefinition)
+			u := utils.ParseURLOrOpaque(ref.FullDefinition)
 			u.Fragment = ""
 			def = u.String() + "#/" + exp[1]
 		} else if strings.HasPrefix(ref.FullDefinition, "#/") {
@@ -74,7 +73,7 @@ func (resolver *Resolver) buildDefPath(ref *Reference, l string) string {
 		def = l
 	} else if strings.HasPrefix(ref.FullDefinition, "http") {
 		// No fragment, relative path with a remote parent — resolve against the URL.
-		u, _ := url.Parse(ref.FullDefinition)
+		u := utils.ParseURLOrOpaque(ref.FullDefinition)
 		abs, _ := filepath.Abs(utils.CheckPathOverlap(path.Dir(u.Path), l, string(filepath.Separator)))
 		u.Path = utils.ReplaceWindowsDriveWithLinuxPath(abs)
 		u.Fragment = ""
diff --git a/index/resolver_relatives.go b/index/resolver_relatives.go
index 4fee92f..959a39e 100644
--- a/index/resolver_relatives.go
+++ b/index/resolver_relatives.go
@@ -5,7 +5,6 @@ package index
 
 import (
 	"fmt"
-	"net/url"
 	"path"
 	"path/filepath"
 	"strings"
@@ -221,7 +220,7 @@ func (resolver *Resolver) buildRelativeLookupDefinitions(ref *Reference, value,
 			} else if strings.HasPrefix(ref.FullDefinition, "http") {
 				// Relative file path, but the parent ref is remote — resolve against the URL.
 				httpExp := strings.Split(ref.FullDefinition, "#/")
-				u, _ := url.Parse(httpExp[0])
+				u := utils.ParseURLOrOpaque(httpExp[0])
 				abs, _ := filepath.Abs(utils.CheckPathOverlap(path.Dir(u.Path), exp[0], string(filepath.Separator)))
 				u.Path = utils.ReplaceWindowsDriveWithLinuxPath(abs)
 				u.Fragment = ""
@@ -240,7 +239,7 @@ func (resolver *Resolver) buildRelativeLookupDefinitions(ref *Reference, value,
 			}
 			if strings.HasPrefix(baseLocation, "http") {
 				httpExp := strings.Split(baseLocation, "#/")
-				u, _ := url.Parse(httpExp[0])
+				u := utils.ParseURLOrOpaque(httpExp[0])
 				fullDef = fmt.Sprintf("%s#/%s", u.String(), exp[1])
 			} else {
 				fileDef := strings.Split(baseLocation, "#/")
@@ -258,7 +257,7 @@ func (resolver *Resolver) buildRelativeLookupDefinitions(ref *Reference, value,
 		}
 		fileDef := strings.Split(baseLocation, "#/")
 		if strings.HasPrefix(fileDef[0], "http") {
-			u, _ := url.Parse(fileDef[0])
+			u := utils.ParseURLOrOpaque(fileDef[0])
 			absPath, _ := filepath.Abs(utils.CheckPathOverlap(path.Dir(u.Path), exp[0], string(filepath.Separator)))
 			u.Path = utils.ReplaceWindowsDriveWithLinuxPath(absPath)
 			fullDef = u.String()
diff --git a/index/utility_methods.go b/index/utility_methods.go
index d201dca..d1421f8 100644
--- a/index/utility_methods.go
+++ b/index/utility_methods.go
@@ -131,7 +131,7 @@ func extractRequiredReferenceProperties(fulldef string, requiredPropDefNode *yam
 		if len(exp) == 2 {
 			if exp[0] != "" {
 				if strings.HasPrefix(exp[0], "http") {
-					u, _ := url.Parse(exp[0])
+					u := utils.ParseURLOrOpaque(exp[0])
 					r := strings.Split(refName, "#/")
 					if len(r) == 2 {
 						var abs string
@@ -176,7 +176,7 @@ func extractRequiredReferenceProperties(fulldef string, requiredPropDefNode *yam
 			}
 		} else {
 			if strings.HasPrefix(exp[0], "http") {
-				u, _ := url.Parse(exp[0])
+				u := utils.ParseURLOrOpaque(exp[0])
 				r := strings.Split(refName, "#/")
 				if len(r) == 2 {
 					abs, _ := filepath.Abs(utils.CheckPathOverlap(filepath.Dir(u.Path), r[0], string(os.PathSeparator)))
diff --git a/utils/parse_url.go b/utils/parse_url.go
new file mode 100644
index 0000000..374e166
--- /dev/null
+++ b/utils/parse_url.go
@@ -0,0 +1,16 @@
+// Copyright 2022-2026 Dave Shanley / Quobix
+// SPDX-License-Identifier: MIT
+
+package utils
+
+import "net/url"
+
+// ParseURLOrOpaque parses a URL. A string that is not a valid URL is kept as it is, as the opaque part of the
+// result, so that what is built from it cannot be found, instead of there being no result at all.
+func ParseURLOrOpaque(raw string) *url.URL {
+	u, err := url.Parse(raw)
+	if err != nil {
+		return &url.URL{Opaque: raw}
+	}
+	return u
+}
-- 
2.43.0


From 8672afb6bba79f49a3ef30143efe2de3d0d64d09 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 44/86] fix: a reference to an empty file no longer panics

---
 datamodel/low/v3/path_item.go    |  4 ++--
 index/find_component_external.go |  2 +-
 index/map_index_nodes.go         |  2 +-
 index/search_index.go            |  4 ++--
 index/spec_index_build.go        |  2 +-
 index/spec_index_counts.go       | 18 +++++++++++++++---
 6 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/datamodel/low/v3/path_item.go b/datamodel/low/v3/path_item.go
index 05be6cc..ed534d6 100644
--- a/datamodel/low/v3/path_item.go
+++ b/datamodel/low/v3/path_item.go
@@ -472,14 +472,14 @@ func resolveOperationReference(ctx context.Context, pathNode *yaml.Node, idx *in
 		opRefNode = pathNode
 		r, newIdx, err, nCtx := low.LocateRefNodeWithContext(ctx, pathNode, idx)
 		if r != nil {
-			if r.Kind == yaml.DocumentNode {
+			if r.Kind == yaml.DocumentNode && len(r.Content) > 0 {
 				r = r.Content[0]
 			}
 			pathNode = r
 			foundContext = nCtx
 			foundContext = context.WithValue(foundContext, index.FoundIndexKey, newIdx)
 
-			if r.Tag == "" {
+			if r.Tag == "" && len(r.Content) > 0 {
 				// If it's a node from file, tag is empty
 				pathNode = r.Content[0]
 			}
diff --git a/index/find_component_external.go b/index/find_component_external.go
index cf0727b..a95741a 100644
--- a/index/find_component_external.go
+++ b/index/find_component_external.go
@@ -70,7 +70,7 @@ func (index *SpecIndex) lookupRolodex(ctx context.Context, uri []string) *Refere
 	}
 
 	if wholeFile {
-		if parsedDocument != nil && parsedDocument.Kind == yaml.DocumentNode {
+		if parsedDocument != nil && parsedDocument.Kind == yaml.DocumentNode && len(parsedDocument.Content) > 0 {
 			parsedDocument = parsedDocument.Content[0]
 		}
 		var parentNode *yaml.Node
diff --git a/index/map_index_nodes.go b/index/map_index_nodes.go
index 84cb1f1..5c8975d 100644
--- a/index/map_index_nodes.go
+++ b/index/map_index_nodes.go
@@ -97,7 +97,7 @@ func (index *SpecIndex) MapNodes(rootNode *yaml.Node) {
 }
 
 func mapNodesRecursive(node *yaml.Node, lines [][]nodeLineEntry) [][]nodeLineEntry {
-	if node.Kind == yaml.DocumentNode {
+	if node.Kind == yaml.DocumentNode && len(node.Content) > 0 {
 		node = node.Content[0]
 	}
 	for _, child := range node.Content {
diff --git a/index/search_index.go b/index/search_index.go
index e031711..9434d69 100644
--- a/index/search_index.go
+++ b/index/search_index.go
@@ -304,7 +304,7 @@ func (index *SpecIndex) SearchIndexForReferenceByReferenceWithContext(ctx contex
 			normRef := filepath.ToSlash(refParsed)
 			if strings.HasSuffix(normPath, normRef) {
 				node, _ := rFile.GetContentAsYAMLNode()
-				if node != nil {
+				if node != nil && len(node.Content) > 0 {
 					r := &Reference{
 						FullDefinition: n,
 						Definition:     n,
@@ -350,7 +350,7 @@ func (index *SpecIndex) SearchIndexForReferenceByReferenceWithContext(ctx contex
 
 				// does component exist in the root?
 				node, _ := rFile.GetContentAsYAMLNode()
-				if node != nil {
+				if node != nil && len(node.Content) > 0 {
 					var found *Reference
 					expFile, expFragment, expCut := strings.Cut(ref, "#/")
 					compId := ref
diff --git a/index/spec_index_build.go b/index/spec_index_build.go
index 544696d..e674e5d 100644
--- a/index/spec_index_build.go
+++ b/index/spec_index_build.go
@@ -58,7 +58,7 @@ func NewSpecIndex(rootNode *yaml.Node) *SpecIndex {
 }
 
 func createNewIndex(ctx context.Context, rootNode *yaml.Node, index *SpecIndex, avoidBuildOut bool) *SpecIndex {
-	if rootNode == nil {
+	if rootNode == nil || len(rootNode.Content) == 0 {
 		return index
 	}
 	index.nodeMapCompleted = make(chan struct{})
diff --git a/index/spec_index_counts.go b/index/spec_index_counts.go
index 37e1280..8eeb62b 100644
--- a/index/spec_index_counts.go
+++ b/index/spec_index_counts.go
@@ -14,7 +14,7 @@ import (
 
 // GetPathCount returns the number of paths defined in the specification. Returns -1 if root is nil.
 func (index *SpecIndex) GetPathCount() int {
-	if index.root == nil {
+	if index.root == nil || len(index.root.Content) == 0 {
 		return -1
 	}
 	if index.pathCount > 0 {
@@ -22,6 +22,9 @@ func (index *SpecIndex) GetPathCount() int {
 	}
 	pc := 0
 	for i, n := range index.root.Content[0].Content {
+		if i+1 >= len(index.root.Content[0].Content) {
+			break // a key without a value, the root is not a map.
+		}
 		if i%2 == 0 && n.Value == "paths" {
 			pn := index.root.Content[0].Content[i+1].Content
 			index.pathsNode = index.root.Content[0].Content[i+1]
@@ -62,13 +65,16 @@ func (index *SpecIndex) ExtractExternalDocuments(node *yaml.Node) []*Reference {
 // GetGlobalTagsCount returns the number of top-level tags and also extracts tag references
 // and checks for circular parent references. Returns -1 if root is nil.
 func (index *SpecIndex) GetGlobalTagsCount() int {
-	if index.root == nil {
+	if index.root == nil || len(index.root.Content) == 0 {
 		return -1
 	}
 	if index.globalTagsCount > 0 {
 		return index.globalTagsCount
 	}
 	for i, n := range index.root.Content[0].Content {
+		if i+1 >= len(index.root.Content[0].Content) {
+			break // a key without a value, the root is not a map.
+		}
 		if i%2 == 0 && n.Value == "tags" {
 			tagsNode := index.root.Content[0].Content[i+1]
 			if tagsNode != nil {
@@ -338,6 +344,9 @@ func (index *SpecIndex) GetComponentSchemaCount() int {
 	}
 
 	for i, n := range index.root.Content[0].Content {
+		if i+1 >= len(index.root.Content[0].Content) {
+			break // a key without a value, the root is not a map.
+		}
 		if i%2 != 0 {
 			continue
 		}
@@ -466,13 +475,16 @@ func (index *SpecIndex) GetComponentSchemaCount() int {
 
 // GetComponentParameterCount returns the number of component-level parameter definitions.
 func (index *SpecIndex) GetComponentParameterCount() int {
-	if index.root == nil {
+	if index.root == nil || len(index.root.Content) == 0 {
 		return -1
 	}
 	if index.componentParamCount > 0 {
 		return index.componentParamCount
 	}
 	for i, n := range index.root.Content[0].Content {
+		if i+1 >= len(index.root.Content[0].Content) {
+			break // a key without a value, the root is not a map.
+		}
 		if i%2 == 0 {
 			if n.Value == "components" {
 				_, parametersNode := utils.FindKeyNode("parameters", index.root.Content[0].Content[i+1].Content)
-- 
2.43.0


From 6cca3480638cfb87409c1158c32941361d87445a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 45/86] fix: a missing reference behind an alias no longer
 panics

---
 datamodel/low/base/schema_build.go         | 3 ++-
 datamodel/low/base/schema_build_helpers.go | 5 +++--
 datamodel/low/v3/path_item.go              | 3 ++-
 datamodel/low/v3/paths.go                  | 9 ++++++---
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/datamodel/low/base/schema_build.go b/datamodel/low/base/schema_build.go
index 597763a..fc13546 100644
--- a/datamodel/low/base/schema_build.go
+++ b/datamodel/low/base/schema_build.go
@@ -80,8 +80,9 @@ func (s *Schema) Build(ctx context.Context, root *yaml.Node, idx *index.SpecInde
 					}
 				}
 			} else {
+				refNode := utils.GetRefValueNode(root)
 				return fmt.Errorf("build schema failed: reference cannot be found: '%s', line %d, col %d",
-					root.Content[1].Value, root.Content[1].Line, root.Content[1].Column)
+					refNode.Value, refNode.Line, refNode.Column)
 			}
 		}
 	}
diff --git a/datamodel/low/base/schema_build_helpers.go b/datamodel/low/base/schema_build_helpers.go
index 0332845..8436223 100644
--- a/datamodel/low/base/schema_build_helpers.go
+++ b/datamodel/low/base/schema_build_helpers.go
@@ -224,9 +224,10 @@ func resolveSchemaBuildInput(ctx context.Context, valueNode *yaml.Node, idx *ind
 }
 
 func schemaReferenceBuildError(errFormat string, valueNode *yaml.Node) error {
-	refValue := valueNode.Content[1].Value
+	refNode := utils.GetRefValueNode(valueNode)
+	refValue := refNode.Value
 	if refValue == "" {
 		refValue = "[empty]"
 	}
-	return fmt.Errorf(errFormat, refValue, valueNode.Content[1].Line, valueNode.Content[1].Column)
+	return fmt.Errorf(errFormat, refValue, refNode.Line, refNode.Column)
 }
diff --git a/datamodel/low/v3/path_item.go b/datamodel/low/v3/path_item.go
index ed534d6..a0f4f8d 100644
--- a/datamodel/low/v3/path_item.go
+++ b/datamodel/low/v3/path_item.go
@@ -490,8 +490,9 @@ func resolveOperationReference(ctx context.Context, pathNode *yaml.Node, idx *in
 				}
 			}
 		} else {
+			refNode := utils.GetRefValueNode(pathNode)
 			return nil, nil, false, "", nil, fmt.Errorf("path item build failed: cannot find reference: %s at line %d, col %d",
-				pathNode.Content[1].Value, pathNode.Content[1].Line, pathNode.Content[1].Column)
+				ref, refNode.Line, refNode.Column)
 		}
 	} else {
 		foundContext = context.WithValue(foundContext, index.FoundIndexKey, idx)
diff --git a/datamodel/low/v3/paths.go b/datamodel/low/v3/paths.go
index d8828dd..d520019 100644
--- a/datamodel/low/v3/paths.go
+++ b/datamodel/low/v3/paths.go
@@ -184,9 +184,11 @@ func extractPathItemsMap(ctx context.Context, root *yaml.Node, idx *index.SpecIn
 			foundContext := ctx
 			var isRef bool
 			var refNode *yaml.Node
-			if ok, _, _ := utils.IsNodeRefValue(pNode); ok {
+			var refValue string
+			if ok, _, ref := utils.IsNodeRefValue(pNode); ok {
 				isRef = true
 				refNode = pNode
+				refValue = ref
 				r, _, err, fCtx := low.LocateRefNodeWithContext(ctx, pNode, idx)
 				if r != nil {
 					pNode = r
@@ -195,8 +197,9 @@ func extractPathItemsMap(ctx context.Context, root *yaml.Node, idx *index.SpecIn
 						return buildResult{}, fmt.Errorf("path item build failed: %s", err.Error())
 					}
 				} else {
+					refValueNode := utils.GetRefValueNode(pNode)
 					return buildResult{}, fmt.Errorf("path item build failed: cannot find reference: '%s' at line %d, col %d",
-						pNode.Content[1].Value, pNode.Content[1].Line, pNode.Content[1].Column)
+						ref, refValueNode.Line, refValueNode.Column)
 				}
 			}
 
@@ -205,7 +208,7 @@ func extractPathItemsMap(ctx context.Context, root *yaml.Node, idx *index.SpecIn
 			err := path.Build(foundContext, cNode, pNode, idx)
 
 			if isRef {
-				path.SetReference(refNode.Content[1].Value, refNode)
+				path.SetReference(refValue, refNode)
 			}
 
 			if err != nil && idx != nil && idx.GetLogger() != nil {
-- 
2.43.0


From 8f30f5791beeed7b2a48db8e67c02f18006c9c39 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 46/86] fix: a parameter that is the list [$ref] no longer
 panics

---
 index/utility_methods.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/utility_methods.go b/index/utility_methods.go
index d1421f8..6e16041 100644
--- a/index/utility_methods.go
+++ b/index/utility_methods.go
@@ -424,7 +424,7 @@ func formatParameterPath(pathValue, method string, index int) string {
 func (index *SpecIndex) scanOperationParams(params []*yaml.Node, keyNode, pathItemNode *yaml.Node, method string) {
 	for i, param := range params {
 		// param is ref
-		if len(param.Content) > 0 && param.Content[0].Value == "$ref" {
+		if len(param.Content) > 1 && param.Content[0].Value == "$ref" {
 
 			paramRefName := param.Content[1].Value
 			paramRef := index.allMappedRefs[paramRefName]
-- 
2.43.0


From d508c23067da0924e0c8a61b3bcd5ac40a537bda Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 47/86] fix: a pointer with a huge index, or to the whole
 document, no longer panics

---
 datamodel/low/extraction_fragment.go |  3 +++
 index/schema_id_resolve.go           | 15 +++++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/datamodel/low/extraction_fragment.go b/datamodel/low/extraction_fragment.go
index c775b1a..dd680fb 100644
--- a/datamodel/low/extraction_fragment.go
+++ b/datamodel/low/extraction_fragment.go
@@ -73,6 +73,9 @@ func lookupFragmentSequenceValue(node *yaml.Node, segment string) *yaml.Node {
 			return nil
 		}
 		index = index*10 + int(c-'0')
+		if index >= len(node.Content) {
+			return nil
+		}
 	}
 	if index >= len(node.Content) {
 		return nil
diff --git a/index/schema_id_resolve.go b/index/schema_id_resolve.go
index 1b1328f..457686f 100644
--- a/index/schema_id_resolve.go
+++ b/index/schema_id_resolve.go
@@ -259,18 +259,18 @@ func navigateToFragment(root *yaml.Node, fragment string) *yaml.Node {
 		return nil
 	}
 
+	current := root
+	if current.Kind == yaml.DocumentNode && len(current.Content) > 0 {
+		current = current.Content[0]
+	}
+
 	path := strings.TrimPrefix(fragment, "#")
 	if path == "" || path == "/" {
-		return root
+		return current
 	}
 
 	segments := strings.Split(strings.TrimPrefix(path, "/"), "/")
 
-	current := root
-	if current.Kind == yaml.DocumentNode && len(current.Content) > 0 {
-		current = current.Content[0]
-	}
-
 	for _, segment := range segments {
 		if segment == "" {
 			continue
@@ -296,6 +296,9 @@ func navigateToFragment(root *yaml.Node, fragment string) *yaml.Node {
 					return nil
 				}
 				idx = idx*10 + int(c-'0')
+				if idx >= len(current.Content) {
+					return nil
+				}
 			}
 			if idx < len(current.Content) {
 				current = current.Content[idx]
-- 
2.43.0


From 5b9bda1b0119a7cffa2aa60ca80ae17137f5f9ab Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 48/86] fix: a discriminator that refers to a whole file no
 longer panics the bundler

---
 bundler/bundler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bundler/bundler.go b/bundler/bundler.go
index 8bdadc5..9bef054 100644
--- a/bundler/bundler.go
+++ b/bundler/bundler.go
@@ -905,6 +905,9 @@ func collectExternalDiscriminatorSchemas(rolodex *index.Rolodex, rootIdx *index.
 		// Parse the full definition to get the original ref
 		// Format: "/absolute/path/to/file.yaml#/components/schemas/SchemaName"
 		parts := strings.Split(fullDef, "#")
+		if len(parts) < 2 {
+			continue // a whole file, there is no schema to look for in it.
+		}
 		filePath := parts[0]
 		jsonPointer := "#" + parts[1]
 
-- 
2.43.0


From c6b0d22f55a75c7e27f9171e826da4cef9f1def6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 49/86] fix: an empty document can be turned into JSON

---
 json/json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json/json.go b/json/json.go
index 5c3737e..e306ec4 100644
--- a/json/json.go
+++ b/json/json.go
@@ -22,6 +22,9 @@ func YAMLNodeToJSON(node *yaml.Node, indentation string) ([]byte, error) {
 func handleYAMLNode(node *yaml.Node) (any, error) {
 	switch node.Kind {
 	case yaml.DocumentNode:
+		if len(node.Content) == 0 {
+			return nil, nil
+		}
 		return handleYAMLNode(node.Content[0])
 	case yaml.SequenceNode:
 		return handleSequenceNode(node)
-- 
2.43.0


From ed9bcdb654e2bb54fea060011c0ec7f812a5325a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 50/86] fix: asking whether blank text is JSON no longer panics

---
 utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/utils.go b/utils/utils.go
index 8ea2dcd..013b47f 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -864,7 +864,7 @@ func IsJSON(testString string) bool {
 		return false
 	}
 	runes := []rune(strings.TrimSpace(testString))
-	if runes[0] == '{' && runes[len(runes)-1] == '}' {
+	if len(runes) > 0 && runes[0] == '{' && runes[len(runes)-1] == '}' {
 		return true
 	}
 	return false
-- 
2.43.0


From c425f38a91a42fbb3522ab1e918c7c2a8212d6ba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 51/86] fix: a mock of a schema with an empty list of examples
 no longer panics

---
 renderer/mock_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/renderer/mock_generator.go b/renderer/mock_generator.go
index ecb7c75..f8f2dbf 100644
--- a/renderer/mock_generator.go
+++ b/renderer/mock_generator.go
@@ -215,7 +215,7 @@ func (mg *MockGenerator) GenerateMock(mock any, name string) ([]byte, error) {
 
 	if schemaValue != nil {
 
-		if schemaValue.Examples != nil {
+		if len(schemaValue.Examples) > 0 {
 			if name != "" {
 				if i, err := strconv.Atoi(name); err == nil {
 					if i < len(schemaValue.Examples) {
-- 
2.43.0


From 0e6e1ed48ff0901b2d1ffba45ee94be3f55a0acc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 52/86] fix: an extracted reference to a whole file no longer
 panics

---
 index/rolodex_ref_extractor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/index/rolodex_ref_extractor.go b/index/rolodex_ref_extractor.go
index a11b97d..dd8b052 100644
--- a/index/rolodex_ref_extractor.go
+++ b/index/rolodex_ref_extractor.go
@@ -41,6 +41,9 @@ func (r *ExtractedRef) GetReference() string {
 	switch r.Type {
 	case File, HTTP:
 		location := strings.Split(r.Location, "#/")
+		if len(location) < 2 {
+			return "" // the whole file is referenced.
+		}
 		return fmt.Sprintf("#/%s", location[1])
 	default:
 		return r.Location
-- 
2.43.0


From c649bb8c22f16ff9f7bf7abb22f19afa33dbeb86 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:13:27 +0000
Subject: [PATCH 53/86] fix: a mapped reference that was resolved to a scalar
 can be turned into JSON

---
 index/index_model.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/index/index_model.go b/index/index_model.go
index 5e159d3..0206702 100644
--- a/index/index_model.go
+++ b/index/index_model.go
@@ -66,8 +66,10 @@ func (rm *ReferenceMapped) MarshalJSON() ([]byte, error) {
 		"jsonPath":       rm.OriginalReference.Path,
 		"line":           rm.OriginalReference.Node.Line,
 		"startColumn":    rm.OriginalReference.Node.Column,
-		"endColumn": rm.OriginalReference.Node.Content[1].Column +
-			(len(rm.OriginalReference.Node.Content[1].Value) + 2),
+	}
+	// once resolved, the node may no longer hold the reference.
+	if content := rm.OriginalReference.Node.Content; len(content) > 1 {
+		d["endColumn"] = content[1].Column + (len(content[1].Value) + 2)
 	}
 	if rm.IsPolymorphic {
 		d["isPolymorphic"] = true
-- 
2.43.0


From 2c950889fcf51580eecf9245dc158531d99b3aae Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:48:53 +0000
Subject: [PATCH 54/86] fix: two files being indexed concurrently that
 reference each other no longer wait for each other forever

---
 index/find_component_external.go |  2 +-
 index/rolodex.go                 | 54 ++++++++++++++++++++++++++++++++
 2 files changed, 55 insertions(+), 1 deletion(-)

diff --git a/index/find_component_external.go b/index/find_component_external.go
index a95741a..5346ada 100644
--- a/index/find_component_external.go
+++ b/index/find_component_external.go
@@ -53,7 +53,7 @@ func (index *SpecIndex) lookupRolodex(ctx context.Context, uri []string) *Refere
 			return nil
 		}
 		if rFile.GetIndex() == nil && !IsFileBeingIndexed(ctx, absoluteFileLocation) {
-			rFile.WaitForIndexing()
+			index.rolodex.awaitFileIndexing(ctx, rFile)
 		}
 		if rFile.GetIndex() != nil {
 			idx = rFile.GetIndex()
diff --git a/index/rolodex.go b/index/rolodex.go
index bd955a8..b0072b1 100644
--- a/index/rolodex.go
+++ b/index/rolodex.go
@@ -89,6 +89,60 @@ type Rolodex struct {
 	id                         string // unique ID for the rolodex, can be used to identify it in logs or other contexts.
 	globalSchemaIdRegistry     map[string]*SchemaIdEntry
 	schemaIdRegistryLock       sync.RWMutex
+	indexWaits                 map[string]map[string]int // file being indexed -> files its call chain waits for
+	indexWaitLock              sync.Mutex                // protects indexWaits
+}
+
+// awaitFileIndexing waits for a file that another call chain is indexing. It returns at once when that
+// chain is itself waiting, directly or through others, for a file being indexed by this one: neither of
+// them would ever finish.
+func (r *Rolodex) awaitFileIndexing(ctx context.Context, file RolodexFile) {
+	target := file.GetFullPath()
+	chain := GetIndexingFiles(ctx)
+
+	r.indexWaitLock.Lock()
+	if r.indexingWaitsFor(target, chain, make(map[string]bool)) {
+		r.indexWaitLock.Unlock()
+		return
+	}
+	if r.indexWaits == nil {
+		r.indexWaits = make(map[string]map[string]int)
+	}
+	for indexing := range chain {
+		if r.indexWaits[indexing] == nil {
+			r.indexWaits[indexing] = make(map[string]int)
+		}
+		r.indexWaits[indexing][target]++
+	}
+	r.indexWaitLock.Unlock()
+
+	file.WaitForIndexing()
+
+	r.indexWaitLock.Lock()
+	for indexing := range chain {
+		if r.indexWaits[indexing][target]--; r.indexWaits[indexing][target] <= 0 {
+			delete(r.indexWaits[indexing], target)
+		}
+	}
+	r.indexWaitLock.Unlock()
+}
+
+// indexingWaitsFor reports whether indexing location waits for any of the files in chain.
+// The caller holds indexWaitLock.
+func (r *Rolodex) indexingWaitsFor(location string, chain, seen map[string]bool) bool {
+	if chain[location] {
+		return true
+	}
+	if seen[location] {
+		return false
+	}
+	seen[location] = true
+	for next := range r.indexWaits[location] {
+		if r.indexingWaitsFor(next, chain, seen) {
+			return true
+		}
+	}
+	return false
 }
 
 // Release nils all fields that can pin YAML node trees, SpecIndex objects, or
-- 
2.43.0


From 3669778ea4362743303d9b961257a3fee61778a8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 55/86] fix: a Swagger build that fails no longer leaves its
 remaining builders blocked forever

---
 datamodel/low/v2/definitions.go | 18 ++++++++++++------
 datamodel/low/v2/path_item.go   |  6 ++++--
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/datamodel/low/v2/definitions.go b/datamodel/low/v2/definitions.go
index 8b26ad7..26518c1 100644
--- a/datamodel/low/v2/definitions.go
+++ b/datamodel/low/v2/definitions.go
@@ -169,8 +169,9 @@ func (d *Definitions) Hash() uint64 {
 
 // Build will extract all ParameterDefinitions into Parameter instances.
 func (pd *ParameterDefinitions) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecIndex) error {
-	errorChan := make(chan error)
-	resultChan := make(chan definitionResult[*Parameter])
+	// buffered, so that no builder is left blocked when an error ends the build early.
+	errorChan := make(chan error, len(root.Content))
+	resultChan := make(chan definitionResult[*Parameter], len(root.Content))
 	var defLabel *yaml.Node
 	totalDefinitions := 0
 	buildFunc := func(label *yaml.Node, value *yaml.Node, idx *index.SpecIndex,
@@ -179,6 +180,7 @@ func (pd *ParameterDefinitions) Build(ctx context.Context, _, root *yaml.Node, i
 		obj, err, _, rv := low.ExtractObjectRaw[*Parameter](ctx, label, value, idx)
 		if err != nil {
 			e <- err
+			return
 		}
 
 		v := low.ValueReference[*Parameter]{
@@ -225,8 +227,9 @@ type definitionResult[T any] struct {
 
 // Build will extract all ResponsesDefinitions into Response instances.
 func (r *ResponsesDefinitions) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecIndex) error {
-	errorChan := make(chan error)
-	resultChan := make(chan definitionResult[*Response])
+	// buffered, so that no builder is left blocked when an error ends the build early.
+	errorChan := make(chan error, len(root.Content))
+	resultChan := make(chan definitionResult[*Response], len(root.Content))
 	var defLabel *yaml.Node
 	totalDefinitions := 0
 	buildFunc := func(label *yaml.Node, value *yaml.Node, idx *index.SpecIndex,
@@ -235,6 +238,7 @@ func (r *ResponsesDefinitions) Build(ctx context.Context, _, root *yaml.Node, id
 		obj, err, _, rv := low.ExtractObjectRaw[*Response](ctx, label, value, idx)
 		if err != nil {
 			e <- err
+			return
 		}
 
 		v := low.ValueReference[*Response]{
@@ -275,8 +279,9 @@ func (r *ResponsesDefinitions) Build(ctx context.Context, _, root *yaml.Node, id
 
 // Build will extract all SecurityDefinitions into SecurityScheme instances.
 func (s *SecurityDefinitions) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecIndex) error {
-	errorChan := make(chan error)
-	resultChan := make(chan definitionResult[*SecurityScheme])
+	// buffered, so that no builder is left blocked when an error ends the build early.
+	errorChan := make(chan error, len(root.Content))
+	resultChan := make(chan definitionResult[*SecurityScheme], len(root.Content))
 	var defLabel *yaml.Node
 	totalDefinitions := 0
 
@@ -286,6 +291,7 @@ func (s *SecurityDefinitions) Build(ctx context.Context, _, root *yaml.Node, idx
 		obj, err, _, rv := low.ExtractObjectRaw[*SecurityScheme](ctx, label, value, idx)
 		if err != nil {
 			e <- err
+			return
 		}
 
 		v := low.ValueReference[*SecurityScheme]{
diff --git a/datamodel/low/v2/path_item.go b/datamodel/low/v2/path_item.go
index 57e29ac..52c43f5 100644
--- a/datamodel/low/v2/path_item.go
+++ b/datamodel/low/v2/path_item.go
@@ -145,13 +145,15 @@ func (p *PathItem) Build(ctx context.Context, _, root *yaml.Node, idx *index.Spe
 
 	// all operations have been superficially built,
 	// now we need to build out the operation, we will do this asynchronously for speed.
-	opBuildChan := make(chan struct{})
-	opErrorChan := make(chan error)
+	// the channels are buffered, so that no builder is left blocked when an error ends the build early.
+	opBuildChan := make(chan struct{}, len(ops))
+	opErrorChan := make(chan error, len(ops))
 
 	buildOpFunc := func(op low.NodeReference[*Operation], ch chan<- struct{}, errCh chan<- error) {
 		er := op.Value.Build(ctx, op.KeyNode, op.ValueNode, idx)
 		if er != nil {
 			errCh <- er
+			return
 		}
 		ch <- struct{}{}
 	}
-- 
2.43.0


From 85237d3bdcc375bc90762e31244ac834bdef4bcd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:28 +0000
Subject: [PATCH 56/86] fix: a file system that is not a RolodexFS no longer
 cuts the indexing of the others short

---
 index/rolodex.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/index/rolodex.go b/index/rolodex.go
index b0072b1..6353a4f 100644
--- a/index/rolodex.go
+++ b/index/rolodex.go
@@ -442,7 +442,6 @@ func (r *Rolodex) IndexTheRolodex(ctx context.Context) error {
 			return
 		} else {
 			errChan <- errors.New("rolodex file system is not a RolodexFS")
-			doneChan <- struct{}{}
 		}
 	}
 
-- 
2.43.0


From cdfe708f3a905f05cf2252d877e47fb48dcf7cb6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:19:54 +0000
Subject: [PATCH 57/86] fix: the errors of a remote file system are read under
 their lock when a file is opened

---
 index/rolodex_remote_loader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/index/rolodex_remote_loader.go b/index/rolodex_remote_loader.go
index 3a81f23..55f2da5 100644
--- a/index/rolodex_remote_loader.go
+++ b/index/rolodex_remote_loader.go
@@ -643,6 +643,8 @@ func (i *RemoteFS) OpenWithContext(ctx context.Context, remoteURL string) (fs.Fi
 
 	i.indexRemoteFile(ctx, remoteFile, copiedCfg, remoteParsedURL, remoteParsedURLOriginal)
 
+	i.errMutex.Lock()
+	defer i.errMutex.Unlock()
 	return remoteFile, errors.Join(i.remoteErrors...)
 }
 
-- 
2.43.0


From 58d688b709fcb5c925c1339ac84cd25e215c3701 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:19:54 +0000
Subject: [PATCH 58/86] fix: the list of indexes of a rolodex is read under its
 lock while files are still being added

---
 index/search_index.go   | 6 +++---
 index/search_rolodex.go | 9 +++------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/index/search_index.go b/index/search_index.go
index 9434d69..aaaee5d 100644
--- a/index/search_index.go
+++ b/index/search_index.go
@@ -430,9 +430,9 @@ func (index *SpecIndex) SearchIndexForReferenceByReferenceWithContext(ctx contex
 func (index *SpecIndex) extractIndex(r *Reference) *SpecIndex {
 	idx := r.Index
 	if idx != nil && r.Index.GetSpecAbsolutePath() != r.RemoteLocation {
-		for i := range r.Index.rolodex.indexes {
-			if r.Index.rolodex.indexes[i].GetSpecAbsolutePath() == r.RemoteLocation {
-				idx = r.Index.rolodex.indexes[i]
+		for _, candidate := range r.Index.rolodex.GetIndexes() {
+			if candidate.GetSpecAbsolutePath() == r.RemoteLocation {
+				idx = candidate
 				break
 			}
 		}
diff --git a/index/search_rolodex.go b/index/search_rolodex.go
index 6d46813..78b300c 100644
--- a/index/search_rolodex.go
+++ b/index/search_rolodex.go
@@ -41,8 +41,7 @@ func (r *Rolodex) FindNodeOriginWithValue(key, value, refNode *yaml.Node, refVal
 			}
 		} else {
 			// the value is not in the root index, so we need to search all indexes
-			for i := range r.indexes {
-				idx := r.indexes[i]
+			for _, idx := range r.GetIndexes() {
 				if keyOrigin == nil {
 					keyOrigin = idx.FindNodeOrigin(key)
 				}
@@ -83,8 +82,7 @@ func (r *Rolodex) FindNodeOrigin(node *yaml.Node) *NodeOrigin {
 	if found != nil {
 		return found
 	}
-	for i := range r.indexes {
-		idx := r.indexes[i]
+	for _, idx := range r.GetIndexes() {
 		n := idx.FindNodeOrigin(node)
 		if n != nil {
 			return n
@@ -176,8 +174,7 @@ func checkOrigin(check originCheck) (*NodeOrigin, bool) {
 		}
 	} else {
 		// no hit on the root, but we know the value is in the spec, so we need to search all indexes
-		for i := range check.rolodex.indexes {
-			idx := check.rolodex.indexes[i]
+		for _, idx := range check.rolodex.GetIndexes() {
 			n := idx.FindNodeOrigin(check.value)
 			if n != nil && n.Node != nil {
 				// do the hashes match?
-- 
2.43.0


From 775634903668255614554851b0a3e8ad3a0e3992 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:22:06 +0000
Subject: [PATCH 59/86] fix: the counts of callbacks, links and component
 parameters can be asked for concurrently

---
 index/spec_index_counts.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/index/spec_index_counts.go b/index/spec_index_counts.go
index 8eeb62b..cc67701 100644
--- a/index/spec_index_counts.go
+++ b/index/spec_index_counts.go
@@ -243,16 +243,16 @@ func (index *SpecIndex) GetGlobalCallbacksCount() int {
 	if index.root == nil {
 		return -1
 	}
+	index.pathRefsLock.Lock()
+	defer index.pathRefsLock.Unlock()
 	if index.globalCallbacksCount > 0 {
 		return index.globalCallbacksCount
 	}
-	index.pathRefsLock.RLock()
 	for path, p := range index.pathRefs {
 		for _, m := range p {
 			index.globalCallbacksCount += index.collectOperationObjectReferences(path, m, "callbacks", index.callbacksRefs)
 		}
 	}
-	index.pathRefsLock.RUnlock()
 	return index.globalCallbacksCount
 }
 
@@ -261,6 +261,8 @@ func (index *SpecIndex) GetGlobalLinksCount() int {
 	if index.root == nil {
 		return -1
 	}
+	index.pathRefsLock.Lock()
+	defer index.pathRefsLock.Unlock()
 	if index.globalLinksCount > 0 {
 		return index.globalLinksCount
 	}
@@ -478,6 +480,8 @@ func (index *SpecIndex) GetComponentParameterCount() int {
 	if index.root == nil || len(index.root.Content) == 0 {
 		return -1
 	}
+	index.componentLock.Lock()
+	defer index.componentLock.Unlock()
 	if index.componentParamCount > 0 {
 		return index.componentParamCount
 	}
@@ -489,19 +493,15 @@ func (index *SpecIndex) GetComponentParameterCount() int {
 			if n.Value == "components" {
 				_, parametersNode := utils.FindKeyNode("parameters", index.root.Content[0].Content[i+1].Content)
 				if parametersNode != nil {
-					index.componentLock.Lock()
 					index.parametersNode = parametersNode
 					index.componentParamCount = len(parametersNode.Content) / 2
-					index.componentLock.Unlock()
 				}
 			}
 			if n.Value == "parameters" {
 				parametersNode := index.root.Content[0].Content[i+1]
 				if parametersNode != nil {
-					index.componentLock.Lock()
 					index.parametersNode = parametersNode
 					index.componentParamCount = len(parametersNode.Content) / 2
-					index.componentLock.Unlock()
 				}
 			}
 		}
-- 
2.43.0


From 4d6c48b20aeab19ebed2729256ce8ef1af51f808 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:16:15 +0000
Subject: [PATCH 60/86] fix: rendering a dynamic value inline no longer makes
 its later renderings inline

---
 datamodel/high/base/dynamic_value.go | 41 ++++++++++++++++------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/datamodel/high/base/dynamic_value.go b/datamodel/high/base/dynamic_value.go
index 40473b6..ad801a0 100644
--- a/datamodel/high/base/dynamic_value.go
+++ b/datamodel/high/base/dynamic_value.go
@@ -22,11 +22,9 @@ import (
 //
 // The N value indicates which value is set (0 = A, 1 == B), preventing the need to check both values.
 type DynamicValue[A any, B any] struct {
-	N         int // 0 == A, 1 == B
-	A         A
-	B         B
-	inline    bool
-	renderCtx any // Context for inline rendering (typed as any to avoid import cycles)
+	N int // 0 == A, 1 == B
+	A A
+	B B
 }
 
 // IsA will return true if the 'A' or left value is set.
@@ -40,17 +38,28 @@ func (d *DynamicValue[A, B]) IsB() bool {
 }
 
 func (d *DynamicValue[A, B]) Render() ([]byte, error) {
-	d.inline = false
-	return yaml.Marshal(d)
+	rendered, err := d.render(false, nil)
+	if err != nil {
+		return nil, err
+	}
+	return yaml.Marshal(rendered)
 }
 
 func (d *DynamicValue[A, B]) RenderInline() ([]byte, error) {
-	d.inline = true
-	return yaml.Marshal(d)
+	rendered, err := d.render(true, nil)
+	if err != nil {
+		return nil, err
+	}
+	return yaml.Marshal(rendered)
 }
 
 // MarshalYAML will create a ready to render YAML representation of the DynamicValue object.
 func (d *DynamicValue[A, B]) MarshalYAML() (interface{}, error) {
+	return d.render(false, nil)
+}
+
+// render creates a YAML representation, inlining references (with the supplied context, if any) when asked to.
+func (d *DynamicValue[A, B]) render(inline bool, renderCtx any) (interface{}, error) {
 	// this is a custom renderer, we can't use the NodeBuilder out of the gate.
 	var n yaml.Node
 	var err error
@@ -65,11 +74,11 @@ func (d *DynamicValue[A, B]) MarshalYAML() (interface{}, error) {
 	to := reflect.TypeOf(value)
 	switch to.Kind() {
 	case reflect.Ptr:
-		if d.inline {
+		if inline {
 			// prefer context-aware method when context is available
-			if d.renderCtx != nil {
+			if renderCtx != nil {
 				if r, ok := value.(high.RenderableInlineWithContext); ok {
-					return r.MarshalYAMLInlineWithContext(d.renderCtx)
+					return r.MarshalYAMLInlineWithContext(renderCtx)
 				}
 			}
 			// fall back to context-less method
@@ -107,16 +116,12 @@ func (d *DynamicValue[A, B]) MarshalYAML() (interface{}, error) {
 // MarshalYAMLInline will create a ready to render YAML representation of the DynamicValue object. The
 // references will be inlined instead of kept as references.
 func (d *DynamicValue[A, B]) MarshalYAMLInline() (interface{}, error) {
-	d.inline = true
-	d.renderCtx = nil
-	return d.MarshalYAML()
+	return d.render(true, nil)
 }
 
 // MarshalYAMLInlineWithContext will create a ready to render YAML representation of the DynamicValue object.
 // The references will be inlined and the provided context will be passed through to nested schemas.
 // The ctx parameter should be *InlineRenderContext but is typed as any to avoid import cycles.
 func (d *DynamicValue[A, B]) MarshalYAMLInlineWithContext(ctx any) (interface{}, error) {
-	d.inline = true
-	d.renderCtx = ctx
-	return d.MarshalYAML()
+	return d.render(true, ctx)
 }
-- 
2.43.0


From fc2224728bfc3c54bed157c9c6f982e258f781e8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:16:15 +0000
Subject: [PATCH 61/86] fix: comparing documents no longer writes names into
 the nodes of the compared documents

---
 what-changed/model/comparison_functions.go | 21 +++++++++++++--------
 what-changed/model/operation.go            |  6 ++----
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/what-changed/model/comparison_functions.go b/what-changed/model/comparison_functions.go
index 27c0558..e30067a 100644
--- a/what-changed/model/comparison_functions.go
+++ b/what-changed/model/comparison_functions.go
@@ -670,6 +670,17 @@ func checkMapForChangesWithNilSupportInternal[T any, R any](expLeft, expRight *o
 	return expChanges
 }
 
+// withValue returns the node, or when it has no value of its own, a copy of it that has the supplied one. The node
+// belongs to the document being compared and is left as it is.
+func withValue(node *yaml.Node, value string) *yaml.Node {
+	if node.Value != EMPTY_STR {
+		return node
+	}
+	named := *node
+	named.Value = value
+	return &named
+}
+
 // checkMapForChangesInternal is the core implementation that checks a left and right low level map for any
 // additions, subtractions or modifications to values. The breakingAdded and breakingRemoved parameters control
 // whether additions and removals are marked as breaking changes.
@@ -704,11 +715,8 @@ func checkMapForChangesInternal[T any, R any](expLeft, expRight *orderedmap.Map[
 		rhash := g[k]
 		if rhash == EMPTY_STR {
 			chLock.Lock()
-			if p[k].GetValueNode().Value == EMPTY_STR {
-				p[k].GetValueNode().Value = k
-			}
 			CreateChange(changes, ObjectRemoved, label,
-				p[k].GetValueNode(), nil, breakingRemoved,
+				withValue(p[k].GetValueNode(), k), nil, breakingRemoved,
 				p[k].GetValue(), nil)
 			chLock.Unlock()
 			doneChan <- struct{}{}
@@ -738,11 +746,8 @@ func checkMapForChangesInternal[T any, R any](expLeft, expRight *orderedmap.Map[
 		lhash := f[k]
 		if lhash == EMPTY_STR {
 			chLock.Lock()
-			if p[k].GetValueNode().Value == EMPTY_STR {
-				p[k].GetValueNode().Value = k
-			}
 			CreateChange(changes, ObjectAdded, label,
-				nil, p[k].GetValueNode(), breakingAdded,
+				nil, withValue(p[k].GetValueNode(), k), breakingAdded,
 				nil, p[k].GetValue())
 			chLock.Unlock()
 		}
diff --git a/what-changed/model/operation.go b/what-changed/model/operation.go
index bd4d067..611e840 100644
--- a/what-changed/model/operation.go
+++ b/what-changed/model/operation.go
@@ -483,9 +483,8 @@ func checkServers(lServers, rServers low.NodeReference[[]low.ValueReference[*v3.
 				}
 				continue
 			}
-			lv[k].ValueNode.Value = lv[k].Value.URL.Value
 			CreateChange(&changes, ObjectRemoved, v3.ServersLabel,
-				lv[k].ValueNode, nil, BreakingRemoved(component, property), lv[k].Value,
+				withValue(lv[k].ValueNode, lv[k].Value.URL.Value), nil, BreakingRemoved(component, property), lv[k].Value,
 				nil)
 			sc := new(ServerChanges)
 			sc.PropertyChanges = NewPropertyChanges(changes)
@@ -497,9 +496,8 @@ func checkServers(lServers, rServers low.NodeReference[[]low.ValueReference[*v3.
 			if _, ok := lv[k]; !ok {
 
 				var changes []*Change
-				rv[k].ValueNode.Value = rv[k].Value.URL.Value
 				CreateChange(&changes, ObjectAdded, v3.ServersLabel,
-					nil, rv[k].ValueNode, BreakingAdded(component, property), nil,
+					nil, withValue(rv[k].ValueNode, rv[k].Value.URL.Value), BreakingAdded(component, property), nil,
 					rv[k].Value)
 
 				sc := new(ServerChanges)
-- 
2.43.0


From 61ab23c736efcafcac1c4610f9bc621d9759403b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:16:15 +0000
Subject: [PATCH 62/86] fix: counting component schemas again no longer repeats
 the root servers and security

---
 index/index_model.go       | 2 ++
 index/spec_index_counts.go | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/index/index_model.go b/index/index_model.go
index 0206702..9782c31 100644
--- a/index/index_model.go
+++ b/index/index_model.go
@@ -375,6 +375,7 @@ type SpecIndex struct {
 	componentsInlineParamUniqueCount    int                                           // number of inline params with unique names
 	componentsInlineParamDuplicateCount int                                           // number of inline params with duplicate names
 	schemaCount                         int                                           // number of schemas
+	componentsCounted                   bool                                          // the components were extracted and counted
 	refCount                            int                                           // total ref count
 	root                                *yaml.Node                                    // the root document
 	pathsNode                           *yaml.Node                                    // paths node
@@ -640,6 +641,7 @@ func (index *SpecIndex) resetRuntimeState() {
 	index.componentsInlineParamUniqueCount = 0
 	index.componentsInlineParamDuplicateCount = 0
 	index.schemaCount = 0
+	index.componentsCounted = false
 	index.refCount = 0
 	index.enumCount = 0
 	index.descriptionCount = 0
diff --git a/index/spec_index_counts.go b/index/spec_index_counts.go
index cc67701..af30192 100644
--- a/index/spec_index_counts.go
+++ b/index/spec_index_counts.go
@@ -341,9 +341,10 @@ func (index *SpecIndex) GetComponentSchemaCount() int {
 	if index.root == nil || len(index.root.Content) == 0 {
 		return -1
 	}
-	if index.schemaCount > 0 {
+	if index.schemaCount > 0 || index.componentsCounted {
 		return index.schemaCount
 	}
+	index.componentsCounted = true
 
 	for i, n := range index.root.Content[0].Content {
 		if i+1 >= len(index.root.Content[0].Content) {
-- 
2.43.0


From 4a72124025ee50fce313e6e43e158f2b2730a52d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:16:15 +0000
Subject: [PATCH 63/86] fix: listing the files of a file system no longer
 writes to it

---
 index/rolodex_file_loader.go   | 2 --
 index/rolodex_remote_loader.go | 2 --
 2 files changed, 4 deletions(-)

diff --git a/index/rolodex_file_loader.go b/index/rolodex_file_loader.go
index 45d488f..de8e2bc 100644
--- a/index/rolodex_file_loader.go
+++ b/index/rolodex_file_loader.go
@@ -35,7 +35,6 @@ type LocalFS struct {
 	entryPointDirectory string
 	baseDirectory       string
 	Files               sync.Map
-	extractedFiles      map[string]RolodexFile
 	logger              *slog.Logger
 	readingErrors       []error
 	rolodex             *Rolodex
@@ -49,7 +48,6 @@ func (l *LocalFS) GetFiles() map[string]RolodexFile {
 		files[key.(string)] = value.(*LocalFile)
 		return true
 	})
-	l.extractedFiles = files
 	return files
 }
 
diff --git a/index/rolodex_remote_loader.go b/index/rolodex_remote_loader.go
index 55f2da5..5a2c051 100644
--- a/index/rolodex_remote_loader.go
+++ b/index/rolodex_remote_loader.go
@@ -256,7 +256,6 @@ type RemoteFS struct {
 	FetchChannel      chan *RemoteFile
 	remoteErrors      []error
 	logger            *slog.Logger
-	extractedFiles    map[string]RolodexFile
 	rolodex           *Rolodex
 	errMutex          sync.Mutex
 }
@@ -521,7 +520,6 @@ func (i *RemoteFS) GetFiles() map[string]RolodexFile {
 		files[key.(string)] = value.(*RemoteFile)
 		return true
 	})
-	i.extractedFiles = files
 	return files
 }
 
-- 
2.43.0


From 16330e29a33b20428e72dd626b9bbf704d8f84be Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:44:08 +0000
Subject: [PATCH 64/86] fix: workflow results and dependency errors no longer
 depend on the order of a map

---
 arazzo/validation.go |  4 ++--
 arazzo/yamlutil.go   | 16 ++++++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/arazzo/validation.go b/arazzo/validation.go
index a6ef4e7..df664c9 100644
--- a/arazzo/validation.go
+++ b/arazzo/validation.go
@@ -836,8 +836,8 @@ func (v *validator) checkCircularDependencies() {
 		return false
 	}
 
-	for id := range adj {
-		if !visited[id] {
+	for _, wf := range v.doc.Workflows {
+		if id := wf.WorkflowId; id != "" && !visited[id] {
 			dfs(id, nil)
 		}
 	}
diff --git a/arazzo/yamlutil.go b/arazzo/yamlutil.go
index 853cf13..5170e93 100644
--- a/arazzo/yamlutil.go
+++ b/arazzo/yamlutil.go
@@ -5,6 +5,9 @@ package arazzo
 
 import (
 	"fmt"
+	"maps"
+	"slices"
+	"strings"
 
 	"go.yaml.in/yaml/v4"
 )
@@ -20,15 +23,16 @@ func toYAMLNode(value any) (*yaml.Node, error) {
 }
 
 // directYAMLNode converts a Go value to a *yaml.Node for expression evaluation.
-// Map key ordering is not deterministic since the output is used for JSONPath
-// and expression evaluation, not for rendering.
+// Map keys are taken in sorted order, so that an expression that can find more than
+// one value always finds the same one first.
 func directYAMLNode(value any) (*yaml.Node, error) {
 	switch typed := value.(type) {
 	case yaml.Node:
 		return &typed, nil
 	case map[string]any:
 		node := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
-		for k, v := range typed {
+		for _, k := range slices.Sorted(maps.Keys(typed)) {
+			v := typed[k]
 			keyNode := &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}
 			valueNode, err := directYAMLNode(v)
 			if err != nil {
@@ -39,7 +43,11 @@ func directYAMLNode(value any) (*yaml.Node, error) {
 		return node, nil
 	case map[any]any:
 		node := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
-		for k, v := range typed {
+		keys := slices.SortedFunc(maps.Keys(typed), func(a, b any) int {
+			return strings.Compare(sprintMapKey(a), sprintMapKey(b))
+		})
+		for _, k := range keys {
+			v := typed[k]
 			ks := sprintMapKey(k)
 			keyNode := &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: ks}
 			valueNode, err := directYAMLNode(v)
-- 
2.43.0


From 9391c83e8609e1fd7b938ed86a50d1f249a42fa1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:44:08 +0000
Subject: [PATCH 65/86] fix: merging a reference with its siblings keeps the
 order of the properties

---
 datamodel/low/base/property_merger.go | 31 ++++++++++++++++++++++-----
 datamodel/low/base/schema_proxy.go    |  6 +++++-
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/datamodel/low/base/property_merger.go b/datamodel/low/base/property_merger.go
index 416587f..9f9c5d3 100644
--- a/datamodel/low/base/property_merger.go
+++ b/datamodel/low/base/property_merger.go
@@ -46,7 +46,8 @@ func (pm *PropertyMerger) MergeProperties(localNode, referencedNode *yaml.Node)
 	mergedProps := pm.extractProperties(merged)
 
 	// apply merge strategy for each local property
-	for key, localValue := range localProps {
+	for _, key := range propertyKeys(localNode) {
+		localValue := localProps[key]
 		if _, exists := referencedProps[key]; exists {
 			// property exists in both - apply strategy
 			switch pm.strategy {
@@ -65,7 +66,26 @@ func (pm *PropertyMerger) MergeProperties(localNode, referencedNode *yaml.Node)
 	}
 
 	// rebuild the merged node content
-	return pm.rebuildNodeFromProperties(merged, mergedProps), nil
+	return pm.rebuildNodeFromProperties(merged, propertyKeys(merged, localNode), mergedProps), nil
+}
+
+// propertyKeys returns the keys of the given mapping nodes in the order they are written, each of them once.
+func propertyKeys(nodes ...*yaml.Node) []string {
+	var keys []string
+	seen := make(map[string]struct{})
+	for _, node := range nodes {
+		if !utils.IsNodeMap(node) {
+			continue
+		}
+		for i := 0; i+1 < len(node.Content); i += 2 {
+			key := node.Content[i].Value
+			if _, ok := seen[key]; !ok {
+				seen[key] = struct{}{}
+				keys = append(keys, key)
+			}
+		}
+	}
+	return keys
 }
 
 // extractProperties extracts key-value pairs from a yaml mapping node
@@ -85,8 +105,8 @@ func (pm *PropertyMerger) extractProperties(node *yaml.Node) map[string]*yaml.No
 	return props
 }
 
-// rebuildNodeFromProperties reconstructs a yaml mapping node from property map
-func (pm *PropertyMerger) rebuildNodeFromProperties(baseNode *yaml.Node, props map[string]*yaml.Node) *yaml.Node {
+// rebuildNodeFromProperties reconstructs a yaml mapping node from property map, with its properties in the order of keys
+func (pm *PropertyMerger) rebuildNodeFromProperties(baseNode *yaml.Node, keys []string, props map[string]*yaml.Node) *yaml.Node {
 	result := &yaml.Node{
 		Kind:        yaml.MappingNode,
 		Style:       baseNode.Style,
@@ -99,7 +119,8 @@ func (pm *PropertyMerger) rebuildNodeFromProperties(baseNode *yaml.Node, props m
 	}
 
 	// rebuild content from properties
-	for key, value := range props {
+	for _, key := range keys {
+		value := props[key]
 		keyNode := &yaml.Node{Kind: yaml.ScalarNode, Value: key}
 		result.Content = append(result.Content, keyNode, utils.CloneYAMLNode(value))
 	}
diff --git a/datamodel/low/base/schema_proxy.go b/datamodel/low/base/schema_proxy.go
index 17f1fbe..c4c209d 100644
--- a/datamodel/low/base/schema_proxy.go
+++ b/datamodel/low/base/schema_proxy.go
@@ -458,7 +458,11 @@ func (sp *SchemaProxy) attemptPropertyMerging(node *yaml.Node, config *datamodel
 
 	// create a local node with just the sibling properties
 	localNode := &yaml.Node{Kind: yaml.MappingNode}
-	for key, value := range siblings {
+	for _, key := range propertyKeys(node) {
+		value, ok := siblings[key]
+		if !ok {
+			continue
+		}
 		keyNode := &yaml.Node{Kind: yaml.ScalarNode, Value: key}
 		localNode.Content = append(localNode.Content, keyNode, value)
 	}
-- 
2.43.0


From 90b95c628b7b8c1bcf9833c4859e31ef095b7b56 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:44:08 +0000
Subject: [PATCH 66/86] fix: composing external discriminator schemas no longer
 depends on the order of a map

---
 bundler/bundler.go          | 3 ++-
 bundler/bundler_composer.go | 7 +++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/bundler/bundler.go b/bundler/bundler.go
index 9bef054..0ebf1ce 100644
--- a/bundler/bundler.go
+++ b/bundler/bundler.go
@@ -8,6 +8,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"maps"
 	"os"
 	"path/filepath"
 	"slices"
@@ -901,7 +902,7 @@ func collectExternalDiscriminatorSchemas(rolodex *index.Rolodex, rootIdx *index.
 	rootPath := rootIdx.GetSpecAbsolutePath()
 
 	// Convert pinned refs to externalSchemaRef structs
-	for fullDef := range pinned {
+	for _, fullDef := range slices.Sorted(maps.Keys(pinned)) {
 		// Parse the full definition to get the original ref
 		// Format: "/absolute/path/to/file.yaml#/components/schemas/SchemaName"
 		parts := strings.Split(fullDef, "#")
diff --git a/bundler/bundler_composer.go b/bundler/bundler_composer.go
index 5e1d11d..c62744d 100644
--- a/bundler/bundler_composer.go
+++ b/bundler/bundler_composer.go
@@ -6,8 +6,10 @@ package bundler
 import (
 	"context"
 	"fmt"
+	"maps"
 	"net/url"
 	"path/filepath"
+	"slices"
 	"strings"
 	"sync"
 
@@ -73,10 +75,7 @@ func handleIndex(c *handleIndexConfig) error {
 		if c.compositionConfig.StrictValidation &&
 			c.idx.GetConfig().SpecInfo.VersionNumeric == 3.0 &&
 			sequenced.HasSiblingProperties {
-			siblingKeys := make([]string, 0, len(sequenced.SiblingProperties))
-			for key := range sequenced.SiblingProperties {
-				siblingKeys = append(siblingKeys, key)
-			}
+			siblingKeys := slices.Sorted(maps.Keys(sequenced.SiblingProperties))
 			return fmt.Errorf("invalid OpenAPI 3.0 specification: $ref cannot have sibling properties. Found $ref '%s' with siblings %v at line %d, column %d",
 				sequenced.FullDefinition, siblingKeys, sequenced.Node.Line, sequenced.Node.Column)
 		}
-- 
2.43.0


From cb64cf536c0045dbd75cd423c76fd6a23c89a362 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:44:08 +0000
Subject: [PATCH 67/86] fix: the inferred discriminator is the first property
 that can be one

---
 generator/golang/from_openapi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/golang/from_openapi.go b/generator/golang/from_openapi.go
index 00b999e..cdfb292 100644
--- a/generator/golang/from_openapi.go
+++ b/generator/golang/from_openapi.go
@@ -668,8 +668,8 @@ func inferConstDiscriminator(variants []*SchemaIR) *Discriminator {
 			}
 		}
 	}
-	for propName, c := range candidates {
-		if len(c.values) == len(variants) {
+	for propName := range variants[0].Properties.KeysFromOldest() {
+		if c := candidates[propName]; c != nil && len(c.values) == len(variants) {
 			return &Discriminator{PropertyName: propName, Mapping: c.values, Optional: c.optional}
 		}
 	}
-- 
2.43.0


From 2371f6e578238a876e0a8b1764d3cb223f58e9c8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:44:08 +0000
Subject: [PATCH 68/86] fix: schemas on the same line are always listed in the
 same order

---
 index/spec_index_accessors.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/index/spec_index_accessors.go b/index/spec_index_accessors.go
index cbce124..e7f2d08 100644
--- a/index/spec_index_accessors.go
+++ b/index/spec_index_accessors.go
@@ -158,7 +158,14 @@ func (index *SpecIndex) GetAllSchemas() []*Reference {
 		i++
 	}
 	sort.Slice(combined, func(i, j int) bool {
-		return combined[i].Node.Line < combined[j].Node.Line
+		a, b := combined[i], combined[j]
+		if a.Node.Line != b.Node.Line {
+			return a.Node.Line < b.Node.Line
+		}
+		if a.Node.Column != b.Node.Column {
+			return a.Node.Column < b.Node.Column
+		}
+		return a.Definition < b.Definition
 	})
 	return combined
 }
-- 
2.43.0


From d82b6a865a74f94b2cf5a19a03787692699e7080 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:44:08 +0000
Subject: [PATCH 69/86] fix: circular tags are found in the order of the tags

---
 index/spec_index_counts.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/index/spec_index_counts.go b/index/spec_index_counts.go
index af30192..b6737d0 100644
--- a/index/spec_index_counts.go
+++ b/index/spec_index_counts.go
@@ -108,6 +108,7 @@ func (index *SpecIndex) checkTagCircularReferences() {
 		return
 	}
 
+	var tagNames []string // in the order of the document
 	tagParentMap := make(map[string]string)
 	tagRefs := make(map[string]*Reference)
 	tagNodes := make(map[string]*yaml.Node)
@@ -117,6 +118,9 @@ func (index *SpecIndex) checkTagCircularReferences() {
 		_, parentNode := utils.FindKeyNode("parent", tagNode.Content)
 		if nameNode != nil {
 			tagName := nameNode.Value
+			if _, exists := tagNodes[tagName]; !exists {
+				tagNames = append(tagNames, tagName)
+			}
 			tagNodes[tagName] = tagNode
 			tagRefs[tagName] = &Reference{Name: tagName, Node: tagNode, Path: fmt.Sprintf("$.tags[%d]", x)}
 			if parentNode != nil {
@@ -127,7 +131,7 @@ func (index *SpecIndex) checkTagCircularReferences() {
 
 	visited := make(map[string]bool)
 	recStack := make(map[string]bool)
-	for tagName := range tagRefs {
+	for _, tagName := range tagNames {
 		if !visited[tagName] {
 			if _, hasParent := tagParentMap[tagName]; hasParent {
 				if path := index.detectTagCircularHelper(tagName, tagParentMap, tagRefs, visited, recStack, []string{}); len(path) > 0 {
-- 
2.43.0


From 5e1955431fc7b0d384d4fab4f9c00d04704f96df Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:44:08 +0000
Subject: [PATCH 70/86] fix: circular references keep their order and files are
 looked for in a fixed order

---
 index/rolodex.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/index/rolodex.go b/index/rolodex.go
index 6353a4f..3cf5517 100644
--- a/index/rolodex.go
+++ b/index/rolodex.go
@@ -13,6 +13,7 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -232,16 +233,14 @@ func (r *Rolodex) GetIgnoredCircularReferences() []*CircularReferenceResult {
 	if len(r.ignoredCircularReferences) == 0 {
 		return nil
 	}
-	debounced := make(map[string]*CircularReferenceResult)
+	debounced := make(map[string]struct{})
+	debouncedResults := make([]*CircularReferenceResult, 0, len(r.ignoredCircularReferences))
 	for _, c := range r.ignoredCircularReferences {
 		if _, ok := debounced[c.LoopPoint.FullDefinition]; !ok {
-			debounced[c.LoopPoint.FullDefinition] = c
+			debounced[c.LoopPoint.FullDefinition] = struct{}{}
+			debouncedResults = append(debouncedResults, c)
 		}
 	}
-	debouncedResults := make([]*CircularReferenceResult, 0, len(debounced))
-	for _, v := range debounced {
-		debouncedResults = append(debouncedResults, v)
-	}
 	r.debouncedIgnoredCircRefs = debouncedResults
 	return debouncedResults
 }
@@ -276,16 +275,14 @@ func (r *Rolodex) GetSafeCircularReferences() []*CircularReferenceResult {
 		}
 	}
 
-	debounced := make(map[string]*CircularReferenceResult)
+	debounced := make(map[string]struct{})
+	debouncedResults := make([]*CircularReferenceResult, 0, len(r.safeCircularReferences))
 	for _, c := range r.safeCircularReferences {
 		if _, ok := debounced[c.LoopPoint.FullDefinition]; !ok {
-			debounced[c.LoopPoint.FullDefinition] = c
+			debounced[c.LoopPoint.FullDefinition] = struct{}{}
+			debouncedResults = append(debouncedResults, c)
 		}
 	}
-	debouncedResults := make([]*CircularReferenceResult, 0, len(debounced))
-	for _, v := range debounced {
-		debouncedResults = append(debouncedResults, v)
-	}
 	r.debouncedSafeCircRefs = debouncedResults
 	return debouncedResults
 }
@@ -782,7 +779,8 @@ func (r *Rolodex) OpenWithContext(ctx context.Context, location string) (Rolodex
 
 func (r *Rolodex) openLocalLocation(ctx context.Context, location string) (*LocalFile, []error) {
 	var errorStack []error
-	for baseDir, fileSystem := range r.localFS {
+	for _, baseDir := range slices.Sorted(maps.Keys(r.localFS)) {
+		fileSystem := r.localFS[baseDir]
 		fileLookup := location
 		if !filepath.IsAbs(location) {
 			fileLookup, _ = filepath.Abs(utils.CheckPathOverlap(baseDir, location, string(os.PathSeparator)))
@@ -871,7 +869,8 @@ func wrapExistingRolodexFile(file RolodexFile) (*LocalFile, []error) {
 
 func (r *Rolodex) openRemoteLocation(ctx context.Context, location string) (*RemoteFile, []error) {
 	var errorStack []error
-	for _, fileSystem := range r.remoteFS {
+	for _, baseURL := range slices.Sorted(maps.Keys(r.remoteFS)) {
+		fileSystem := r.remoteFS[baseURL]
 		file, err := openFile(ctx, location, fileSystem)
 		if err != nil {
 			r.logger.Warn("[rolodex] errors opening remote file", "location", location, "error", err)
-- 
2.43.0


From f0ad53f009bc1f89677b2463432949578dd37247 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:44:08 +0000
Subject: [PATCH 71/86] fix: the same mock always gives the same xml document

---
 renderer/mock_generator_xml.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/renderer/mock_generator_xml.go b/renderer/mock_generator_xml.go
index 2500f4f..7353947 100644
--- a/renderer/mock_generator_xml.go
+++ b/renderer/mock_generator_xml.go
@@ -7,7 +7,9 @@ import (
 	"bytes"
 	"encoding/xml"
 	"fmt"
+	"maps"
 	"regexp"
+	"slices"
 	"unicode"
 
 	highbase "github.com/pb33f/libopenapi/datamodel/high/base"
@@ -205,7 +207,9 @@ func (mg *MockGenerator) renderXMLMap(enc *xml.Encoder, start xml.StartElement,
 	var textValues []any
 	var children []childEntry
 
-	for key, val := range m {
+	// maps have no order, the same value must always give the same document.
+	for _, key := range slices.Sorted(maps.Keys(m)) {
+		val := m[key]
 		propSchema := getPropertySchema(schema, key)
 		nodeType := resolveNodeType(propSchema)
 
@@ -226,8 +230,8 @@ func (mg *MockGenerator) renderXMLMap(enc *xml.Encoder, start xml.StartElement,
 		case "none":
 			// Skip the node itself, include sub-properties directly
 			if subMap, ok := val.(map[string]any); ok {
-				for sk, sv := range subMap {
-					children = append(children, childEntry{key: sk, value: sv, schema: getPropertySchema(propSchema, sk)})
+				for _, sk := range slices.Sorted(maps.Keys(subMap)) {
+					children = append(children, childEntry{key: sk, value: subMap[sk], schema: getPropertySchema(propSchema, sk)})
 				}
 			} else {
 				children = append(children, childEntry{key: key, value: val, schema: propSchema})
-- 
2.43.0


From 28879a8db3388502ca307314f2205b2fd525960b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:44:08 +0000
Subject: [PATCH 72/86] fix: lists made from maps have a fixed order

---
 datamodel/low/node_map.go | 12 ++++++------
 utils/utils.go            | 10 ++++++----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/datamodel/low/node_map.go b/datamodel/low/node_map.go
index b2b1d8b..248cb9b 100644
--- a/datamodel/low/node_map.go
+++ b/datamodel/low/node_map.go
@@ -6,6 +6,8 @@ package low
 
 import (
 	"context"
+	"maps"
+	"slices"
 	"sync"
 
 	"github.com/pb33f/libopenapi/orderedmap"
@@ -130,12 +132,10 @@ func ExtractExtensionNodes(_ context.Context,
 		nm := &NodeMap{Nodes: &newNodeMap}
 		if len(v.ValueNode.Content) > 0 {
 			nm.ExtractNodes(v.ValueNode, true)
-			nm.Nodes.Range(func(key, value interface{}) bool {
-				for _, n := range value.([]*yaml.Node) {
-					results = append(results, n)
-				}
-				return true
-			})
+			byLine := nm.GetNodes()
+			for _, line := range slices.Sorted(maps.Keys(byLine)) {
+				results = append(results, byLine[line]...)
+			}
 		} else {
 			results = append(results, v.ValueNode)
 		}
diff --git a/utils/utils.go b/utils/utils.go
index 013b47f..b935ec1 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -4,11 +4,13 @@ import (
 	"crypto/rand"
 	"encoding/json"
 	"fmt"
+	"maps"
 	"math"
 	"math/big"
 	"net/http"
 	"net/url"
 	"regexp"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -277,8 +279,8 @@ func ConvertInterfaceIntoStringMap(context interface{}) map[string]string {
 func ConvertInterfaceToStringArray(raw interface{}) []string {
 	if vals, ok := raw.(map[string]interface{}); ok {
 		var s []string
-		for _, v := range vals {
-			if g, y := v.([]interface{}); y {
+		for _, k := range slices.Sorted(maps.Keys(vals)) {
+			if g, y := vals[k].([]interface{}); y {
 				for _, q := range g {
 					s = append(s, fmt.Sprint(q))
 				}
@@ -288,8 +290,8 @@ func ConvertInterfaceToStringArray(raw interface{}) []string {
 	}
 	if vals, ok := raw.(map[string][]string); ok {
 		var s []string
-		for _, v := range vals {
-			s = append(s, v...)
+		for _, k := range slices.Sorted(maps.Keys(vals)) {
+			s = append(s, vals[k]...)
 		}
 		return s
 	}
-- 
2.43.0


From 1e6c3f5687fec64d6b24ced730b779a63589d068 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:52:57 +0000
Subject: [PATCH 73/86] fix: parameters with the same key are kept in a fixed
 order

---
 index/spec_index_counts.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/index/spec_index_counts.go b/index/spec_index_counts.go
index b6737d0..394743f 100644
--- a/index/spec_index_counts.go
+++ b/index/spec_index_counts.go
@@ -6,6 +6,8 @@ package index
 import (
 	"context"
 	"fmt"
+	"maps"
+	"slices"
 	"strings"
 
 	"github.com/pb33f/libopenapi/utils"
@@ -693,9 +695,12 @@ func (index *SpecIndex) GetOperationsParameterCount() int {
 		}
 	}
 
-	for path, params := range index.paramOpRefs {
-		for mName, mValue := range params {
-			for pName, pValue := range mValue {
+	for _, path := range slices.Sorted(maps.Keys(index.paramOpRefs)) {
+		params := index.paramOpRefs[path]
+		for _, mName := range slices.Sorted(maps.Keys(params)) {
+			mValue := params[mName]
+			for _, pName := range slices.Sorted(maps.Keys(mValue)) {
+				pValue := mValue[pName]
 				if !strings.HasPrefix(pName, "#") {
 					index.paramInlineDuplicateNames[pName] = append(index.paramInlineDuplicateNames[pName], pValue...)
 					for i := range pValue {
-- 
2.43.0


From dfbe101ea0f6c7804d64916d73e4488fdefa7e13 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:52:57 +0000
Subject: [PATCH 74/86] fix: rewiring references no longer changes the map it
 goes through

---
 bundler/composer_functions.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bundler/composer_functions.go b/bundler/composer_functions.go
index 548d3f7..7b0ba03 100644
--- a/bundler/composer_functions.go
+++ b/bundler/composer_functions.go
@@ -7,8 +7,10 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"maps"
 	"path/filepath"
 	"reflect"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -463,7 +465,13 @@ func remapIndex(idx *index.SpecIndex, processedNodes *orderedmap.Map[string, *pr
 
 	mapped := idx.GetMappedReferences()
 
-	for _, mRef := range mapped {
+	// references are put under their new names as they are rewired, so work from a copy, in a fixed order.
+	mappedRefs := make([]*index.Reference, 0, len(mapped))
+	for _, def := range slices.Sorted(maps.Keys(mapped)) {
+		mappedRefs = append(mappedRefs, mapped[def])
+	}
+
+	for _, mRef := range mappedRefs {
 		if mRef.IsExtensionRef {
 			continue
 		}
-- 
2.43.0


From 72a449e014b711fca2a78a4095620cd175a53d46 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:59:25 +0000
Subject: [PATCH 75/86] fix: swagger definitions keep the order of the document

---
 datamodel/low/v2/definitions.go | 51 +++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/datamodel/low/v2/definitions.go b/datamodel/low/v2/definitions.go
index 26518c1..ffd9f44 100644
--- a/datamodel/low/v2/definitions.go
+++ b/datamodel/low/v2/definitions.go
@@ -201,20 +201,25 @@ func (pd *ParameterDefinitions) Build(ctx context.Context, _, root *yaml.Node, i
 	}
 
 	completedDefs := 0
-	results := orderedmap.New[low.KeyReference[string], low.ValueReference[*Parameter]]()
+	built := make(map[*yaml.Node]low.ValueReference[*Parameter], totalDefinitions)
 	for completedDefs < totalDefinitions {
 		select {
 		case err := <-errorChan:
 			return err
 		case sch := <-resultChan:
 			completedDefs++
-			key := low.KeyReference[string]{
-				Value:   sch.k.Value,
-				KeyNode: sch.k,
-			}
-			results.Set(key, sch.v)
+			built[sch.k] = sch.v
 		}
 	}
+
+	// the definitions keep the order of the document, whichever is built first.
+	results := orderedmap.New[low.KeyReference[string], low.ValueReference[*Parameter]]()
+	for i := 0; i+1 < len(root.Content); i += 2 {
+		results.Set(low.KeyReference[string]{
+			Value:   root.Content[i].Value,
+			KeyNode: root.Content[i],
+		}, built[root.Content[i]])
+	}
 	pd.Definitions = results
 	return nil
 }
@@ -259,20 +264,25 @@ func (r *ResponsesDefinitions) Build(ctx context.Context, _, root *yaml.Node, id
 	}
 
 	completedDefs := 0
-	results := orderedmap.New[low.KeyReference[string], low.ValueReference[*Response]]()
+	built := make(map[*yaml.Node]low.ValueReference[*Response], totalDefinitions)
 	for completedDefs < totalDefinitions {
 		select {
 		case err := <-errorChan:
 			return err
 		case sch := <-resultChan:
 			completedDefs++
-			key := low.KeyReference[string]{
-				Value:   sch.k.Value,
-				KeyNode: sch.k,
-			}
-			results.Set(key, sch.v)
+			built[sch.k] = sch.v
 		}
 	}
+
+	// the definitions keep the order of the document, whichever is built first.
+	results := orderedmap.New[low.KeyReference[string], low.ValueReference[*Response]]()
+	for i := 0; i+1 < len(root.Content); i += 2 {
+		results.Set(low.KeyReference[string]{
+			Value:   root.Content[i].Value,
+			KeyNode: root.Content[i],
+		}, built[root.Content[i]])
+	}
 	r.Definitions = results
 	return nil
 }
@@ -312,20 +322,25 @@ func (s *SecurityDefinitions) Build(ctx context.Context, _, root *yaml.Node, idx
 	}
 
 	completedDefs := 0
-	results := orderedmap.New[low.KeyReference[string], low.ValueReference[*SecurityScheme]]()
+	built := make(map[*yaml.Node]low.ValueReference[*SecurityScheme], totalDefinitions)
 	for completedDefs < totalDefinitions {
 		select {
 		case err := <-errorChan:
 			return err
 		case sch := <-resultChan:
 			completedDefs++
-			key := low.KeyReference[string]{
-				Value:   sch.k.Value,
-				KeyNode: sch.k,
-			}
-			results.Set(key, sch.v)
+			built[sch.k] = sch.v
 		}
 	}
+
+	// the definitions keep the order of the document, whichever is built first.
+	results := orderedmap.New[low.KeyReference[string], low.ValueReference[*SecurityScheme]]()
+	for i := 0; i+1 < len(root.Content); i += 2 {
+		results.Set(low.KeyReference[string]{
+			Value:   root.Content[i].Value,
+			KeyNode: root.Content[i],
+		}, built[root.Content[i]])
+	}
 	s.Definitions = results
 	return nil
 }
-- 
2.43.0


From 94a10453fbf4739b030c22b8fd335dedd7359ecf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:32:20 +0000
Subject: [PATCH 76/86] fix: which of two Go types with one name becomes the
 component no longer varies

---
 generator/golang/from_reflect.go | 20 ++++++++++++++------
 generator/golang/generator.go    |  5 ++++-
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/generator/golang/from_reflect.go b/generator/golang/from_reflect.go
index b254979..addfcf6 100644
--- a/generator/golang/from_reflect.go
+++ b/generator/golang/from_reflect.go
@@ -106,7 +106,7 @@ func (g *Generator) irFromReflectName(t reflect.Type, name string, nameResolved
 	if err != nil {
 		return nil, err
 	}
-	g.reflectCache[t] = ir
+	g.keepReflected(t, ir)
 	if nullable {
 		cp := *ir
 		cp.Nullable = true
@@ -115,6 +115,14 @@ func (g *Generator) irFromReflectName(t reflect.Type, name string, nameResolved
 	return ir, nil
 }
 
+// keepReflected caches what a type became and remembers the order in which types were met.
+func (g *Generator) keepReflected(t reflect.Type, ir *SchemaIR) {
+	if _, known := g.reflectCache[t]; !known {
+		g.reflectOrder = append(g.reflectOrder, t)
+	}
+	g.reflectCache[t] = ir
+}
+
 func (g *Generator) irFromTypeSchema(t reflect.Type, name, path string, schema *highbase.SchemaProxy, nullable bool) (*SchemaIR, error) {
 	schemaName := name
 	if t.Name() != "" {
@@ -126,7 +134,7 @@ func (g *Generator) irFromTypeSchema(t reflect.Type, name, path string, schema *
 	}
 	base := *ir
 	base.ExactSource = true
-	g.reflectCache[t] = &base
+	g.keepReflected(t, &base)
 	if nullable {
 		cp := base
 		cp.Nullable = true
@@ -147,7 +155,7 @@ func (g *Generator) irFromSchemaProvider(t reflect.Type, name, path string, null
 	}
 	base := *ir
 	base.ExactSource = true
-	g.reflectCache[t] = &base
+	g.keepReflected(t, &base)
 	if nullable {
 		cp := base
 		cp.Nullable = true
@@ -172,7 +180,7 @@ func (g *Generator) irFromSchemaMetadataProvider(t reflect.Type, name, path stri
 	}
 	base := *ir
 	base.ExactSource = true
-	g.reflectCache[t] = &base
+	g.keepReflected(t, &base)
 	if nullable {
 		cp := base
 		cp.Nullable = true
@@ -197,7 +205,7 @@ func (g *Generator) irFromSchemaYAMLProvider(t reflect.Type, name, path string,
 	}
 	base := *ir
 	base.ExactSource = true
-	g.reflectCache[t] = &base
+	g.keepReflected(t, &base)
 	if nullable {
 		cp := base
 		cp.Nullable = true
@@ -238,7 +246,7 @@ func (g *Generator) irFromReflectStruct(t reflect.Type, name, path string, nulla
 	}
 	ir := newObjectIR(structName)
 	ir.Nullable = nullable
-	g.reflectCache[t] = ir
+	g.keepReflected(t, ir)
 	g.reflectStack[t] = true
 	defer delete(g.reflectStack, t)
 
diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index 3732acc..b6c9bc5 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -53,6 +53,7 @@ type Generator struct {
 
 	openapiCache map[*highbase.SchemaProxy]*SchemaIR
 	reflectCache map[reflect.Type]*SchemaIR
+	reflectOrder []reflect.Type
 	reflectStack map[reflect.Type]bool
 	typeNames    *nameRegistry
 
@@ -144,6 +145,7 @@ func (g *Generator) run() *Generator {
 	r.diagnostics = nil
 	r.openapiCache = make(map[*highbase.SchemaProxy]*SchemaIR)
 	r.reflectCache = make(map[reflect.Type]*SchemaIR)
+	r.reflectOrder = nil
 	r.reflectStack = make(map[reflect.Type]bool)
 	r.typeNames = nil
 	r.componentNames = nil
@@ -334,7 +336,8 @@ func (g *Generator) SchemasFromTypes(types ...reflect.Type) (*SchemaSet, error)
 		roots.Set(rootName, rootProxy)
 	}
 	irs := make([]*SchemaIR, 0, len(r.reflectCache))
-	for _, ir := range r.reflectCache {
+	for _, t := range r.reflectOrder {
+		ir := r.reflectCache[t]
 		if ir != nil && ir.Name != "" && isComponentKind(ir.Kind) {
 			irs = append(irs, ir)
 		}
-- 
2.43.0


From 1c2a5af3025a7fbaf2b0234a1152a1c421c89e0e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:42:49 +0000
Subject: [PATCH 77/86] fix: MergeReferencedProperties and
 PropertyMergeStrategy of the document configuration reach the index

---
 datamodel/low/v3/create_document.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datamodel/low/v3/create_document.go b/datamodel/low/v3/create_document.go
index 34e3f05..fec1394 100644
--- a/datamodel/low/v3/create_document.go
+++ b/datamodel/low/v3/create_document.go
@@ -156,6 +156,8 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 	idxConfig.IgnorePolymorphicCircularReferences = config.IgnorePolymorphicCircularReferences
 	idxConfig.AllowUnknownExtensionContentDetection = config.AllowUnknownExtensionContentDetection
 	idxConfig.TransformSiblingRefs = config.TransformSiblingRefs
+	idxConfig.MergeReferencedProperties = config.MergeReferencedProperties
+	idxConfig.PropertyMergeStrategy = config.PropertyMergeStrategy
 	idxConfig.SkipExternalRefResolution = config.SkipExternalRefResolution
 	idxConfig.ResolveNestedRefsWithDocumentContext = config.ResolveNestedRefsWithDocumentContext
 	idxConfig.AvoidCircularReferenceCheck = true
-- 
2.43.0


From be445b0a9f74ac1d65043216a251b412180a1300 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:44:48 +0000
Subject: [PATCH 78/86] fix: swagger documents honour SpecFilePath,
 UseSchemaQuickHash and ExtractRefsSequentially

---
 datamodel/low/v2/swagger.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datamodel/low/v2/swagger.go b/datamodel/low/v2/swagger.go
index 044a9e8..3e0ee73 100644
--- a/datamodel/low/v2/swagger.go
+++ b/datamodel/low/v2/swagger.go
@@ -150,6 +150,9 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 	idxConfig.AvoidCircularReferenceCheck = true
 	idxConfig.BaseURL = config.BaseURL
 	idxConfig.BasePath = config.BasePath
+	idxConfig.SpecFilePath = config.SpecFilePath
+	idxConfig.UseSchemaQuickHash = config.UseSchemaQuickHash
+	idxConfig.ExtractRefsSequentially = config.ExtractRefsSequentially
 	idxConfig.Logger = config.Logger
 	idxConfig.ExcludeExtensionRefs = config.ExcludeExtensionRefs
 	idxConfig.SkipMetadataCollection = config.SkipMetadataCollection
-- 
2.43.0


From ba3702f213c677952ab1b49f957d2bce773aee94 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:46:00 +0000
Subject: [PATCH 79/86] fix: swagger documents honour AllowFileReferences

---
 datamodel/low/v2/swagger.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datamodel/low/v2/swagger.go b/datamodel/low/v2/swagger.go
index 3e0ee73..c25d03e 100644
--- a/datamodel/low/v2/swagger.go
+++ b/datamodel/low/v2/swagger.go
@@ -162,8 +162,8 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 
 	var errs []error
 
-	// If basePath is provided, add a local filesystem to the rolodex.
-	if idxConfig.BasePath != "" {
+	// If basePath is provided, or file references are allowed, add a local filesystem to the rolodex.
+	if idxConfig.BasePath != "" || config.AllowFileReferences {
 		var cwd string
 		cwd, _ = filepath.Abs(config.BasePath)
 		// if a supplied local filesystem is provided, add it to the rolodex.
-- 
2.43.0


From 2e13e61501a4e8da1133a6b5d9c8ecb0a1543de3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:55:16 +0000
Subject: [PATCH 80/86] fix: a document configuration made from an index
 configuration keeps all settings both have

---
 index/index_model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/index/index_model.go b/index/index_model.go
index 9782c31..9bcad9c 100644
--- a/index/index_model.go
+++ b/index/index_model.go
@@ -296,6 +296,9 @@ func (s *SpecIndexConfig) ToDocumentConfiguration() *datamodel.DocumentConfigura
 		PropertyMergeStrategy:                 strategy,
 		SkipExternalRefResolution:             s.SkipExternalRefResolution,
 		SkipMetadataCollection:                s.SkipMetadataCollection,
+		ExtractRefsSequentially:               s.ExtractRefsSequentially,
+		ExcludeExtensionRefs:                  s.ExcludeExtensionRefs,
+		RemoteURLHandler:                      s.RemoteURLHandler,
 		Logger:                                s.Logger,
 	}
 }
-- 
2.43.0


From 88011133b95137738747722bf3b8cafe75d8f134 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 81/86] fix: SkipExternalRefResolution keeps the index from
 opening the files of external references

---
 index/search_index.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/search_index.go b/index/search_index.go
index aaaee5d..81e582a 100644
--- a/index/search_index.go
+++ b/index/search_index.go
@@ -275,6 +275,10 @@ func (index *SpecIndex) SearchIndexForReferenceByReferenceWithContext(ctx contex
 			}
 			return r, index, ctx
 		}
+		// no other file is read when external references are not to be resolved.
+		if index.config != nil && index.config.SkipExternalRefResolution {
+			return nil, index, ctx
+		}
 		rFile, err := index.rolodex.Open(roloLookup)
 		if err != nil {
 			return nil, index, ctx
-- 
2.43.0


From e384caded989cda6e9dce5cb942e2b877b53ce35 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:03:21 +0000
Subject: [PATCH 82/86] fix: a redirect does not lead an arazzo source to a
 host or scheme that is not allowed

---
 arazzo/resolve.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/arazzo/resolve.go b/arazzo/resolve.go
index 576e6bd..0dacd16 100644
--- a/arazzo/resolve.go
+++ b/arazzo/resolve.go
@@ -255,7 +255,8 @@ func fetchHTTPSourceBytes(sourceURL string, config *ResolveConfig) ([]byte, erro
 		return nil, err
 	}
 
-	client := getResolveHTTPClient(config)
+	client := *getResolveHTTPClient(config)
+	client.CheckRedirect = checkSourceRedirect(config, client.CheckRedirect)
 	resp, err := client.Do(req)
 	if err != nil {
 		return nil, err
@@ -279,6 +280,24 @@ func fetchHTTPSourceBytes(sourceURL string, config *ResolveConfig) ([]byte, erro
 	return body, nil
 }
 
+// checkSourceRedirect holds the target of a redirect to the same rules as the URL of the source itself.
+func checkSourceRedirect(
+	config *ResolveConfig, next func(req *http.Request, via []*http.Request) error,
+) func(req *http.Request, via []*http.Request) error {
+	return func(req *http.Request, via []*http.Request) error {
+		if err := validateSourceURL(req.URL, config); err != nil {
+			return err
+		}
+		if next != nil {
+			return next(req, via)
+		}
+		if len(via) >= 10 {
+			return errors.New("stopped after 10 redirects")
+		}
+		return nil
+	}
+}
+
 func getResolveHTTPClient(config *ResolveConfig) *http.Client {
 	if config != nil && config.HTTPClient != nil {
 		return config.HTTPClient
-- 
2.43.0


From 5ae2d725cf0507139e558cc71026c09af03012d7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:03:56 +0000
Subject: [PATCH 83/86] fix: MaxBodySize bounds what is read of an arazzo
 source file whose size is not known

---
 arazzo/resolve.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/arazzo/resolve.go b/arazzo/resolve.go
index 0dacd16..f75a336 100644
--- a/arazzo/resolve.go
+++ b/arazzo/resolve.go
@@ -317,7 +317,21 @@ func readFileWithLimit(path string, maxBytes int64) ([]byte, error) {
 	if info.Size() > maxBytes {
 		return nil, fmt.Errorf("file exceeds max size of %d bytes", maxBytes)
 	}
-	return os.ReadFile(path)
+	file, err := os.Open(path)
+	if err != nil {
+		return nil, err
+	}
+	defer file.Close()
+
+	// the size a file reports says nothing about devices and pipes, or files that are still growing.
+	b, err := io.ReadAll(io.LimitReader(file, maxBytes+1))
+	if err != nil {
+		return nil, err
+	}
+	if int64(len(b)) > maxBytes {
+		return nil, fmt.Errorf("file exceeds max size of %d bytes", maxBytes)
+	}
+	return b, nil
 }
 
 func resolveFilePath(path string, roots []string) (string, error) {
-- 
2.43.0


From 7dadac395caa0b997883c4d6bce459abb5b77250 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:06:59 +0000
Subject: [PATCH 84/86] fix: FileFilter also limits which files are read when
 no file system is supplied

---
 index/rolodex_file_loader.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/index/rolodex_file_loader.go b/index/rolodex_file_loader.go
index de8e2bc..ed79a0e 100644
--- a/index/rolodex_file_loader.go
+++ b/index/rolodex_file_loader.go
@@ -94,6 +94,11 @@ func (l *LocalFS) OpenWithContext(ctx context.Context, name string) (fs.File, er
 	// Only enter new-file logic if DirFS is not set
 	if l.fsConfig != nil && l.fsConfig.DirFS == nil {
 
+		// only the files that are asked for are read.
+		if !l.includesFile(name) {
+			return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
+		}
+
 		// Use LoadOrStore to atomically check if someone is already processing this file.
 		// This prevents the race condition where two goroutines both see "not processing"
 		// and both start processing the same file.
@@ -183,6 +188,22 @@ func (l *LocalFS) OpenWithContext(ctx context.Context, name string) (fs.File, er
 	return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
 }
 
+// includesFile tells whether the file filters let the file in: they name it, or there are none.
+func (l *LocalFS) includesFile(name string) bool {
+	if len(l.fsConfig.FileFilters) == 0 || name == l.baseDirectory {
+		return true
+	}
+	for _, filter := range l.fsConfig.FileFilters {
+		if !filepath.IsAbs(filter) {
+			filter = filepath.Join(l.baseDirectory, filter)
+		}
+		if filepath.Clean(filter) == filepath.Clean(name) {
+			return true
+		}
+	}
+	return false
+}
+
 // Open opens a file, returning it or an error. If the file is not found, the error is of type *PathError.
 func (l *LocalFS) Open(name string) (fs.File, error) {
 	return l.OpenWithContext(context.Background(), name)
-- 
2.43.0


From 4a78f91e75e749bb001667e77a0e049526c97216 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 07:23:46 +0000
Subject: [PATCH 85/86] fix: a workflow that depends on a circular one is not
 itself reported as circular

---
 arazzo/validation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arazzo/validation.go b/arazzo/validation.go
index df664c9..384bb62 100644
--- a/arazzo/validation.go
+++ b/arazzo/validation.go
@@ -819,6 +819,7 @@ func (v *validator) checkCircularDependencies() {
 	dfs = func(id string, path []string) bool {
 		visited[id] = true
 		recStack[id] = true
+		defer func() { recStack[id] = false }()
 		path = append(path, id)
 
 		for _, dep := range adj[id] {
@@ -832,7 +833,6 @@ func (v *validator) checkCircularDependencies() {
 			}
 		}
 
-		recStack[id] = false
 		return false
 	}
 
-- 
2.43.0


From 9a2f748cc328fe9c92364e0bc35dba1a67f7be9b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 07:23:46 +0000
Subject: [PATCH 86/86] fix: a tag whose parent is part of a circle is not
 itself reported as circular

---
 index/spec_index_counts.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/index/spec_index_counts.go b/index/spec_index_counts.go
index 394743f..430edd7 100644
--- a/index/spec_index_counts.go
+++ b/index/spec_index_counts.go
@@ -169,11 +169,11 @@ func (index *SpecIndex) detectTagCircularHelper(tagName string, parentMap map[st
 	}
 	visited[tagName] = true
 	recStack[tagName] = true
+	defer func() { recStack[tagName] = false }()
 	path = append(path, tagName)
 
 	if parentName, hasParent := parentMap[tagName]; hasParent {
 		if _, parentExists := tagRefs[parentName]; !parentExists {
-			recStack[tagName] = false
 			return []string{}
 		}
 		if recStack[parentName] {
@@ -186,7 +186,6 @@ func (index *SpecIndex) detectTagCircularHelper(tagName string, parentMap map[st
 		}
 	}
 
-	recStack[tagName] = false
 	return []string{}
 }
 
-- 
2.43.0

