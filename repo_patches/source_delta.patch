From 0ebe9c614165bd8bf55682ebfa99f288e5ce3521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:04 +0000
Subject: [PATCH 01/41] fix: LatestInMajor returns the newest schema of its own
 major version

It returned the first schema of the next major version, and indexed out of
range for the last one.
---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index b685310..484822f 100644
--- a/schema.go
+++ b/schema.go
@@ -137,7 +137,7 @@ func (sch *schemaDef) predecessor() *schemaDef {
 // within this Schema's major version. If the receiver Schema is the latest, it
 // will return itself.
 func (sch *schemaDef) LatestInMajor() Schema {
-	return sch.lin.allsch[searchSynv(sch.lin.allv, SyntacticVersion{sch.v[0] + 1, 0})]
+	return sch.lin.allsch[searchSynv(sch.lin.allv, SyntacticVersion{sch.v[0] + 1, 0})-1]
 }
 
 // Underlying returns the cue.Value that represents the underlying CUE #SchemaDef.
-- 
2.43.0


From 06a1b19075edb387bd7ee56ab1572b7c5cf1749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:04 +0000
Subject: [PATCH 02/41] fix: correct schema indexing in lineages with four or
 more major versions

The per-major schema counts subtracted the sum of all earlier start positions
rather than the preceding one, so translation from or to major version 3 and
above picked the wrong schemas and lenses, and some lineages failed to bind.
---
 lineage.cue | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineage.cue b/lineage.cue
index 418e442..aec8c2c 100644
--- a/lineage.cue
+++ b/lineage.cue
@@ -123,7 +123,7 @@ import (
 	if len(SS) > 1 {
 		_pos: [0, for i, sch in list.Drop(SS, 1) if SS[i].version[0] < sch.version[0] {i + 1}]
 		_counts: [ for i, idx in list.Slice(_pos, 0, len(_pos)-1) {
-			_pos[i+1] - list.Sum(list.Slice(_pos, 0, i+1))
+			_pos[i+1] - idx
 		}, len(SS) - _pos[len(_pos)-1]]
 
 		// The following approach to the above:
-- 
2.43.0


From b73fa7df67643f87cef6f8de969826ff242c303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:02 +0000
Subject: [PATCH 03/41] fix: reject lineages with non-contiguous or duplicate
 schema versions

A schema's version has exactly one correct value, determined by its position
and the preceding versions, but lineages that did not start at 0.0, skipped
versions or repeated one were accepted, and later operations on them panicked.
---
 bind.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/bind.go b/bind.go
index 572cfc3..6c5a7de 100644
--- a/bind.go
+++ b/bind.go
@@ -111,6 +111,26 @@ func (ml *maybeLineage) checkGoValidity(cfg *bindConfig) error {
 		previous = sch
 	}
 
+	return ml.checkSchemasContiguous()
+}
+
+// checkSchemasContiguous checks that schema versions start at 0.0, and that each
+// subsequent version is exactly one minor or one major version after its predecessor.
+func (ml *maybeLineage) checkSchemasContiguous() error {
+	for i, sch := range ml.schlist {
+		if i == 0 {
+			if sch.v != synv() {
+				return errors.Mark(mkerror(sch.ref.LookupPath(pathSch), "first schema must have version %s, got %s", synv(), sch.v), terrors.ErrInvalidLineage)
+			}
+			continue
+		}
+
+		prev := ml.allv[i-1]
+		if nextMinor, nextMajor := synv(prev[0], prev[1]+1), synv(prev[0]+1, 0); sch.v != nextMinor && sch.v != nextMajor {
+			return errors.Mark(mkerror(sch.ref.LookupPath(pathSch), "schema version %s cannot follow %s: must be either %s or %s", sch.v, prev, nextMinor, nextMajor), terrors.ErrInvalidLineage)
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 156ef959f5b078793a039d49197c62f294298292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:18 +0000
Subject: [PATCH 04/41] fix: return the lacunas emitted during translation

Any lens with an applicable lacuna made translation fail, because #Translate
selected a nonexistent field of the lacuna, and the Go code looked for lacunas
where #Translate does not put them.
---
 instance.go   | 52 +++++++++++++++++++++++++++++++++++++++++++++++----
 translate.cue |  4 ++--
 2 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/instance.go b/instance.go
index ec03f9a..15b3a80 100644
--- a/instance.go
+++ b/instance.go
@@ -232,9 +232,6 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 		return nil, nil, errors.Mark(out.Err(), terrors.ErrInvalidLens)
 	}
 
-	lac := make(multiTranslationLacunas, 0)
-	out.LookupPath(cue.MakePath(cue.Str("lacunas"))).Decode(&lac)
-
 	// Attempt to evaluate #Translate result to remove intermediate structures created by #Translate.
 	// Otherwise, all the #Translate results are non-concrete, which leads to undesired effects.
 	raw, _ := out.LookupPath(cue.MakePath(cue.Str("result"), cue.Str("result"))).Default()
@@ -250,7 +247,12 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 	if err != nil {
 		return nil, nil, errors.Mark(err, terrors.ErrLensResultIsInvalidData)
 	}
-	return inst, lac, err
+
+	lac, err := collectLacunas(out.LookupPath(cue.MakePath(cue.Str("steps"))))
+	if err != nil {
+		return nil, nil, errors.Mark(fmt.Errorf("lens produced invalid lacunas: %s", cerrors.Details(err, nil)), terrors.ErrInvalidLens)
+	}
+	return inst, lac, nil
 }
 
 func (i *Instance) translateGo(to SyntacticVersion) (*Instance, TranslationLacunas, error) {
@@ -309,6 +311,48 @@ type multiTranslationLacunas []struct {
 	Lac []Lacuna         `json:"lacunas"`
 }
 
+// collectLacunas gathers the lacunas emitted by each of the steps of a translation,
+// in the order in which the steps were taken.
+func collectLacunas(steps cue.Value) (multiTranslationLacunas, error) {
+	lac := make(multiTranslationLacunas, 0)
+	iter, err := steps.List()
+	if err != nil {
+		return nil, err
+	}
+	for iter.Next() {
+		var step struct {
+			To      SyntacticVersion `json:"to"`
+			Lacunas []struct {
+				SourceFields []FieldRef `json:"sourceFields"`
+				TargetFields []FieldRef `json:"targetFields"`
+				Message      string     `json:"message"`
+				Type         struct {
+					ID LacunaType `json:"id"`
+				} `json:"type"`
+			} `json:"lacunas"`
+		}
+		if err := iter.Value().LookupPath(cue.MakePath(cue.Str("to"))).Decode(&step.To); err != nil {
+			return nil, err
+		}
+		if err := iter.Value().LookupPath(cue.MakePath(cue.Str("lacunas"))).Decode(&step.Lacunas); err != nil {
+			return nil, err
+		}
+		if len(step.Lacunas) == 0 {
+			continue
+		}
+
+		list := make([]Lacuna, len(step.Lacunas))
+		for i, l := range step.Lacunas {
+			list[i] = Lacuna{SourceFields: l.SourceFields, TargetFields: l.TargetFields, Type: l.Type.ID, Message: l.Message}
+		}
+		lac = append(lac, struct {
+			V   SyntacticVersion `json:"v"`
+			Lac []Lacuna         `json:"lacunas"`
+		}{step.To, list})
+	}
+	return lac, nil
+}
+
 func (lac multiTranslationLacunas) AsList() []Lacuna {
 	// FIXME This loses info, naturally - need to rework the lacuna types
 	var l []Lacuna
diff --git a/translate.cue b/translate.cue
index c92e5e3..1f69a3b 100644
--- a/translate.cue
+++ b/translate.cue
@@ -72,7 +72,7 @@ import "list"
 					to:   _lens.to
 					// TODO initial input isn't necessarily unified with schema - does that make translated output meaningfully different?
 					result: {_lens.result, schdef._#schema}
-					lacunas: [ for lac in _lens.lacunas if lac.condition {lac.lacuna}]
+					lacunas: [ for lac in _lens.lacunas if lac.condition {lac}]
 				}]
 
 				// Final value excludes first element (initial input) from accum
@@ -115,7 +115,7 @@ import "list"
 						to:   schdef.version
 						//						result: {_lens.result, schdef._#schema, {lidx: lensidx}}
 						result: {_lens.result, schdef._#schema}
-						lacunas: [ for lac in _lens.lacunas if lac.condition {lac.lacuna}]
+						lacunas: [ for lac in _lens.lacunas if lac.condition {lac}]
 						// Crossing a major version. The forward lens explicitly defined in the schema
 						// provides the mapping algorithm.
 					}
-- 
2.43.0


From e9c2ea790bd8f3e2841eba1ff229ba994d0fb20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:46 +0000
Subject: [PATCH 05/41] fix: make all translation errors children of
 ErrInvalidLens, as documented

---
 instance.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/instance.go b/instance.go
index 15b3a80..223a52e 100644
--- a/instance.go
+++ b/instance.go
@@ -239,13 +239,14 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 	// Check that the result is concrete by trying to marshal/export it as JSON
 	_, err = json.Marshal(raw)
 	if err != nil {
-		return nil, nil, errors.Mark(fmt.Errorf("lens produced a non-concrete result: %s", cerrors.Details(err, nil)), terrors.ErrLensIncomplete)
+		err = errors.Mark(fmt.Errorf("lens produced a non-concrete result: %s", cerrors.Details(err, nil)), terrors.ErrLensIncomplete)
+		return nil, nil, errors.Mark(err, terrors.ErrInvalidLens)
 	}
 
 	// Ensure the result is a valid instance of the target schema
 	inst, err := newsch.Validate(raw)
 	if err != nil {
-		return nil, nil, errors.Mark(err, terrors.ErrLensResultIsInvalidData)
+		return nil, nil, errors.Mark(errors.Mark(err, terrors.ErrLensResultIsInvalidData), terrors.ErrInvalidLens)
 	}
 
 	lac, err := collectLacunas(out.LookupPath(cue.MakePath(cue.Str("steps"))))
@@ -281,16 +282,16 @@ func (i *Instance) translateGo(to SyntacticVersion) (*Instance, TranslationLacun
 			mlid := lid(sch.Version(), nsch.Version())
 			rti, err = lensmap[mlid].Mapper(ti, nsch)
 			if err != nil {
-				return nil, nil, fmt.Errorf("error executing %s migration: %w", mlid, err)
+				return nil, nil, errors.Mark(fmt.Errorf("error executing %s migration: %w", mlid, err), terrors.ErrInvalidLens)
 			}
 			// Ensure that
 			//  - the returned instance exists
 			//  - the caller returned an instance of the expected schema version
 			if rti == nil {
-				return nil, nil, fmt.Errorf("lens returned a nil instance")
+				return nil, nil, errors.Mark(fmt.Errorf("lens returned a nil instance"), terrors.ErrInvalidLens)
 			}
 			if rti.Schema().Version() != nsch.Version() {
-				return nil, nil, fmt.Errorf("lens returned an instance of the wrong schema version: expected %v, got %v", nsch.Version(), rti.Schema().Version())
+				return nil, nil, errors.Mark(fmt.Errorf("lens returned an instance of the wrong schema version: expected %v, got %v", nsch.Version(), rti.Schema().Version()), terrors.ErrInvalidLens)
 			}
 		} else {
 			// going up a minor version - neither errors nor lacunas are possible
-- 
2.43.0


From b0437447e5723908f02b1194108bca7613d4b936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:01 +0000
Subject: [PATCH 06/41] fix: report validation failures that have no dedicated
 error form

Fields not permitted by the schema and list length mismatches were dropped
from the returned error, leaving its message empty.
---
 validate.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/validate.go b/validate.go
index c4bfdf9..fbe89c9 100644
--- a/validate.go
+++ b/validate.go
@@ -80,6 +80,20 @@ func (e *twosidederr) Unwrap() error {
 }
 
 // TODO differentiate this once we have generic composition to support trimming out irrelevant disj branches
+// plainerr reports a validation failure for which CUE's own message is all there is to say.
+type plainerr struct {
+	coords coords
+	msg    string
+}
+
+func (e *plainerr) Error() string {
+	return fmt.Sprintf("%s: validation failed, data is not an instance:\n\t%s", e.coords, e.msg)
+}
+
+func (e *plainerr) Unwrap() error {
+	return terrors.ErrInvalidData
+}
+
 type emptydisjunction struct {
 	schpos, datapos []token.Pos
 	coords          coords
@@ -210,6 +224,17 @@ func mungeValidateErr(err error, sch Schema) error {
 			errs = append(errs, err)
 			continue
 		}
+
+		// The errors of the individual branches follow; this one carries no information
+		if strings.Contains(msg, "errors in empty disjunction") {
+			continue
+		}
+
+		// No more specific form applies, but the failure must still be reported
+		errs = append(errs, &plainerr{
+			coords: x,
+			msg:    fmt.Sprintf(msg, vals...),
+		})
 	}
 	return errs
 }
-- 
2.43.0


From 928f454b675c5ef26a18f82654bc321f14390e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:05 +0000
Subject: [PATCH 07/41] fix: hydrate and dehydrate instances against the schema
 itself

They were driven by the #SchemaDef that contains the schema, so hydration added
the fields of the definition to the data, and neither one handled defaults.
---
 instance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instance.go b/instance.go
index 223a52e..0353400 100644
--- a/instance.go
+++ b/instance.go
@@ -60,7 +60,7 @@ func (i *Instance) Hydrate() *Instance {
 	i.check()
 
 	i.sch.Lineage().Runtime()
-	ni, err := doHydrate(i.sch.Underlying(), i.raw)
+	ni, err := doHydrate(i.sch.Underlying().LookupPath(pathSchDef), i.raw)
 	// FIXME For now, just no-op it if we error
 	if err != nil {
 		return i
@@ -82,7 +82,7 @@ func (i *Instance) Hydrate() *Instance {
 func (i *Instance) Dehydrate() *Instance {
 	i.check()
 
-	ni, _, err := doDehydrate(i.sch.Underlying(), i.raw)
+	ni, _, err := doDehydrate(i.sch.Underlying().LookupPath(pathSchDef), i.raw)
 	// FIXME For now, just no-op it if we error
 	if err != nil {
 		return i
-- 
2.43.0


From 4c4608518f9da75027135f87654a3f39edb2241a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:40 +0000
Subject: [PATCH 08/41] fix: a failed lens no longer falls back to the
 untranslated input

When the last step of a translation failed, the disjunction holding the
result fell back to the input. If that input happened to be valid for the
target schema, Translate returned the untranslated data as its result.
---
 instance.go   | 5 +++++
 translate.cue | 7 ++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/instance.go b/instance.go
index 0353400..8dfbfce 100644
--- a/instance.go
+++ b/instance.go
@@ -217,6 +217,11 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 		panic(fmt.Sprintf("no schema in lineage with version %v, cannot translate", to))
 	}
 
+	if to == i.Schema().Version() {
+		// Nothing to translate
+		return i, make(multiTranslationLacunas, 0), nil
+	}
+
 	out, err := cueArgs{
 		"inst": i.raw,
 		"to":   to,
diff --git a/translate.cue b/translate.cue
index 1f69a3b..274df1b 100644
--- a/translate.cue
+++ b/translate.cue
@@ -36,9 +36,10 @@ import "list"
 	out: {
 		steps: [...#TranslatedInstance]
 		result: {
-			from:   FV
-			to:     TV
-			result: *steps[len(steps)-1].result | I
+			from: FV
+			to:   TV
+			// A failed step must not fall back to the untranslated input.
+			result: steps[len(steps)-1].result
 		}
 	}
 	out: {
-- 
2.43.0


From dc285bcdfcab5188fd3faaab2e6bac7853b34548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:25 +0000
Subject: [PATCH 09/41] fix: IsAppendOnly also compares schemas as they apply
 to data

It compared the open form of schemas only, without the joinSchema: adding an
optional field that allows any value to a published schema, or changing the
joinSchema of a published lineage, went unnoticed.
---
 lineage.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lineage.go b/lineage.go
index 6511269..32f39c0 100644
--- a/lineage.go
+++ b/lineage.go
@@ -312,6 +312,12 @@ func IsAppendOnly(oldLineage Lineage, newLineage Lineage) error {
 		if err := cuetil.Equal(x, y); err != nil {
 			return err
 		}
+
+		// Also compare the schemas as they apply to data: closed, and with the
+		// joinSchema, if any.
+		if err := cuetil.Equal(oldSchema.LookupPath(pathSchDef), newSchema.LookupPath(pathSchDef)); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 80c9f6097df77552138cb581f5c520f9fbb84397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:08 +0000
Subject: [PATCH 10/41] fix: refuse Go lens results that are no instance of the
 schema they lead to

---
 instance.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/instance.go b/instance.go
index 8dfbfce..d978b57 100644
--- a/instance.go
+++ b/instance.go
@@ -292,12 +292,16 @@ func (i *Instance) translateGo(to SyntacticVersion) (*Instance, TranslationLacun
 			// Ensure that
 			//  - the returned instance exists
 			//  - the caller returned an instance of the expected schema version
-			if rti == nil {
+			//  - that schema is from the lineage being translated within
+			if rti == nil || !rti.valid {
 				return nil, nil, errors.Mark(fmt.Errorf("lens returned a nil instance"), terrors.ErrInvalidLens)
 			}
 			if rti.Schema().Version() != nsch.Version() {
 				return nil, nil, errors.Mark(fmt.Errorf("lens returned an instance of the wrong schema version: expected %v, got %v", nsch.Version(), rti.Schema().Version()), terrors.ErrInvalidLens)
 			}
+			if !schemaIs(rti.Schema(), nsch) {
+				return nil, nil, errors.Mark(fmt.Errorf("lens returned an instance of version %v of a different lineage", nsch.Version()), terrors.ErrInvalidLens)
+			}
 		} else {
 			// going up a minor version - neither errors nor lacunas are possible
 			rti, _, err = ti.AsSuccessor()
-- 
2.43.0


From 01fff9ee4f6c0e19390dc7772d3a91129fb3c2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:04 +0000
Subject: [PATCH 11/41] fix: locate validation errors in lineages found below a
 path element named schemas

---
 validate.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/validate.go b/validate.go
index fbe89c9..8e508b0 100644
--- a/validate.go
+++ b/validate.go
@@ -298,8 +298,9 @@ func splitTokens(poslist []token.Pos) (schpos, datapos []token.Pos) {
 }
 
 func trimThemaPath(parts []string) []string {
-	for i, s := range parts {
-		if s == "schemas" {
+	// The lineage may itself be at a path containing an element named "schemas"
+	for i := 0; i+2 < len(parts); i++ {
+		if parts[i] == "schemas" && parts[i+2] == "_#schema" {
 			return parts[i+3:]
 		}
 	}
-- 
2.43.0


From 8d6fd550d9f53a94fdd793e3c623f81fafce0c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:12 +0000
Subject: [PATCH 12/41] fix: name examples as their lineage does, without
 quotes

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 484822f..2a7dc0a 100644
--- a/schema.go
+++ b/schema.go
@@ -46,7 +46,7 @@ func (sch *schemaDef) Examples() map[string]*Instance {
 
 	examples := make(map[string]*Instance)
 	for it.Next() {
-		label := it.Selector().String()
+		label := it.Label()
 		examples[label] = &Instance{
 			valid: true,
 			raw:   it.Value(),
-- 
2.43.0


From 129f2c78d02d44bbc653867db65d0449482c075d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:52 +0000
Subject: [PATCH 13/41] fix: IsAppendOnly also notices changed version numbers

---
 lineage.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lineage.go b/lineage.go
index 32f39c0..d52d357 100644
--- a/lineage.go
+++ b/lineage.go
@@ -302,6 +302,10 @@ func IsAppendOnly(oldLineage Lineage, newLineage Lineage) error {
 	}
 
 	for i, schema := range oldSchemas {
+		if ov, nv := schema.Version(), newSchemas[i].Version(); ov != nv {
+			return fmt.Errorf("published schema %s can't become version %s", ov, nv)
+		}
+
 		schemaPath := "schema"
 		oldSchema := schema.Underlying()
 		x := oldSchema.LookupPath(cue.ParsePath(schemaPath))
-- 
2.43.0


From 89a62d8e21ad7d42f7e88390f76cfd98b81a62bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:03 +0000
Subject: [PATCH 14/41] fix: a definition merely named #Lineage does not stand
 for thema.#Lineage

---
 lineage.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lineage.go b/lineage.go
index d52d357..8aceca0 100644
--- a/lineage.go
+++ b/lineage.go
@@ -69,8 +69,10 @@ func BindLineage(v cue.Value, rt *Runtime, opts ...BindOption) (Lineage, error)
 	if vlist := cuetil.AppendSplit(orig, cue.AndOp, nil); len(vlist) > 1 {
 		others := make([]cue.Value, 0, len(vlist))
 		for _, av := range vlist {
-			_, path := av.ReferencePath()
-			if path.String() != "#Lineage" {
+			root, path := av.ReferencePath()
+			// a definition that is merely called #Lineage, too, is just another part
+			bi := root.BuildInstance()
+			if path.String() != "#Lineage" || bi == nil || bi.ImportPath != "github.com/grafana/thema" {
 				others = append(others, av)
 			}
 		}
-- 
2.43.0


From b12a2c1b376f2daf05a85c9163610bba460253f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:59 +0000
Subject: [PATCH 15/41] fix: TypedInstance.Value fills in all defaults of the
 schema

Value is documented to include schema defaults, but defaults within list
elements and optional structs were left out.
---
 instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance.go b/instance.go
index d978b57..6c4bb29 100644
--- a/instance.go
+++ b/instance.go
@@ -165,7 +165,7 @@ func (inst *TypedInstance[T]) Value() (T, error) {
 
 	t := inst.tsch.NewT()
 	// TODO figure out correct pointer handling here
-	err := inst.Instance.raw.Decode(&t)
+	err := inst.Instance.Hydrate().raw.Decode(&t)
 	return t, err
 }
 
-- 
2.43.0


From 80df8bae5f8daf809972ba57f7e688b52d120689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:08 +0000
Subject: [PATCH 16/41] fix: accept Go arrays of length one for closed lists
 with one element

---
 assignable.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/assignable.go b/assignable.go
index f97fba5..5d51da3 100644
--- a/assignable.go
+++ b/assignable.go
@@ -221,6 +221,7 @@ func assignable(sch cue.Value, T interface{}) error {
 		var nonempty bool
 		if nonempty = iter.Next(); nonempty {
 			lastval = iter.Value()
+			los = lastval
 			for iter.Next() {
 				los = iter.Value() // it's fine to just keep updating the reference
 				// Failures indicate the CUE schema is unrepresentable in Go.
-- 
2.43.0


From 7dce9f4fe8a96b7eb1b81904a86d05e9ff29f6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:08 +0000
Subject: [PATCH 17/41] fix: check assignability of all branches of a scalar
 with a default

Subsume only looks at the default, so *1|int32 was considered assignable to
int8.
---
 assignable.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/assignable.go b/assignable.go
index 5d51da3..526da4a 100644
--- a/assignable.go
+++ b/assignable.go
@@ -7,6 +7,8 @@ import (
 	"reflect"
 
 	"cuelang.org/go/cue"
+
+	"github.com/grafana/thema/internal/cuetil"
 )
 
 // AssignableTo indicates whether all valid instances of the provided Thema
@@ -270,8 +272,14 @@ func assignable(sch cue.Value, T interface{}) error {
 		// be assignable to the Go type, we have to see if the Go type
 		// subsumes the schema, rather than the more intuitive check
 		// that the schema subsumes the Go type.
-		if err := gval.Subsume(sval, cue.Schema()); err != nil {
-			errs[p.String()] = fmt.Errorf("%s: schema type %v not subsumed by Go type %v", p, sval, gval)
+		//
+		// Branches of a disjunction are checked one by one, because given a
+		// disjunction with a default, Subsume only looks at the default.
+		for _, bval := range cuetil.AppendSplit(sval, cue.OrOp, nil) {
+			if err := gval.Subsume(bval, cue.Schema()); err != nil {
+				errs[p.String()] = fmt.Errorf("%s: schema type %v not subsumed by Go type %v", p, sval, gval)
+				return
+			}
 		}
 	}
 
-- 
2.43.0


From 7976c624fabcd8f428abc163b407d32ee8aa82b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:27 +0000
Subject: [PATCH 18/41] fix: find nested and optional subpaths when generating
 OpenAPI

Every element of a subpath was looked for at the root of the schema, and the
subpath was refused unless it was also part of the joinSchema.
---
 encoding/openapi/oapi.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/encoding/openapi/oapi.go b/encoding/openapi/oapi.go
index 4855e10..2c3a8c6 100644
--- a/encoding/openapi/oapi.go
+++ b/encoding/openapi/oapi.go
@@ -180,15 +180,10 @@ func genSchema(gen *oapiGen, val cue.Value) ([]ast.Decl, error) {
 	}
 
 	if hasSubpath {
-		for i, sel := range gen.cfg.Subpath.Selectors() {
-			if !val.Allows(sel) {
-				return nil, errors.Newf(cuetil.FirstNonThemaPos(val), "subpath %q not present in schema", cue.MakePath(gen.cfg.Subpath.Selectors()[:i+1]...))
-			}
-		}
-		if err := pathAllowed(gen.join, gen.cfg.Subpath); err != nil {
+		var err error
+		if val, err = lookupSubpath(val, gen.cfg.Subpath); err != nil {
 			return nil, err
 		}
-		val = val.LookupPath(gen.cfg.Subpath)
 	}
 
 	v := gen.sch.Underlying().Context().CompileString(fmt.Sprintf("#%s: _", name))
@@ -245,14 +240,20 @@ func getSchemas(f *ast.File) []ast.Decl {
 	return schemas.Value.(*ast.StructLit).Elts
 }
 
-func pathAllowed(v cue.Value, path cue.Path) error {
+// lookupSubpath finds the value at the given path of regular or optional fields.
+func lookupSubpath(v cue.Value, path cue.Path) (cue.Value, error) {
 	for i, sel := range path.Selectors() {
-		if !v.Allows(sel) {
-			return errors.Newf(v.Pos(), "subpath %q not present in schema", cue.MakePath(path.Selectors()[:i+1]...))
+		next := v.LookupPath(cue.MakePath(sel))
+		if !next.Exists() {
+			next = v.LookupPath(cue.MakePath(sel.Optional()))
+		}
+		if !next.Exists() {
+			return next, errors.Newf(cuetil.FirstNonThemaPos(v), "subpath %q not present in schema", cue.MakePath(path.Selectors()[:i+1]...))
 		}
+		v = next
 	}
 
-	return nil
+	return v, nil
 }
 
 func orp[T any](t T, err error) T {
-- 
2.43.0


From bd94d525a2f1f1cc87aa7c06f3fcf5b9b8bbb8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:03 +0000
Subject: [PATCH 19/41] fix: convert nullable types within alternatives to JSON
 Schema

Null was refused by the generated schema for nullable fields of structs that
are part of a disjunction.
---
 encoding/jsonschema/jschema.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/encoding/jsonschema/jschema.go b/encoding/jsonschema/jschema.go
index b519526..1a72470 100644
--- a/encoding/jsonschema/jschema.go
+++ b/encoding/jsonschema/jschema.go
@@ -166,9 +166,13 @@ func newSchemaNode(parent schemaNode, in ast.Node) (schemaNode, error) {
 				}
 			}
 
-			// And additionalProperties
-			if apf := getFieldWithLabel(n, "additionalProperties"); apf != nil {
-				return scan(p, apf)
+			// And additionalProperties, and alternatives
+			for _, label := range []string{"additionalProperties", "oneOf", "allOf", "anyOf", "not"} {
+				if sf := getFieldWithLabel(n, label); sf != nil {
+					if err := scan(p, sf); err != nil {
+						return err
+					}
+				}
 			}
 
 			return nil
-- 
2.43.0


From 3647e85bf8fb0c9e000244fb100de8afa89272c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:50 +0000
Subject: [PATCH 20/41] fix: build the Thema CUE package for one runtime at a
 time

All runtimes are built from the same build.Instance, and building it
writes to its syntax tree. Creating runtimes in several goroutines was a
data race.
---
 runtime.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/runtime.go b/runtime.go
index ec03373..a2981ca 100644
--- a/runtime.go
+++ b/runtime.go
@@ -68,6 +68,10 @@ type Runtime struct {
 	mut sync.RWMutex
 }
 
+// buildMut guards building the Thema CUE package, of which there is but one
+// instance for all runtimes. Building writes to it.
+var buildMut sync.Mutex
+
 // NewRuntime parses, loads and builds a full CUE instance/value representing
 // all of the logic in the Thema CUE package (github.com/grafana/thema),
 // and returns a Runtime instance ready for use.
@@ -79,7 +83,10 @@ func NewRuntime(ctx *cue.Context) *Runtime {
 	if ctx == nil {
 		panic("nil context provided")
 	}
-	rt := ctx.BuildInstance(loadRuntime())
+	bi := loadRuntime()
+	buildMut.Lock()
+	rt := ctx.BuildInstance(bi)
+	buildMut.Unlock()
 
 	// FIXME preload all the known funcs into a map[string]cue.Value here to avoid runtime cost
 	return &Runtime{
-- 
2.43.0


From 1a6a1c7f942f86b47c4971e7003fe6d98b6bbe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:51 +0000
Subject: [PATCH 21/41] fix: validate under the exclusive lock

Unifying the data with the schema initializes parts of the schema on
first use. With the shared lock, validating in several goroutines was a
data race.
---
 schema.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/schema.go b/schema.go
index 2a7dc0a..720b57c 100644
--- a/schema.go
+++ b/schema.go
@@ -72,8 +72,10 @@ func (sch *schemaDef) rt() *Runtime {
 // incomplete CUE values with Thema schemas, prefer working directly in CUE,
 // or if you must, rely on Underlying().
 func (sch *schemaDef) Validate(data cue.Value) (*Instance, error) {
-	sch.rt().rl()
-	defer sch.rt().ru()
+	// Unifying evaluates, and evaluating writes to the schema, so this is no mere
+	// reading.
+	sch.rt().l()
+	defer sch.rt().u()
 	// TODO which approach is actually the right one, unify or subsume? ugh
 	// err := sch.raw.Subsume(data, cue.All(), cue.Raw())
 	// if err != nil {
-- 
2.43.0


From f7acec04f77e772b3d7622a6aaabcf313f9c0097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:05 +0000
Subject: [PATCH 22/41] fix: hydrate empty lists that can have no elements

A lens that maps one open list to another gives an empty list both
types. When these have no value in common, Hydrate panicked, although
the instance is valid.
---
 hydrate.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hydrate.go b/hydrate.go
index 1115309..0e0ade4 100644
--- a/hydrate.go
+++ b/hydrate.go
@@ -16,10 +16,10 @@ func doHydrate(sch, data cue.Value) (cue.Value, error) {
 		ele := sch.LookupPath(cue.MakePath(cue.AnyIndex))
 
 		// if data is not a concrete list, we must have list elements exist to be used to trim defaults
-		if ele.Exists() {
-			if ele.IncompleteKind() == cue.BottomKind {
-				panic("unreachable")
-			}
+		//
+		// A lens may give the same open list two types with no value in common. That
+		// is fine as long as there are no elements, and then there is nothing to hydrate.
+		if ele.Exists() && ele.IncompleteKind() != cue.BottomKind {
 			iter, err := data.List()
 			if err != nil {
 				panic("unreachable - kind was list")
-- 
2.43.0


From 4f011f2df31bb51fce89ca41596bd4abd91348c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:00 +0000
Subject: [PATCH 23/41] fix: hold the runtime's lock exclusively wherever CUE
 values are evaluated

Evaluating a cue.Value writes to it and to caches of its context, such as
that of regular expressions. The shared lock did not prevent that, and
Hydrate, Dehydrate, TypedInstance.Value and reading the result of a
translation took no lock at all, so that using a lineage in several
goroutines was a data race.
---
 assignable.go |  4 ++--
 instance.go   | 14 ++++++++++++--
 runtime.go    | 21 ++++++---------------
 schema.go     |  6 ++----
 4 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/assignable.go b/assignable.go
index 526da4a..c971490 100644
--- a/assignable.go
+++ b/assignable.go
@@ -29,8 +29,8 @@ import (
 // Assignability rules are specified here: https://github.com/grafana/thema/blob/main/docs/invariants.md#go-assignability
 func AssignableTo(sch Schema, T any) error {
 	rt := sch.Lineage().Runtime()
-	rt.rl()
-	defer rt.ru()
+	rt.l()
+	defer rt.u()
 	return assignable(sch.Underlying().LookupPath(pathSchDef), T)
 }
 
diff --git a/instance.go b/instance.go
index 6c4bb29..cb7b873 100644
--- a/instance.go
+++ b/instance.go
@@ -59,7 +59,8 @@ func (i *Instance) check() {
 func (i *Instance) Hydrate() *Instance {
 	i.check()
 
-	i.sch.Lineage().Runtime()
+	i.rt().l()
+	defer i.rt().u()
 	ni, err := doHydrate(i.sch.Underlying().LookupPath(pathSchDef), i.raw)
 	// FIXME For now, just no-op it if we error
 	if err != nil {
@@ -82,6 +83,8 @@ func (i *Instance) Hydrate() *Instance {
 func (i *Instance) Dehydrate() *Instance {
 	i.check()
 
+	i.rt().l()
+	defer i.rt().u()
 	ni, _, err := doDehydrate(i.sch.Underlying().LookupPath(pathSchDef), i.raw)
 	// FIXME For now, just no-op it if we error
 	if err != nil {
@@ -165,7 +168,10 @@ func (inst *TypedInstance[T]) Value() (T, error) {
 
 	t := inst.tsch.NewT()
 	// TODO figure out correct pointer handling here
-	err := inst.Instance.Hydrate().raw.Decode(&t)
+	hyd := inst.Instance.Hydrate()
+	inst.rt().l()
+	defer inst.rt().u()
+	err := hyd.raw.Decode(&t)
 	return t, err
 }
 
@@ -239,10 +245,12 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 
 	// Attempt to evaluate #Translate result to remove intermediate structures created by #Translate.
 	// Otherwise, all the #Translate results are non-concrete, which leads to undesired effects.
+	i.rt().l()
 	raw, _ := out.LookupPath(cue.MakePath(cue.Str("result"), cue.Str("result"))).Default()
 
 	// Check that the result is concrete by trying to marshal/export it as JSON
 	_, err = json.Marshal(raw)
+	i.rt().u()
 	if err != nil {
 		err = errors.Mark(fmt.Errorf("lens produced a non-concrete result: %s", cerrors.Details(err, nil)), terrors.ErrLensIncomplete)
 		return nil, nil, errors.Mark(err, terrors.ErrInvalidLens)
@@ -254,7 +262,9 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 		return nil, nil, errors.Mark(errors.Mark(err, terrors.ErrLensResultIsInvalidData), terrors.ErrInvalidLens)
 	}
 
+	i.rt().l()
 	lac, err := collectLacunas(out.LookupPath(cue.MakePath(cue.Str("steps"))))
+	i.rt().u()
 	if err != nil {
 		return nil, nil, errors.Mark(fmt.Errorf("lens produced invalid lacunas: %s", cerrors.Details(err, nil)), terrors.ErrInvalidLens)
 	}
diff --git a/runtime.go b/runtime.go
index a2981ca..2e1196c 100644
--- a/runtime.go
+++ b/runtime.go
@@ -64,8 +64,9 @@ type Runtime struct {
 	val cue.Value
 
 	// Until CUE is safe for certain concurrent operations, keep a mutex to
-	// help guard...at least somewhat.
-	mut sync.RWMutex
+	// help guard...at least somewhat. There are no mere readers: looking at a
+	// cue.Value may evaluate it, which writes.
+	mut sync.Mutex
 }
 
 // buildMut guards building the Thema CUE package, of which there is but one
@@ -94,16 +95,6 @@ func NewRuntime(ctx *cue.Context) *Runtime {
 	}
 }
 
-func (rt *Runtime) rl() {
-	rt.mut.RLock()
-	// rt.mut.Lock()
-}
-
-func (rt *Runtime) ru() {
-	rt.mut.RUnlock()
-	// rt.mut.Unlock()
-}
-
 func (rt *Runtime) l() {
 	rt.mut.Lock()
 }
@@ -125,7 +116,7 @@ func (rt *Runtime) Context() *cue.Context {
 
 // Return the #Lineage definition (or panic)
 //
-// SURROUND CALLS TO THIS IN rl()/ru()
+// SURROUND CALLS TO THIS IN l()/u()
 func (rt *Runtime) linDef() cue.Value {
 	dlin := rt.val.LookupPath(cue.MakePath(cue.Def("#Lineage")))
 	return dlin
@@ -183,9 +174,9 @@ func (ca cueArgs) call(path string, rt *Runtime) (cue.Value, error) {
 	if err != nil {
 		return cue.Value{}, err
 	}
-	rt.rl()
+	rt.l()
 	rv := v.LookupPath(outpath)
-	rt.ru()
+	rt.u()
 	return rv, nil
 }
 
diff --git a/schema.go b/schema.go
index 720b57c..fb61d3e 100644
--- a/schema.go
+++ b/schema.go
@@ -72,8 +72,6 @@ func (sch *schemaDef) rt() *Runtime {
 // incomplete CUE values with Thema schemas, prefer working directly in CUE,
 // or if you must, rely on Underlying().
 func (sch *schemaDef) Validate(data cue.Value) (*Instance, error) {
-	// Unifying evaluates, and evaluating writes to the schema, so this is no mere
-	// reading.
 	sch.rt().l()
 	defer sch.rt().u()
 	// TODO which approach is actually the right one, unify or subsume? ugh
@@ -214,9 +212,9 @@ func BindType[T Assignee](sch Schema, t T) (TypedSchema[T], error) {
 	rt := getLinLib(sch.Lineage())
 	tsch.newfn = func() T {
 		nt := new(T)
-		rt.rl()
+		rt.l()
 		sch.Underlying().LookupPath(pathSchDef).Decode(nt) //nolint:gosec,errcheck
-		rt.ru()
+		rt.u()
 		return *nt
 	}
 
-- 
2.43.0


From 007ff47a7b45e1cab849b857354e658d940c7c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:37 +0000
Subject: [PATCH 24/41] fix: search all schemas on the command line when no
 version is given

Without -v, data hydrate, dehydrate and validate-any were documented to
check the input against all schemas in the lineage, but took the latest
schema for one that had been asked for.
---
 cmd/thema/data.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/thema/data.go b/cmd/thema/data.go
index ad0647b..c8547dc 100644
--- a/cmd/thema/data.go
+++ b/cmd/thema/data.go
@@ -135,7 +135,7 @@ func (dc *dataCommand) runValidateAny(cmd *cobra.Command, args []string) error {
 	}
 
 	var reterr error
-	if dc.lla.dl.sch != nil {
+	if dc.lla.verstr != "" {
 		_, reterr = dc.lla.dl.sch.Validate(dc.datval)
 		if reterr == nil {
 			fmt.Fprintf(cmd.OutOrStdout(), "%s\n", dc.lla.dl.sch.Version())
@@ -236,7 +236,7 @@ func (dc *dataCommand) runHydrate(cmd *cobra.Command, args []string) error {
 
 	var inst *thema.Instance
 	var err error
-	if dc.lla.dl.sch != nil {
+	if dc.lla.verstr != "" {
 		inst, err = dc.lla.dl.sch.Validate(dc.datval)
 		if err != nil {
 			return err
@@ -280,7 +280,7 @@ func (dc *dataCommand) runDehydrate(cmd *cobra.Command, args []string) error {
 
 	var inst *thema.Instance
 	var err error
-	if dc.lla.dl.sch != nil {
+	if dc.lla.verstr != "" {
 		inst, err = dc.lla.dl.sch.Validate(dc.datval)
 		if err != nil {
 			return err
-- 
2.43.0


From e3ca05068c8c67a2e898d57ba90303f36cb1daac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:37 +0000
Subject: [PATCH 25/41] fix: allow --format for data on stdin

There is no file extension to agree with on stdin, or with files that have
none that says something about the format.
---
 cmd/thema/data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/thema/data.go b/cmd/thema/data.go
index c8547dc..c4027ce 100644
--- a/cmd/thema/data.go
+++ b/cmd/thema/data.go
@@ -387,7 +387,7 @@ func (dc *dataCommand) validateDataInput(cmd *cobra.Command, args []string) erro
 		return errors.New("unrecognized format of input data")
 
 	case "json":
-		if ext != "json" {
+		if ext != "" && ext != "json" {
 			return fmt.Errorf("JSON input format specified, but file extension is %s", ext)
 		}
 
@@ -396,7 +396,7 @@ func (dc *dataCommand) validateDataInput(cmd *cobra.Command, args []string) erro
 			return err
 		}
 	case "yaml":
-		if ext != "yaml" {
+		if ext != "" && ext != "yaml" {
 			return fmt.Errorf("YAML input format specified, but file extension is %s", ext)
 		}
 
-- 
2.43.0


From 44cee52e938b2f3602c9431c702108cf8c9b40c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:37 +0000
Subject: [PATCH 26/41] fix: make gen gotypes --stdout write to stdout

---
 cmd/thema/lineage_subgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index 8b6bf84..e9a6658 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -76,7 +76,7 @@ func (gc *genCommand) setup(cmd *cobra.Command) {
 	ggt.Use = "gotypes -l <path> [-p <cue-path>] [-v <synver>] [--pkgname <name>] [--stdout]"
 	ggt.Flags().StringVarP(&gc.lla.verstr, "version", "v", "", "schema syntactic version to generate. Defaults to latest")
 	ggt.Flags().StringVar(&gc.pkgname, "pkgname", "", "Name for generated Go package. Defaults to lowercase lineage name")
-	ggt.Flags().BoolVar(&gc.noembed, "stdout", false, "Write to stdout instead of '<lineage.name>_types_gen.go'")
+	ggt.Flags().BoolVar(&gc.stdout, "stdout", false, "Write to stdout instead of '<lineage.name>_types_gen.go'")
 	ggt.Flags().BoolVarP(&gc.quiet, "quiet", "q", false, "Do not print generated filename")
 	ggt.Run = gc.run
 
-- 
2.43.0


From b1e961eb2961b6e3dfb7d231af4faa694c1006ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:37 +0000
Subject: [PATCH 27/41] fix: do not take generated documents for format strings

Percent signs in them came out garbled.
---
 cmd/thema/lineage_subgen.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index e9a6658..eacd6c7 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -187,7 +187,7 @@ func (gc *genCommand) runOpenAPI(cmd *cobra.Command, args []string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Fprintf(cmd.OutOrStdout(), str)
+	fmt.Fprint(cmd.OutOrStdout(), str)
 	return nil
 }
 
@@ -225,7 +225,7 @@ func (gc *genCommand) runJSONSchema(cmd *cobra.Command, args []string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Fprintf(cmd.OutOrStdout(), str)
+	fmt.Fprint(cmd.OutOrStdout(), str)
 	return nil
 }
 
@@ -250,7 +250,7 @@ func (gc *genCommand) runGoTypes(cmd *cobra.Command, args []string) error {
 	if gc.stdout {
 		fmt.Fprint(buf, goheader)
 	} else {
-		fmt.Fprintf(buf, fmt.Sprintf(goheaderp, gc.epath))
+		fmt.Fprintf(buf, goheaderp, gc.epath)
 	}
 	b, err := gocode.GenerateTypesOpenAPI(gc.sch, &gocode.TypeConfigOpenAPI{
 		PackageName: gc.pkgname,
@@ -361,7 +361,7 @@ func (gc *genCommand) runGoBindings(cmd *cobra.Command, args []string) error {
 		return nil
 	}
 
-	fmt.Fprintf(buf, fmt.Sprintf(goheaderp, gc.epath))
+	fmt.Fprintf(buf, goheaderp, gc.epath)
 	buf.Write(f)
 
 	path := gc.lla.absInput
-- 
2.43.0


From b452dc4a346ffbd7573e87af091480be1589e83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:37 +0000
Subject: [PATCH 28/41] fix: fail on unrecognized output formats

---
 cmd/thema/lineage_subgen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index eacd6c7..dbfeff5 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -182,7 +182,7 @@ func (gc *genCommand) runOpenAPI(cmd *cobra.Command, args []string) error {
 	case "yaml", "yml":
 		str, err = yaml.Marshal(rt.Context().BuildFile(f))
 	default:
-		fmt.Fprintf(cmd.ErrOrStderr(), `unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
+		err = fmt.Errorf(`unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
 	}
 	if err != nil {
 		return err
@@ -220,7 +220,7 @@ func (gc *genCommand) runJSONSchema(cmd *cobra.Command, args []string) error {
 	case "yaml", "yml":
 		str, err = yaml.Marshal(rt.Context().BuildFile(f))
 	default:
-		fmt.Fprintf(cmd.ErrOrStderr(), `unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
+		err = fmt.Errorf(`unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
 	}
 	if err != nil {
 		return err
-- 
2.43.0


From d076f25d5a591082b7f5c66d03618b7e09cb952b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:56 +0000
Subject: [PATCH 29/41] fix: honour --quiet when validating

---
 cmd/thema/data.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/thema/data.go b/cmd/thema/data.go
index c4027ce..ec55683 100644
--- a/cmd/thema/data.go
+++ b/cmd/thema/data.go
@@ -107,6 +107,7 @@ func (dc *dataCommand) runValidate(cmd *cobra.Command, args []string) error {
 		panic("datval does not exist")
 	}
 
+	cmd.SilenceErrors = dc.quiet
 	_, err := dc.lla.dl.sch.Validate(dc.datval)
 	if err != nil {
 		return err
@@ -134,17 +135,23 @@ func (dc *dataCommand) runValidateAny(cmd *cobra.Command, args []string) error {
 		panic("datval does not exist")
 	}
 
+	out := cmd.OutOrStdout()
+	if dc.quiet {
+		cmd.SilenceErrors = true
+		out = io.Discard
+	}
+
 	var reterr error
 	if dc.lla.verstr != "" {
 		_, reterr = dc.lla.dl.sch.Validate(dc.datval)
 		if reterr == nil {
-			fmt.Fprintf(cmd.OutOrStdout(), "%s\n", dc.lla.dl.sch.Version())
+			fmt.Fprintf(out, "%s\n", dc.lla.dl.sch.Version())
 			return nil
 		}
 	}
 	inst := dc.lla.dl.lin.ValidateAny(dc.datval)
 	if inst != nil {
-		fmt.Fprintf(cmd.OutOrStdout(), "%s\n", inst.Schema().Version())
+		fmt.Fprintf(out, "%s\n", inst.Schema().Version())
 		return nil
 	}
 
-- 
2.43.0


From 690570bc066cd382f06db1d5fc3b177955f343f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:56 +0000
Subject: [PATCH 30/41] fix: read data from stdin also when it is redirected
 from a file

---
 cmd/thema/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/thema/data.go b/cmd/thema/data.go
index ec55683..2b28622 100644
--- a/cmd/thema/data.go
+++ b/cmd/thema/data.go
@@ -317,7 +317,7 @@ func pathOrStdin(args []string) ([]byte, error) {
 		if err != nil {
 			panic(err)
 		}
-		if fi.Mode()&os.ModeNamedPipe == 0 {
+		if fi.Mode()&os.ModeCharDevice != 0 {
 			return nil, errors.New("no path provided and nothing on stdin")
 		}
 
-- 
2.43.0


From 2dd18299858c47bdb6e542a65792acfa48190a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:14 +0000
Subject: [PATCH 31/41] fix: load lineages from directories that are not in a
 CUE module

With the package "*", load.Instances does not resolve imports, so that no
lineage that imports thema could be loaded from a directory.
---
 cmd/thema/load.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/cmd/thema/load.go b/cmd/thema/load.go
index 102e623..d6c04d2 100644
--- a/cmd/thema/load.go
+++ b/cmd/thema/load.go
@@ -135,7 +135,6 @@ func (lla *lineageLoadArgs) dynLoad() (*dynamicLoader, error) {
 			ModuleRoot: dyndir,
 			Overlay:    overlay,
 			Dir:        dyndir,
-			Package:    "*",
 		}
 
 		binsts = load.Instances(args, cfg)
@@ -164,7 +163,6 @@ func (lla *lineageLoadArgs) dynLoad() (*dynamicLoader, error) {
 			Module:     dl.cm.modname,
 			Overlay:    overlay,
 			Dir:        filepath.Join(dl.cm.cuemodparentdir, dl.relToLinDir),
-			// Package:    "*",
 		}
 		binsts = load.Instances(args, cfg)
 	}
-- 
2.43.0


From d5b64707367ebe79e49f12ad73c991dd80beace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:14 +0000
Subject: [PATCH 32/41] fix: rewrite chained and indexed references in legacy
 lenses

Only selectors directly on from and to were rewritten to input and result;
longer chains and index expressions kept names that no longer exist.
---
 encoding/cue/rewrite.go | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/encoding/cue/rewrite.go b/encoding/cue/rewrite.go
index 8ae7a5a..fef67bd 100644
--- a/encoding/cue/rewrite.go
+++ b/encoding/cue/rewrite.go
@@ -159,25 +159,29 @@ type legacyLens struct {
 // Rewrite the bodies of the lenses and any lacunas to have selectors using the
 // new field names
 func (ll legacyLens) rewriteFromTo(cursor astutil.Cursor) bool {
+	// ONLY want to change the first element in any chain of selectors. The
+	// walk gets to it via the operands of the rest of the chain.
 	switch x := cursor.Node().(type) {
 	case *ast.SelectorExpr:
-		if id, is := x.X.(*ast.Ident); is {
-			switch id.Name {
-			case "from":
-				x.X = ast.NewLit(token.STRING, "input")
-			case "to":
-				x.X = ast.NewLit(token.STRING, "result")
-			default:
-				return false
-			}
-		}
-		// ONLY want to change the first element in any chain of selectors. So
-		// always stop searching once we've encountered a single one of these
-		return false
+		x.X = renameFromTo(x.X)
+	case *ast.IndexExpr:
+		x.X = renameFromTo(x.X)
 	}
 	return true
 }
 
+func renameFromTo(x ast.Expr) ast.Expr {
+	if id, is := x.(*ast.Ident); is {
+		switch id.Name {
+		case "from":
+			return ast.NewIdent("input")
+		case "to":
+			return ast.NewIdent("result")
+		}
+	}
+	return x
+}
+
 func (ll legacyLens) toAST() (ast.Expr, error) {
 	var mapsrc ast.Expr
 	if !ll.mapper.Exists() {
@@ -211,11 +215,11 @@ func (ll legacyLens) toAST() (ast.Expr, error) {
 		lacsrc = src
 	}
 	return ast.NewStruct(
-		"to", synvToAST(ll.to),
-		"from", synvToAST(ll.from),
-		"input", ast.NewIdent("_"),
-		"result", mapsrc,
-		"lacunas", lacsrc,
+		ast.NewIdent("to"), synvToAST(ll.to),
+		ast.NewIdent("from"), synvToAST(ll.from),
+		ast.NewIdent("input"), ast.NewIdent("_"),
+		ast.NewIdent("result"), mapsrc,
+		ast.NewIdent("lacunas"), lacsrc,
 	), nil
 }
 
-- 
2.43.0


From d4643c72cf94c266a650ca10e7fef8129bb6ff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:14 +0000
Subject: [PATCH 33/41] fix: keep the imports and quote the name of a newly
 made lineage

NewLineage dropped the imports that the given schema needs, and put the name
between quotes as it was.
---
 encoding/cue/encode.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/encoding/cue/encode.go b/encoding/cue/encode.go
index 57f088b..626ac52 100644
--- a/encoding/cue/encode.go
+++ b/encoding/cue/encode.go
@@ -7,6 +7,7 @@ import (
 
 	"cuelang.org/go/cue"
 	"cuelang.org/go/cue/ast"
+	"cuelang.org/go/cue/literal"
 	"cuelang.org/go/cue/parser"
 	"github.com/grafana/thema"
 	"github.com/grafana/thema/internal/astutil"
@@ -21,6 +22,7 @@ import (
 // pkgname is empty, the resulting file will have no package declaration.
 func NewLineage(sch cue.Value, name, pkgname string) (*ast.File, error) {
 	x := astutil.Format(sch)
+	imports := importsOf(x)
 	switch x.(type) {
 	case *ast.File, ast.Expr:
 		x = astutil.ToExpr(x)
@@ -32,7 +34,8 @@ func NewLineage(sch cue.Value, name, pkgname string) (*ast.File, error) {
 
 	vars := linTplVars{
 		PkgName: pkgname,
-		Name:    name,
+		Imports: imports,
+		Name:    literal.String.Quote(name),
 		Sch:     string(b),
 	}
 
@@ -91,8 +94,30 @@ func insertSchemaNodeAs(lin ast.Node, sch ast.Expr, v thema.SyntacticVersion) er
 	return nil
 }
 
+// importsOf returns the import specs needed by a formatted schema.
+func importsOf(n ast.Node) []string {
+	var ret []string
+	f, is := n.(*ast.File)
+	if !is {
+		return nil
+	}
+	for _, d := range f.Decls {
+		if imp, is := d.(*ast.ImportDecl); is {
+			for _, spec := range imp.Specs {
+				str := spec.Path.Value
+				if spec.Name != nil {
+					str = spec.Name.Name + " " + str
+				}
+				ret = append(ret, str)
+			}
+		}
+	}
+	return ret
+}
+
 type linTplVars struct {
 	PkgName string
+	Imports []string
 	Name    string
 	Sch     string
 }
@@ -101,9 +126,10 @@ type linTplVars struct {
 var emptyLineage = template.Must(template.New("newlin").Parse(`
 {{- if ne .PkgName "" }}package {{ .PkgName }}
 {{end}}import "github.com/grafana/thema"
-
+{{ range .Imports }}import {{ . }}
+{{ end }}
 thema.#Lineage
-name: "{{ .Name }}"
+name: {{ .Name }}
 schemas: [
     {
         version: [0, 0]
-- 
2.43.0


From 3b1a2c8ffaa78362f40fc42db9ec2d3aef1d82a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:14 +0000
Subject: [PATCH 34/41] fix: heed the name and package options of init openapi
 and jsonschema

Only init empty processed them, so that the name was not required and a
package clause was never written by default.
---
 cmd/thema/lineage_init.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/thema/lineage_init.go b/cmd/thema/lineage_init.go
index 029bb47..406e4cf 100644
--- a/cmd/thema/lineage_init.go
+++ b/cmd/thema/lineage_init.go
@@ -48,12 +48,12 @@ func (ic *initCommand) setup(cmd *cobra.Command) {
 	initLineageCmd.AddCommand(initLineageOpenAPICmd)
 	initLineageOpenAPICmd.Flags().StringVar(&ic.srcpath, "src-subpath", "", "Schema path within the OpenAPI document. Default: whole document")
 	initLineageOpenAPICmd.Run = ic.run
-	initLineageOpenAPICmd.PreRunE = ic.processInput
+	initLineageOpenAPICmd.PreRunE = mergeCobraefuncs(ic.processPackageArgs, ic.processInput)
 
 	initLineageCmd.AddCommand(initLineageJSONSchemaCmd)
 	initLineageJSONSchemaCmd.Flags().StringVar(&ic.srcpath, "src-subpath", "", "Schema path within the JSON Schema document (e.g. #/...) Default: whole document")
 	initLineageJSONSchemaCmd.Run = ic.run
-	initLineageJSONSchemaCmd.PreRunE = ic.processInput
+	initLineageJSONSchemaCmd.PreRunE = mergeCobraefuncs(ic.processPackageArgs, ic.processInput)
 }
 
 var initLineageCmd = &cobra.Command{
-- 
2.43.0


From e7bdac5b3931756b591bbdfa3625e19189bab9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:14 +0000
Subject: [PATCH 35/41] fix: read an OpenAPI document from stdin in init
 openapi

It panicked, as there is no file that CUE's loader could find.
---
 cmd/thema/lineage_init.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/thema/lineage_init.go b/cmd/thema/lineage_init.go
index 406e4cf..d2ac94c 100644
--- a/cmd/thema/lineage_init.go
+++ b/cmd/thema/lineage_init.go
@@ -252,17 +252,18 @@ func (ic *initCommand) runJSONSchema(cmd *cobra.Command, args []string) {
 // or stdin (as we do with pathOrStdin) and passed it as input param
 func inputToFile(input []byte, args []string) (*ast.File, error) {
 	if len(args) == 0 {
-		args = append(args, "-")
+		// There is no filename that could tell the encoding. YAML covers JSON.
+		return yaml.Extract("input", input)
 	}
 
 	cfg := &load.Config{
 		Stdin: bytes.NewBuffer(input),
 	}
 	binsts := load.Instances(args, cfg)
-	bf := binsts[0].OrphanedFiles[0]
-	if bf == nil {
+	if len(binsts[0].OrphanedFiles) == 0 {
 		return nil, fmt.Errorf("could not load input file")
 	}
+	bf := binsts[0].OrphanedFiles[0]
 
 	var f *ast.File
 	var err error
-- 
2.43.0


From 8730d36566802f30fdb03bc1ed4597d2a50997d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:56 +0000
Subject: [PATCH 36/41] fix: leave the config given to TypeScript generation as
 it is

The name of the first lineage was stored in it, and used for all others that
were generated with the same config.
---
 encoding/typescript/gen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/typescript/gen.go b/encoding/typescript/gen.go
index 4b5a3d9..67f49b2 100644
--- a/encoding/typescript/gen.go
+++ b/encoding/typescript/gen.go
@@ -62,6 +62,9 @@ func GenerateTypes(sch thema.Schema, cfg *TypeConfig) (*ast.File, error) {
 	if cfg == nil {
 		cfg = new(TypeConfig)
 	}
+	// Leave the caller's config as it is, it may be for more than one schema
+	cpy := *cfg
+	cfg = &cpy
 	if cfg.CuetsyConfig == nil {
 		cfg.CuetsyConfig = &cuetsy.Config{
 			ImportMapper: cuetsy.IgnoreImportMapper,
-- 
2.43.0


From ac74f0e77fe2326c15793c1f5259bccb93d499a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:56 +0000
Subject: [PATCH 37/41] fix: generate a TypeScript alias for the root when
 asked to

The generator refuses the expression that defines the schema; it needs the
evaluated value.
---
 encoding/typescript/gen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoding/typescript/gen.go b/encoding/typescript/gen.go
index 67f49b2..e8a9be2 100644
--- a/encoding/typescript/gen.go
+++ b/encoding/typescript/gen.go
@@ -88,7 +88,8 @@ func GenerateTypes(sch thema.Schema, cfg *TypeConfig) (*ast.File, error) {
 	if !cfg.Group {
 		as := cuetsy.TypeInterface
 		if cfg.RootAsType {
-			as = cuetsy.TypeAlias
+			// Aliases can't be generated from the references in the definition
+			as, schdef = cuetsy.TypeAlias, schdef.Eval()
 		}
 		top, err := cuetsy.GenerateSingleAST(cfg.RootName, schdef, as)
 		if err != nil {
-- 
2.43.0


From e50d180962ce1dbc5de27e55d53c645221646dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:56 +0000
Subject: [PATCH 38/41] fix: leave the config given to OpenAPI generation as it
 is

The name func of the first schema was stored in it, and called for all others
that were generated with the same config.
---
 encoding/openapi/oapi.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encoding/openapi/oapi.go b/encoding/openapi/oapi.go
index 2c3a8c6..dae30c4 100644
--- a/encoding/openapi/oapi.go
+++ b/encoding/openapi/oapi.go
@@ -55,9 +55,13 @@ func GenerateSchema(sch thema.Schema, cfg *Config) (*ast.File, error) {
 	if cfg == nil {
 		cfg = &Config{}
 	}
-	if cfg.Config == nil {
-		cfg.Config = &openapi.Config{}
+	// Leave the caller's config as it is, it may be for more than one schema
+	cpy := *cfg
+	cpy.Config = &openapi.Config{}
+	if cfg.Config != nil {
+		*cpy.Config = *cfg.Config
 	}
+	cfg = &cpy
 
 	gen := &oapiGen{
 		cfg: cfg,
-- 
2.43.0


From 7ef47b0ef2019c767ec15e462f40b68d638a696a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:56 +0000
Subject: [PATCH 39/41] fix: name Go packages by the lowercase lineage name, in
 a config left as is

That is the documented default, and the one of bindings. The name of the first
lineage was stored in the config given and used for all others.
---
 encoding/gocode/gen.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/encoding/gocode/gen.go b/encoding/gocode/gen.go
index f76cd5c..e0304c9 100644
--- a/encoding/gocode/gen.go
+++ b/encoding/gocode/gen.go
@@ -94,12 +94,13 @@ func GenerateTypesOpenAPI(sch thema.Schema, cfg *TypeConfigOpenAPI) ([]byte, err
 	if err != nil {
 		return nil, fmt.Errorf("loading generated openapi failed: %w", err)
 	}
-	if cfg.PackageName == "" {
-		cfg.PackageName = sch.Lineage().Name()
+	pkgname := cfg.PackageName
+	if pkgname == "" {
+		pkgname = strings.ToLower(sch.Lineage().Name())
 	}
 
 	ccfg := codegen.Configuration{
-		PackageName: cfg.PackageName,
+		PackageName: pkgname,
 		Compatibility: codegen.CompatibilityOptions{
 			AlwaysPrefixEnumValues: true,
 		},
-- 
2.43.0


From 723d94204c408438133f45723f8ee0b30072d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:08 +0000
Subject: [PATCH 40/41] fix: load the lineage's CUE package in generated Go
 bindings, whatever its name

---
 cmd/thema/lineage_subgen.go  |  6 ++++++
 encoding/gocode/binding.tmpl |  2 +-
 encoding/gocode/gen.go       | 11 +++++++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index dbfeff5..b2d7c89 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -340,6 +340,12 @@ func (gc *genCommand) runGoBindings(cmd *cobra.Command, args []string) error {
 				if roots.cuemod != "" && rel != "." {
 					cfg.CueModName = filepath.ToSlash(path.Join(cfg.CueModName, rel))
 				}
+				// The loader expects a package named like the module
+				if pkg := gc.lla.dl.binst.PkgName; pkg == "" {
+					cfg.CuePackage = "_"
+				} else if pkg != path.Base(cfg.CueModName) {
+					cfg.CuePackage = pkg
+				}
 			}
 		}
 	}
diff --git a/encoding/gocode/binding.tmpl b/encoding/gocode/binding.tmpl
index 09207f0..f592072 100644
--- a/encoding/gocode/binding.tmpl
+++ b/encoding/gocode/binding.tmpl
@@ -113,6 +113,6 @@ func getThemaFSFor{{ .Name }}() fs.FS {
 
 {{ if .GenLoaderFunc -}}
 func loadInstanceFor{{ .Name }}() (*build.Instance, error) {
-    return load.InstanceWithThema(getThemaFSFor{{ .Name }}(), "{{ .LoadDir }}")
+    return load.InstanceWithThema(getThemaFSFor{{ .Name }}(), "{{ .LoadDir }}"{{ if .CuePackage }}, load.Package("{{ .CuePackage }}"){{ end }})
 }
 {{- end }}
diff --git a/encoding/gocode/gen.go b/encoding/gocode/gen.go
index e0304c9..1767254 100644
--- a/encoding/gocode/gen.go
+++ b/encoding/gocode/gen.go
@@ -213,6 +213,14 @@ type BindingConfig struct {
 	// If empty, the func will not be generated.
 	CueModName string
 
+	// CuePackage is the name of the CUE package that contains the lineage, or "_"
+	// if it is in files without a package clause. If non-empty, it is passed as a
+	// [load.Package] option within the generated loadInstanceFor$NAME func.
+	//
+	// If empty, the package is expected to be named as the loader does by default,
+	// which is by the last element of LoadDir or CueModName.
+	CuePackage string
+
 	// TitleName is the title-case name of the lineage. If empty, this will default
 	// to the result of [strings.Title] called on lineage.name.
 	TitleName string
@@ -300,6 +308,7 @@ func GenerateLineageBinding(lin thema.Lineage, cfg *BindingConfig) ([]byte, erro
 		GenLoaderFunc:       cfg.LoadDir != "",
 		CueModName:          cfg.CueModName,
 		LoadDir:             cfg.LoadDir,
+		CuePackage:          cfg.CuePackage,
 		EmbedPath:           cfg.EmbedPath,
 		CUEPath:             fmt.Sprintf("%q", cfg.CuePath.String()),
 		BaseFactoryFuncName: "Lineage",
@@ -360,6 +369,8 @@ type bindingVars struct {
 	EmbedPath string
 	// Path to use as dir param to load.InstancesWithThema
 	LoadDir string
+	// Name of the CUE package to pass to load.InstanceWithThema, if not the default
+	CuePackage string
 	// Path within the cue file to look up to get lineage
 	CUEPath string
 
-- 
2.43.0


From 55d9c32ddea48c26fdde6a174f1c9cc5b0dd74bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:29 +0000
Subject: [PATCH 41/41] fix: decode under the runtime's lock when binding a Go
 type

BindType decodes the schema onto the Go type, and looks at the errors that
gives, which evaluates CUE values. It did so without the lock, which was a
data race with anything else done on the same runtime.
---
 schema.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/schema.go b/schema.go
index fb61d3e..f0b2986 100644
--- a/schema.go
+++ b/schema.go
@@ -178,24 +178,27 @@ func BindType[T Assignee](sch Schema, t T) (TypedSchema[T], error) {
 		Schema: sch,
 	}
 
+	rt := getLinLib(sch.Lineage())
+
 	// Verify that there are no problematic errors emitted from decoding.
+	var actual errors.Error
+	rt.l()
 	if err := sch.Underlying().LookupPath(pathSchDef).Decode(t); err != nil {
 		// Because assignability has already been established, the only errors here
 		// _should_ be those arising from schema fields without concrete defaults. But
 		// to avoid swallowing other error types, try to filter out those from the list
 		// that aren't relevant for decoding purposes. This means we're choosing false
 		// negatives over false positives.
-		var actual errors.Error
 		for _, e := range errors.Errors(err) {
 			// TODO would love a better check, but CUE needs a better error architecture first
 			if !strings.Contains(e.Error(), "cannot convert non-concrete") {
 				actual = errors.Append(actual, e)
 			}
 		}
-
-		if len(errors.Errors(actual)) > 0 {
-			return nil, actual
-		}
+	}
+	rt.u()
+	if len(errors.Errors(actual)) > 0 {
+		return nil, actual
 	}
 
 	// It's now established that decoding the value is error-free. Ideally, there
@@ -209,7 +212,6 @@ func BindType[T Assignee](sch Schema, t T) (TypedSchema[T], error) {
 	// general Go types CUE can decode onto, there may be some opportunity for a
 	// specialized implementation to improve performance - but we'll attempt that
 	// iff performance is actually shown to be a problem.
-	rt := getLinLib(sch.Lineage())
 	tsch.newfn = func() T {
 		nt := new(T)
 		rt.l()
-- 
2.43.0

