From 7ee21042b4c714d5fad7e6cf1ea37b5c286d678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:27 +0000
Subject: [PATCH 01/32] fix: LatestInMajor returned the next major's first
 schema, or panicked

It indexed the position of the first schema of the following major version
rather than the position preceding it.
---
 schema.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index b685310..5436c4a 100644
--- a/schema.go
+++ b/schema.go
@@ -137,7 +137,9 @@ func (sch *schemaDef) predecessor() *schemaDef {
 // within this Schema's major version. If the receiver Schema is the latest, it
 // will return itself.
 func (sch *schemaDef) LatestInMajor() Schema {
-	return sch.lin.allsch[searchSynv(sch.lin.allv, SyntacticVersion{sch.v[0] + 1, 0})]
+	// The search finds the position of the first schema in the next major version,
+	// or one past the end of the list if there is none.
+	return sch.lin.allsch[searchSynv(sch.lin.allv, SyntacticVersion{sch.v[0] + 1, 0})-1]
 }
 
 // Underlying returns the cue.Value that represents the underlying CUE #SchemaDef.
-- 
2.43.0


From 42ea09badab16140eb31701b50af4c99828c28c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:04 +0000
Subject: [PATCH 02/32] fix: count minor versions per major correctly with four
 or more majors

_counts subtracted the sum of all prior positions rather than the single
prior position, so _basis and _flatidx were wrong, and translation failed, for
lineages with four or more major versions.
---
 lineage.cue | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lineage.cue b/lineage.cue
index 418e442..28b9423 100644
--- a/lineage.cue
+++ b/lineage.cue
@@ -123,14 +123,14 @@ import (
 	if len(SS) > 1 {
 		_pos: [0, for i, sch in list.Drop(SS, 1) if SS[i].version[0] < sch.version[0] {i + 1}]
 		_counts: [ for i, idx in list.Slice(_pos, 0, len(_pos)-1) {
-			_pos[i+1] - list.Sum(list.Slice(_pos, 0, i+1))
+			_pos[i+1] - _pos[i]
 		}, len(SS) - _pos[len(_pos)-1]]
 
 		// The following approach to the above:
 		//
 		//		let pos = [0, for i, sch in SS[1:] if SS[i].version[0] < sch.version[0] { i+1 }]
 		//		_counts: [for i, idx in pos[:len(pos)-1] {
-		//			pos[i+1]-list.Sum(pos[:i+1])
+		//			pos[i+1]-pos[i]
 		//		}, len(SS)-pos[len(pos)-1]]
 		//
 		// causes the following cue internals panic:
-- 
2.43.0


From d3fef0f90316ae71c50ba62002011f9daa5c432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:33 +0000
Subject: [PATCH 03/32] fix: hydrate and dehydrate against the schema, not its
 containing definition

Instance.Hydrate and Dehydrate walked the whole #SchemaDef, so hydration
injected version/schema/examples fields and dehydration never removed anything.
---
 instance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instance.go b/instance.go
index ec03f9a..b75e323 100644
--- a/instance.go
+++ b/instance.go
@@ -60,7 +60,7 @@ func (i *Instance) Hydrate() *Instance {
 	i.check()
 
 	i.sch.Lineage().Runtime()
-	ni, err := doHydrate(i.sch.Underlying(), i.raw)
+	ni, err := doHydrate(i.sch.Underlying().LookupPath(pathSchDef), i.raw)
 	// FIXME For now, just no-op it if we error
 	if err != nil {
 		return i
@@ -82,7 +82,7 @@ func (i *Instance) Hydrate() *Instance {
 func (i *Instance) Dehydrate() *Instance {
 	i.check()
 
-	ni, _, err := doDehydrate(i.sch.Underlying(), i.raw)
+	ni, _, err := doDehydrate(i.sch.Underlying().LookupPath(pathSchDef), i.raw)
 	// FIXME For now, just no-op it if we error
 	if err != nil {
 		return i
-- 
2.43.0


From 9161c651d1488c8aed2d2edb359b5118096fcea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:51 +0000
Subject: [PATCH 04/32] fix: serialize building of the shared thema instance in
 NewRuntime

Concurrent NewRuntime calls, each with its own context, raced on the AST of the
shared build.Instance.
---
 runtime.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/runtime.go b/runtime.go
index ec03373..9bf8980 100644
--- a/runtime.go
+++ b/runtime.go
@@ -16,6 +16,10 @@ import (
 var rtOnce sync.Once
 var themaBI *build.Instance
 
+// Building a build.Instance resolves identifiers in the (shared) AST of its
+// files, so builds of themaBI must be serialized, even across contexts.
+var buildMut sync.Mutex
+
 func loadRuntime() *build.Instance {
 	rtOnce.Do(func() {
 		path := filepath.Join(util.Prefix, "github.com", "grafana", "thema")
@@ -79,7 +83,10 @@ func NewRuntime(ctx *cue.Context) *Runtime {
 	if ctx == nil {
 		panic("nil context provided")
 	}
-	rt := ctx.BuildInstance(loadRuntime())
+	bi := loadRuntime()
+	buildMut.Lock()
+	rt := ctx.BuildInstance(bi)
+	buildMut.Unlock()
 
 	// FIXME preload all the known funcs into a map[string]cue.Value here to avoid runtime cost
 	return &Runtime{
-- 
2.43.0


From 785dba7669b76901140292c37d1d0fe9fe8da07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:39 +0000
Subject: [PATCH 05/32] fix: emit lacunas from translation

#Translate referenced a nonexistent field on #Lacuna, so any applicable lacuna
made the whole translation fail, and its output had no lacunas field for
Instance.Translate to read.
---
 translate.cue | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/translate.cue b/translate.cue
index c92e5e3..e96899f 100644
--- a/translate.cue
+++ b/translate.cue
@@ -40,6 +40,18 @@ import "list"
 			to:     TV
 			result: *steps[len(steps)-1].result | I
 		}
+
+		// All the lacunas emitted by the lenses traversed, grouped by the schema
+		// version targeted by the lens that emitted them.
+		lacunas: [ for step in steps if len(step.lacunas) > 0 {
+			v: step.to
+			lacunas: [ for lac in step.lacunas {
+				sourceFields: lac.sourceFields
+				targetFields: lac.targetFields
+				message:      lac.message
+				type:         lac.type.id
+			}]
+		}]
 	}
 	out: {
 		steps: [
@@ -72,7 +84,7 @@ import "list"
 					to:   _lens.to
 					// TODO initial input isn't necessarily unified with schema - does that make translated output meaningfully different?
 					result: {_lens.result, schdef._#schema}
-					lacunas: [ for lac in _lens.lacunas if lac.condition {lac.lacuna}]
+					lacunas: [ for lac in _lens.lacunas if lac.condition {lac}]
 				}]
 
 				// Final value excludes first element (initial input) from accum
@@ -115,7 +127,7 @@ import "list"
 						to:   schdef.version
 						//						result: {_lens.result, schdef._#schema, {lidx: lensidx}}
 						result: {_lens.result, schdef._#schema}
-						lacunas: [ for lac in _lens.lacunas if lac.condition {lac.lacuna}]
+						lacunas: [ for lac in _lens.lacunas if lac.condition {lac}]
 						// Crossing a major version. The forward lens explicitly defined in the schema
 						// provides the mapping algorithm.
 					}
-- 
2.43.0


From bf34e6cef0aa1b266c792b2a7340f6a37435a5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:31 +0000
Subject: [PATCH 06/32] fix: reject lineages whose schema versions are not
 contiguous from 0.0

A schema's version has exactly one correct value, determined by its position
and the breaking changes before it, and 0.0 is guaranteed to exist. Gapped
sequences and sequences starting elsewhere were accepted, and then broke
translation.
---
 bind.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/bind.go b/bind.go
index 572cfc3..f006648 100644
--- a/bind.go
+++ b/bind.go
@@ -111,6 +111,27 @@ func (ml *maybeLineage) checkGoValidity(cfg *bindConfig) error {
 		previous = sch
 	}
 
+	return ml.checkSchemasContiguous()
+}
+
+// Checks that versions are those determined by each schema's position: the first
+// is 0.0, and each other one is the next minor or the next major of its predecessor.
+func (ml *maybeLineage) checkSchemasContiguous() error {
+	for i, sch := range ml.schlist {
+		if i == 0 {
+			if sch.v != synv() {
+				return errors.Mark(mkerror(sch.ref.LookupPath(pathSch), "first schema version must be %s, got %s", synv(), sch.v), terrors.ErrInvalidLineage)
+			}
+			continue
+		}
+
+		prev := ml.schlist[i-1].v
+		nextmin, nextmaj := synv(prev[0], prev[1]+1), synv(prev[0]+1, 0)
+		if sch.v != nextmin && sch.v != nextmaj {
+			return errors.Mark(mkerror(sch.ref.LookupPath(pathSch), "schema version %s does not follow previous schema version %s: must be %s or %s", sch.v, prev, nextmin, nextmaj), terrors.ErrInvalidLineage)
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 3b56371ba1acf6c9206a1765bef02e26d5846833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:48 +0000
Subject: [PATCH 07/32] fix: do not interpret generated output as a format
 string in the CLI

gen openapi and gen jsonschema garbled any output containing a percent sign.
---
 cmd/thema/lineage_subgen.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index 8b6bf84..82cae0f 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -187,7 +187,7 @@ func (gc *genCommand) runOpenAPI(cmd *cobra.Command, args []string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Fprintf(cmd.OutOrStdout(), str)
+	fmt.Fprint(cmd.OutOrStdout(), str)
 	return nil
 }
 
@@ -225,7 +225,7 @@ func (gc *genCommand) runJSONSchema(cmd *cobra.Command, args []string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Fprintf(cmd.OutOrStdout(), str)
+	fmt.Fprint(cmd.OutOrStdout(), str)
 	return nil
 }
 
@@ -250,7 +250,7 @@ func (gc *genCommand) runGoTypes(cmd *cobra.Command, args []string) error {
 	if gc.stdout {
 		fmt.Fprint(buf, goheader)
 	} else {
-		fmt.Fprintf(buf, fmt.Sprintf(goheaderp, gc.epath))
+		fmt.Fprintf(buf, goheaderp, gc.epath)
 	}
 	b, err := gocode.GenerateTypesOpenAPI(gc.sch, &gocode.TypeConfigOpenAPI{
 		PackageName: gc.pkgname,
@@ -361,7 +361,7 @@ func (gc *genCommand) runGoBindings(cmd *cobra.Command, args []string) error {
 		return nil
 	}
 
-	fmt.Fprintf(buf, fmt.Sprintf(goheaderp, gc.epath))
+	fmt.Fprintf(buf, goheaderp, gc.epath)
 	buf.Write(f)
 
 	path := gc.lla.absInput
-- 
2.43.0


From d7edc466f5816fcc2c265f5cfc2c28719d014c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:48 +0000
Subject: [PATCH 08/32] fix: make gen gotypes --stdout write to stdout

The flag was bound to the unrelated no-embed setting, so a file was written.
---
 cmd/thema/lineage_subgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index 82cae0f..eacd6c7 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -76,7 +76,7 @@ func (gc *genCommand) setup(cmd *cobra.Command) {
 	ggt.Use = "gotypes -l <path> [-p <cue-path>] [-v <synver>] [--pkgname <name>] [--stdout]"
 	ggt.Flags().StringVarP(&gc.lla.verstr, "version", "v", "", "schema syntactic version to generate. Defaults to latest")
 	ggt.Flags().StringVar(&gc.pkgname, "pkgname", "", "Name for generated Go package. Defaults to lowercase lineage name")
-	ggt.Flags().BoolVar(&gc.noembed, "stdout", false, "Write to stdout instead of '<lineage.name>_types_gen.go'")
+	ggt.Flags().BoolVar(&gc.stdout, "stdout", false, "Write to stdout instead of '<lineage.name>_types_gen.go'")
 	ggt.Flags().BoolVarP(&gc.quiet, "quiet", "q", false, "Do not print generated filename")
 	ggt.Run = gc.run
 
-- 
2.43.0


From 746deaf6b16b1e012ec57503976f1dcae07ca593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:02 +0000
Subject: [PATCH 09/32] fix: search all schemas when no version is passed to
 CLI data commands

validate-any, hydrate and dehydrate are documented to use the given version, or
to search the lineage when there is none; they always used the latest schema,
as the loader populates it either way.
---
 cmd/thema/data.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/thema/data.go b/cmd/thema/data.go
index ad0647b..c8547dc 100644
--- a/cmd/thema/data.go
+++ b/cmd/thema/data.go
@@ -135,7 +135,7 @@ func (dc *dataCommand) runValidateAny(cmd *cobra.Command, args []string) error {
 	}
 
 	var reterr error
-	if dc.lla.dl.sch != nil {
+	if dc.lla.verstr != "" {
 		_, reterr = dc.lla.dl.sch.Validate(dc.datval)
 		if reterr == nil {
 			fmt.Fprintf(cmd.OutOrStdout(), "%s\n", dc.lla.dl.sch.Version())
@@ -236,7 +236,7 @@ func (dc *dataCommand) runHydrate(cmd *cobra.Command, args []string) error {
 
 	var inst *thema.Instance
 	var err error
-	if dc.lla.dl.sch != nil {
+	if dc.lla.verstr != "" {
 		inst, err = dc.lla.dl.sch.Validate(dc.datval)
 		if err != nil {
 			return err
@@ -280,7 +280,7 @@ func (dc *dataCommand) runDehydrate(cmd *cobra.Command, args []string) error {
 
 	var inst *thema.Instance
 	var err error
-	if dc.lla.dl.sch != nil {
+	if dc.lla.verstr != "" {
 		inst, err = dc.lla.dl.sch.Validate(dc.datval)
 		if err != nil {
 			return err
-- 
2.43.0


From c61fc9a7ed406bc9635a861d60bf4d255d239a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:35 +0000
Subject: [PATCH 10/32] fix: make all translation errors children of
 ErrInvalidLens

As documented on Instance.Translate and on the sentinel errors themselves.
---
 instance.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/instance.go b/instance.go
index b75e323..deb453e 100644
--- a/instance.go
+++ b/instance.go
@@ -242,13 +242,15 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 	// Check that the result is concrete by trying to marshal/export it as JSON
 	_, err = json.Marshal(raw)
 	if err != nil {
-		return nil, nil, errors.Mark(fmt.Errorf("lens produced a non-concrete result: %s", cerrors.Details(err, nil)), terrors.ErrLensIncomplete)
+		err = errors.Mark(fmt.Errorf("lens produced a non-concrete result: %s", cerrors.Details(err, nil)), terrors.ErrLensIncomplete)
+		return nil, nil, errors.Mark(err, terrors.ErrInvalidLens)
 	}
 
 	// Ensure the result is a valid instance of the target schema
 	inst, err := newsch.Validate(raw)
 	if err != nil {
-		return nil, nil, errors.Mark(err, terrors.ErrLensResultIsInvalidData)
+		err = errors.Mark(err, terrors.ErrLensResultIsInvalidData)
+		return nil, nil, errors.Mark(err, terrors.ErrInvalidLens)
 	}
 	return inst, lac, err
 }
@@ -279,16 +281,16 @@ func (i *Instance) translateGo(to SyntacticVersion) (*Instance, TranslationLacun
 			mlid := lid(sch.Version(), nsch.Version())
 			rti, err = lensmap[mlid].Mapper(ti, nsch)
 			if err != nil {
-				return nil, nil, fmt.Errorf("error executing %s migration: %w", mlid, err)
+				return nil, nil, errors.Mark(fmt.Errorf("error executing %s migration: %w", mlid, err), terrors.ErrInvalidLens)
 			}
 			// Ensure that
 			//  - the returned instance exists
 			//  - the caller returned an instance of the expected schema version
 			if rti == nil {
-				return nil, nil, fmt.Errorf("lens returned a nil instance")
+				return nil, nil, errors.Mark(fmt.Errorf("lens returned a nil instance"), terrors.ErrInvalidLens)
 			}
 			if rti.Schema().Version() != nsch.Version() {
-				return nil, nil, fmt.Errorf("lens returned an instance of the wrong schema version: expected %v, got %v", nsch.Version(), rti.Schema().Version())
+				return nil, nil, errors.Mark(fmt.Errorf("lens returned an instance of the wrong schema version: expected %v, got %v", nsch.Version(), rti.Schema().Version()), terrors.ErrInvalidLens)
 			}
 		} else {
 			// going up a minor version - neither errors nor lacunas are possible
-- 
2.43.0


From fa8f449fd2a84af56bb68ac384d1594e247d4bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:25 +0000
Subject: [PATCH 11/32] fix: do not return untranslated input when a lens fails

#Translate fell back to the input instance whenever the last step's result was
an error (e.g. a lens referencing a nonexistent field). If the input happened to
be valid for the target schema, it was silently returned as the translation.
---
 translate.cue | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/translate.cue b/translate.cue
index e96899f..8482177 100644
--- a/translate.cue
+++ b/translate.cue
@@ -38,7 +38,10 @@ import "list"
 		result: {
 			from:   FV
 			to:     TV
-			result: *steps[len(steps)-1].result | I
+			result: [
+				if len(steps) > 0 {steps[len(steps)-1].result},
+				I,
+			][0]
 		}
 
 		// All the lacunas emitted by the lenses traversed, grouped by the schema
-- 
2.43.0


From 839d668de1867c60aaaf47a36af2cc15976bf91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:05 +0000
Subject: [PATCH 12/32] fix: report excess fields and unrecognized failures in
 validation errors

CUE's error for a disallowed field has no arguments, so it was dropped, as was
any other unrecognized error: the resulting validation error was empty.
---
 validate.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/validate.go b/validate.go
index c4bfdf9..fc59567 100644
--- a/validate.go
+++ b/validate.go
@@ -40,7 +40,11 @@ func (e *onesidederr) Error() string {
 			fmt.Fprintf(&buf, "\n\t\t%s", pos.String())
 		}
 
-		fmt.Fprintf(&buf, "\n\tbut field exists in data with value `%v`", e.val)
+		if e.val == "" {
+			fmt.Fprintf(&buf, "\n\tbut field exists in data")
+		} else {
+			fmt.Fprintf(&buf, "\n\tbut field exists in data with value `%v`", e.val)
+		}
 		for _, pos := range e.datapos {
 			fmt.Fprintf(&buf, "\n\t\t%s", pos.String())
 		}
@@ -124,6 +128,18 @@ func mungeValidateErr(err error, sch Schema) error {
 
 		msg, vals := ee.Msg()
 		switch len(vals) {
+		case 0:
+			if !strings.Contains(msg, "not allowed") {
+				break
+			}
+
+			errs = append(errs, &onesidederr{
+				schpos:  schpos,
+				datapos: datapos,
+				coords:  x,
+				code:    terrors.ExcessField,
+			})
+			continue
 		case 1:
 			val, ok := vals[0].(string)
 			if !ok {
@@ -211,6 +227,12 @@ func mungeValidateErr(err error, sch Schema) error {
 			continue
 		}
 	}
+
+	if len(errs) == 0 {
+		// Nothing was recognized. Keep what CUE reported, rather than having a failure
+		// without any detail.
+		errs = append(errs, err)
+	}
 	return errs
 }
 
-- 
2.43.0


From 7975b9c2463b6cf91e6d064ac52f632c207c98a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:17 +0000
Subject: [PATCH 13/32] fix: do not swap schema and data in bounds errors of
 predeclared types

---
 validate.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/validate.go b/validate.go
index fc59567..8e7eb02 100644
--- a/validate.go
+++ b/validate.go
@@ -166,8 +166,9 @@ func mungeValidateErr(err error, sch Schema) error {
 			var dataval, schval string
 			var dvok, svok bool
 
-			// data first
-			if len(inputPositions) > 1 && !strings.HasSuffix(inputPositions[0].Filename(), ".cue") {
+			// data first. Bounds errors always are, even without a position for the schema,
+			// as is the case for the bounds of predeclared types, like int32.
+			if strings.HasPrefix(msg, "invalid value") || (len(inputPositions) > 1 && !strings.HasSuffix(inputPositions[0].Filename(), ".cue")) {
 				schval, svok = vals[1].(string)
 				dataval, dvok = vals[0].(string)
 			} else { // schema first
-- 
2.43.0


From bef1e450c4f84adb6fff30c0a27ce3a84df1f741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:09 +0000
Subject: [PATCH 14/32] fix: accept closed lists of a single element as
 assignable to Go arrays

---
 assignable.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/assignable.go b/assignable.go
index f97fba5..5d51da3 100644
--- a/assignable.go
+++ b/assignable.go
@@ -221,6 +221,7 @@ func assignable(sch cue.Value, T interface{}) error {
 		var nonempty bool
 		if nonempty = iter.Next(); nonempty {
 			lastval = iter.Value()
+			los = lastval
 			for iter.Next() {
 				los = iter.Value() // it's fine to just keep updating the reference
 				// Failures indicate the CUE schema is unrepresentable in Go.
-- 
2.43.0


From abcd5b03f157f948f5cce898de1ef3e2b3aa8434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:36 +0000
Subject: [PATCH 15/32] fix: check all branches of scalar disjunctions with
 defaults for assignability

---
 assignable.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/assignable.go b/assignable.go
index 5d51da3..781697a 100644
--- a/assignable.go
+++ b/assignable.go
@@ -7,6 +7,8 @@ import (
 	"reflect"
 
 	"cuelang.org/go/cue"
+
+	"github.com/grafana/thema/internal/cuetil"
 )
 
 // AssignableTo indicates whether all valid instances of the provided Thema
@@ -272,6 +274,19 @@ func assignable(sch cue.Value, T interface{}) error {
 		// that the schema subsumes the Go type.
 		if err := gval.Subsume(sval, cue.Schema()); err != nil {
 			errs[p.String()] = fmt.Errorf("%s: schema type %v not subsumed by Go type %v", p, sval, gval)
+			return
+		}
+
+		// Subsumption considers only the default of the schema type, if it has
+		// one. The other branches must be assignable, too.
+		for _, branch := range cuetil.AppendSplit(sval, cue.OrOp, nil) {
+			if branch.Null() == nil {
+				continue
+			}
+			if err := stripLeadNull(gval).Subsume(branch, cue.Schema()); err != nil {
+				errs[p.String()] = fmt.Errorf("%s: schema type %v not subsumed by Go type %v", p, sval, gval)
+				return
+			}
 		}
 	}
 
-- 
2.43.0


From 42e06da6ddd126f7626c07564af9f6d739f60927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:38 +0000
Subject: [PATCH 16/32] fix: typed values include the schema's defaults inside
 optional structs and list elements

---
 instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance.go b/instance.go
index deb453e..58c3b3b 100644
--- a/instance.go
+++ b/instance.go
@@ -165,7 +165,7 @@ func (inst *TypedInstance[T]) Value() (T, error) {
 
 	t := inst.tsch.NewT()
 	// TODO figure out correct pointer handling here
-	err := inst.Instance.raw.Decode(&t)
+	err := inst.Instance.sch.Underlying().LookupPath(pathSchDef).Unify(inst.Instance.raw).Decode(&t)
 	return t, err
 }
 
-- 
2.43.0


From d4714573c40e1ad3e6ba942919d0e8f024fff459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:27 +0000
Subject: [PATCH 17/32] fix: do not quote the names of examples

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 5436c4a..a36efc6 100644
--- a/schema.go
+++ b/schema.go
@@ -46,7 +46,7 @@ func (sch *schemaDef) Examples() map[string]*Instance {
 
 	examples := make(map[string]*Instance)
 	for it.Next() {
-		label := it.Selector().String()
+		label := it.Label()
 		examples[label] = &Instance{
 			valid: true,
 			raw:   it.Value(),
-- 
2.43.0


From b15e4ab70ab881420e198ff84095188364341ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:22 +0000
Subject: [PATCH 18/32] fix: keep optional fields that equal their default when
 dehydrating

---
 hydrate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hydrate.go b/hydrate.go
index 1115309..a444d3c 100644
--- a/hydrate.go
+++ b/hydrate.go
@@ -187,6 +187,9 @@ func doDehydrate(sch, data cue.Value) (cue.Value, bool, error) {
 				re, isEqual, err := doDehydrate(iter.Value(), lv)
 				if err == nil && !isEqual {
 					rv = rv.FillPath(cue.MakePath(cue.Str(lable)), re)
+				} else if iter.IsOptional() {
+					// Hydration does not bring absent optional fields back
+					rv = rv.FillPath(cue.MakePath(cue.Str(lable)), lv)
 				}
 			}
 		}
-- 
2.43.0


From 1504b6b16bfa2254da4558ea3ccc8d1d5bd6770c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:01 +0000
Subject: [PATCH 19/32] fix: code generators must not write defaults into the
 caller's config

---
 encoding/gocode/gen.go     | 7 ++++---
 encoding/openapi/oapi.go   | 6 ++++++
 encoding/typescript/gen.go | 4 ++++
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/encoding/gocode/gen.go b/encoding/gocode/gen.go
index f76cd5c..b861184 100644
--- a/encoding/gocode/gen.go
+++ b/encoding/gocode/gen.go
@@ -94,12 +94,13 @@ func GenerateTypesOpenAPI(sch thema.Schema, cfg *TypeConfigOpenAPI) ([]byte, err
 	if err != nil {
 		return nil, fmt.Errorf("loading generated openapi failed: %w", err)
 	}
-	if cfg.PackageName == "" {
-		cfg.PackageName = sch.Lineage().Name()
+	pkgName := cfg.PackageName
+	if pkgName == "" {
+		pkgName = strings.ToLower(sch.Lineage().Name())
 	}
 
 	ccfg := codegen.Configuration{
-		PackageName: cfg.PackageName,
+		PackageName: pkgName,
 		Compatibility: codegen.CompatibilityOptions{
 			AlwaysPrefixEnumValues: true,
 		},
diff --git a/encoding/openapi/oapi.go b/encoding/openapi/oapi.go
index 4855e10..99e382c 100644
--- a/encoding/openapi/oapi.go
+++ b/encoding/openapi/oapi.go
@@ -55,8 +55,14 @@ func GenerateSchema(sch thema.Schema, cfg *Config) (*ast.File, error) {
 	if cfg == nil {
 		cfg = &Config{}
 	}
+	// Work on copies, as generation sets some of the options.
+	c := *cfg
+	cfg = &c
 	if cfg.Config == nil {
 		cfg.Config = &openapi.Config{}
+	} else {
+		oc := *cfg.Config
+		cfg.Config = &oc
 	}
 
 	gen := &oapiGen{
diff --git a/encoding/typescript/gen.go b/encoding/typescript/gen.go
index 4b5a3d9..92de0c3 100644
--- a/encoding/typescript/gen.go
+++ b/encoding/typescript/gen.go
@@ -61,6 +61,10 @@ type TypeConfig struct {
 func GenerateTypes(sch thema.Schema, cfg *TypeConfig) (*ast.File, error) {
 	if cfg == nil {
 		cfg = new(TypeConfig)
+	} else {
+		// The defaults filled in below must not leak into the caller's config.
+		c := *cfg
+		cfg = &c
 	}
 	if cfg.CuetsyConfig == nil {
 		cfg.CuetsyConfig = &cuetsy.Config{
-- 
2.43.0


From 4e550f127d38625187a91898226ec8424c200ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:45 +0000
Subject: [PATCH 20/32] fix: rewrite nested and indexed references in legacy
 lenses

---
 encoding/cue/rewrite.go | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/encoding/cue/rewrite.go b/encoding/cue/rewrite.go
index 8ae7a5a..88f0dc8 100644
--- a/encoding/cue/rewrite.go
+++ b/encoding/cue/rewrite.go
@@ -156,28 +156,36 @@ type legacyLens struct {
 	mapper, lacunas cue.Value
 }
 
-// Rewrite the bodies of the lenses and any lacunas to have selectors using the
-// new field names
+// Rewrite the bodies of the lenses and any lacunas to have selectors and index
+// expressions using the new field names
 func (ll legacyLens) rewriteFromTo(cursor astutil.Cursor) bool {
 	switch x := cursor.Node().(type) {
 	case *ast.SelectorExpr:
+		// ONLY want to change the first element in any chain of selectors. So
+		// stop searching once the innermost one has been encountered
 		if id, is := x.X.(*ast.Ident); is {
-			switch id.Name {
-			case "from":
-				x.X = ast.NewLit(token.STRING, "input")
-			case "to":
-				x.X = ast.NewLit(token.STRING, "result")
-			default:
-				return false
-			}
+			x.X = renameFromTo(id)
+			return false
+		}
+	case *ast.IndexExpr:
+		if id, is := x.X.(*ast.Ident); is {
+			x.X = renameFromTo(id)
 		}
-		// ONLY want to change the first element in any chain of selectors. So
-		// always stop searching once we've encountered a single one of these
-		return false
 	}
 	return true
 }
 
+func renameFromTo(id *ast.Ident) ast.Expr {
+	switch id.Name {
+	case "from":
+		return ast.NewLit(token.STRING, "input")
+	case "to":
+		return ast.NewLit(token.STRING, "result")
+	default:
+		return id
+	}
+}
+
 func (ll legacyLens) toAST() (ast.Expr, error) {
 	var mapsrc ast.Expr
 	if !ll.mapper.Exists() {
-- 
2.43.0


From a6fe2d55616c2a07263f70a89b01f45e3db2aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:43 +0000
Subject: [PATCH 21/32] fix: serialize the use of oapi-codegen's global state
 in gocode

Generating Go types in two goroutines, even for lineages of different
runtimes, was a data race on the package-level variables in which
oapi-codegen keeps its state.
---
 encoding/gocode/gen.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encoding/gocode/gen.go b/encoding/gocode/gen.go
index b861184..886038c 100644
--- a/encoding/gocode/gen.go
+++ b/encoding/gocode/gen.go
@@ -5,6 +5,7 @@ import (
 	"embed"
 	"fmt"
 	"strings"
+	"sync"
 	"text/template"
 	"time"
 
@@ -62,6 +63,9 @@ type TypeConfigOpenAPI struct {
 	Config *openapi.Config
 }
 
+// oapi-codegen keeps the state of a generation in package-level variables.
+var codegenMut sync.Mutex
+
 // GenerateTypesOpenAPI generates native Go code corresponding to the provided Schema.
 func GenerateTypesOpenAPI(sch thema.Schema, cfg *TypeConfigOpenAPI) ([]byte, error) {
 	if cfg == nil {
@@ -118,7 +122,9 @@ func GenerateTypesOpenAPI(sch thema.Schema, cfg *TypeConfigOpenAPI) ([]byte, err
 		AdditionalImports: nil,
 	}
 
+	codegenMut.Lock()
 	gostr, err := codegen.Generate(oT, ccfg)
+	codegenMut.Unlock()
 	if err != nil {
 		return nil, fmt.Errorf("openapi generation failed: %w", err)
 	}
-- 
2.43.0


From 85a2f0c9ea7a0c9c3cb954cef89f25d063a2af9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:45 +0000
Subject: [PATCH 22/32] fix: let the runtime's readers exclude each other

Validating data, checking assignability and making new typed values in
several goroutines took the runtime's lock for reading only. CUE evaluates
lazily and caches (for one, compiled regular expressions) in the shared
context, so that these were data races.
---
 runtime.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtime.go b/runtime.go
index 9bf8980..365231e 100644
--- a/runtime.go
+++ b/runtime.go
@@ -94,14 +94,14 @@ func NewRuntime(ctx *cue.Context) *Runtime {
 	}
 }
 
+// Evaluating CUE values updates state they share through their context, even
+// where the operation only reads. So readers exclude each other, too.
 func (rt *Runtime) rl() {
-	rt.mut.RLock()
-	// rt.mut.Lock()
+	rt.mut.Lock()
 }
 
 func (rt *Runtime) ru() {
-	rt.mut.RUnlock()
-	// rt.mut.Unlock()
+	rt.mut.Unlock()
 }
 
 func (rt *Runtime) l() {
-- 
2.43.0


From b70d881d475fd474b43d80eb1ecaddfd5c9c28bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:58 +0000
Subject: [PATCH 23/32] fix: evaluate translations, typed values and hydration
 under the runtime's lock

Translate evaluated the output of #Translate, and Value, Hydrate, Dehydrate
and BindType their schema, without the lock of the runtime that other
goroutines evaluate the same lineage under: a data race.
---
 instance.go | 45 ++++++++++++++++++++++++++++++++-------------
 schema.go   |  7 +++++--
 2 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/instance.go b/instance.go
index 58c3b3b..51e747e 100644
--- a/instance.go
+++ b/instance.go
@@ -59,7 +59,9 @@ func (i *Instance) check() {
 func (i *Instance) Hydrate() *Instance {
 	i.check()
 
-	i.sch.Lineage().Runtime()
+	rt := i.rt()
+	rt.rl()
+	defer rt.ru()
 	ni, err := doHydrate(i.sch.Underlying().LookupPath(pathSchDef), i.raw)
 	// FIXME For now, just no-op it if we error
 	if err != nil {
@@ -82,6 +84,9 @@ func (i *Instance) Hydrate() *Instance {
 func (i *Instance) Dehydrate() *Instance {
 	i.check()
 
+	rt := i.rt()
+	rt.rl()
+	defer rt.ru()
 	ni, _, err := doDehydrate(i.sch.Underlying().LookupPath(pathSchDef), i.raw)
 	// FIXME For now, just no-op it if we error
 	if err != nil {
@@ -164,6 +169,9 @@ func (inst *TypedInstance[T]) Value() (T, error) {
 	inst.check()
 
 	t := inst.tsch.NewT()
+	rt := inst.rt()
+	rt.rl()
+	defer rt.ru()
 	// TODO figure out correct pointer handling here
 	err := inst.Instance.sch.Underlying().LookupPath(pathSchDef).Unify(inst.Instance.raw).Decode(&t)
 	return t, err
@@ -228,8 +236,27 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 		panic(err)
 	}
 
+	raw, lac, err := evalTranslation(out, i.rt())
+	if err != nil {
+		return nil, nil, err
+	}
+
+	// Ensure the result is a valid instance of the target schema
+	inst, err := newsch.Validate(raw)
+	if err != nil {
+		err = errors.Mark(err, terrors.ErrLensResultIsInvalidData)
+		return nil, nil, errors.Mark(err, terrors.ErrInvalidLens)
+	}
+	return inst, lac, err
+}
+
+// evalTranslation evaluates the output of #Translate.
+func evalTranslation(out cue.Value, rt *Runtime) (cue.Value, multiTranslationLacunas, error) {
+	rt.rl()
+	defer rt.ru()
+
 	if out.Err() != nil {
-		return nil, nil, errors.Mark(out.Err(), terrors.ErrInvalidLens)
+		return cue.Value{}, nil, errors.Mark(out.Err(), terrors.ErrInvalidLens)
 	}
 
 	lac := make(multiTranslationLacunas, 0)
@@ -240,19 +267,11 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 	raw, _ := out.LookupPath(cue.MakePath(cue.Str("result"), cue.Str("result"))).Default()
 
 	// Check that the result is concrete by trying to marshal/export it as JSON
-	_, err = json.Marshal(raw)
-	if err != nil {
+	if _, err := json.Marshal(raw); err != nil {
 		err = errors.Mark(fmt.Errorf("lens produced a non-concrete result: %s", cerrors.Details(err, nil)), terrors.ErrLensIncomplete)
-		return nil, nil, errors.Mark(err, terrors.ErrInvalidLens)
+		return cue.Value{}, nil, errors.Mark(err, terrors.ErrInvalidLens)
 	}
-
-	// Ensure the result is a valid instance of the target schema
-	inst, err := newsch.Validate(raw)
-	if err != nil {
-		err = errors.Mark(err, terrors.ErrLensResultIsInvalidData)
-		return nil, nil, errors.Mark(err, terrors.ErrInvalidLens)
-	}
-	return inst, lac, err
+	return raw, lac, nil
 }
 
 func (i *Instance) translateGo(to SyntacticVersion) (*Instance, TranslationLacunas, error) {
diff --git a/schema.go b/schema.go
index a36efc6..c078c76 100644
--- a/schema.go
+++ b/schema.go
@@ -181,7 +181,11 @@ func BindType[T Assignee](sch Schema, t T) (TypedSchema[T], error) {
 	}
 
 	// Verify that there are no problematic errors emitted from decoding.
-	if err := sch.Underlying().LookupPath(pathSchDef).Decode(t); err != nil {
+	rt := getLinLib(sch.Lineage())
+	rt.rl()
+	err := sch.Underlying().LookupPath(pathSchDef).Decode(t)
+	rt.ru()
+	if err != nil {
 		// Because assignability has already been established, the only errors here
 		// _should_ be those arising from schema fields without concrete defaults. But
 		// to avoid swallowing other error types, try to filter out those from the list
@@ -211,7 +215,6 @@ func BindType[T Assignee](sch Schema, t T) (TypedSchema[T], error) {
 	// general Go types CUE can decode onto, there may be some opportunity for a
 	// specialized implementation to improve performance - but we'll attempt that
 	// iff performance is actually shown to be a problem.
-	rt := getLinLib(sch.Lineage())
 	tsch.newfn = func() T {
 		nt := new(T)
 		rt.rl()
-- 
2.43.0


From 0fa4a2dccbd95c2a609fd252a2ea57ad0d2d0d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:35 +0000
Subject: [PATCH 24/32] fix: load a lineage from a directory outside any CUE
 module in the CLI

---
 cmd/thema/load.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/cmd/thema/load.go b/cmd/thema/load.go
index 102e623..8a9b488 100644
--- a/cmd/thema/load.go
+++ b/cmd/thema/load.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 	"sync"
 
@@ -139,6 +140,9 @@ func (lla *lineageLoadArgs) dynLoad() (*dynamicLoader, error) {
 		}
 
 		binsts = load.Instances(args, cfg)
+		if lla.pathIsDir {
+			binsts = reloadPackages(binsts, cfg)
+		}
 	} else {
 		overlay := map[string]load.Source{}
 		// do no muckery if in thema mod dir
@@ -170,6 +174,9 @@ func (lla *lineageLoadArgs) dynLoad() (*dynamicLoader, error) {
 	}
 
 	if lla.skipBindLineage {
+		if len(binsts) == 0 {
+			return nil, fmt.Errorf("no loadable CUE data found")
+		}
 		// just take the first one, ooof
 		dl.binst = binsts[0]
 		return dl, nil
@@ -267,6 +274,32 @@ func findCueMod(path string) (*parentCueMod, error) {
 	return nil, os.ErrNotExist
 }
 
+// reloadPackages completes the instances that load.Instances returned for a
+// directory loaded with the package wildcard. For the wildcard, CUE does not
+// resolve the imports of any named package it finds, and always adds an instance
+// for files without a package clause, even if there are none.
+func reloadPackages(binsts []*build.Instance, cfg *load.Config) []*build.Instance {
+	var ret []*build.Instance
+	for _, binst := range binsts {
+		switch {
+		case binst.Err != nil:
+			ret = append(ret, binst)
+		case binst.PkgName == "_":
+			if len(binst.BuildFiles) > 0 {
+				ret = append(ret, binst)
+			}
+		default:
+			pcfg := *cfg
+			pcfg.Package = binst.PkgName
+			ret = append(ret, load.Instances(nil, &pcfg)...)
+		}
+	}
+	sort.Slice(ret, func(i, j int) bool {
+		return ret[i].PkgName < ret[j].PkgName
+	})
+	return ret
+}
+
 var themamodpath = filepath.Join("cue.mod", "pkg", "github.com", "grafana", "thema")
 
 type ppathf func(*build.Instance) string
-- 
2.43.0


From 8ade5eee846d85db93fc9783218d8e96aec9ba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:15 +0000
Subject: [PATCH 25/32] fix: thema lineage init openapi, jsonschema: heed
 --name and --package, as init empty does

---
 cmd/thema/lineage_init.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/thema/lineage_init.go b/cmd/thema/lineage_init.go
index 029bb47..406e4cf 100644
--- a/cmd/thema/lineage_init.go
+++ b/cmd/thema/lineage_init.go
@@ -48,12 +48,12 @@ func (ic *initCommand) setup(cmd *cobra.Command) {
 	initLineageCmd.AddCommand(initLineageOpenAPICmd)
 	initLineageOpenAPICmd.Flags().StringVar(&ic.srcpath, "src-subpath", "", "Schema path within the OpenAPI document. Default: whole document")
 	initLineageOpenAPICmd.Run = ic.run
-	initLineageOpenAPICmd.PreRunE = ic.processInput
+	initLineageOpenAPICmd.PreRunE = mergeCobraefuncs(ic.processPackageArgs, ic.processInput)
 
 	initLineageCmd.AddCommand(initLineageJSONSchemaCmd)
 	initLineageJSONSchemaCmd.Flags().StringVar(&ic.srcpath, "src-subpath", "", "Schema path within the JSON Schema document (e.g. #/...) Default: whole document")
 	initLineageJSONSchemaCmd.Run = ic.run
-	initLineageJSONSchemaCmd.PreRunE = ic.processInput
+	initLineageJSONSchemaCmd.PreRunE = mergeCobraefuncs(ic.processPackageArgs, ic.processInput)
 }
 
 var initLineageCmd = &cobra.Command{
-- 
2.43.0


From f6ad18755db95ccb894eb461d15a6d08592a0ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:15 +0000
Subject: [PATCH 26/32] fix: thema lineage init: report malformed and
 unsuitable input documents, take OpenAPI from a pipe, instead of panicking

---
 cmd/thema/lineage_init.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/cmd/thema/lineage_init.go b/cmd/thema/lineage_init.go
index 406e4cf..79adfd7 100644
--- a/cmd/thema/lineage_init.go
+++ b/cmd/thema/lineage_init.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"bytes"
 	"fmt"
 	"os"
 
@@ -252,17 +251,15 @@ func (ic *initCommand) runJSONSchema(cmd *cobra.Command, args []string) {
 // or stdin (as we do with pathOrStdin) and passed it as input param
 func inputToFile(input []byte, args []string) (*ast.File, error) {
 	if len(args) == 0 {
-		args = append(args, "-")
+		// No filename to tell the format by, but JSON is YAML, too
+		return yaml.Extract("input", input)
 	}
 
-	cfg := &load.Config{
-		Stdin: bytes.NewBuffer(input),
-	}
-	binsts := load.Instances(args, cfg)
-	bf := binsts[0].OrphanedFiles[0]
-	if bf == nil {
+	binsts := load.Instances(args, &load.Config{})
+	if len(binsts) == 0 || len(binsts[0].OrphanedFiles) == 0 {
 		return nil, fmt.Errorf("could not load input file")
 	}
+	bf := binsts[0].OrphanedFiles[0]
 
 	var f *ast.File
 	var err error
@@ -270,7 +267,8 @@ func inputToFile(input []byte, args []string) (*ast.File, error) {
 	case build.YAML:
 		f, err = yaml.Extract("input", input)
 	case build.JSON:
-		expr, err := json.Extract("input", input)
+		var expr ast.Expr
+		expr, err = json.Extract("input", input)
 		if err == nil {
 			f = &ast.File{
 				Decls: []ast.Decl{expr},
-- 
2.43.0


From f8d8d49915403bba8d9ee45e3a4ea83c053a85f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:15 +0000
Subject: [PATCH 27/32] fix: thema lineage gen openapi: the default format is
 yaml, as documented; openapi and jsonschema shared one flag variable

---
 cmd/thema/lineage_subgen.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index eacd6c7..b889138 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -38,8 +38,8 @@ type genCommand struct {
 
 	quiet bool
 
-	// input file format (yaml, json, etc.)
-	format string
+	// output format (yaml, json), per subcommand as their defaults differ
+	oapiFormat, jschFormat string
 
 	lin thema.Lineage
 	sch thema.Schema
@@ -62,13 +62,13 @@ func (gc *genCommand) setup(cmd *cobra.Command) {
 	gop := genOapiLineageCmd
 	genLineageCmd.AddCommand(gop)
 	gop.Flags().StringVarP(&gc.lla.verstr, "version", "v", "", "schema syntactic version to generate. Defaults to latest")
-	gop.Flags().StringVarP(&gc.format, "format", "f", "yaml", "output format. \"json\" or \"yaml\".")
+	gop.Flags().StringVarP(&gc.oapiFormat, "format", "f", "yaml", "output format. \"json\" or \"yaml\".")
 	gop.Run = gc.run
 
 	gj := genJschLineageCmd
 	genLineageCmd.AddCommand(gj)
 	gj.Flags().StringVarP(&gc.lla.verstr, "version", "v", "", "schema syntactic version to generate. Defaults to latest")
-	gj.Flags().StringVarP(&gc.format, "format", "f", "json", "output format. \"json\" or \"yaml\".")
+	gj.Flags().StringVarP(&gc.jschFormat, "format", "f", "json", "output format. \"json\" or \"yaml\".")
 	gj.Run = gc.run
 
 	ggt := genGoTypesLineageCmd
@@ -170,7 +170,7 @@ func (gc *genCommand) runOpenAPI(cmd *cobra.Command, args []string) error {
 	}
 
 	var str string
-	switch gc.format {
+	switch gc.oapiFormat {
 	case "json":
 		var b []byte
 		b, err = rt.Context().BuildFile(f).MarshalJSON()
@@ -182,7 +182,7 @@ func (gc *genCommand) runOpenAPI(cmd *cobra.Command, args []string) error {
 	case "yaml", "yml":
 		str, err = yaml.Marshal(rt.Context().BuildFile(f))
 	default:
-		fmt.Fprintf(cmd.ErrOrStderr(), `unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
+		fmt.Fprintf(cmd.ErrOrStderr(), `unrecognized output format %q - must choose "yaml" or "json"`, gc.oapiFormat)
 	}
 	if err != nil {
 		return err
@@ -208,7 +208,7 @@ func (gc *genCommand) runJSONSchema(cmd *cobra.Command, args []string) error {
 	}
 
 	var str string
-	switch gc.format {
+	switch gc.jschFormat {
 	case "json":
 		var b []byte
 		b, err = rt.Context().BuildFile(f).MarshalJSON()
@@ -220,7 +220,7 @@ func (gc *genCommand) runJSONSchema(cmd *cobra.Command, args []string) error {
 	case "yaml", "yml":
 		str, err = yaml.Marshal(rt.Context().BuildFile(f))
 	default:
-		fmt.Fprintf(cmd.ErrOrStderr(), `unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
+		fmt.Fprintf(cmd.ErrOrStderr(), `unrecognized output format %q - must choose "yaml" or "json"`, gc.jschFormat)
 	}
 	if err != nil {
 		return err
-- 
2.43.0


From 0fa79769ecfb4c0561bfb2036ce0ea3d84e4f13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:15 +0000
Subject: [PATCH 28/32] fix: thema lineage gen openapi, jsonschema: an unknown
 format is an error

---
 cmd/thema/lineage_subgen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index b889138..2d236ce 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -182,7 +182,7 @@ func (gc *genCommand) runOpenAPI(cmd *cobra.Command, args []string) error {
 	case "yaml", "yml":
 		str, err = yaml.Marshal(rt.Context().BuildFile(f))
 	default:
-		fmt.Fprintf(cmd.ErrOrStderr(), `unrecognized output format %q - must choose "yaml" or "json"`, gc.oapiFormat)
+		err = fmt.Errorf(`unrecognized output format %q - must choose "yaml" or "json"`, gc.oapiFormat)
 	}
 	if err != nil {
 		return err
@@ -220,7 +220,7 @@ func (gc *genCommand) runJSONSchema(cmd *cobra.Command, args []string) error {
 	case "yaml", "yml":
 		str, err = yaml.Marshal(rt.Context().BuildFile(f))
 	default:
-		fmt.Fprintf(cmd.ErrOrStderr(), `unrecognized output format %q - must choose "yaml" or "json"`, gc.jschFormat)
+		err = fmt.Errorf(`unrecognized output format %q - must choose "yaml" or "json"`, gc.jschFormat)
 	}
 	if err != nil {
 		return err
-- 
2.43.0


From e7077abd509b68b57fa76546e62b5529a569984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:29 +0000
Subject: [PATCH 29/32] fix: IsAppendOnly: a changed joinSchema changes
 published schemas

---
 lineage.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lineage.go b/lineage.go
index 6511269..eaf4683 100644
--- a/lineage.go
+++ b/lineage.go
@@ -312,6 +312,11 @@ func IsAppendOnly(oldLineage Lineage, newLineage Lineage) error {
 		if err := cuetil.Equal(x, y); err != nil {
 			return err
 		}
+
+		// The joinSchema is part of every schema, but not of its literal definition
+		if err := cuetil.Equal(oldSchema.LookupPath(pathSchDef), newSchema.LookupPath(pathSchDef)); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 57dfaf0dd94e8ea7dd40dfd331da8b7bab334365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:40 +0000
Subject: [PATCH 30/32] fix: openapi: Subpath is looked up step by step in the
 schema; lineages with a joinSchema refused every other subpath

---
 encoding/openapi/oapi.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/encoding/openapi/oapi.go b/encoding/openapi/oapi.go
index 99e382c..c95dff5 100644
--- a/encoding/openapi/oapi.go
+++ b/encoding/openapi/oapi.go
@@ -186,12 +186,7 @@ func genSchema(gen *oapiGen, val cue.Value) ([]ast.Decl, error) {
 	}
 
 	if hasSubpath {
-		for i, sel := range gen.cfg.Subpath.Selectors() {
-			if !val.Allows(sel) {
-				return nil, errors.Newf(cuetil.FirstNonThemaPos(val), "subpath %q not present in schema", cue.MakePath(gen.cfg.Subpath.Selectors()[:i+1]...))
-			}
-		}
-		if err := pathAllowed(gen.join, gen.cfg.Subpath); err != nil {
+		if err := pathAllowed(val, gen.cfg.Subpath); err != nil {
 			return nil, err
 		}
 		val = val.LookupPath(gen.cfg.Subpath)
@@ -252,10 +247,12 @@ func getSchemas(f *ast.File) []ast.Decl {
 }
 
 func pathAllowed(v cue.Value, path cue.Path) error {
+	pos := cuetil.FirstNonThemaPos(v)
 	for i, sel := range path.Selectors() {
 		if !v.Allows(sel) {
-			return errors.Newf(v.Pos(), "subpath %q not present in schema", cue.MakePath(path.Selectors()[:i+1]...))
+			return errors.Newf(pos, "subpath %q not present in schema", cue.MakePath(path.Selectors()[:i+1]...))
 		}
+		v = v.LookupPath(cue.MakePath(sel))
 	}
 
 	return nil
-- 
2.43.0


From 65655fcbf3e832ebdcf4aee5bf3bcc600baf4be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:40 +0000
Subject: [PATCH 31/32] fix: AssignableTo: a union of list types is assignable
 to no Go slice

---
 assignable.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/assignable.go b/assignable.go
index 781697a..f821e6a 100644
--- a/assignable.go
+++ b/assignable.go
@@ -177,17 +177,24 @@ func assignable(sch cue.Value, T interface{}) error {
 	checklist = func(gval, sval cue.Value, p cue.Path) {
 		// If the schema is an open list with a default value, sval.Len() will produce a bottom value because it can't
 		// know which side of the disjunction to pick. There could be many branches on this disjunction, though. Only
-		// allow two, and only if one is a default.
-		if _, has := sval.Default(); has {
-			// Bewildering: calling Expr() on a list disjunction with a default value appears to
-			// just drop the marked/default value, and not indicate an OrOp at all. This is handy,
-			// but unexpected behavior, and it feels dangerous to rely on.
-			_, evals := sval.Expr()
-			if len(evals) > 2 {
+		// allow one, aside from null and the default.
+		//
+		// Bewildering: calling Expr() on a list disjunction with a default value appears to
+		// just drop the marked/default value, and not indicate an OrOp at all. This is handy,
+		// but unexpected behavior, and it feels dangerous to rely on.
+		_, hasDefault := sval.Default()
+		if op, evals := sval.Expr(); op == cue.OrOp || hasDefault {
+			var lists []cue.Value
+			for _, eval := range evals {
+				if eval.IncompleteKind() != cue.NullKind {
+					lists = append(lists, eval)
+				}
+			}
+			if len(lists) > 2 || op == cue.OrOp && len(lists) > 1 {
 				errs[p.String()] = fmt.Errorf("%s: schema is a complex disjunction of list types, may only correspond to interface{}/any", p)
 				return
 			}
-			sval = evals[0]
+			sval = lists[0]
 		}
 
 		glen, slen := gval.Len(), sval.Len()
-- 
2.43.0


From 471bb20c4ec85e20676aa65481320923ec9f06b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:27 +0000
Subject: [PATCH 32/32] fix: thema data validate, validate-any: heed --quiet

---
 cmd/thema/data.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/thema/data.go b/cmd/thema/data.go
index c8547dc..b6d6e73 100644
--- a/cmd/thema/data.go
+++ b/cmd/thema/data.go
@@ -107,6 +107,7 @@ func (dc *dataCommand) runValidate(cmd *cobra.Command, args []string) error {
 		panic("datval does not exist")
 	}
 
+	cmd.SilenceErrors = dc.quiet
 	_, err := dc.lla.dl.sch.Validate(dc.datval)
 	if err != nil {
 		return err
@@ -134,17 +135,23 @@ func (dc *dataCommand) runValidateAny(cmd *cobra.Command, args []string) error {
 		panic("datval does not exist")
 	}
 
+	out := cmd.OutOrStdout()
+	if dc.quiet {
+		cmd.SilenceErrors = true
+		out = io.Discard
+	}
+
 	var reterr error
 	if dc.lla.verstr != "" {
 		_, reterr = dc.lla.dl.sch.Validate(dc.datval)
 		if reterr == nil {
-			fmt.Fprintf(cmd.OutOrStdout(), "%s\n", dc.lla.dl.sch.Version())
+			fmt.Fprintf(out, "%s\n", dc.lla.dl.sch.Version())
 			return nil
 		}
 	}
 	inst := dc.lla.dl.lin.ValidateAny(dc.datval)
 	if inst != nil {
-		fmt.Fprintf(cmd.OutOrStdout(), "%s\n", inst.Schema().Version())
+		fmt.Fprintf(out, "%s\n", inst.Schema().Version())
 		return nil
 	}
 
-- 
2.43.0

