From d7259d59775892234abeaf84177d4e24474f27f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 01/24] fix: pass empty content for arguments which evaluate to
 nothing

An argument such as {{{}}} or {\styled{x}} evaluates to no content, which
made the reflective call panic instead of passing an empty value.
---
 stages/evaluate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index ac0f986..50994b6 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -327,5 +327,10 @@ func (eval Evaluate) evalArg(node ast.Node) (booklit.Content, error) {
 		return nil, err
 	}
 
+	if subEval.Result == nil {
+		// argument resulted in no content (e.g. an invoke with no return value)
+		return booklit.Empty, nil
+	}
+
 	return subEval.Result, nil
 }
-- 
2.43.0


From eb3ddeeb945807e1d2147dc0a19c4bc47f6bcd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 02/24] fix: allow plugin methods to return nil content

A nil booklit.Content returned by a method panicked in the type assertion,
although Append skips nil content.
---
 stages/evaluate.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index 50994b6..6ebb18a 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -249,7 +249,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 				}
 			}
 		case *booklit.Content:
-			eval.Result = booklit.Append(eval.Result, val.(booklit.Content))
+			if val != nil {
+				eval.Result = booklit.Append(eval.Result, val.(booklit.Content))
+			}
 		default:
 			return fmt.Errorf("unknown return type: %s", valType)
 		}
@@ -277,7 +279,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 		firstType := methodType.Out(0)
 		switch reflect.New(firstType).Interface().(type) {
 		case *booklit.Content:
-			eval.Result = booklit.Append(eval.Result, first.(booklit.Content))
+			if first != nil {
+				eval.Result = booklit.Append(eval.Result, first.(booklit.Content))
+			}
 		default:
 			return fmt.Errorf("unknown first return type: %s", firstType)
 		}
-- 
2.43.0


From ae8400f426001dacd5fec712a07b8d0d1b6bb15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 03/24] fix: set InvokeLocation after evaluating arguments

Functions invoked by an argument left their own location behind, so the
outer function saw (and reported errors at) the wrong location.
---
 stages/evaluate.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index 6ebb18a..4759eef 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -136,8 +136,6 @@ var complainL = new(sync.Mutex)
 //
 // If a booklit.Content is returned, it will be appended to Result.
 func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
-	eval.Section.InvokeLocation = invoke.Location
-
 	methodName := invoke.Method()
 
 	var method reflect.Value
@@ -226,6 +224,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 		}
 	}
 
+	// set last, as evaluating the arguments may have invoked other functions
+	eval.Section.InvokeLocation = invoke.Location
+
 	result := method.Call(argv)
 
 	switch methodType.NumOut() {
-- 
2.43.0


From 57e74f68a426b0cc25fafc7745e9a9bb1b9fa1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 04/24] fix: append all of the given content

Append returned after joining the first of the remaining contents, dropping
the others.
---
 append.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/append.go b/append.go
index bfe65bf..d04ba4a 100644
--- a/append.go
+++ b/append.go
@@ -16,9 +16,9 @@ func Append(first Content, rest ...Content) Content {
 		case nil:
 			appended = content
 		case Sequence:
-			return Sequence(append(v, content))
+			appended = append(v, content)
 		default:
-			return Sequence([]Content{appended, content})
+			appended = Sequence{appended, content}
 		}
 	}
 
-- 
2.43.0


From f49d04c20a1b5828bfcf8c6151bee7761efce20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 05/24] fix: don't append into a Sequence produced elsewhere

A Sequence which became the start of the result (e.g. a partial returned by a
plugin) was extended in place, so returning it twice made the two results
overwrite each other's tail.
---
 append.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/append.go b/append.go
index d04ba4a..486fae4 100644
--- a/append.go
+++ b/append.go
@@ -15,6 +15,11 @@ func Append(first Content, rest ...Content) Content {
 		switch v := appended.(type) {
 		case nil:
 			appended = content
+
+			if seq, ok := content.(Sequence); ok {
+				// don't extend into storage shared with the given content
+				appended = seq[:len(seq):len(seq)]
+			}
 		case Sequence:
 			appended = append(v, content)
 		default:
-- 
2.43.0


From cf023186484e8b3ebc1f2bbe1c0bf00e0bb9971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 06/24] fix: don't crash stripping references and targets
 without content

Reference and Target content is optional, so a title containing either made
StripAux dereference nil.
---
 aux_.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aux_.go b/aux_.go
index a480908..b37440b 100644
--- a/aux_.go
+++ b/aux_.go
@@ -13,6 +13,10 @@ type Aux struct {
 // StripAux recurses through Content and removes any Aux content from any
 // nested sequences.
 func StripAux(content Content) Content {
+	if content == nil {
+		return nil
+	}
+
 	visitor := &stripAuxVisitor{}
 
 	_ = content.Visit(visitor)
-- 
2.43.0


From 7d2555b69a0c470aa78873504e92fec1dd1b6821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 07/24] fix: handle optional references without content or a
 tag

Tag returns nil for an optional reference to an unknown tag, which String and
Display dereferenced.
---
 reference.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/reference.go b/reference.go
index b026c3e..7bcf01b 100644
--- a/reference.go
+++ b/reference.go
@@ -52,6 +52,10 @@ func (con *Reference) String() string {
 		return fmt.Sprintf("{broken reference: %s: %s}", con.TagName, err)
 	}
 
+	if tag == nil {
+		return con.TagName
+	}
+
 	return tag.Title.String()
 }
 
@@ -72,6 +76,10 @@ func (con *Reference) Display() (Content, error) {
 		return nil, err
 	}
 
+	if tag == nil {
+		return String(con.TagName), nil
+	}
+
 	return tag.Title, nil
 }
 
-- 
2.43.0


From 822ced4a819aee47b861db2a9bbea864eddcdfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 08/24] fix: make single-page overrule earlier split-sections

single-page only had an effect on split-sections calls which came after it.
---
 baselit/plugin.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/baselit/plugin.go b/baselit/plugin.go
index d78d873..fb93306 100644
--- a/baselit/plugin.go
+++ b/baselit/plugin.go
@@ -94,6 +94,18 @@ func (plugin Plugin) IncludeSection(path string) error {
 
 func (plugin Plugin) SinglePage() {
 	plugin.section.PreventSplitSections = true
+
+	unsplit(plugin.section)
+}
+
+// unsplit overrules any split-sections already set in the section or its
+// children.
+func unsplit(section *booklit.Section) {
+	section.SplitSections = false
+
+	for _, child := range section.Children {
+		unsplit(child)
+	}
 }
 
 func (plugin Plugin) SplitSections() {
-- 
2.43.0


From 18deeea0a79d142ee9658e0d4315eac78f123225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 09/24] fix: report sections which include themselves

A document including itself, directly or through other documents, recursed
until the process ran out of stack.
---
 baselit/plugin.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/baselit/plugin.go b/baselit/plugin.go
index fb93306..36cec61 100644
--- a/baselit/plugin.go
+++ b/baselit/plugin.go
@@ -82,6 +82,12 @@ func (plugin Plugin) Section(node ast.Node) error {
 func (plugin Plugin) IncludeSection(path string) error {
 	sectionPath := filepath.Join(filepath.Dir(plugin.section.FilePath()), path)
 
+	for parent := plugin.section; parent != nil; parent = parent.Parent {
+		if parent.Path == sectionPath {
+			return fmt.Errorf("section includes itself: %s", sectionPath)
+		}
+	}
+
 	section, err := plugin.section.Processor.EvaluateFile(plugin.section, sectionPath, []booklit.PluginFactory{NewPlugin})
 	if err != nil {
 		return err
-- 
2.43.0


From 98f15bfbe66675ff40c5ff9e29780566f53b5899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 10/24] fix: close the document when it fails to parse

---
 load/processor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/load/processor.go b/load/processor.go
index 315da94..fa6f3e7 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -87,6 +87,8 @@ func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, p
 			return nil, err
 		}
 
+		defer file.Close()
+
 		result, err := ast.ParseReader(path, file)
 		if err != nil {
 			astErr, ok := ast.UnpackError(err)
-- 
2.43.0


From 2050518566b435e38fd5999539643dbee19e7cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 11/24] fix: close the search index when encoding fails

---
 render/writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/render/writer.go b/render/writer.go
index db1b627..a470bba 100644
--- a/render/writer.go
+++ b/render/writer.go
@@ -80,6 +80,8 @@ func (writer Writer) WriteSearchIndex(section *booklit.Section, path string) err
 		return err
 	}
 
+	defer indexFile.Close()
+
 	err = json.NewEncoder(indexFile).Encode(index)
 	if err != nil {
 		return err
-- 
2.43.0


From 9e273f89f9df6196b8c8ff5e48648758bd39bc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 12/24] fix: report errors from closing a written page

---
 render/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/writer.go b/render/writer.go
index a470bba..10b81d3 100644
--- a/render/writer.go
+++ b/render/writer.go
@@ -139,5 +139,5 @@ func (writer Writer) writeSingleSection(section *booklit.Section) error {
 		return err
 	}
 
-	return nil
+	return file.Close()
 }
-- 
2.43.0


From 824076b4d0f1c9d60fae2c6a773549cedf1cc075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 13/24] fix: reparse documents replaced by an older file

A document replaced by one with an earlier modification time (e.g. restored
from a backup or moved into place) kept being served from the cache.
---
 load/processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/load/processor.go b/load/processor.go
index fa6f3e7..f2ebd10 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -76,7 +76,7 @@ func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, p
 	})
 
 	var node ast.Node
-	if found && !modTime.After(parsed.ModTime) {
+	if found && modTime.Equal(parsed.ModTime) {
 		log.Debug("already parsed section")
 		node = parsed.Node
 	} else {
-- 
2.43.0


From 491a6198ce911820f7f5b8570ed60142a8c9efa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 14/24] fix: fall back to page.tmpl for styled sections in text
 output

As documented, and as the HTML engine does, (Style)-page.tmpl is only used if
it exists.
---
 render/text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/text.go b/render/text.go
index 04a1f0c..cafcc07 100644
--- a/render/text.go
+++ b/render/text.go
@@ -161,7 +161,7 @@ func (engine *TextEngine) URL(tag booklit.Tag) string {
 // it will be used instead.
 func (engine *TextEngine) RenderSection(out io.Writer, con *booklit.Section) error {
 	tmpl := "page"
-	if con.Style != "" {
+	if con.Style != "" && engine.tmpl.Lookup(con.Style+"-page.tmpl") != nil {
 		tmpl = con.Style + "-page"
 	}
 
-- 
2.43.0


From ed09aa22bd016d8402864228777021e292ad8d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 15/24] fix: skip nil section partials when collecting targets

---
 stages/collect.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stages/collect.go b/stages/collect.go
index 05708e2..0dbdb38 100644
--- a/stages/collect.go
+++ b/stages/collect.go
@@ -68,6 +68,10 @@ func (collect *Collect) VisitSection(con *booklit.Section) error {
 	}
 
 	for _, p := range con.Partials {
+		if p == nil {
+			continue
+		}
+
 		err = p.Visit(collect)
 		if err != nil {
 			return err
-- 
2.43.0


From 79dd43b044bc4043c66e0e69562c421e48eb15a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 16/24] fix: collect targets in partials in a stable order

---
 stages/collect.go | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/stages/collect.go b/stages/collect.go
index 0dbdb38..83940cf 100644
--- a/stages/collect.go
+++ b/stages/collect.go
@@ -1,6 +1,10 @@
 package stages
 
-import "github.com/vito/booklit"
+import (
+	"sort"
+
+	"github.com/vito/booklit"
+)
 
 // Collect is a booklit.Visitor that collects all tag targets and sets them on
 // the section.
@@ -67,15 +71,9 @@ func (collect *Collect) VisitSection(con *booklit.Section) error {
 		return err
 	}
 
-	for _, p := range con.Partials {
-		if p == nil {
-			continue
-		}
-
-		err = p.Visit(collect)
-		if err != nil {
-			return err
-		}
+	err = collect.visitPartials(con.Partials)
+	if err != nil {
+		return err
 	}
 
 	for _, child := range con.Children {
@@ -104,12 +102,26 @@ func (collect *Collect) VisitStyled(con booklit.Styled) error {
 		return err
 	}
 
-	for _, v := range con.Partials {
-		if v == nil {
+	return collect.visitPartials(con.Partials)
+}
+
+// visitPartials visits each partial in order of name, so that tags are always
+// collected in the same order.
+func (collect *Collect) visitPartials(partials booklit.Partials) error {
+	names := []string{}
+	for name := range partials {
+		names = append(names, name)
+	}
+
+	sort.Strings(names)
+
+	for _, name := range names {
+		partial := partials[name]
+		if partial == nil {
 			continue
 		}
 
-		err := v.Visit(collect)
+		err := partial.Visit(collect)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 60f68c4549f7875caf935e0d03f6f0e162df7ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 17/24] fix: collect targets within the content of a reference

---
 stages/collect.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stages/collect.go b/stages/collect.go
index 83940cf..338e83c 100644
--- a/stages/collect.go
+++ b/stages/collect.go
@@ -53,9 +53,13 @@ func (collect *Collect) VisitPreformatted(con booklit.Preformatted) error {
 	return nil
 }
 
-// VisitReference does nothing.
+// VisitReference visits the reference's content, if any.
 func (collect *Collect) VisitReference(con *booklit.Reference) error {
-	return nil
+	if con.Content == nil {
+		return nil
+	}
+
+	return con.Content.Visit(collect)
 }
 
 // VisitSection visits the section's title, body, and partials, followed by
-- 
2.43.0


From bfb37bfed06ab105e1041e245dd4d8a4653b2802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 18/24] fix: render nothing for lazy content which yields no
 content

---
 render/html.go | 4 ++++
 render/text.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/render/html.go b/render/html.go
index 8c83a19..42d33d2 100644
--- a/render/html.go
+++ b/render/html.go
@@ -290,6 +290,10 @@ func (engine *HTMLEngine) VisitLazy(con *booklit.Lazy) error {
 		return fmt.Errorf("lazy render: %w", err)
 	}
 
+	if content == nil {
+		content = booklit.Empty
+	}
+
 	return content.Visit(engine)
 }
 
diff --git a/render/text.go b/render/text.go
index cafcc07..c661a0d 100644
--- a/render/text.go
+++ b/render/text.go
@@ -274,6 +274,10 @@ func (engine *TextEngine) VisitLazy(con *booklit.Lazy) error {
 		return fmt.Errorf("lazy render: %w", err)
 	}
 
+	if content == nil {
+		content = booklit.Empty
+	}
+
 	return content.Visit(engine)
 }
 
-- 
2.43.0


From 00391fdc7c6644425ac09ed970340272365afb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 19/24] fix: escape the error in the fallback error page

---
 errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors.go b/errors.go
index 1dd3bb0..63c95f6 100644
--- a/errors.go
+++ b/errors.go
@@ -73,7 +73,7 @@ func init() {
 func ErrorResponse(w http.ResponseWriter, err error) {
 	renderErr := errorTmpl.Lookup("page.tmpl").Execute(w, err)
 	if renderErr != nil {
-		fmt.Fprintf(w, "failed to render error page: %s", renderErr)
+		fmt.Fprintf(w, "failed to render error page: %s", template.HTMLEscapeString(renderErr.Error()))
 	}
 }
 
-- 
2.43.0


From 19b831e5dbb4e0820e79135ebd000d790331c625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 20/24] fix: reload templates which failed to parse, were
 replaced, or were removed

---
 render/html.go | 14 +++++++++++---
 render/text.go | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/render/html.go b/render/html.go
index 42d33d2..58c02fe 100644
--- a/render/html.go
+++ b/render/html.go
@@ -112,7 +112,9 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 		return err
 	}
 
-	var shouldReload bool
+	shouldReload := engine.tmplModTimes == nil || len(templates) != len(engine.tmplModTimes)
+
+	modTimes := map[string]time.Time{}
 	for _, path := range templates {
 		info, err := os.Stat(path)
 		if err != nil {
@@ -122,11 +124,11 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 		modTime := info.ModTime()
 
 		lastModTime, found := engine.tmplModTimes[path]
-		if !found || modTime.After(lastModTime) {
+		if !found || !modTime.Equal(lastModTime) {
 			shouldReload = true
 		}
 
-		engine.tmplModTimes[path] = modTime
+		modTimes[path] = modTime
 	}
 
 	if !shouldReload {
@@ -135,6 +137,10 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 
 	engine.resetTmpl()
 
+	// forget the loaded templates until they have all been parsed, so that they
+	// are loaded again if any of them fail to parse
+	engine.tmplModTimes = nil
+
 	for _, path := range templates {
 		content, err := ioutil.ReadFile(path)
 		if err != nil {
@@ -149,6 +155,8 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 		}
 	}
 
+	engine.tmplModTimes = modTimes
+
 	return nil
 }
 
diff --git a/render/text.go b/render/text.go
index c661a0d..b4ff50c 100644
--- a/render/text.go
+++ b/render/text.go
@@ -104,7 +104,9 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 		return err
 	}
 
-	var shouldReload bool
+	shouldReload := engine.tmplModTimes == nil || len(templates) != len(engine.tmplModTimes)
+
+	modTimes := map[string]time.Time{}
 	for _, path := range templates {
 		info, err := os.Stat(path)
 		if err != nil {
@@ -114,11 +116,11 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 		modTime := info.ModTime()
 
 		lastModTime, found := engine.tmplModTimes[path]
-		if !found || modTime.After(lastModTime) {
+		if !found || !modTime.Equal(lastModTime) {
 			shouldReload = true
 		}
 
-		engine.tmplModTimes[path] = modTime
+		modTimes[path] = modTime
 	}
 
 	if !shouldReload {
@@ -127,6 +129,10 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 
 	engine.resetTmpl()
 
+	// forget the loaded templates until they have all been parsed, so that they
+	// are loaded again if any of them fail to parse
+	engine.tmplModTimes = nil
+
 	for _, path := range templates {
 		content, err := ioutil.ReadFile(path)
 		if err != nil {
@@ -141,6 +147,8 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 		}
 	}
 
+	engine.tmplModTimes = modTimes
+
 	return nil
 }
 
-- 
2.43.0


From 9390ac1c2b9f5ea9479032d88b6f5d1a688c1a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 21/24] fix: annotate lines by character and don't crash on
 line breaks

---
 errors.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/errors.go b/errors.go
index 63c95f6..2e8400e 100644
--- a/errors.go
+++ b/errors.go
@@ -382,11 +382,17 @@ func (loc ErrorLocation) AnnotatedHTML(out io.Writer) error {
 		data.EOF = true
 	}
 
+	// columns count characters, not bytes
+	chars := []rune(line)
+
+	// the column is 0 when the location is the linebreak itself
 	offset := loc.NodeLocation.Col - 1
-	if len(line) >= offset+loc.Length {
-		data.Prefix = line[0:offset]
-		data.Annotated = line[offset : offset+loc.Length]
-		data.Suffix = line[offset+loc.Length:]
+	if offset >= 0 && len(chars) >= offset+loc.Length {
+		data.Prefix = string(chars[:offset])
+		data.Annotated = string(chars[offset : offset+loc.Length])
+		data.Suffix = string(chars[offset+loc.Length:])
+	} else {
+		data.Prefix = line
 	}
 
 	return errorTmpl.Lookup("annotated-line.tmpl").Execute(out, data)
-- 
2.43.0


From b727e0400d895fd28efd61c71074752e60363149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 22/24] fix: annotate lines longer than the read buffer

---
 errors.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/errors.go b/errors.go
index 2e8400e..ef27d76 100644
--- a/errors.go
+++ b/errors.go
@@ -409,20 +409,16 @@ func (loc ErrorLocation) lineInQuestion() (string, error) {
 	buf := bufio.NewReader(file)
 
 	for i := 0; i < loc.NodeLocation.Line-1; i++ {
-		_, _, err := buf.ReadLine()
+		_, err := buf.ReadString('\n')
 		if err != nil {
 			return "", err
 		}
 	}
 
-	lineInQuestion, _, err := buf.ReadLine()
-	if err != nil {
-		if err == io.EOF {
-			return "", nil
-		}
-
+	lineInQuestion, err := buf.ReadString('\n')
+	if err != nil && err != io.EOF {
 		return "", err
 	}
 
-	return string(lineInQuestion), nil
+	return strings.TrimRight(lineInQuestion, "\r\n"), nil
 }
-- 
2.43.0


From dc4d19cfef5a394d06fa07e640a827075ff276d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:33 +0000
Subject: [PATCH 23/24] fix: dedent nested preformatted blocks separately

---
 ast/booklit.peg    |  41 ++--
 ast/booklit.peg.go | 469 +++++++++++++++++++++++----------------------
 2 files changed, 260 insertions(+), 250 deletions(-)

diff --git a/ast/booklit.peg b/ast/booklit.peg
index dc0c4dc..4b6eae7 100644
--- a/ast/booklit.peg
+++ b/ast/booklit.peg
@@ -29,6 +29,26 @@
 
     return nodes
   }
+
+  // dedent removes the indentation of the first line from every line. Each line
+  // starts with its indentation.
+  func dedent(lines []Sequence) []Sequence {
+    dedented := []Sequence{}
+    for _, line := range lines {
+      skip := len(lines[0][0].(String))
+
+      indent := line[0].(String)
+      if skip <= len(indent) {
+        indent = indent[skip:]
+      } else {
+        indent = ""
+      }
+
+      dedented = append(dedented, append(Sequence{indent}, line[1:]...))
+    }
+
+    return dedented
+  }
 }
 
 Booklit <- node:Paragraphs !. {
@@ -87,8 +107,7 @@ PreformattedBlockLine <- indent:Indent words:Word* LineBreak {
 }
 
 PreformattedBlock <- LineBreak lines:PreformattedBlockLine* [ \t]* {
-  delete(c.globalStore, "indent-skip")
-  return Preformatted(ifaceSequences(lines)), nil
+  return Preformatted(dedent(ifaceSequences(lines))), nil
 }
 
 VerbatimLine <- words:VerbatimString* {
@@ -102,8 +121,7 @@ VerbatimBlockLine <- indent:Indent words:VerbatimString* LineBreak {
 }
 
 VerbatimBlock <- LineBreak lines:VerbatimBlockLine* [ \t]* {
-  delete(c.globalStore, "indent-skip")
-  return Preformatted(ifaceSequences(lines)), nil
+  return Preformatted(dedent(ifaceSequences(lines))), nil
 }
 
 Invoke <- '\\' name:([a-z-]+) args:(Argument*) {
@@ -144,18 +162,5 @@ ParaArg <- paras:Paragraphs [ \t]* {
 Argument <- VerbatimArg / PreformattedArg / Arg
 
 Indent <- [ \t]* {
-  skip := len(c.text)
-
-  i, found := c.globalStore["indent-skip"]
-  if found {
-    skip = i.(int)
-  } else {
-    c.globalStore["indent-skip"] = skip
-  }
-
-  if skip <= len(c.text) {
-    return string(c.text[skip:]), nil
-  } else {
-    return "", nil
-  }
+  return string(c.text), nil
 }
diff --git a/ast/booklit.peg.go b/ast/booklit.peg.go
index d2bd5be..6517eea 100644
--- a/ast/booklit.peg.go
+++ b/ast/booklit.peg.go
@@ -45,29 +45,49 @@ func ifaceNodes(val interface{}) []Node {
 	return nodes
 }
 
+// dedent removes the indentation of the first line from every line. Each line
+// starts with its indentation.
+func dedent(lines []Sequence) []Sequence {
+	dedented := []Sequence{}
+	for _, line := range lines {
+		skip := len(lines[0][0].(String))
+
+		indent := line[0].(String)
+		if skip <= len(indent) {
+			indent = indent[skip:]
+		} else {
+			indent = ""
+		}
+
+		dedented = append(dedented, append(Sequence{indent}, line[1:]...))
+	}
+
+	return dedented
+}
+
 var g = &grammar{
 	rules: []*rule{
 		{
 			name: "Booklit",
-			pos:  position{line: 34, col: 1, offset: 581},
+			pos:  position{line: 54, col: 1, offset: 1088},
 			expr: &actionExpr{
-				pos: position{line: 34, col: 12, offset: 592},
+				pos: position{line: 54, col: 12, offset: 1099},
 				run: (*parser).callonBooklit1,
 				expr: &seqExpr{
-					pos: position{line: 34, col: 12, offset: 592},
+					pos: position{line: 54, col: 12, offset: 1099},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 34, col: 12, offset: 592},
+							pos:   position{line: 54, col: 12, offset: 1099},
 							label: "node",
 							expr: &ruleRefExpr{
-								pos:  position{line: 34, col: 17, offset: 597},
+								pos:  position{line: 54, col: 17, offset: 1104},
 								name: "Paragraphs",
 							},
 						},
 						&notExpr{
-							pos: position{line: 34, col: 28, offset: 608},
+							pos: position{line: 54, col: 28, offset: 1115},
 							expr: &anyMatcher{
-								line: 34, col: 29, offset: 609,
+								line: 54, col: 29, offset: 1116,
 							},
 						},
 					},
@@ -76,43 +96,43 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraphs",
-			pos:  position{line: 38, col: 1, offset: 635},
+			pos:  position{line: 58, col: 1, offset: 1142},
 			expr: &actionExpr{
-				pos: position{line: 38, col: 15, offset: 649},
+				pos: position{line: 58, col: 15, offset: 1156},
 				run: (*parser).callonParagraphs1,
 				expr: &seqExpr{
-					pos: position{line: 38, col: 15, offset: 649},
+					pos: position{line: 58, col: 15, offset: 1156},
 					exprs: []interface{}{
 						&zeroOrMoreExpr{
-							pos: position{line: 38, col: 15, offset: 649},
+							pos: position{line: 58, col: 15, offset: 1156},
 							expr: &ruleRefExpr{
-								pos:  position{line: 38, col: 15, offset: 649},
+								pos:  position{line: 58, col: 15, offset: 1156},
 								name: "CommentSpacing",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 38, col: 31, offset: 665},
+							pos:   position{line: 58, col: 31, offset: 1172},
 							label: "paragraphs",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 38, col: 42, offset: 676},
+								pos: position{line: 58, col: 42, offset: 1183},
 								expr: &actionExpr{
-									pos: position{line: 38, col: 43, offset: 677},
+									pos: position{line: 58, col: 43, offset: 1184},
 									run: (*parser).callonParagraphs7,
 									expr: &seqExpr{
-										pos: position{line: 38, col: 43, offset: 677},
+										pos: position{line: 58, col: 43, offset: 1184},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 38, col: 43, offset: 677},
+												pos:   position{line: 58, col: 43, offset: 1184},
 												label: "p",
 												expr: &ruleRefExpr{
-													pos:  position{line: 38, col: 45, offset: 679},
+													pos:  position{line: 58, col: 45, offset: 1186},
 													name: "Paragraph",
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 38, col: 55, offset: 689},
+												pos: position{line: 58, col: 55, offset: 1196},
 												expr: &ruleRefExpr{
-													pos:  position{line: 38, col: 55, offset: 689},
+													pos:  position{line: 58, col: 55, offset: 1196},
 													name: "CommentSpacing",
 												},
 											},
@@ -127,18 +147,18 @@ var g = &grammar{
 		},
 		{
 			name: "LineBreak",
-			pos:  position{line: 42, col: 1, offset: 777},
+			pos:  position{line: 62, col: 1, offset: 1284},
 			expr: &choiceExpr{
-				pos: position{line: 42, col: 14, offset: 790},
+				pos: position{line: 62, col: 14, offset: 1297},
 				alternatives: []interface{}{
 					&litMatcher{
-						pos:        position{line: 42, col: 14, offset: 790},
+						pos:        position{line: 62, col: 14, offset: 1297},
 						val:        "\n",
 						ignoreCase: false,
 						want:       "\"\\n\"",
 					},
 					&litMatcher{
-						pos:        position{line: 42, col: 21, offset: 797},
+						pos:        position{line: 62, col: 21, offset: 1304},
 						val:        "\r\n",
 						ignoreCase: false,
 						want:       "\"\\r\\n\"",
@@ -148,16 +168,16 @@ var g = &grammar{
 		},
 		{
 			name: "CommentSpacing",
-			pos:  position{line: 44, col: 1, offset: 805},
+			pos:  position{line: 64, col: 1, offset: 1312},
 			expr: &choiceExpr{
-				pos: position{line: 44, col: 19, offset: 823},
+				pos: position{line: 64, col: 19, offset: 1330},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 44, col: 19, offset: 823},
+						pos:  position{line: 64, col: 19, offset: 1330},
 						name: "LineBreak",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 44, col: 31, offset: 835},
+						pos:  position{line: 64, col: 31, offset: 1342},
 						name: "Comment",
 					},
 				},
@@ -165,33 +185,33 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 46, col: 1, offset: 844},
+			pos:  position{line: 66, col: 1, offset: 1351},
 			expr: &actionExpr{
-				pos: position{line: 46, col: 14, offset: 857},
+				pos: position{line: 66, col: 14, offset: 1364},
 				run: (*parser).callonParagraph1,
 				expr: &labeledExpr{
-					pos:   position{line: 46, col: 14, offset: 857},
+					pos:   position{line: 66, col: 14, offset: 1364},
 					label: "lines",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 46, col: 20, offset: 863},
+						pos: position{line: 66, col: 20, offset: 1370},
 						expr: &actionExpr{
-							pos: position{line: 46, col: 21, offset: 864},
+							pos: position{line: 66, col: 21, offset: 1371},
 							run: (*parser).callonParagraph4,
 							expr: &seqExpr{
-								pos: position{line: 46, col: 21, offset: 864},
+								pos: position{line: 66, col: 21, offset: 1371},
 								exprs: []interface{}{
 									&labeledExpr{
-										pos:   position{line: 46, col: 21, offset: 864},
+										pos:   position{line: 66, col: 21, offset: 1371},
 										label: "l",
 										expr: &ruleRefExpr{
-											pos:  position{line: 46, col: 23, offset: 866},
+											pos:  position{line: 66, col: 23, offset: 1373},
 											name: "Line",
 										},
 									},
 									&zeroOrOneExpr{
-										pos: position{line: 46, col: 28, offset: 871},
+										pos: position{line: 66, col: 28, offset: 1378},
 										expr: &ruleRefExpr{
-											pos:  position{line: 46, col: 28, offset: 871},
+											pos:  position{line: 66, col: 28, offset: 1378},
 											name: "LineBreak",
 										},
 									},
@@ -204,17 +224,17 @@ var g = &grammar{
 		},
 		{
 			name: "Line",
-			pos:  position{line: 50, col: 1, offset: 954},
+			pos:  position{line: 70, col: 1, offset: 1461},
 			expr: &actionExpr{
-				pos: position{line: 50, col: 9, offset: 962},
+				pos: position{line: 70, col: 9, offset: 1469},
 				run: (*parser).callonLine1,
 				expr: &seqExpr{
-					pos: position{line: 50, col: 9, offset: 962},
+					pos: position{line: 70, col: 9, offset: 1469},
 					exprs: []interface{}{
 						&zeroOrMoreExpr{
-							pos: position{line: 50, col: 9, offset: 962},
+							pos: position{line: 70, col: 9, offset: 1469},
 							expr: &charClassMatcher{
-								pos:        position{line: 50, col: 9, offset: 962},
+								pos:        position{line: 70, col: 9, offset: 1469},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -222,12 +242,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 50, col: 16, offset: 969},
+							pos:   position{line: 70, col: 16, offset: 1476},
 							label: "words",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 50, col: 22, offset: 975},
+								pos: position{line: 70, col: 22, offset: 1482},
 								expr: &ruleRefExpr{
-									pos:  position{line: 50, col: 23, offset: 976},
+									pos:  position{line: 70, col: 23, offset: 1483},
 									name: "Word",
 								},
 							},
@@ -238,45 +258,45 @@ var g = &grammar{
 		},
 		{
 			name: "Word",
-			pos:  position{line: 54, col: 1, offset: 1030},
+			pos:  position{line: 74, col: 1, offset: 1537},
 			expr: &actionExpr{
-				pos: position{line: 54, col: 9, offset: 1038},
+				pos: position{line: 74, col: 9, offset: 1545},
 				run: (*parser).callonWord1,
 				expr: &seqExpr{
-					pos: position{line: 54, col: 9, offset: 1038},
+					pos: position{line: 74, col: 9, offset: 1545},
 					exprs: []interface{}{
 						&zeroOrOneExpr{
-							pos: position{line: 54, col: 9, offset: 1038},
+							pos: position{line: 74, col: 9, offset: 1545},
 							expr: &ruleRefExpr{
-								pos:  position{line: 54, col: 9, offset: 1038},
+								pos:  position{line: 74, col: 9, offset: 1545},
 								name: "Comment",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 54, col: 18, offset: 1047},
+							pos:   position{line: 74, col: 18, offset: 1554},
 							label: "val",
 							expr: &choiceExpr{
-								pos: position{line: 54, col: 23, offset: 1052},
+								pos: position{line: 74, col: 23, offset: 1559},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 54, col: 23, offset: 1052},
+										pos:  position{line: 74, col: 23, offset: 1559},
 										name: "String",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 54, col: 32, offset: 1061},
+										pos:  position{line: 74, col: 32, offset: 1568},
 										name: "Invoke",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 54, col: 41, offset: 1070},
+										pos:  position{line: 74, col: 41, offset: 1577},
 										name: "Interpolated",
 									},
 								},
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 54, col: 55, offset: 1084},
+							pos: position{line: 74, col: 55, offset: 1591},
 							expr: &ruleRefExpr{
-								pos:  position{line: 54, col: 55, offset: 1084},
+								pos:  position{line: 74, col: 55, offset: 1591},
 								name: "Comment",
 							},
 						},
@@ -286,14 +306,14 @@ var g = &grammar{
 		},
 		{
 			name: "Comment",
-			pos:  position{line: 58, col: 1, offset: 1116},
+			pos:  position{line: 78, col: 1, offset: 1623},
 			expr: &seqExpr{
-				pos: position{line: 58, col: 12, offset: 1127},
+				pos: position{line: 78, col: 12, offset: 1634},
 				exprs: []interface{}{
 					&zeroOrMoreExpr{
-						pos: position{line: 58, col: 12, offset: 1127},
+						pos: position{line: 78, col: 12, offset: 1634},
 						expr: &charClassMatcher{
-							pos:        position{line: 58, col: 12, offset: 1127},
+							pos:        position{line: 78, col: 12, offset: 1634},
 							val:        "[ \\t]",
 							chars:      []rune{' ', '\t'},
 							ignoreCase: false,
@@ -301,34 +321,34 @@ var g = &grammar{
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 58, col: 19, offset: 1134},
+						pos:        position{line: 78, col: 19, offset: 1641},
 						val:        "{-",
 						ignoreCase: false,
 						want:       "\"{-\"",
 					},
 					&zeroOrMoreExpr{
-						pos: position{line: 58, col: 24, offset: 1139},
+						pos: position{line: 78, col: 24, offset: 1646},
 						expr: &choiceExpr{
-							pos: position{line: 58, col: 25, offset: 1140},
+							pos: position{line: 78, col: 25, offset: 1647},
 							alternatives: []interface{}{
 								&ruleRefExpr{
-									pos:  position{line: 58, col: 25, offset: 1140},
+									pos:  position{line: 78, col: 25, offset: 1647},
 									name: "Comment",
 								},
 								&seqExpr{
-									pos: position{line: 58, col: 35, offset: 1150},
+									pos: position{line: 78, col: 35, offset: 1657},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 58, col: 35, offset: 1150},
+											pos: position{line: 78, col: 35, offset: 1657},
 											expr: &litMatcher{
-												pos:        position{line: 58, col: 36, offset: 1151},
+												pos:        position{line: 78, col: 36, offset: 1658},
 												val:        "-}",
 												ignoreCase: false,
 												want:       "\"-}\"",
 											},
 										},
 										&anyMatcher{
-											line: 58, col: 41, offset: 1156,
+											line: 78, col: 41, offset: 1663,
 										},
 									},
 								},
@@ -336,7 +356,7 @@ var g = &grammar{
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 58, col: 45, offset: 1160},
+						pos:        position{line: 78, col: 45, offset: 1667},
 						val:        "-}",
 						ignoreCase: false,
 						want:       "\"-}\"",
@@ -346,32 +366,32 @@ var g = &grammar{
 		},
 		{
 			name: "Interpolated",
-			pos:  position{line: 60, col: 1, offset: 1166},
+			pos:  position{line: 80, col: 1, offset: 1673},
 			expr: &actionExpr{
-				pos: position{line: 60, col: 17, offset: 1182},
+				pos: position{line: 80, col: 17, offset: 1689},
 				run: (*parser).callonInterpolated1,
 				expr: &seqExpr{
-					pos: position{line: 60, col: 17, offset: 1182},
+					pos: position{line: 80, col: 17, offset: 1689},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 60, col: 17, offset: 1182},
+							pos:        position{line: 80, col: 17, offset: 1689},
 							val:        "{",
 							ignoreCase: false,
 							want:       "\"{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 60, col: 21, offset: 1186},
+							pos:   position{line: 80, col: 21, offset: 1693},
 							label: "word",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 60, col: 26, offset: 1191},
+								pos: position{line: 80, col: 26, offset: 1698},
 								expr: &ruleRefExpr{
-									pos:  position{line: 60, col: 26, offset: 1191},
+									pos:  position{line: 80, col: 26, offset: 1698},
 									name: "Word",
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 60, col: 32, offset: 1197},
+							pos:        position{line: 80, col: 32, offset: 1704},
 							val:        "}",
 							ignoreCase: false,
 							want:       "\"}\"",
@@ -382,35 +402,35 @@ var g = &grammar{
 		},
 		{
 			name: "WrappedLine",
-			pos:  position{line: 68, col: 1, offset: 1288},
+			pos:  position{line: 88, col: 1, offset: 1795},
 			expr: &actionExpr{
-				pos: position{line: 68, col: 16, offset: 1303},
+				pos: position{line: 88, col: 16, offset: 1810},
 				run: (*parser).callonWrappedLine1,
 				expr: &seqExpr{
-					pos: position{line: 68, col: 16, offset: 1303},
+					pos: position{line: 88, col: 16, offset: 1810},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 68, col: 16, offset: 1303},
+							pos:   position{line: 88, col: 16, offset: 1810},
 							label: "firstWord",
 							expr: &ruleRefExpr{
-								pos:  position{line: 68, col: 26, offset: 1313},
+								pos:  position{line: 88, col: 26, offset: 1820},
 								name: "Word",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 68, col: 31, offset: 1318},
+							pos:   position{line: 88, col: 31, offset: 1825},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 68, col: 37, offset: 1324},
+								pos: position{line: 88, col: 37, offset: 1831},
 								expr: &choiceExpr{
-									pos: position{line: 68, col: 38, offset: 1325},
+									pos: position{line: 88, col: 38, offset: 1832},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 68, col: 38, offset: 1325},
+											pos:  position{line: 88, col: 38, offset: 1832},
 											name: "Word",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 68, col: 45, offset: 1332},
+											pos:  position{line: 88, col: 45, offset: 1839},
 											name: "Split",
 										},
 									},
@@ -423,21 +443,21 @@ var g = &grammar{
 		},
 		{
 			name: "Split",
-			pos:  position{line: 73, col: 1, offset: 1463},
+			pos:  position{line: 93, col: 1, offset: 1970},
 			expr: &actionExpr{
-				pos: position{line: 73, col: 10, offset: 1472},
+				pos: position{line: 93, col: 10, offset: 1979},
 				run: (*parser).callonSplit1,
 				expr: &seqExpr{
-					pos: position{line: 73, col: 10, offset: 1472},
+					pos: position{line: 93, col: 10, offset: 1979},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 73, col: 10, offset: 1472},
+							pos:  position{line: 93, col: 10, offset: 1979},
 							name: "LineBreak",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 73, col: 20, offset: 1482},
+							pos: position{line: 93, col: 20, offset: 1989},
 							expr: &charClassMatcher{
-								pos:        position{line: 73, col: 20, offset: 1482},
+								pos:        position{line: 93, col: 20, offset: 1989},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -450,20 +470,20 @@ var g = &grammar{
 		},
 		{
 			name: "String",
-			pos:  position{line: 75, col: 1, offset: 1518},
+			pos:  position{line: 95, col: 1, offset: 2025},
 			expr: &choiceExpr{
-				pos: position{line: 75, col: 11, offset: 1528},
+				pos: position{line: 95, col: 11, offset: 2035},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 75, col: 11, offset: 1528},
+						pos: position{line: 95, col: 11, offset: 2035},
 						run: (*parser).callonString2,
 						expr: &labeledExpr{
-							pos:   position{line: 75, col: 11, offset: 1528},
+							pos:   position{line: 95, col: 11, offset: 2035},
 							label: "str",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 75, col: 15, offset: 1532},
+								pos: position{line: 95, col: 15, offset: 2039},
 								expr: &charClassMatcher{
-									pos:        position{line: 75, col: 15, offset: 1532},
+									pos:        position{line: 95, col: 15, offset: 2039},
 									val:        "[^\\\\{}\\r\\n]",
 									chars:      []rune{'\\', '{', '}', '\r', '\n'},
 									ignoreCase: false,
@@ -473,19 +493,19 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 75, col: 61, offset: 1578},
+						pos: position{line: 95, col: 61, offset: 2085},
 						run: (*parser).callonString6,
 						expr: &seqExpr{
-							pos: position{line: 75, col: 61, offset: 1578},
+							pos: position{line: 95, col: 61, offset: 2085},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 75, col: 61, offset: 1578},
+									pos:        position{line: 95, col: 61, offset: 2085},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&charClassMatcher{
-									pos:        position{line: 75, col: 66, offset: 1583},
+									pos:        position{line: 95, col: 66, offset: 2090},
 									val:        "[\\\\{}]",
 									chars:      []rune{'\\', '{', '}'},
 									ignoreCase: false,
@@ -499,20 +519,20 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimString",
-			pos:  position{line: 77, col: 1, offset: 1626},
+			pos:  position{line: 97, col: 1, offset: 2133},
 			expr: &choiceExpr{
-				pos: position{line: 77, col: 19, offset: 1644},
+				pos: position{line: 97, col: 19, offset: 2151},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 77, col: 19, offset: 1644},
+						pos: position{line: 97, col: 19, offset: 2151},
 						run: (*parser).callonVerbatimString2,
 						expr: &labeledExpr{
-							pos:   position{line: 77, col: 19, offset: 1644},
+							pos:   position{line: 97, col: 19, offset: 2151},
 							label: "str",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 77, col: 23, offset: 1648},
+								pos: position{line: 97, col: 23, offset: 2155},
 								expr: &charClassMatcher{
-									pos:        position{line: 77, col: 23, offset: 1648},
+									pos:        position{line: 97, col: 23, offset: 2155},
 									val:        "[^\\r\\n}]",
 									chars:      []rune{'\r', '\n', '}'},
 									ignoreCase: false,
@@ -522,21 +542,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 79, col: 5, offset: 1693},
+						pos: position{line: 99, col: 5, offset: 2200},
 						run: (*parser).callonVerbatimString6,
 						expr: &seqExpr{
-							pos: position{line: 79, col: 5, offset: 1693},
+							pos: position{line: 99, col: 5, offset: 2200},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 79, col: 5, offset: 1693},
+									pos:        position{line: 99, col: 5, offset: 2200},
 									val:        "}",
 									ignoreCase: false,
 									want:       "\"}\"",
 								},
 								&notExpr{
-									pos: position{line: 79, col: 9, offset: 1697},
+									pos: position{line: 99, col: 9, offset: 2204},
 									expr: &litMatcher{
-										pos:        position{line: 79, col: 10, offset: 1698},
+										pos:        position{line: 99, col: 10, offset: 2205},
 										val:        "}}",
 										ignoreCase: false,
 										want:       "\"}}\"",
@@ -550,34 +570,34 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedBlockLine",
-			pos:  position{line: 83, col: 1, offset: 1737},
+			pos:  position{line: 103, col: 1, offset: 2244},
 			expr: &actionExpr{
-				pos: position{line: 83, col: 26, offset: 1762},
+				pos: position{line: 103, col: 26, offset: 2269},
 				run: (*parser).callonPreformattedBlockLine1,
 				expr: &seqExpr{
-					pos: position{line: 83, col: 26, offset: 1762},
+					pos: position{line: 103, col: 26, offset: 2269},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 83, col: 26, offset: 1762},
+							pos:   position{line: 103, col: 26, offset: 2269},
 							label: "indent",
 							expr: &ruleRefExpr{
-								pos:  position{line: 83, col: 33, offset: 1769},
+								pos:  position{line: 103, col: 33, offset: 2276},
 								name: "Indent",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 83, col: 40, offset: 1776},
+							pos:   position{line: 103, col: 40, offset: 2283},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 83, col: 46, offset: 1782},
+								pos: position{line: 103, col: 46, offset: 2289},
 								expr: &ruleRefExpr{
-									pos:  position{line: 83, col: 46, offset: 1782},
+									pos:  position{line: 103, col: 46, offset: 2289},
 									name: "Word",
 								},
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 83, col: 52, offset: 1788},
+							pos:  position{line: 103, col: 52, offset: 2295},
 							name: "LineBreak",
 						},
 					},
@@ -586,32 +606,32 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedBlock",
-			pos:  position{line: 89, col: 1, offset: 1918},
+			pos:  position{line: 109, col: 1, offset: 2425},
 			expr: &actionExpr{
-				pos: position{line: 89, col: 22, offset: 1939},
+				pos: position{line: 109, col: 22, offset: 2446},
 				run: (*parser).callonPreformattedBlock1,
 				expr: &seqExpr{
-					pos: position{line: 89, col: 22, offset: 1939},
+					pos: position{line: 109, col: 22, offset: 2446},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 89, col: 22, offset: 1939},
+							pos:  position{line: 109, col: 22, offset: 2446},
 							name: "LineBreak",
 						},
 						&labeledExpr{
-							pos:   position{line: 89, col: 32, offset: 1949},
+							pos:   position{line: 109, col: 32, offset: 2456},
 							label: "lines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 89, col: 38, offset: 1955},
+								pos: position{line: 109, col: 38, offset: 2462},
 								expr: &ruleRefExpr{
-									pos:  position{line: 89, col: 38, offset: 1955},
+									pos:  position{line: 109, col: 38, offset: 2462},
 									name: "PreformattedBlockLine",
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 89, col: 61, offset: 1978},
+							pos: position{line: 109, col: 61, offset: 2485},
 							expr: &charClassMatcher{
-								pos:        position{line: 89, col: 61, offset: 1978},
+								pos:        position{line: 109, col: 61, offset: 2485},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -624,17 +644,17 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimLine",
-			pos:  position{line: 94, col: 1, offset: 2079},
+			pos:  position{line: 113, col: 1, offset: 2555},
 			expr: &actionExpr{
-				pos: position{line: 94, col: 17, offset: 2095},
+				pos: position{line: 113, col: 17, offset: 2571},
 				run: (*parser).callonVerbatimLine1,
 				expr: &labeledExpr{
-					pos:   position{line: 94, col: 17, offset: 2095},
+					pos:   position{line: 113, col: 17, offset: 2571},
 					label: "words",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 94, col: 23, offset: 2101},
+						pos: position{line: 113, col: 23, offset: 2577},
 						expr: &ruleRefExpr{
-							pos:  position{line: 94, col: 23, offset: 2101},
+							pos:  position{line: 113, col: 23, offset: 2577},
 							name: "VerbatimString",
 						},
 					},
@@ -643,34 +663,34 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlockLine",
-			pos:  position{line: 98, col: 1, offset: 2164},
+			pos:  position{line: 117, col: 1, offset: 2640},
 			expr: &actionExpr{
-				pos: position{line: 98, col: 22, offset: 2185},
+				pos: position{line: 117, col: 22, offset: 2661},
 				run: (*parser).callonVerbatimBlockLine1,
 				expr: &seqExpr{
-					pos: position{line: 98, col: 22, offset: 2185},
+					pos: position{line: 117, col: 22, offset: 2661},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 98, col: 22, offset: 2185},
+							pos:   position{line: 117, col: 22, offset: 2661},
 							label: "indent",
 							expr: &ruleRefExpr{
-								pos:  position{line: 98, col: 29, offset: 2192},
+								pos:  position{line: 117, col: 29, offset: 2668},
 								name: "Indent",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 98, col: 36, offset: 2199},
+							pos:   position{line: 117, col: 36, offset: 2675},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 98, col: 42, offset: 2205},
+								pos: position{line: 117, col: 42, offset: 2681},
 								expr: &ruleRefExpr{
-									pos:  position{line: 98, col: 42, offset: 2205},
+									pos:  position{line: 117, col: 42, offset: 2681},
 									name: "VerbatimString",
 								},
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 98, col: 58, offset: 2221},
+							pos:  position{line: 117, col: 58, offset: 2697},
 							name: "LineBreak",
 						},
 					},
@@ -679,32 +699,32 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlock",
-			pos:  position{line: 104, col: 1, offset: 2351},
+			pos:  position{line: 123, col: 1, offset: 2827},
 			expr: &actionExpr{
-				pos: position{line: 104, col: 18, offset: 2368},
+				pos: position{line: 123, col: 18, offset: 2844},
 				run: (*parser).callonVerbatimBlock1,
 				expr: &seqExpr{
-					pos: position{line: 104, col: 18, offset: 2368},
+					pos: position{line: 123, col: 18, offset: 2844},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 104, col: 18, offset: 2368},
+							pos:  position{line: 123, col: 18, offset: 2844},
 							name: "LineBreak",
 						},
 						&labeledExpr{
-							pos:   position{line: 104, col: 28, offset: 2378},
+							pos:   position{line: 123, col: 28, offset: 2854},
 							label: "lines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 104, col: 34, offset: 2384},
+								pos: position{line: 123, col: 34, offset: 2860},
 								expr: &ruleRefExpr{
-									pos:  position{line: 104, col: 34, offset: 2384},
+									pos:  position{line: 123, col: 34, offset: 2860},
 									name: "VerbatimBlockLine",
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 104, col: 53, offset: 2403},
+							pos: position{line: 123, col: 53, offset: 2879},
 							expr: &charClassMatcher{
-								pos:        position{line: 104, col: 53, offset: 2403},
+								pos:        position{line: 123, col: 53, offset: 2879},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -717,26 +737,26 @@ var g = &grammar{
 		},
 		{
 			name: "Invoke",
-			pos:  position{line: 109, col: 1, offset: 2504},
+			pos:  position{line: 127, col: 1, offset: 2949},
 			expr: &actionExpr{
-				pos: position{line: 109, col: 11, offset: 2514},
+				pos: position{line: 127, col: 11, offset: 2959},
 				run: (*parser).callonInvoke1,
 				expr: &seqExpr{
-					pos: position{line: 109, col: 11, offset: 2514},
+					pos: position{line: 127, col: 11, offset: 2959},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 109, col: 11, offset: 2514},
+							pos:        position{line: 127, col: 11, offset: 2959},
 							val:        "\\",
 							ignoreCase: false,
 							want:       "\"\\\\\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 109, col: 16, offset: 2519},
+							pos:   position{line: 127, col: 16, offset: 2964},
 							label: "name",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 109, col: 22, offset: 2525},
+								pos: position{line: 127, col: 22, offset: 2970},
 								expr: &charClassMatcher{
-									pos:        position{line: 109, col: 22, offset: 2525},
+									pos:        position{line: 127, col: 22, offset: 2970},
 									val:        "[a-z-]",
 									chars:      []rune{'-'},
 									ranges:     []rune{'a', 'z'},
@@ -746,12 +766,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 109, col: 31, offset: 2534},
+							pos:   position{line: 127, col: 31, offset: 2979},
 							label: "args",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 109, col: 37, offset: 2540},
+								pos: position{line: 127, col: 37, offset: 2985},
 								expr: &ruleRefExpr{
-									pos:  position{line: 109, col: 37, offset: 2540},
+									pos:  position{line: 127, col: 37, offset: 2985},
 									name: "Argument",
 								},
 							},
@@ -762,38 +782,38 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimArg",
-			pos:  position{line: 122, col: 1, offset: 2756},
+			pos:  position{line: 140, col: 1, offset: 3201},
 			expr: &actionExpr{
-				pos: position{line: 122, col: 16, offset: 2771},
+				pos: position{line: 140, col: 16, offset: 3216},
 				run: (*parser).callonVerbatimArg1,
 				expr: &seqExpr{
-					pos: position{line: 122, col: 16, offset: 2771},
+					pos: position{line: 140, col: 16, offset: 3216},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 122, col: 16, offset: 2771},
+							pos:        position{line: 140, col: 16, offset: 3216},
 							val:        "{{{",
 							ignoreCase: false,
 							want:       "\"{{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 122, col: 22, offset: 2777},
+							pos:   position{line: 140, col: 22, offset: 3222},
 							label: "node",
 							expr: &choiceExpr{
-								pos: position{line: 122, col: 28, offset: 2783},
+								pos: position{line: 140, col: 28, offset: 3228},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 122, col: 28, offset: 2783},
+										pos:  position{line: 140, col: 28, offset: 3228},
 										name: "VerbatimBlock",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 122, col: 44, offset: 2799},
+										pos:  position{line: 140, col: 44, offset: 3244},
 										name: "VerbatimLine",
 									},
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 122, col: 58, offset: 2813},
+							pos:        position{line: 140, col: 58, offset: 3258},
 							val:        "}}}",
 							ignoreCase: false,
 							want:       "\"}}}\"",
@@ -804,29 +824,29 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedArg",
-			pos:  position{line: 126, col: 1, offset: 2843},
+			pos:  position{line: 144, col: 1, offset: 3288},
 			expr: &actionExpr{
-				pos: position{line: 126, col: 20, offset: 2862},
+				pos: position{line: 144, col: 20, offset: 3307},
 				run: (*parser).callonPreformattedArg1,
 				expr: &seqExpr{
-					pos: position{line: 126, col: 20, offset: 2862},
+					pos: position{line: 144, col: 20, offset: 3307},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 126, col: 20, offset: 2862},
+							pos:        position{line: 144, col: 20, offset: 3307},
 							val:        "{{",
 							ignoreCase: false,
 							want:       "\"{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 126, col: 25, offset: 2867},
+							pos:   position{line: 144, col: 25, offset: 3312},
 							label: "node",
 							expr: &ruleRefExpr{
-								pos:  position{line: 126, col: 30, offset: 2872},
+								pos:  position{line: 144, col: 30, offset: 3317},
 								name: "PreformattedBlock",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 126, col: 48, offset: 2890},
+							pos:        position{line: 144, col: 48, offset: 3335},
 							val:        "}}",
 							ignoreCase: false,
 							want:       "\"}}\"",
@@ -837,14 +857,14 @@ var g = &grammar{
 		},
 		{
 			name: "EmptyArg",
-			pos:  position{line: 130, col: 1, offset: 2919},
+			pos:  position{line: 148, col: 1, offset: 3364},
 			expr: &actionExpr{
-				pos: position{line: 130, col: 13, offset: 2931},
+				pos: position{line: 148, col: 13, offset: 3376},
 				run: (*parser).callonEmptyArg1,
 				expr: &zeroOrMoreExpr{
-					pos: position{line: 130, col: 13, offset: 2931},
+					pos: position{line: 148, col: 13, offset: 3376},
 					expr: &ruleRefExpr{
-						pos:  position{line: 130, col: 13, offset: 2931},
+						pos:  position{line: 148, col: 13, offset: 3376},
 						name: "CommentSpacing",
 					},
 				},
@@ -852,37 +872,37 @@ var g = &grammar{
 		},
 		{
 			name: "Arg",
-			pos:  position{line: 132, col: 1, offset: 2968},
+			pos:  position{line: 150, col: 1, offset: 3413},
 			expr: &actionExpr{
-				pos: position{line: 132, col: 8, offset: 2975},
+				pos: position{line: 150, col: 8, offset: 3420},
 				run: (*parser).callonArg1,
 				expr: &seqExpr{
-					pos: position{line: 132, col: 8, offset: 2975},
+					pos: position{line: 150, col: 8, offset: 3420},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 132, col: 8, offset: 2975},
+							pos:        position{line: 150, col: 8, offset: 3420},
 							val:        "{",
 							ignoreCase: false,
 							want:       "\"{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 132, col: 12, offset: 2979},
+							pos:   position{line: 150, col: 12, offset: 3424},
 							label: "node",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 132, col: 17, offset: 2984},
+								pos: position{line: 150, col: 17, offset: 3429},
 								expr: &choiceExpr{
-									pos: position{line: 132, col: 18, offset: 2985},
+									pos: position{line: 150, col: 18, offset: 3430},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 132, col: 18, offset: 2985},
+											pos:  position{line: 150, col: 18, offset: 3430},
 											name: "WrappedLine",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 132, col: 32, offset: 2999},
+											pos:  position{line: 150, col: 32, offset: 3444},
 											name: "ParaArg",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 132, col: 42, offset: 3009},
+											pos:  position{line: 150, col: 42, offset: 3454},
 											name: "EmptyArg",
 										},
 									},
@@ -890,7 +910,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 132, col: 53, offset: 3020},
+							pos:        position{line: 150, col: 53, offset: 3465},
 							val:        "}",
 							ignoreCase: false,
 							want:       "\"}\"",
@@ -901,25 +921,25 @@ var g = &grammar{
 		},
 		{
 			name: "ParaArg",
-			pos:  position{line: 140, col: 1, offset: 3111},
+			pos:  position{line: 158, col: 1, offset: 3556},
 			expr: &actionExpr{
-				pos: position{line: 140, col: 12, offset: 3122},
+				pos: position{line: 158, col: 12, offset: 3567},
 				run: (*parser).callonParaArg1,
 				expr: &seqExpr{
-					pos: position{line: 140, col: 12, offset: 3122},
+					pos: position{line: 158, col: 12, offset: 3567},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 140, col: 12, offset: 3122},
+							pos:   position{line: 158, col: 12, offset: 3567},
 							label: "paras",
 							expr: &ruleRefExpr{
-								pos:  position{line: 140, col: 18, offset: 3128},
+								pos:  position{line: 158, col: 18, offset: 3573},
 								name: "Paragraphs",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 140, col: 29, offset: 3139},
+							pos: position{line: 158, col: 29, offset: 3584},
 							expr: &charClassMatcher{
-								pos:        position{line: 140, col: 29, offset: 3139},
+								pos:        position{line: 158, col: 29, offset: 3584},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -932,20 +952,20 @@ var g = &grammar{
 		},
 		{
 			name: "Argument",
-			pos:  position{line: 144, col: 1, offset: 3171},
+			pos:  position{line: 162, col: 1, offset: 3616},
 			expr: &choiceExpr{
-				pos: position{line: 144, col: 13, offset: 3183},
+				pos: position{line: 162, col: 13, offset: 3628},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 144, col: 13, offset: 3183},
+						pos:  position{line: 162, col: 13, offset: 3628},
 						name: "VerbatimArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 144, col: 27, offset: 3197},
+						pos:  position{line: 162, col: 27, offset: 3642},
 						name: "PreformattedArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 144, col: 45, offset: 3215},
+						pos:  position{line: 162, col: 45, offset: 3660},
 						name: "Arg",
 					},
 				},
@@ -953,14 +973,14 @@ var g = &grammar{
 		},
 		{
 			name: "Indent",
-			pos:  position{line: 146, col: 1, offset: 3220},
+			pos:  position{line: 164, col: 1, offset: 3665},
 			expr: &actionExpr{
-				pos: position{line: 146, col: 11, offset: 3230},
+				pos: position{line: 164, col: 11, offset: 3675},
 				run: (*parser).callonIndent1,
 				expr: &zeroOrMoreExpr{
-					pos: position{line: 146, col: 11, offset: 3230},
+					pos: position{line: 164, col: 11, offset: 3675},
 					expr: &charClassMatcher{
-						pos:        position{line: 146, col: 11, offset: 3230},
+						pos:        position{line: 164, col: 11, offset: 3675},
 						val:        "[ \\t]",
 						chars:      []rune{' ', '\t'},
 						ignoreCase: false,
@@ -1130,8 +1150,7 @@ func (p *parser) callonPreformattedBlockLine1() (interface{}, error) {
 }
 
 func (c *current) onPreformattedBlock1(lines interface{}) (interface{}, error) {
-	delete(c.globalStore, "indent-skip")
-	return Preformatted(ifaceSequences(lines)), nil
+	return Preformatted(dedent(ifaceSequences(lines))), nil
 }
 
 func (p *parser) callonPreformattedBlock1() (interface{}, error) {
@@ -1163,8 +1182,7 @@ func (p *parser) callonVerbatimBlockLine1() (interface{}, error) {
 }
 
 func (c *current) onVerbatimBlock1(lines interface{}) (interface{}, error) {
-	delete(c.globalStore, "indent-skip")
-	return Preformatted(ifaceSequences(lines)), nil
+	return Preformatted(dedent(ifaceSequences(lines))), nil
 }
 
 func (p *parser) callonVerbatimBlock1() (interface{}, error) {
@@ -1247,20 +1265,7 @@ func (p *parser) callonParaArg1() (interface{}, error) {
 }
 
 func (c *current) onIndent1() (interface{}, error) {
-	skip := len(c.text)
-
-	i, found := c.globalStore["indent-skip"]
-	if found {
-		skip = i.(int)
-	} else {
-		c.globalStore["indent-skip"] = skip
-	}
-
-	if skip <= len(c.text) {
-		return string(c.text[skip:]), nil
-	} else {
-		return "", nil
-	}
+	return string(c.text), nil
 }
 
 func (p *parser) callonIndent1() (interface{}, error) {
-- 
2.43.0


From a957b0b33534a348507c8a518cef6bc47cee977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 24/24] fix: render absent content as nothing instead of
 failing

Partial returns nil for partials which are not set, and an optional reference
without content has none, but rendering nil failed with a nil pointer
dereference.
---
 render/html.go | 5 +++++
 render/text.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/render/html.go b/render/html.go
index 58c02fe..e3ef444 100644
--- a/render/html.go
+++ b/render/html.go
@@ -326,6 +326,11 @@ func (engine *HTMLEngine) render(out io.Writer) error {
 }
 
 func (engine *HTMLEngine) subRender(content booklit.Content) (template.HTML, error) {
+	if content == nil {
+		// nothing to render, e.g. a partial which is not set
+		return "", nil
+	}
+
 	buf := new(bytes.Buffer)
 
 	subEngine := NewHTMLEngine()
diff --git a/render/text.go b/render/text.go
index b4ff50c..b6d845b 100644
--- a/render/text.go
+++ b/render/text.go
@@ -310,6 +310,11 @@ func (engine *TextEngine) render(out io.Writer) error {
 }
 
 func (engine *TextEngine) subRender(content booklit.Content) (string, error) {
+	if content == nil {
+		// nothing to render, e.g. a partial which is not set
+		return "", nil
+	}
+
 	buf := new(bytes.Buffer)
 
 	subEngine := NewTextEngine(engine.fileExtension)
-- 
2.43.0

