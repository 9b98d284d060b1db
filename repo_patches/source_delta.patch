From c220e54b64abbd289fd6468501c6452e20f419e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:26 +0000
Subject: [PATCH 01/47] fix: inline style declaration without a value no longer
 panics

---
 domparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index b1e5d88..a503681 100644
--- a/domparser.go
+++ b/domparser.go
@@ -807,7 +807,7 @@ func (s *style) getStyle(jsName string) string {
 	for i := 0; i < len(styles); i++ {
 		var style = strings.Split(styles[i], ":")
 		var name = strings.TrimSpace(style[0])
-		if name == cssName {
+		if name == cssName && len(style) > 1 {
 			return strings.TrimSpace(style[1])
 		}
 	}
-- 
2.43.0


From bb93834eb14c12c0c6427773e0d6c50a5c235db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:33 +0000
Subject: [PATCH 02/47] fix: empty text node no longer recurses without end

---
 domparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domparser.go b/domparser.go
index a503681..e0db379 100644
--- a/domparser.go
+++ b/domparser.go
@@ -628,7 +628,7 @@ func newText() *Node {
 
 func (t *Node) getTextContentFromTextNode() string {
 	if t.textContent == "" {
-		decoded, err := decodeHTML(t.GetInnerHTML())
+		decoded, err := decodeHTML(t.innerHTML)
 		if err != nil {
 			slog.Error("cannot decode inner html", "err", err)
 			return ""
@@ -640,7 +640,7 @@ func (t *Node) getTextContentFromTextNode() string {
 
 func (t *Node) getInnerHTMLFromTextNode() string {
 	if t.innerHTML == "" {
-		t.innerHTML = encodeTextContentHTML(t.GetTextContent())
+		t.innerHTML = encodeTextContentHTML(t.textContent)
 	}
 	return t.innerHTML
 }
-- 
2.43.0


From 9e1259321ee4dfa2e72cecd142c1f966b289d1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:39 +0000
Subject: [PATCH 03/47] fix: base64 marker of a data URI is matched in any
 case, as the scheme test does

---
 regexps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexps.go b/regexps.go
index 34c0b95..1a2112e 100644
--- a/regexps.go
+++ b/regexps.go
@@ -48,7 +48,7 @@ var (
 	// name is a single value
 	namePattern                   = regexp.MustCompile(`(?i)^\s*(?:(dc|dcterm|og|twitter|weibo:(article|webpage))\s*[\.:]\s*)?(author|creator|description|title|site_name)\s*$`)
 	imgExtensions                 = regexp.MustCompile(`\.(jpg|jpeg|png|webp)`)
-	base64Starts                  = regexp.MustCompile(`base64\s*`)
+	base64Starts                  = regexp.MustCompile(`(?i)base64\s*`)
 	imgExtensionsWithSpacesAndNum = regexp.MustCompile(`\.(jpg|jpeg|png|webp)\s+\d`)
 	imgExtensionsAmongText        = regexp.MustCompile(`^\s*\S+\.(jpg|jpeg|png|webp)\S*\s*$`)
 )
-- 
2.43.0


From d7b16244200c1ca805ed6568db5e57846bed9397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:46 +0000
Subject: [PATCH 04/47] fix: AllowedVideoRegex(nil) allows no video instead of
 panicking

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 1045860..b9884da 100644
--- a/readability.go
+++ b/readability.go
@@ -1772,7 +1772,7 @@ func (r *Readability) clean(e *Node, tag string) {
 
 	r.removeNodes(r.getAllNodesWithTag(e, tag), func(element *Node) bool {
 		// Allow youtube and vimeo videos through as people usually want to see those.
-		if isEmbed {
+		if isEmbed && r.options.allowedVideoRegex != nil {
 			// First, check the elements attributes to see if any of them contain youtube or vimeo
 			for i := 0; i < len(element.Attributes); i++ {
 				if r.options.allowedVideoRegex.MatchString(element.Attributes[i].getValue()) {
-- 
2.43.0


From e587d055f409468801a795f5d60b3c5a76d35a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:07 +0000
Subject: [PATCH 05/47] fix: character references are decoded once, not twice

---
 domparser.go | 41 ++++++++++++++++++++---------------------
 regexps.go   |  2 +-
 2 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/domparser.go b/domparser.go
index e0db379..420fc3a 100644
--- a/domparser.go
+++ b/domparser.go
@@ -73,28 +73,27 @@ func encodeHTML(text string) string {
 
 func decodeHTML(s string) (string, error) {
 
-	s = entityReferencesRgx.ReplaceAllStringFunc(s, func(s string) string {
-		return string([]rune(entityReplacer.Replace(s))[1])
-	})
-
-	submatches := htmlCharCodesRgx.FindAllStringSubmatch(s, -1)
-	for _, submatch := range submatches {
-		if len(submatch) == 3 {
-			hex, dec := submatch[1], submatch[2]
-			if hex != "" {
-				codePoint, err := strconv.ParseInt(hex, 16, 64)
-				if err != nil {
-					return "", err
-				}
-				s = strings.ReplaceAll(s, submatch[0], string(rune(codePoint)))
-			} else if dec != "" {
-				codePoint, err := strconv.ParseInt(dec, 10, 64)
-				if err != nil {
-					return "", err
-				}
-				s = strings.ReplaceAll(s, submatch[0], string(rune(codePoint)))
-			}
+	// A single pass, so that the output of one replacement is never taken for
+	// (a part of) another reference.
+	var decodeErr error
+	s = htmlReferencesRgx.ReplaceAllStringFunc(s, func(ref string) string {
+		if !strings.HasPrefix(ref, "&#") {
+			return string([]rune(entityReplacer.Replace(ref))[1])
+		}
+		submatch := htmlCharCodesRgx.FindStringSubmatch(ref)
+		digits, base := submatch[1], 16
+		if digits == "" {
+			digits, base = submatch[2], 10
+		}
+		codePoint, err := strconv.ParseInt(digits, base, 64)
+		if err != nil {
+			decodeErr = err
+			return ""
 		}
+		return string(rune(codePoint))
+	})
+	if decodeErr != nil {
+		return "", decodeErr
 	}
 	return s, nil
 }
diff --git a/regexps.go b/regexps.go
index 1a2112e..10aef33 100644
--- a/regexps.go
+++ b/regexps.go
@@ -36,7 +36,7 @@ var (
 	singleWhitespace     = regexp.MustCompile(`\s`)
 	singleDot            = regexp.MustCompile(`\.`)
 	// https://www.dcs.bbk.ac.uk/~ptw/teaching/DBM/XML/slide17.html
-	entityReferencesRgx  = regexp.MustCompile(`&(quot|amp|apos|lt|gt);`)
+	htmlReferencesRgx    = regexp.MustCompile(`&(?:quot|amp|apos|lt|gt|#[xX][0-9a-fA-F]{1,4}|#[0-9]{1,5});`)
 	htmlCharCodesRgx     = regexp.MustCompile(`(?i)&#(?:x([0-9a-fA-F]{1,4})|([0-9]{1,5}));`)
 	doubleForwardSlashes = regexp.MustCompile(`//[^/]+`)
 	separators           = regexp.MustCompile(`[\|\-\\\/>»]+`)
-- 
2.43.0


From 0f7af5c74bf7e78d9021ac9b04bc20f0a448a49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:13 +0000
Subject: [PATCH 06/47] fix: JSON-LD values of an unexpected type are skipped
 instead of panicking

---
 readability.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/readability.go b/readability.go
index b9884da..e8d9893 100644
--- a/readability.go
+++ b/readability.go
@@ -1329,7 +1329,8 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 			}
 
 			ctx, ctxFound := parsed["@context"]
-			if !ctxFound || !schemaUrl.MatchString(ctx.(string)) {
+			ctxStr, isStr := ctx.(string)
+			if !ctxFound || !isStr || !schemaUrl.MatchString(ctxStr) {
 				continue
 			}
 
@@ -1354,7 +1355,8 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 				}
 			}
 
-			if parsed == nil || parsed["@type"] == nil || !jsonLdArticleTypes.MatchString(parsed["@type"].(string)) {
+			articleType, isStr := parsed["@type"].(string)
+			if !isStr || !jsonLdArticleTypes.MatchString(articleType) {
 				continue
 			}
 
@@ -1394,22 +1396,14 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 					}
 				} else if _, isArray := author.([]interface{}); isArray {
 					authors := author.([]interface{})
-					if len(authors) != 0 {
-						firstAuthor, isObj := authors[0].(map[string]interface{})
-						if isObj {
-							authorName, authorNameFound := firstAuthor["name"]
-							if authorNameFound {
-								if _, isStr := authorName.(string); isStr {
-									var authorNames []string
-									for _, a := range authors {
-										n := a.(map[string]interface{})["name"].(string)
-										authorNames = append(authorNames, strings.TrimSpace(n))
-									}
-									meta.byline = strings.Join(authorNames, ", ")
-								}
-							}
+					var authorNames []string
+					for _, a := range authors {
+						auth, _ := a.(map[string]interface{})
+						if name, isStr := auth["name"].(string); isStr {
+							authorNames = append(authorNames, strings.TrimSpace(name))
 						}
 					}
+					meta.byline = strings.Join(authorNames, ", ")
 				}
 			}
 
-- 
2.43.0


From ff7e680afb8d5ca15117881801f62f709392edfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:35 +0000
Subject: [PATCH 07/47] fix: a hidden paragraph that is the only content of a
 div is removed

---
 readability.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/readability.go b/readability.go
index e8d9893..c294564 100644
--- a/readability.go
+++ b/readability.go
@@ -845,18 +845,12 @@ func (r *Readability) grabArticle(page *Node) *Node {
 
 			var matchString = n.GetClassName() + " " + n.GetId()
 
-			if !isProbablyVisible(n) {
+			if isHidden(n) {
 				slog.Debug("Removing hidden node - " + matchString)
 				n = r.removeAndGetNext(n)
 				continue
 			}
 
-			// User is not able to see elements applied with both "aria-modal = true" and "role = dialog"
-			if n.GetAttribute("aria-modal") == "true" && n.GetAttribute("role") == "dialog" {
-				n = r.removeAndGetNext(n)
-				continue
-			}
-
 			// Check to see if this node is a byline, and remove it if it is.
 			if r.checkByline(n, matchString) {
 				n = r.removeAndGetNext(n)
@@ -933,7 +927,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 				// element. DIVs with only a P element inside and no text content can be
 				// safely converted into plain P elements to avoid confusing the scoring
 				// algorithm with DIVs with are, in practice, paragraphs.
-				if r.hasSingleTagInsideElement(n, "P") && r.getLinkDensity(n) < 0.25 {
+				if r.hasSingleTagInsideElement(n, "P") && !isHidden(n.Children[0]) && r.getLinkDensity(n) < 0.25 {
 					var newNode = n.Children[0]
 					n.ParentNode.ReplaceChild(newNode, n)
 					n = newNode
@@ -2158,6 +2152,13 @@ func isProbablyVisible(n *Node) bool {
 		(!n.HasAttribute("aria-hidden") || n.GetAttribute("aria-hidden") != "true" || (n.GetClassName() != "" && strings.Contains(n.GetClassName(), "fallback-image")))
 }
 
+// Whether the user is not able to see the node: either it is hidden, or it has
+// both "aria-modal = true" and "role = dialog".
+func isHidden(n *Node) bool {
+	return !isProbablyVisible(n) ||
+		(n.GetAttribute("aria-modal") == "true" && n.GetAttribute("role") == "dialog")
+}
+
 // Runs readability.
 // Workflow:
 //  1. Prep the document by removing script tags, css, etc.
-- 
2.43.0


From 4d26405fec6ba0ca79f4bd2d124f5d298eeca7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:53 +0000
Subject: [PATCH 08/47] fix: the document root and body are never pruned, and a
 document without html element is traversed too

---
 readability.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/readability.go b/readability.go
index c294564..9d1997d 100644
--- a/readability.go
+++ b/readability.go
@@ -832,6 +832,9 @@ func (r *Readability) grabArticle(page *Node) *Node {
 		// used inappropriately (as in, where they contain no other block level elements.)
 		var elementsToScore []*Node
 		var n = r.doc.DocumentElement
+		if n == nil {
+			n = page
+		}
 
 		var shouldRemoveTitleHeader bool = true
 
@@ -843,6 +846,13 @@ func (r *Readability) grabArticle(page *Node) *Node {
 				r.articleLang = n.GetAttribute("lang")
 			}
 
+			// The document root and the page itself are never pruned: without them
+			// the nodes below would be neither traversed nor put back.
+			if n == r.doc.DocumentElement || n == page {
+				n = r.getNextNode(n, false)
+				continue
+			}
+
 			var matchString = n.GetClassName() + " " + n.GetId()
 
 			if isHidden(n) {
-- 
2.43.0


From 00f48851c0c8ded773b1b45311e1f94e3690906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:59 +0000
Subject: [PATCH 09/47] fix: a candidate outside of the body no longer makes
 the ancestor walk run off the tree

---
 readability.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/readability.go b/readability.go
index 9d1997d..03e98b3 100644
--- a/readability.go
+++ b/readability.go
@@ -1076,7 +1076,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			var MINIMUM_TOPCANDIDATES = 3
 			if len(alternativeCandidateAncestors) >= MINIMUM_TOPCANDIDATES {
 				parentOfTopCandidate = topCandidate.ParentNode
-				for parentOfTopCandidate.TagName != "BODY" {
+				for canHoldArticle(parentOfTopCandidate) {
 					var listsContainingThisAncestor = 0
 					for ancestorIndex := 0; ancestorIndex < len(alternativeCandidateAncestors) && listsContainingThisAncestor < MINIMUM_TOPCANDIDATES; ancestorIndex++ {
 						includes := slices.ContainsFunc(alternativeCandidateAncestors[ancestorIndex], func(n *Node) bool {
@@ -1108,7 +1108,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			var lastScore = topCandidate.ReadabilityNode.ContentScore
 			// The scores shouldn't get too low.
 			var scoreThreshold = lastScore / 3
-			for parentOfTopCandidate.TagName != "BODY" {
+			for canHoldArticle(parentOfTopCandidate) {
 				if parentOfTopCandidate.ReadabilityNode == nil {
 					parentOfTopCandidate = parentOfTopCandidate.ParentNode
 					continue
@@ -1130,7 +1130,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			// If the top candidate is the only child, use parent instead. This will help sibling
 			// joining logic when adjacent content is actually located in parent's sibling node.
 			parentOfTopCandidate = topCandidate.ParentNode
-			for parentOfTopCandidate.TagName != "BODY" && len(parentOfTopCandidate.Children) == 1 {
+			for canHoldArticle(parentOfTopCandidate) && len(parentOfTopCandidate.Children) == 1 {
 				topCandidate = parentOfTopCandidate
 				parentOfTopCandidate = topCandidate.ParentNode
 			}
@@ -1285,6 +1285,12 @@ func (r *Readability) grabArticle(page *Node) *Node {
 	}
 }
 
+// Whether the node can stand for the article: it is neither the body nor, for
+// content found outside of it, the root of its tree.
+func canHoldArticle(n *Node) bool {
+	return n != nil && n.ParentNode != nil && n.TagName != "BODY" && n.TagName != "HTML"
+}
+
 // Check whether the input string could be a byline.
 // This verifies that the input is a string, and that the length
 // is less than 100 chars.
-- 
2.43.0


From bd0fc7296d32fec77c78d559d704a6c5aee211d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:07 +0000
Subject: [PATCH 10/47] fix: an end tag with a prefix closes its element

---
 domparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index 420fc3a..2755351 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1121,7 +1121,7 @@ loop:
 			}
 
 		case html.EndTagToken:
-			if n.LocalName == p.z.Token().Data {
+			if n.matchingTag == p.z.Token().Data {
 				break loop
 			}
 		}
-- 
2.43.0


From 7204db23948f98a07e190f7528f0f79ae388cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:23 +0000
Subject: [PATCH 11/47] fix: text that ends in white space is not dropped with
 its wrapper

---
 regexps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexps.go b/regexps.go
index 10aef33..7500123 100644
--- a/regexps.go
+++ b/regexps.go
@@ -19,7 +19,7 @@ var (
 	//prevLink             = regexp.MustCompile(`(prev|earl|old|new|<|«)`)
 	tokenize   = regexp.MustCompile(`\W+`)
 	whitespace = regexp.MustCompile(`^\s*$`)
-	hasContent = regexp.MustCompile(`\S$`)
+	hasContent = regexp.MustCompile(`\S`)
 	hashUrl    = regexp.MustCompile(`^#.+`)
 	srcsetUrl  = regexp.MustCompile(`(\S+)(\s+[\d.]+[xw])?(\s*(?:,|$))`)
 	b64DataUrl = regexp.MustCompile(`(?i)^data:\s*([^\s;,]+)\s*;\s*base64\s*,`)
-- 
2.43.0


From 39d7d3cb934a4b74ef4e8f9a59a4821be2aed7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:39 +0000
Subject: [PATCH 12/47] fix: a heading without ASCII words is not taken for a
 duplicate of the title

---
 readability.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/readability.go b/readability.go
index 03e98b3..8b4bc67 100644
--- a/readability.go
+++ b/readability.go
@@ -757,14 +757,15 @@ func (r *Readability) getNextNode(n *Node, ignoreSelfAndKids bool) *Node {
 // Works the way that it splits both texts into words and then finds words that are unique in second text
 // the result is given by the lower length of unique parts.
 func (r *Readability) textSimilarity(textA, textB string) float64 {
-	var tokensA = tokenize.Split(strings.ToLower(textA), -1)
-	var tokensB = tokenize.Split(strings.ToLower(textB), -1)
+	var isNotEmpty = func(token string) bool { return token != "" }
+	var tokensA = filter(isNotEmpty, tokenize.Split(strings.ToLower(textA), -1)...)
+	var tokensB = filter(isNotEmpty, tokenize.Split(strings.ToLower(textB), -1)...)
 	if len(tokensA) == 0 || len(tokensB) == 0 {
 		return 0
 	}
 	var uniqTokensB []string
 	for _, t := range tokensB {
-		if !slices.Contains(tokensA, t) && t != "" {
+		if !slices.Contains(tokensA, t) {
 			uniqTokensB = append(uniqTokensB, t)
 		}
 	}
-- 
2.43.0


From b548f3a1a86439dad28671909c29cc474ef2d0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:02 +0000
Subject: [PATCH 13/47] fix: a caption or a nested table decides whether a
 table holds data

---
 readability.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/readability.go b/readability.go
index 8b4bc67..b94f2ac 100644
--- a/readability.go
+++ b/readability.go
@@ -1885,6 +1885,7 @@ func (r *Readability) markDataTables(root *Node) {
 
 		if captions := table.getElementsByTagName("caption"); len(captions) > 0 && captions[0] != nil && len(captions[0].ChildNodes) > 0 {
 			table.ReadabilityDataTable = &readabilityDataTable{value: true}
+			continue
 		}
 
 		// If the table has a descendant with any of these tags, consider a data table:
@@ -1903,6 +1904,7 @@ func (r *Readability) markDataTables(root *Node) {
 		// Nested tables indicate a layout table:
 		if tables := table.getElementsByTagName("table"); len(tables) > 0 && tables[0] != nil {
 			table.ReadabilityDataTable = &readabilityDataTable{value: false}
+			continue
 		}
 
 		var rows, columns = r.getRowAndColumnCount(table)
-- 
2.43.0


From 4f5abdf7cc0b423140d53c5415e826a42c6648a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:02 +0000
Subject: [PATCH 14/47] fix: an object that embeds an allowed video is
 recognised by its content

---
 readability.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index b94f2ac..128d611 100644
--- a/readability.go
+++ b/readability.go
@@ -1786,7 +1786,7 @@ func (r *Readability) clean(e *Node, tag string) {
 			}
 
 			// For embed with <object> tag, check inner HTML as well.
-			if element.TagName == "object" && r.options.allowedVideoRegex.MatchString(element.GetInnerHTML()) {
+			if element.TagName == "OBJECT" && r.options.allowedVideoRegex.MatchString(element.GetInnerHTML()) {
 				return false
 			}
 		}
@@ -2080,7 +2080,7 @@ func (r *Readability) cleanConditionally(e *Node, tag string) {
 				}
 
 				// For embed with <object> tag, check inner HTML as well.
-				if embeds[i].TagName == "object" && r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(embeds[i].GetInnerHTML()) {
+				if embeds[i].TagName == "OBJECT" && r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(embeds[i].GetInnerHTML()) {
 					return false
 				}
 
-- 
2.43.0


From 9f6b0390425114f50d8ece2ccadb46aca5924c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:19 +0000
Subject: [PATCH 15/47] fix: a short first part is removed from the title

---
 readability.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/readability.go b/readability.go
index 128d611..c41e2e0 100644
--- a/readability.go
+++ b/readability.go
@@ -453,9 +453,7 @@ func (r *Readability) getArticleTitle() string {
 		// If the resulting title is too short (3 words or fewer), remove
 		// the first part instead:
 		if wordCount(curTitle) < 3 {
-			curTitle = titleFirstPart.ReplaceAllStringFunc(origTitle, func(s string) string {
-				return s
-			})
+			curTitle = titleFirstPart.ReplaceAllString(origTitle, "$1")
 		}
 	} else if strings.Contains(curTitle, ": ") {
 		// Check if we have an heading containing this exact string, so we
-- 
2.43.0


From 6047872c6a3bcbdc6cf91ffb28a5c906d3e53135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:55 +0000
Subject: [PATCH 16/47] fix: a bare less-than sign in text is escaped, so that
 it cannot become a tag in the output

---
 domparser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index 2755351..5601eb3 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1073,7 +1073,9 @@ loop:
 				txt := string(data)
 
 				if c != '<' {
-					textNode.SetInnerHTML(txt)
+					// A bare '<' would become markup if it is serialized next to
+					// other text than in the source.
+					textNode.SetInnerHTML(strings.ReplaceAll(txt, "<", "&lt;"))
 					n.AppendChild(textNode)
 				} else if strings.HasPrefix(txt, "<![CDATA[") {
 					s := strings.Index(txt, "<![CDATA[")
-- 
2.43.0


From 6e78b071aeb68c05ebfdf8164ca1ae69de9d1020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:01 +0000
Subject: [PATCH 17/47] fix: ReplaceChild with a sibling of the replaced node,
 or with itself, keeps the tree consistent

---
 domparser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/domparser.go b/domparser.go
index 5601eb3..6eb809a 100644
--- a/domparser.go
+++ b/domparser.go
@@ -481,10 +481,10 @@ func (n *Node) RemoveChild(child *Node) (*Node, error) {
 }
 
 func (n *Node) ReplaceChild(newNode, oldNode *Node) *Node {
-	childNodes := n.ChildNodes
-	childIndex := indexOf(oldNode, childNodes)
-	if childIndex == -1 {
+	if indexOf(oldNode, n.ChildNodes) == -1 {
 		panic("removeChild: node not found")
+	} else if newNode == oldNode {
+		return oldNode
 	} else {
 		// This will take care of updating the new node if it was somewhere else before:
 		if newNode.ParentNode != nil {
@@ -492,6 +492,9 @@ func (n *Node) ReplaceChild(newNode, oldNode *Node) *Node {
 				slog.Error("cannot remove child", slog.String("err", err.Error()))
 			}
 		}
+		// The old node may have moved if the new one was among its siblings.
+		childNodes := n.ChildNodes
+		childIndex := indexOf(oldNode, childNodes)
 		childNodes[childIndex] = newNode
 
 		// update the new node's sibling properties, and its new siblings' sibling properties
-- 
2.43.0


From 730420c0339bccd2cc7f1960da5a4f5bde395405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:07 +0000
Subject: [PATCH 18/47] fix: children dropped by SetInnerHTML and
 SetTextContent keep no link to their former siblings

---
 domparser.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/domparser.go b/domparser.go
index 6eb809a..dd5bfe5 100644
--- a/domparser.go
+++ b/domparser.go
@@ -937,6 +937,15 @@ func (n *Node) GetInnerHTML() string {
 	return strings.Join(arr, "")
 }
 
+// Clears the relations of the existing children, which are going away.
+func (n *Node) detachChildNodes() {
+	for _, child := range n.ChildNodes {
+		child.ParentNode = nil
+		child.PreviousSibling, child.NextSibling = nil, nil
+		child.PreviousElementSibling, child.NextElementSibling = nil, nil
+	}
+}
+
 func (n *Node) SetInnerHTML(html string) {
 
 	if n.NodeType == textNode {
@@ -944,9 +953,7 @@ func (n *Node) SetInnerHTML(html string) {
 	} else if n.NodeType == elementNode {
 		var parser = newDOMParser()
 		var node = parser.parse(html, "")
-		for i := len(n.ChildNodes) - 1; i >= 0; i-- {
-			n.ChildNodes[i].ParentNode = nil
-		}
+		n.detachChildNodes()
 		n.ChildNodes = node.ChildNodes
 		n.Children = node.Children
 		for i := len(n.ChildNodes) - 1; i >= 0; i-- {
@@ -963,10 +970,7 @@ func (n *Node) SetTextContent(text string) {
 		n.setTextContentFromTextNode(text)
 		return
 	} else if n.NodeType == elementNode {
-		// clear parentNodes for existing children
-		for i := len(n.ChildNodes) - 1; i >= 0; i-- {
-			n.ChildNodes[i].ParentNode = nil
-		}
+		n.detachChildNodes()
 
 		var t = newText()
 		n.ChildNodes = []*Node{t}
-- 
2.43.0


From 3a9cb43f611a3fa1a8e42c770dade4d3cf97e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:09 +0000
Subject: [PATCH 19/47] fix: a blank URL no longer panics

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index c41e2e0..db2db0b 100644
--- a/readability.go
+++ b/readability.go
@@ -269,7 +269,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 	var toAbsoluteURI = func(uri string) string {
 		uri = strings.TrimSpace(uri)
 		// Leave hash links alone if the base URI matches the document URI:
-		if baseURI == documentURI && []rune(uri)[0] == '#' {
+		if baseURI == documentURI && strings.HasPrefix(uri, "#") {
 			return uri
 		}
 		base, err := url.Parse(baseURI)
-- 
2.43.0


From 9a32fe3cd9075c22153404d8f46901a394636018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:16 +0000
Subject: [PATCH 20/47] fix: relative URLs keep their escapes, user info,
 scheme and fragment when made absolute

---
 readability.go | 42 ++++++++++--------------------------------
 regexps.go     | 13 ++++++-------
 2 files changed, 16 insertions(+), 39 deletions(-)

diff --git a/readability.go b/readability.go
index db2db0b..99e1995 100644
--- a/readability.go
+++ b/readability.go
@@ -285,37 +285,19 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		u := base.ResolveReference(ref)
 		var abs string
 		if u.Scheme != "" {
-			abs += u.Scheme
-			if strings.HasPrefix(u.Scheme, "http") {
-				abs += "://"
-			} else {
-				abs += ":"
-			}
+			abs += u.Scheme + ":"
 		}
-		abs += strings.ToLower(u.Host)
-
-		var b, a string
-		if strings.Contains(uri, "?") {
-			before, _, _ := strings.Cut(uri, "?")
-			b = before
-		} else if strings.Contains(uri, "#") {
-			before, after, _ := strings.Cut(uri, "#")
-			b = before
-			a = after
-		} else {
-			b = uri
+		if u.Host != "" || u.User != nil || u.Scheme == "file" || strings.HasPrefix(u.Scheme, "http") {
+			abs += "//"
+		}
+		if u.User != nil {
+			abs += u.User.String() + "@"
 		}
+		abs += strings.ToLower(u.Host)
 
 		if u.Path != "" {
-			p := u.Path
-			if strings.Contains(uri, "%") {
-				if strings.HasPrefix(uri, "//") {
-					p = doubleForwardSlashes.ReplaceAllString(b, "")
-				} else {
-					p = strings.ReplaceAll(b, abs, "")
-				}
-			}
-			abs += strings.ReplaceAll(p, "/C|/", "/C:/")
+			p := u.EscapedPath()
+			abs += strings.ReplaceAll(p, "/C%7C/", "/C:/")
 		} else if u.Opaque != "" {
 			abs += u.Opaque
 		} else {
@@ -325,11 +307,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 			abs += "?" + u.RawQuery
 		}
 		if u.Fragment != "" {
-			if strings.Contains(a, "%") {
-				abs += "#" + a
-			} else {
-				abs += "#" + u.Fragment
-			}
+			abs += "#" + u.EscapedFragment()
 		}
 		if strings.HasSuffix(uri, "#") && !strings.HasSuffix(abs, "#") {
 			abs += "#"
diff --git a/regexps.go b/regexps.go
index 7500123..d0cf51f 100644
--- a/regexps.go
+++ b/regexps.go
@@ -36,13 +36,12 @@ var (
 	singleWhitespace     = regexp.MustCompile(`\s`)
 	singleDot            = regexp.MustCompile(`\.`)
 	// https://www.dcs.bbk.ac.uk/~ptw/teaching/DBM/XML/slide17.html
-	htmlReferencesRgx    = regexp.MustCompile(`&(?:quot|amp|apos|lt|gt|#[xX][0-9a-fA-F]{1,4}|#[0-9]{1,5});`)
-	htmlCharCodesRgx     = regexp.MustCompile(`(?i)&#(?:x([0-9a-fA-F]{1,4})|([0-9]{1,5}));`)
-	doubleForwardSlashes = regexp.MustCompile(`//[^/]+`)
-	separators           = regexp.MustCompile(`[\|\-\\\/>»]+`)
-	dotSpaceOrDollar     = regexp.MustCompile(`\.( |$)`)
-	cdata                = regexp.MustCompile(`^\s*<!\[CDATA\[|\]\]>\s*$`)
-	schemaUrl            = regexp.MustCompile(`^https?\:\/\/schema\.org\/?$`)
+	htmlReferencesRgx = regexp.MustCompile(`&(?:quot|amp|apos|lt|gt|#[xX][0-9a-fA-F]{1,4}|#[0-9]{1,5});`)
+	htmlCharCodesRgx  = regexp.MustCompile(`(?i)&#(?:x([0-9a-fA-F]{1,4})|([0-9]{1,5}));`)
+	separators        = regexp.MustCompile(`[\|\-\\\/>»]+`)
+	dotSpaceOrDollar  = regexp.MustCompile(`\.( |$)`)
+	cdata             = regexp.MustCompile(`^\s*<!\[CDATA\[|\]\]>\s*$`)
+	schemaUrl         = regexp.MustCompile(`^https?\:\/\/schema\.org\/?$`)
 	// property is a space-separated list of values
 	propertyPattern = regexp.MustCompile(`(?i)\s*(article|dc|dcterm|og|twitter)\s*:\s*(author|creator|description|published_time|title|site_name)\s*`)
 	// name is a single value
-- 
2.43.0


From de9a3d8c69abba0159f7449b305d386020df977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:48 +0000
Subject: [PATCH 21/47] fix: a link with an escaped space after a comma is one
 URL

---
 readability.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/readability.go b/readability.go
index 99e1995..2c5d6d9 100644
--- a/readability.go
+++ b/readability.go
@@ -338,15 +338,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 					link.ParentNode.ReplaceChild(container, link)
 				}
 			} else {
-				if strings.Contains(href, ",%20") {
-					var hrefs []string
-					for _, link := range strings.Split(href, ",%20") {
-						hrefs = append(hrefs, toAbsoluteURI(link))
-					}
-					link.SetAttribute("href", strings.Join(hrefs, ",%20"))
-				} else {
-					link.SetAttribute("href", toAbsoluteURI(href))
-				}
+				link.SetAttribute("href", toAbsoluteURI(href))
 			}
 		}
 	}
-- 
2.43.0


From 184e3cadcb9a99d7cd12a94fd8bc9c478291660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:56 +0000
Subject: [PATCH 22/47] fix: javascript links are recognised the way browsers
 do

---
 readability.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 2c5d6d9..9793d18 100644
--- a/readability.go
+++ b/readability.go
@@ -31,6 +31,7 @@ import (
 	"slices"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 const (
@@ -324,7 +325,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		if href != "" {
 			// Remove links with javascript: URIs, since
 			// they won't work after scripts have been removed from the page.
-			if strings.HasPrefix(href, "javascript:") {
+			if isJavascriptURI(href) {
 				// if the link only contains simple text content, it can be converted to a text node
 				if len(link.ChildNodes) == 1 && link.ChildNodes[0].NodeType == textNode {
 					var text = r.doc.createTextNode(link.GetTextContent())
@@ -372,6 +373,15 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 	}
 }
 
+// Whether a browser would take the URI for a javascript: one, that is also if
+// there are leading spaces or control characters, tabs or newlines anywhere, or
+// if the scheme is in any case.
+func isJavascriptURI(uri string) bool {
+	uri = strings.TrimLeftFunc(uri, func(c rune) bool { return c <= ' ' || unicode.IsSpace(c) })
+	uri = strings.NewReplacer("\t", "", "\n", "", "\r", "").Replace(uri)
+	return strings.HasPrefix(strings.ToLower(uri), "javascript:")
+}
+
 func (r *Readability) simplifyNestedElements(articleContent *Node) {
 	var node = articleContent
 	for node != nil {
-- 
2.43.0


From 04aaab6849bdb4bfac21997034ccf5583b0b766e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:13 +0000
Subject: [PATCH 23/47] fix: candidates of a srcset stay separated when made
 absolute

---
 readability.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/readability.go b/readability.go
index 9793d18..77e4939 100644
--- a/readability.go
+++ b/readability.go
@@ -359,16 +359,13 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		}
 		var srcset = media.GetAttribute("srcset")
 		if srcset != "" {
-			submatches := srcsetUrl.FindAllStringSubmatch(srcset, -1)
-			var newSrcset []string
-			for _, submatch := range submatches {
-				newSrcset = append(newSrcset, toAbsoluteURI(submatch[1])+submatch[2]+submatch[3])
-			}
-			if !strings.Contains(srcset, ", ") {
-				media.SetAttribute("srcset", strings.Join(newSrcset, ""))
-			} else {
-				media.SetAttribute("srcset", strings.Join(newSrcset, " "))
+			var newSrcset string
+			var last int
+			for _, loc := range srcsetUrl.FindAllStringSubmatchIndex(srcset, -1) {
+				newSrcset += srcset[last:loc[2]] + toAbsoluteURI(srcset[loc[2]:loc[3]])
+				last = loc[3]
 			}
+			media.SetAttribute("srcset", newSrcset+srcset[last:])
 		}
 	}
 }
-- 
2.43.0


From 4b22f9c1b1f45d24485dfa20d4b981ce2077a703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:30 +0000
Subject: [PATCH 24/47] fix: hiding styles are recognised in any case and with
 an important mark

---
 domparser.go   |  2 +-
 readability.go | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/domparser.go b/domparser.go
index dd5bfe5..deeb810 100644
--- a/domparser.go
+++ b/domparser.go
@@ -809,7 +809,7 @@ func (s *style) getStyle(jsName string) string {
 	for i := 0; i < len(styles); i++ {
 		var style = strings.Split(styles[i], ":")
 		var name = strings.TrimSpace(style[0])
-		if name == cssName && len(style) > 1 {
+		if strings.EqualFold(name, cssName) && len(style) > 1 {
 			return strings.TrimSpace(style[1])
 		}
 	}
diff --git a/readability.go b/readability.go
index 77e4939..7788d10 100644
--- a/readability.go
+++ b/readability.go
@@ -2140,12 +2140,19 @@ func (r *Readability) removeFlag(flag int) {
 
 func isProbablyVisible(n *Node) bool {
 	// Have to null-check node.style and node.className.indexOf to deal with SVG and MathML nodes.
-	return (n.style == nil || n.style.getStyle("display") != "none") &&
-		(n.style == nil || n.style.getStyle("visibility") != "hidden") &&
+	return (n.style == nil || !declares(n.style.getStyle("display"), "none")) &&
+		(n.style == nil || !declares(n.style.getStyle("visibility"), "hidden")) &&
 		!n.HasAttribute("hidden") &&
 		(!n.HasAttribute("aria-hidden") || n.GetAttribute("aria-hidden") != "true" || (n.GetClassName() != "" && strings.Contains(n.GetClassName(), "fallback-image")))
 }
 
+// Whether the value of an inline style declaration is the given keyword,
+// in any case and whether important or not.
+func declares(value, keyword string) bool {
+	value, _, _ = strings.Cut(value, "!")
+	return strings.EqualFold(strings.TrimSpace(value), keyword)
+}
+
 // Whether the user is not able to see the node: either it is hidden, or it has
 // both "aria-modal = true" and "role = dialog".
 func isHidden(n *Node) bool {
-- 
2.43.0


From dbee6a73a6dbb31105c0169de95308eb0e26a1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:37 +0000
Subject: [PATCH 25/47] fix: hidden nodes do not count towards a readerable
 document

---
 readerable.go | 16 ++++++++++------
 util.go       |  6 ++++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/readerable.go b/readerable.go
index 0b80443..141aa9f 100644
--- a/readerable.go
+++ b/readerable.go
@@ -31,12 +31,16 @@ import (
 )
 
 func isNodeVisible(node *html.Node) bool {
-	// Have to null-check node.style and node.className.indexOf to deal with SVG and MathML nodes.
-	style := attr(node, "style")
-	return (style == "" || !slices.Contains(strings.Split(";", style), "display=none")) &&
-		(style == "" || !slices.Contains(strings.Split(";", style), "visibility=hidden")) &&
-		attr(node, "hidden") == "" &&
-		(attr(node, "aria-hidden") == "" || attr(node, "aria-hidden") != "true" || (attr(node, "class") != "" && strings.Contains(attr(node, "class"), "fallback-image")))
+	for _, declaration := range strings.Split(attr(node, "style"), ";") {
+		name, value, _ := strings.Cut(declaration, ":")
+		name = strings.TrimSpace(name)
+		if strings.EqualFold(name, "display") && declares(value, "none") ||
+			strings.EqualFold(name, "visibility") && declares(value, "hidden") {
+			return false
+		}
+	}
+	return !hasAttr(node, "hidden") &&
+		(attr(node, "aria-hidden") != "true" || strings.Contains(attr(node, "class"), "fallback-image"))
 }
 
 // Decides whether or not the document is reader-able without parsing the whole thing.
diff --git a/util.go b/util.go
index 4e0cbe5..909c538 100644
--- a/util.go
+++ b/util.go
@@ -60,6 +60,12 @@ func attr(n *html.Node, attrName string) string {
 	return ""
 }
 
+func hasAttr(n *html.Node, attrName string) bool {
+	return slices.ContainsFunc(n.Attr, func(a html.Attribute) bool {
+		return a.Key == attrName
+	})
+}
+
 func textContent(n *html.Node) string {
 	var buf bytes.Buffer
 
-- 
2.43.0


From 93be46e815ec83cf8ea30694e4b3b9763fc947b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:52 +0000
Subject: [PATCH 26/47] fix: paragraphs of list items do not count towards a
 readerable document

---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 909c538..113f594 100644
--- a/util.go
+++ b/util.go
@@ -48,7 +48,7 @@ func matches(n *html.Node, query string) bool {
 	if err != nil {
 		return false
 	}
-	return cascadia.Query(n, sel) != nil
+	return sel.Match(n)
 }
 
 func attr(n *html.Node, attrName string) string {
-- 
2.43.0


From 82d3e01df1c3ac8aa58913199b88eee3c345ee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:59 +0000
Subject: [PATCH 27/47] fix: a div with several line breaks counts once towards
 a readerable document

---
 readerable.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/readerable.go b/readerable.go
index 141aa9f..46babc6 100644
--- a/readerable.go
+++ b/readerable.go
@@ -72,7 +72,9 @@ func IsProbablyReaderable(htmlSource string, opts ...Option) bool {
 	if len(brNodes) != 0 {
 		var set []*html.Node
 		for _, n := range brNodes {
-			set = append(set, n.Parent)
+			if !slices.Contains(set, n.Parent) {
+				set = append(set, n.Parent)
+			}
 		}
 		nodes = append(nodes, set...)
 	}
-- 
2.43.0


From 0bad0d31905284e4e9dad82fe188a3f81cd98783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:12 +0000
Subject: [PATCH 28/47] fix: keep an empty query before a fragment when making
 a URL absolute

---
 readability.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/readability.go b/readability.go
index 7788d10..9cc4fd0 100644
--- a/readability.go
+++ b/readability.go
@@ -304,7 +304,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		} else {
 			abs += "/"
 		}
-		if u.RawQuery != "" {
+		if u.RawQuery != "" || u.ForceQuery {
 			abs += "?" + u.RawQuery
 		}
 		if u.Fragment != "" {
@@ -313,9 +313,6 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		if strings.HasSuffix(uri, "#") && !strings.HasSuffix(abs, "#") {
 			abs += "#"
 		}
-		if strings.HasSuffix(uri, "?") && !strings.HasSuffix(abs, "?") {
-			abs += "?"
-		}
 		return abs
 	}
 
-- 
2.43.0


From bd8493465a70b61bacf8e7cdc84fbcff93ba0313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:02 +0000
Subject: [PATCH 29/47] fix: no slash is added to a URL without authority, such
 as mailto:?subject=x

---
 readability.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index 9cc4fd0..6395293 100644
--- a/readability.go
+++ b/readability.go
@@ -288,7 +288,8 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		if u.Scheme != "" {
 			abs += u.Scheme + ":"
 		}
-		if u.Host != "" || u.User != nil || u.Scheme == "file" || strings.HasPrefix(u.Scheme, "http") {
+		hasAuthority := u.Host != "" || u.User != nil || u.Scheme == "file" || strings.HasPrefix(u.Scheme, "http")
+		if hasAuthority {
 			abs += "//"
 		}
 		if u.User != nil {
@@ -301,7 +302,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 			abs += strings.ReplaceAll(p, "/C%7C/", "/C:/")
 		} else if u.Opaque != "" {
 			abs += u.Opaque
-		} else {
+		} else if hasAuthority {
 			abs += "/"
 		}
 		if u.RawQuery != "" || u.ForceQuery {
-- 
2.43.0


From 03f368557bbf23011bb5480715f43b2efc8c5c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:24 +0000
Subject: [PATCH 30/47] fix: the content of a script is text, whatever markup
 it holds

---
 domparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index deeb810..1c9f2dd 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1107,7 +1107,7 @@ loop:
 				// If this isn't a void Element, read its child nodes
 				var localName = node.LocalName
 				if tt == html.StartTagToken {
-					if slices.Contains([]string{"script", "noscript"}, localName) {
+					if localName == "noscript" {
 						p.z.NextIsNotRawText()
 					}
 					p.readNode(node)
-- 
2.43.0


From 049187a5e16e6b101b012a97d76bb00485d8c538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:09 +0000
Subject: [PATCH 31/47] fix: an element with images or frames is not empty
 because it holds line breaks deeper down

---
 readability.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 6395293..c33ec37 100644
--- a/readability.go
+++ b/readability.go
@@ -1624,7 +1624,9 @@ func (r *Readability) hasSingleTagInsideElement(element *Node, tag string) bool
 func (r *Readability) isElementWithoutContent(n *Node) bool {
 	return n.NodeType == elementNode &&
 		len([]rune(strings.TrimSpace(n.GetTextContent()))) == 0 &&
-		(len(n.Children) == 0 || len(n.Children) == len(n.getElementsByTagName("br"))+len(n.getElementsByTagName("hr")))
+		r.everyNode(n.Children, func(child *Node) bool {
+			return child.TagName == "BR" || child.TagName == "HR"
+		})
 }
 
 // Determine whether element has any children block level elements.
-- 
2.43.0


From 2da77c9315601df4c2c2c4bcd9cc0dae184d1bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:22 +0000
Subject: [PATCH 32/47] fix: a lazy image's noscript replacement does not get
 the placeholder's source back

---
 readability.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/readability.go b/readability.go
index c33ec37..5296f23 100644
--- a/readability.go
+++ b/readability.go
@@ -1944,6 +1944,10 @@ func (r *Readability) fixLazyImages(root *Node) {
 			if attr.name == "src" || attr.name == "srcset" || attr.name == "alt" {
 				continue
 			}
+			// what unwrapNoscriptImages found a replacement for
+			if attr.name == "data-old-src" || attr.name == "data-old-srcset" {
+				continue
+			}
 			var copyTo string
 			if imgExtensionsWithSpacesAndNum.MatchString(attr.value) {
 				copyTo = "srcset"
-- 
2.43.0


From 7c7ccdd9b0711944e87994e8abaa0e1c9f9938b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:37 +0000
Subject: [PATCH 33/47] fix: a title that lost one word to a hierarchical
 separator is kept short

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 5296f23..d36d064 100644
--- a/readability.go
+++ b/readability.go
@@ -469,7 +469,7 @@ func (r *Readability) getArticleTitle() string {
 	// the original title.
 	var curTitleWordCount = wordCount(curTitle)
 	if curTitleWordCount <= 4 &&
-		(!titleHadHierarchicalSeparators || curTitleWordCount != wordCount(separators.ReplaceAllString(origTitle, ""))) {
+		(!titleHadHierarchicalSeparators || curTitleWordCount != wordCount(separators.ReplaceAllString(origTitle, ""))-1) {
 		curTitle = origTitle
 	}
 	return curTitle
-- 
2.43.0


From 30705d2526f8d8f6f0a1e6fc8e5741d7177907cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:40 +0000
Subject: [PATCH 34/47] fix: white space in the title is normalised before the
 title is taken apart

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index d36d064..a85ec16 100644
--- a/readability.go
+++ b/readability.go
@@ -401,7 +401,7 @@ func (r *Readability) simplifyNestedElements(articleContent *Node) {
 // Get the article title as an H1.
 func (r *Readability) getArticleTitle() string {
 	var doc = r.doc
-	var curTitle = strings.TrimSpace(doc.title)
+	var curTitle = multipleWhitespaces.ReplaceAllString(strings.TrimSpace(doc.title), " ")
 	var origTitle = curTitle
 
 	// If they had an element with id "title" in their HTML
-- 
2.43.0


From f8e601981c377460bea25658e3145277f29391ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:23 +0000
Subject: [PATCH 35/47] fix: compare the character threshold with characters,
 not bytes

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index a85ec16..2c33e5b 100644
--- a/readability.go
+++ b/readability.go
@@ -1210,7 +1210,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 		// grabArticle with different flags set. This gives us a higher likelihood of
 		// finding the content, and the sieve approach gives us a higher likelihood of
 		// finding the -right- content.
-		var textLength = len(r.getInnerText(articleContent, true))
+		var textLength = len([]rune(r.getInnerText(articleContent, true)))
 		if textLength < r.options.charThreshold {
 			parseSuccessful = false
 			page.SetInnerHTML(pageCacheHtml)
-- 
2.43.0


From 5a329a2c3fbb3598d7557f4058f3eb6c21476aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:07 +0000
Subject: [PATCH 36/47] fix: the text direction comes from the ancestors of the
 chosen attempt, also after the page is restored

---
 readability.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/readability.go b/readability.go
index 2c33e5b..5cd6825 100644
--- a/readability.go
+++ b/readability.go
@@ -92,6 +92,7 @@ type Readability struct {
 type attempt struct {
 	articleContent *Node
 	textLength     int
+	ancestors      []*Node
 }
 
 // New is the public constructor of Readability and it supports the following options:
@@ -1211,21 +1212,25 @@ func (r *Readability) grabArticle(page *Node) *Node {
 		// finding the content, and the sieve approach gives us a higher likelihood of
 		// finding the -right- content.
 		var textLength = len([]rune(r.getInnerText(articleContent, true)))
+		// The ancestors of the top candidate, as they are before the page is restored.
+		var ancestors = []*Node{parentOfTopCandidate, topCandidate}
+		ancestors = append(ancestors, r.getNodeAncestors(parentOfTopCandidate, 0)...)
+
 		if textLength < r.options.charThreshold {
 			parseSuccessful = false
 			page.SetInnerHTML(pageCacheHtml)
 
 			if r.flagIsActive(flagStripUnlikelys) {
 				r.removeFlag(flagStripUnlikelys)
-				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength})
+				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength, ancestors: ancestors})
 			} else if r.flagIsActive(flagWeightClasses) {
 				r.removeFlag(flagWeightClasses)
-				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength})
+				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength, ancestors: ancestors})
 			} else if r.flagIsActive(flagCleanConditionally) {
 				r.removeFlag(flagCleanConditionally)
-				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength})
+				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength, ancestors: ancestors})
 			} else {
-				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength})
+				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength, ancestors: ancestors})
 				// No luck after removing flags, just return the longest text we found during the different loops
 				slices.SortFunc(r.attempts, func(a, b *attempt) int {
 					return b.textLength - a.textLength
@@ -1235,14 +1240,13 @@ func (r *Readability) grabArticle(page *Node) *Node {
 					return nil
 				}
 				articleContent = r.attempts[0].articleContent
+				ancestors = r.attempts[0].ancestors
 				parseSuccessful = true
 			}
 		}
 
 		if parseSuccessful {
 			// Find out text direction from ancestors of final top candidate.
-			var ancestors = []*Node{parentOfTopCandidate, topCandidate}
-			ancestors = append(ancestors, r.getNodeAncestors(parentOfTopCandidate, 0)...)
 			r.someNode(ancestors, func(ancestor *Node) bool {
 				if ancestor.TagName == "" {
 					return false
-- 
2.43.0


From c3f2df1065a6c8ca2dea48bde732c11f8717d3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:22 +0000
Subject: [PATCH 37/47] fix: a paragraph that replaces its div is checked like
 any other node

---
 readability.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index 5cd6825..869a754 100644
--- a/readability.go
+++ b/readability.go
@@ -912,11 +912,12 @@ func (r *Readability) grabArticle(page *Node) *Node {
 				// element. DIVs with only a P element inside and no text content can be
 				// safely converted into plain P elements to avoid confusing the scoring
 				// algorithm with DIVs with are, in practice, paragraphs.
-				if r.hasSingleTagInsideElement(n, "P") && !isHidden(n.Children[0]) && r.getLinkDensity(n) < 0.25 {
+				if r.hasSingleTagInsideElement(n, "P") && r.getLinkDensity(n) < 0.25 {
 					var newNode = n.Children[0]
 					n.ParentNode.ReplaceChild(newNode, n)
 					n = newNode
-					elementsToScore = append(elementsToScore, n)
+					// the paragraph has not been looked at yet
+					continue
 				} else if !r.hasChildBlockElement(n) {
 					n = r.setNodeTag(n, "P")
 					elementsToScore = append(elementsToScore, n)
-- 
2.43.0


From 883355ff273741979cf328cda3a6047743f86a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:57 +0000
Subject: [PATCH 38/47] fix: the byline is not in the article when more than
 one attempt is needed

---
 readability.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/readability.go b/readability.go
index 869a754..7cc173d 100644
--- a/readability.go
+++ b/readability.go
@@ -748,16 +748,16 @@ func (r *Readability) textSimilarity(textA, textB string) float64 {
 }
 
 func (r *Readability) checkByline(n *Node, matchString string) bool {
-	if r.articleByline != "" {
-		return false
-	}
-
 	var rel = n.GetAttribute("rel")
 	var itemprop = n.GetAttribute("itemprop")
 
 	if (rel == "author" || strings.Contains(itemprop, "author") || byline.MatchString(matchString)) && r.isValidByline(n.GetTextContent()) {
-		r.articleByline = strings.TrimSpace(n.GetTextContent())
-		return true
+		var text = strings.TrimSpace(n.GetTextContent())
+		// A former attempt may have found it already.
+		if r.articleByline == "" || r.articleByline == text {
+			r.articleByline = text
+			return true
+		}
 	}
 
 	return false
@@ -812,6 +812,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 		}
 
 		var shouldRemoveTitleHeader bool = true
+		var foundByline bool
 
 		for n != nil {
 
@@ -837,7 +838,8 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			}
 
 			// Check to see if this node is a byline, and remove it if it is.
-			if r.checkByline(n, matchString) {
+			if !foundByline && r.checkByline(n, matchString) {
+				foundByline = true
 				n = r.removeAndGetNext(n)
 				continue
 			}
-- 
2.43.0


From 0a900611a6cdf0d4f37328dcbaf33e1c19240147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:25 +0000
Subject: [PATCH 39/47] fix: white space is ignored throughout a chain of line
 breaks

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 7cc173d..8189aa3 100644
--- a/readability.go
+++ b/readability.go
@@ -523,7 +523,7 @@ func (r *Readability) replaceBrs(n *Node) {
 		// If we find a <br> chain, remove the <br>s until we hit another node
 		// or non-whitespace. This leaves behind the first <br> in the chain
 		// (which will be replaced with a <p> later).
-		for next = r.nextNode(next); next != nil && next.TagName == "BR"; {
+		for next = r.nextNode(next); next != nil && next.TagName == "BR"; next = r.nextNode(next) {
 			replaced = true
 			var brSibling = next.NextSibling
 			if _, err := next.ParentNode.RemoveChild(next); err != nil {
-- 
2.43.0


From be502ab95d6707bc4943e83e9935a94c34ebdc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:14 +0000
Subject: [PATCH 40/47] fix: void elements need no slash: <br>, <img> and the
 like do not swallow what follows

---
 domparser.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index 1c9f2dd..3cf3dd6 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1015,6 +1015,7 @@ type domParser struct {
 	z       *html.Tokenizer
 	doc     *Node
 	options *Options
+	endTags map[string]bool // void elements whose end tag is in the document
 }
 
 func newDOMParser(opts ...Option) *domParser {
@@ -1106,7 +1107,7 @@ loop:
 
 				// If this isn't a void Element, read its child nodes
 				var localName = node.LocalName
-				if tt == html.StartTagToken {
+				if tt == html.StartTagToken && !p.isClosedVoid(localName) {
 					if localName == "noscript" {
 						p.z.NextIsNotRawText()
 					}
@@ -1137,9 +1138,25 @@ loop:
 	}
 }
 
+// isClosedVoid tells whether the start tag of a void element is all of it: HTML
+// needs neither a slash in it nor an end tag. An end tag is honoured, though,
+// when the document uses it.
+func (p *domParser) isClosedVoid(localName string) bool {
+	if !voidElems[localName] {
+		return false
+	}
+	used, known := p.endTags[localName]
+	if !known {
+		used = strings.Contains(p.html, "</"+localName+">")
+		p.endTags[localName] = used
+	}
+	return !used
+}
+
 // Parses an HTML string and returns a JS implementation of the Document.
 func (p *domParser) parse(htmlSrc, url string) *Node {
 	p.html = htmlSrc
+	p.endTags = map[string]bool{}
 	p.z = html.NewTokenizer(strings.NewReader(htmlSrc))
 	p.doc = newDocument(url)
 	p.z.AllowCDATA(true)
-- 
2.43.0


From c07f92fa03162658cb3196bb5065ca4f01b1847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:39 +0000
Subject: [PATCH 41/47] fix: track is a void element too

---
 domparser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/domparser.go b/domparser.go
index 3cf3dd6..b766337 100644
--- a/domparser.go
+++ b/domparser.go
@@ -305,6 +305,7 @@ var voidElems = map[string]bool{
 	"meta":    true,
 	"param":   true,
 	"source":  true,
+	"track":   true,
 	"wbr":     true,
 }
 
-- 
2.43.0


From 339eacd17178503c9f2c728832eb82f20e9b6045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:48 +0000
Subject: [PATCH 42/47] fix: the readerable test counts characters, not bytes

---
 readerable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readerable.go b/readerable.go
index 46babc6..2fcf907 100644
--- a/readerable.go
+++ b/readerable.go
@@ -97,7 +97,7 @@ func IsProbablyReaderable(htmlSource string, opts ...Option) bool {
 			return false
 		}
 
-		var textContentLength = len(strings.TrimSpace(textContent(n)))
+		var textContentLength = len([]rune(strings.TrimSpace(textContent(n))))
 		if textContentLength < options.minContentLength {
 			return false
 		}
-- 
2.43.0


From 918a32c49ad9f6100f943f88b2fd0ac1e6b3e1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:39 +0000
Subject: [PATCH 43/47] fix: a numeric character reference of any length is
 decoded, as in attributes

---
 domparser.go | 31 +------------------------------
 regexps.go   |  3 +--
 2 files changed, 2 insertions(+), 32 deletions(-)

diff --git a/domparser.go b/domparser.go
index b766337..1758fc1 100644
--- a/domparser.go
+++ b/domparser.go
@@ -32,7 +32,6 @@ import (
 	"log/slog"
 	"net/url"
 	"slices"
-	"strconv"
 	"strings"
 	"unicode/utf8"
 
@@ -41,14 +40,6 @@ import (
 
 // XML only defines these and the numeric ones:
 
-var entityReplacer = strings.NewReplacer(
-	"lt", `<`,
-	"gt", `>`,
-	"amp", `&`,
-	"quot", `"`,
-	"apos", `'`,
-)
-
 var reverseEntitySubsetReplacer = strings.NewReplacer(
 	`<`, "&lt;",
 	`>`, "&gt;",
@@ -75,27 +66,7 @@ func decodeHTML(s string) (string, error) {
 
 	// A single pass, so that the output of one replacement is never taken for
 	// (a part of) another reference.
-	var decodeErr error
-	s = htmlReferencesRgx.ReplaceAllStringFunc(s, func(ref string) string {
-		if !strings.HasPrefix(ref, "&#") {
-			return string([]rune(entityReplacer.Replace(ref))[1])
-		}
-		submatch := htmlCharCodesRgx.FindStringSubmatch(ref)
-		digits, base := submatch[1], 16
-		if digits == "" {
-			digits, base = submatch[2], 10
-		}
-		codePoint, err := strconv.ParseInt(digits, base, 64)
-		if err != nil {
-			decodeErr = err
-			return ""
-		}
-		return string(rune(codePoint))
-	})
-	if decodeErr != nil {
-		return "", decodeErr
-	}
-	return s, nil
+	return htmlReferencesRgx.ReplaceAllStringFunc(s, html.UnescapeString), nil
 }
 
 // When a style is set in JS, map it to the corresponding CSS attribute
diff --git a/regexps.go b/regexps.go
index d0cf51f..a53d964 100644
--- a/regexps.go
+++ b/regexps.go
@@ -36,8 +36,7 @@ var (
 	singleWhitespace     = regexp.MustCompile(`\s`)
 	singleDot            = regexp.MustCompile(`\.`)
 	// https://www.dcs.bbk.ac.uk/~ptw/teaching/DBM/XML/slide17.html
-	htmlReferencesRgx = regexp.MustCompile(`&(?:quot|amp|apos|lt|gt|#[xX][0-9a-fA-F]{1,4}|#[0-9]{1,5});`)
-	htmlCharCodesRgx  = regexp.MustCompile(`(?i)&#(?:x([0-9a-fA-F]{1,4})|([0-9]{1,5}));`)
+	htmlReferencesRgx = regexp.MustCompile(`&(?:quot|amp|apos|lt|gt|#[xX][0-9a-fA-F]+|#[0-9]+);`)
 	separators        = regexp.MustCompile(`[\|\-\\\/>»]+`)
 	dotSpaceOrDollar  = regexp.MustCompile(`\.( |$)`)
 	cdata             = regexp.MustCompile(`^\s*<!\[CDATA\[|\]\]>\s*$`)
-- 
2.43.0


From 089fa66626b9ca1216bf8c59575b82a0780a57e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:52 +0000
Subject: [PATCH 44/47] fix: text that begins with a bare '<' is kept

---
 domparser.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/domparser.go b/domparser.go
index 1758fc1..43e3d32 100644
--- a/domparser.go
+++ b/domparser.go
@@ -33,7 +33,6 @@ import (
 	"net/url"
 	"slices"
 	"strings"
-	"unicode/utf8"
 
 	"golang.org/x/net/html"
 )
@@ -1048,11 +1047,10 @@ loop:
 			{
 				textNode := newText()
 
-				data := p.z.Raw()
-				c, _ := utf8.DecodeRune(data)
-				txt := string(data)
+				txt := string(p.z.Raw())
 
-				if c != '<' {
+				// a script or style that begins with a comment is skipped
+				if !strings.HasPrefix(txt, "<!") && !strings.HasPrefix(txt, "<?") {
 					// A bare '<' would become markup if it is serialized next to
 					// other text than in the source.
 					textNode.SetInnerHTML(strings.ReplaceAll(txt, "<", "&lt;"))
-- 
2.43.0


From 330e2d5695305b3d635ff3c849aa6079e5fea7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:11 +0000
Subject: [PATCH 45/47] fix: shares of headings and lists in a block are
 measured in characters

---
 readability.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/readability.go b/readability.go
index 8189aa3..ad27c7f 100644
--- a/readability.go
+++ b/readability.go
@@ -1979,7 +1979,7 @@ func (r *Readability) fixLazyImages(root *Node) {
 }
 
 func (r *Readability) getTextDensity(e *Node, tags ...string) float64 {
-	var textLength = len(r.getInnerText(e, true))
+	var textLength = len([]rune(r.getInnerText(e, true)))
 	if textLength == 0 {
 		return 0
 	}
@@ -1987,7 +1987,7 @@ func (r *Readability) getTextDensity(e *Node, tags ...string) float64 {
 	var childrenLength = 0
 	var children = r.getAllNodesWithTag(e, tags...)
 	for _, child := range children {
-		childrenLength += len(r.getInnerText(child, true))
+		childrenLength += len([]rune(r.getInnerText(child, true)))
 	}
 	return float64(childrenLength) / float64(textLength)
 }
@@ -2016,9 +2016,9 @@ func (r *Readability) cleanConditionally(e *Node, tag string) {
 			var listLength = 0
 			var listNodes = r.getAllNodesWithTag(n, "ul", "ol")
 			for _, list := range listNodes {
-				listLength += len(r.getInnerText(list, true))
+				listLength += len([]rune(r.getInnerText(list, true)))
 			}
-			isList = float64(listLength)/float64(len(r.getInnerText(n, true))) > 0.9
+			isList = float64(listLength)/float64(len([]rune(r.getInnerText(n, true)))) > 0.9
 		}
 
 		if tag == "table" && isDataTable(n) {
-- 
2.43.0


From 9b61b771047774ac4a02f5483c821f2c7d3a65d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:23 +0000
Subject: [PATCH 46/47] fix: name and headline of JSON-LD are trimmed when they
 differ, too

---
 readability.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index ad27c7f..cbcea2d 100644
--- a/readability.go
+++ b/readability.go
@@ -1365,9 +1365,9 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 				var headlineMatchs = r.textSimilarity(headline.(string), title) > 0.75
 
 				if headlineMatchs && !nameMatches {
-					meta.title = headline.(string)
+					meta.title = strings.TrimSpace(headline.(string))
 				} else {
-					meta.title = name.(string)
+					meta.title = strings.TrimSpace(name.(string))
 				}
 			} else if _, ok := name.(string); ok {
 				meta.title = strings.TrimSpace(name.(string))
-- 
2.43.0


From 0e9e959a3c209bfe0f1ea81451a709c01a7ebc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:07 +0000
Subject: [PATCH 47/47] fix: of several declarations of a style property the
 last or the important one counts

---
 domparser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/domparser.go b/domparser.go
index 43e3d32..f7a2329 100644
--- a/domparser.go
+++ b/domparser.go
@@ -776,15 +776,20 @@ func (s *style) getStyle(jsName string) string {
 		return ""
 	}
 
+	var value string
 	var styles = strings.Split(attr, ";")
 	for i := 0; i < len(styles); i++ {
 		var style = strings.Split(styles[i], ":")
 		var name = strings.TrimSpace(style[0])
 		if strings.EqualFold(name, cssName) && len(style) > 1 {
-			return strings.TrimSpace(style[1])
+			// The last declaration counts, unless one before it is important.
+			var declared = strings.TrimSpace(style[1])
+			if declared != "" && (strings.Contains(declared, "!") || !strings.Contains(value, "!")) {
+				value = declared
+			}
 		}
 	}
-	return ""
+	return value
 }
 
 /*
-- 
2.43.0

