From b917e89f7395acf4d19d1f8e47e9d5b5031c005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 01/63] fix: do not crash on internal links without closing
 brackets during clean-up

---
 src/parser/cleaner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index a02a8f8..9ab8649 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -77,6 +77,10 @@ func (t *Tokenizer) removeUnwantedInternalLinks(content string) string {
 
 		if cursor == "[[" {
 			endIndex := FindCorrespondingCloseToken(content, i+2, "[", "]")
+			if endIndex == -1 || !strings.HasPrefix(content[endIndex:], "]]") {
+				// This link is never closed -> move on in the normal text
+				continue
+			}
 
 			totalLinkContent := content[i+2 : endIndex]
 			linkSegments := strings.SplitN(totalLinkContent, ":", -1)
-- 
2.43.0


From 3e31f211859ec55b779ead7b3e726e9400d9c0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 02/63] fix: do not crash on internal links without target
 article

---
 src/parser/link.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser/link.go b/src/parser/link.go
index 83c24c1..cc1e592 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -90,7 +90,16 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 				continue
 			}
 
-			if linkTarget[0] == ':' {
+			if linkTarget == "" {
+				// There's no article to link to, e.g. when linking to a section of the current page ("[[#foo]]").
+				linkText = strings.TrimSpace(possibleLinkWikitext)
+				if linkText == "" {
+					// No actual link found, just brackets.
+					resultSegments = append(resultSegments, openingBrackets)
+					resultSegments = append(resultSegments, splitItem)
+					continue
+				}
+			} else if linkTarget[0] == ':' {
 				// A link starting with ":" indicates e.g. a link to a category. Because we have no delimiter here, the
 				// link text is the part behind the last ":".
 				linkSegments := strings.SplitN(linkTarget, ":", -1)
-- 
2.43.0


From ba80d294d4d266a5d2c98d8c44d9c69d272626fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 03/63] fix: do not crash on unclosed nowiki tags

---
 src/parser/nowiki.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/nowiki.go b/src/parser/nowiki.go
index 47914a2..9575853 100644
--- a/src/parser/nowiki.go
+++ b/src/parser/nowiki.go
@@ -23,6 +23,10 @@ func (t *Tokenizer) parseNowiki(content string) string {
 
 		if util.EqualsIgnoreCase(cursor, nowikiStart) {
 			endIndex := FindCorrespondingCloseTokenIgnoreCase(content, i+nowikiStartLen, nowikiStart, nowikiEnd)
+			if endIndex == -1 {
+				// The tag is never closed -> leave it as normal text
+				continue
+			}
 
 			token := NowikiToken{
 				Content: content[i+nowikiStartLen : endIndex],
-- 
2.43.0


From 0dda5aa80356b0c865a40152519610a0f80ab1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 04/63] fix: do not crash on unclosed reference tags

---
 src/parser/reference.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/reference.go b/src/parser/reference.go
index 1dc66db..63a674b 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -70,6 +70,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 		if startEndIndex == -1 {
 			// XML for <ref not closed -> broken wikitext
 			sigolo.Errorf("XML element for reference start '%s' not closed (i.e. missing '%s'). Text around this location: ...%s...", refDefStart, xmlClosing, util.GetTextAround(content, i, 50))
+			continue
 		}
 
 		if referencePlaceholderEndRegex.MatchString(content[i:startEndIndex+1]) || referencePlaceholderShortRegex.MatchString(content[i:startEndIndex+1]) {
@@ -121,6 +122,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 				if refEndIndex == -1 {
 					// No end token found -> probably unsupported wikitext syntax (like nested refs)
 					sigolo.Errorf("No end-part for reference start '%s' found. Text around this location: ...%s...", refDefStart, util.GetTextAround(content, i, 50))
+					continue
 				}
 				refNumberCounterForCurrentGroup, content = t.parseReferenceDefinition(content, i, startEndIndex, refEndIndex, refNumberCounterForCurrentGroup, nameAttributeValue, nameToRefNumberForCurrentGroup, refNumberToContentForCurrentGroup, cursorWithinReferencePlaceholder, refDefLongEndLen)
 			}
-- 
2.43.0


From 84bdc9ec3d61e319f6a7a6295e954cdcbef4bd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 05/63] fix: do not crash on images without file name

---
 src/parser/image.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/image.go b/src/parser/image.go
index 25926ec..36998fa 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -65,6 +65,11 @@ func (t *Tokenizer) escapeImages(content string) string {
 		}
 	}
 
+	if filename == "" {
+		// Without a file name, there's no image to show
+		return ""
+	}
+
 	sigolo.Tracef("Found image: %s", filename)
 
 	// Replace spaces with underscore because wikimedia doesn't know spaces in file names:
-- 
2.43.0


From 30eff616981d6f8410b5192eddd80176154ef33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 06/63] fix: do not crash on image maps without content or with
 an ignored image

---
 src/parser/image.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index 36998fa..6f092b1 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -183,11 +183,18 @@ func (t *Tokenizer) parseImageMaps(content string) string {
 			if line == "" {
 				// if empty -> delete this line i, the next line contains the image
 				lines = append(lines[:i], lines[i+1:]...)
+				if i >= len(lines) {
+					// The image map has no content at all
+					break
+				}
 				line = lines[i]
 			}
 
 			// "line" contains definitely the image of the imagemap
-			lines[i] = fmt.Sprintf("[[%s]]", t.escapeImages(line))
+			lines[i] = t.escapeImages(line)
+			if lines[i] != "" {
+				lines[i] = fmt.Sprintf("[[%s]]", lines[i])
+			}
 
 			withinImageMap = true
 			continue
-- 
2.43.0


From 3bf8885282c64e73910011a89642548e915986ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 07/63] fix: do not crash on images without closing brackets

---
 src/parser/image.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index 6f092b1..32fe477 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -208,10 +208,22 @@ func (t *Tokenizer) parseImageMaps(content string) string {
 func (t *Tokenizer) parseImages(content string) string {
 	var err error
 
+	// Everything before this index has already been processed
+	searchIndex := 0
+
 	startIndex := internalLinkStartRegex.FindStringIndex(content)
 	for startIndex != nil {
+		startIndex[0] += searchIndex
+		startIndex[1] += searchIndex
+
 		// Use the end-index of the match, since it points to the ":" of the "[[File:" match
 		endIndex := FindCorrespondingCloseToken(content, startIndex[1], "[", "]")
+		if endIndex == -1 || !strings.HasPrefix(content[endIndex:], "]]") {
+			// These brackets are never closed -> leave them as normal text and find next image
+			searchIndex = startIndex[0] + 2
+			startIndex = internalLinkStartRegex.FindStringIndex(content[searchIndex:])
+			continue
+		}
 
 		imageContent := content[startIndex[1]:endIndex]
 		imageContent = t.tokenizeContent(t, imageContent)
@@ -307,7 +319,7 @@ func (t *Tokenizer) parseImages(content string) string {
 		}
 
 		// Find next image
-		startIndex = internalLinkStartRegex.FindStringIndex(content)
+		startIndex = internalLinkStartRegex.FindStringIndex(content[searchIndex:])
 	}
 
 	return content
-- 
2.43.0


From fa8245ada796894eedd5e8208cef59832edc2963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 08/63] fix: do not crash on tables that are not closed

---
 src/parser/table.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 9595b5b..9485260 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -116,7 +116,10 @@ func (t *Tokenizer) tokenizeTable(content string) TableToken {
 		} else if isHeadingStart {
 			rowToken, i = t.tokenizeTableRow(lines, i)
 		} else if isRowStart {
-			if strings.HasPrefix(lines[i+1], "!") {
+			if i+1 >= len(lines) {
+				// table is not closed and ends with an empty row
+				break
+			} else if strings.HasPrefix(lines[i+1], "!") {
 				// this table row is a heading
 				rowToken, i = t.tokenizeTableRow(lines, i+1)
 			} else if strings.HasPrefix(lines[i+1], "|") {
@@ -168,11 +171,12 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 
 		// Collect all normal text rows until the next row or column starts.
 		i++
-		for l := strings.TrimSpace(lines[i]); !strings.HasPrefix(l, "|") && !strings.HasPrefix(l, "!"); {
+		for ; i < len(lines); i++ {
+			l := strings.TrimSpace(lines[i])
+			if strings.HasPrefix(l, "|") || strings.HasPrefix(l, "!") {
+				break
+			}
 			line += "\n" + l
-
-			i++
-			l = lines[i]
 		}
 		// Now the index is at the start of the next column/row -> reduce by 1 for later parsing.
 		i -= 1
@@ -217,11 +221,12 @@ func (t *Tokenizer) tokenizeTableCaption(lines []string, i int) (TableCaptionTok
 
 	// collect all lines from this caption
 	i++
-	for l := strings.TrimSpace(lines[i]); !strings.HasPrefix(l, "|") && !strings.HasPrefix(l, "!"); {
+	for ; i < len(lines); i++ {
+		l := strings.TrimSpace(lines[i])
+		if strings.HasPrefix(l, "|") || strings.HasPrefix(l, "!") {
+			break
+		}
 		captionLines += "\n" + l
-
-		i++
-		l = strings.TrimSpace(lines[i])
 	}
 
 	captionLines = strings.TrimPrefix(captionLines, "|+")
-- 
2.43.0


From ead4217e7b4caa672c47e57021b6aeb8c6321877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 09/63] fix: do not loop forever on text that looks like a
 template placeholder

---
 src/parser/template.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/template.go b/src/parser/template.go
index aa5dd2d..38a2b90 100644
--- a/src/parser/template.go
+++ b/src/parser/template.go
@@ -35,7 +35,11 @@ func (t *Tokenizer) evaluateTemplates(content string) (string, error) {
 	// Replace all template placeholders with the actual content until no placeholders are unresolved. This is not very
 	// elegant or fast but due to the nesting a simple and working approach.
 	sigolo.Debugf("Replace %d template placeholder with evaluated content", len(placeholderToContent))
-	for strings.Contains(content, templatePlaceholderPrefix) {
+	replacedPlaceholder := true
+	for replacedPlaceholder && strings.Contains(content, templatePlaceholderPrefix) {
+		// When nothing has been replaced, the remaining occurrences are normal text and not our placeholders.
+		replacedPlaceholder = false
+
 		sigolo.Tracef("Check content for template placeholders (%d remain)", len(placeholderToContent))
 
 		for key, template := range placeholderToContent {
@@ -45,6 +49,7 @@ func (t *Tokenizer) evaluateTemplates(content string) (string, error) {
 
 			if containsPlaceholder {
 				content = strings.ReplaceAll(content, placeholder, template)
+				replacedPlaceholder = true
 				sigolo.Tracef("Replaced template placeholder %s in content", key)
 			}
 		}
-- 
2.43.0


From 843cca6471bba9e47f540cf2dd45ce8f86ffc00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 10/63] fix: do not try all combinations of bold and italic
 tokens on unbalanced text

---
 src/parser/formatting.go | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/parser/formatting.go b/src/parser/formatting.go
index 4ef7e99..98b7f26 100644
--- a/src/parser/formatting.go
+++ b/src/parser/formatting.go
@@ -43,12 +43,12 @@ func (t *Tokenizer) parseBoldAndItalic(content string) string {
 
 		var stack []BoldItalicStackItem
 		// First try everything without repairing crossovers. Crossovers can happen even if a normal solution is possible.
-		success, stack = t.tokenizeBoldAndItalic(content, index, stack, false, false, false)
+		success, stack = t.tokenizeBoldAndItalic(content, index, stack, false, false, false, map[boldItalicState]bool{})
 		if !success {
 			sigolo.Warnf("Unable to parse bold and italic tags WITHOUT repairing crossovers in: %s. I'll try it again with repairing crossovers enabled.", util.TruncString(content))
 			stack = []BoldItalicStackItem{}
 			// Okay, not try to repair crossovers.
-			success, stack = t.tokenizeBoldAndItalic(content, index, stack, true, false, false)
+			success, stack = t.tokenizeBoldAndItalic(content, index, stack, true, false, false, map[boldItalicState]bool{})
 
 			if !success {
 				sigolo.Warnf("Unable to parse bold and italic tags EVEN WITH repairing crossovers in: %s. I'll just use the raw content.", util.TruncString(content))
@@ -91,9 +91,36 @@ func (t *Tokenizer) parseBoldAndItalic(content string) string {
 	return content
 }
 
+// boldItalicState contains everything the success of tokenizeBoldAndItalic depends on.
+type boldItalicState struct {
+	index        int
+	isBoldOpen   bool
+	isItalicOpen bool
+	isStackEmpty bool
+	lastItemType BoldItalicStackItemType
+}
+
 // tokenizeBoldAndItalic takes the content, an index in that content, if this index is currently in a bold or italic
 // block and a stack to parse the content for bold and italic blocks. It returns a success-bool and the resulting stack.
-func (t *Tokenizer) tokenizeBoldAndItalic(content string, index int, stack []BoldItalicStackItem, repairCrossovers, isBoldOpen, isItalicOpen bool) (bool, []BoldItalicStackItem) {
+// States, which are known to not be parsable, are stored in failedStates. This prevents trying the same state again for
+// each combination of preceding tokens, which would take forever on long texts.
+func (t *Tokenizer) tokenizeBoldAndItalic(content string, index int, stack []BoldItalicStackItem, repairCrossovers, isBoldOpen, isItalicOpen bool, failedStates map[boldItalicState]bool) (bool, []BoldItalicStackItem) {
+	state := boldItalicState{index: index, isBoldOpen: isBoldOpen, isItalicOpen: isItalicOpen, isStackEmpty: len(stack) == 0}
+	if len(stack) > 0 {
+		state.lastItemType = stack[len(stack)-1].itemType
+	}
+	if failedStates[state] {
+		return false, stack
+	}
+
+	success, newStack := t.tokenizeBoldAndItalicState(content, index, stack, repairCrossovers, isBoldOpen, isItalicOpen, failedStates)
+	if !success {
+		failedStates[state] = true
+	}
+	return success, newStack
+}
+
+func (t *Tokenizer) tokenizeBoldAndItalicState(content string, index int, stack []BoldItalicStackItem, repairCrossovers, isBoldOpen, isItalicOpen bool, failedStates map[boldItalicState]bool) (bool, []BoldItalicStackItem) {
 	// The idea of this approach:
 	// Find the next possible match for a start/stop of an italic/bold block. Put that item on the stack (e.g.
 	// BOLD_START), increase the index and recursively move on to further parse the content. Whenever something's
@@ -136,7 +163,7 @@ func (t *Tokenizer) tokenizeBoldAndItalic(content string, index int, stack []Bol
 			}
 
 			if continueParsingAsItalicToken {
-				success, newStack := t.tokenizeBoldAndItalic(content, index+2, newStack, repairCrossovers, isBoldOpen, !isItalicOpen)
+				success, newStack := t.tokenizeBoldAndItalic(content, index+2, newStack, repairCrossovers, isBoldOpen, !isItalicOpen, failedStates)
 
 				if success {
 					// path went well -> end recursion and return
@@ -171,7 +198,7 @@ func (t *Tokenizer) tokenizeBoldAndItalic(content string, index int, stack []Bol
 				}
 			}
 
-			success, newStack := t.tokenizeBoldAndItalic(content, index+3, newStack, repairCrossovers, !isBoldOpen, isItalicOpen)
+			success, newStack := t.tokenizeBoldAndItalic(content, index+3, newStack, repairCrossovers, !isBoldOpen, isItalicOpen, failedStates)
 
 			if success {
 				// path went well -> end recursion and return
-- 
2.43.0


From de0837e340e7120288f81c9db88b2afef8d685d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 11/63] fix: do not fail on dollar signs in texts with tokens

---
 src/generator/expand.go | 66 ++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 40 deletions(-)

diff --git a/src/generator/expand.go b/src/generator/expand.go
index a3b0e54..eda9b5d 100644
--- a/src/generator/expand.go
+++ b/src/generator/expand.go
@@ -71,7 +71,7 @@ func expand(expansionHandler ExpansionHandler, content interface{}) (string, err
 func expandString(g ExpansionHandler, content string) (string, error) {
 	content = g.expandMarker(content)
 
-	matches := tokenRegex.FindAllString(content, -1)
+	matches := tokenRegex.FindAllStringIndex(content, -1)
 
 	if len(matches) == 0 {
 		// no token in content
@@ -79,51 +79,37 @@ func expandString(g ExpansionHandler, content string) (string, error) {
 	}
 
 	// Index where pure text starts (e.g. after a token)
-	textSegmentStartIndex := -1
+	textSegmentStartIndex := 0
 	newContent := ""
 
-	for i := 0; i < len(content); i++ {
-		if i < len(content)-1 && content[i:i+2] == "$$" {
-			// We found a token start -> Expand content before token and the token itself
-
-			// 1. Expand normal text before token (if there is any text before the token)
-			if textSegmentStartIndex != -1 {
-				pureTextSegment := content[textSegmentStartIndex:i]
-				expandedPureTextSegment := g.expandSimpleString(pureTextSegment)
-				newContent += expandedPureTextSegment
-			}
-
-			// 2. Expand token and its content
-			tokenEndIndex := parser.FindCorrespondingCloseToken(content, i+2, "$$", "$$")
-			tokenKey := content[i+2 : tokenEndIndex]
-
-			tokenContent, hasTokenKey := g.getToken("$$" + tokenKey + "$$")
-			if !hasTokenKey {
-				return "", errors.Errorf("Token key %s not found in token map", tokenKey)
-			}
-			sigolo.Tracef("Found token %s -> %#v", tokenKey, tokenContent)
-
-			expandedContent, err := expand(g, tokenContent)
-			if err != nil {
-				return "", err
-			}
-
-			newContent += expandedContent
-
-			// Skip the token with its ending and continue after it. Only "+1" because the loop ads another "+1" so that the whole token ending of length 2 is skipped.
-			i = tokenEndIndex + 1
-			textSegmentStartIndex = -1
-		} else if textSegmentStartIndex == -1 {
-			// When index is unset -> set it and therefore remember the start of a pure text segment
-			textSegmentStartIndex = i
+	for _, match := range matches {
+		// 1. Expand normal text before token (if there is any text before the token)
+		if textSegmentStartIndex < match[0] {
+			pureTextSegment := content[textSegmentStartIndex:match[0]]
+			newContent += g.expandSimpleString(pureTextSegment)
 		}
+
+		// 2. Expand token and its content
+		tokenKey := content[match[0]:match[1]]
+
+		tokenContent, hasTokenKey := g.getToken(tokenKey)
+		if !hasTokenKey {
+			return "", errors.Errorf("Token key %s not found in token map", tokenKey)
+		}
+		sigolo.Tracef("Found token %s -> %#v", tokenKey, tokenContent)
+
+		expandedContent, err := expand(g, tokenContent)
+		if err != nil {
+			return "", err
+		}
+
+		newContent += expandedContent
+		textSegmentStartIndex = match[1]
 	}
 
 	// Expand the part behind the last token (if it exists)
-	if textSegmentStartIndex != -1 {
-		pureTextSegment := content[textSegmentStartIndex:]
-		expandedPureTextSegment := g.expandSimpleString(pureTextSegment)
-		newContent += expandedPureTextSegment
+	if textSegmentStartIndex < len(content) {
+		newContent += g.expandSimpleString(content[textSegmentStartIndex:])
 	}
 
 	return newContent, nil
-- 
2.43.0


From f5cee9ec0da78f31ae45368918613f1d27ee99d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 12/63] fix: do not interpret the content of math tags as
 wikitext

---
 src/parser/tokenizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index 8220842..5d2b9c2 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -139,7 +139,9 @@ func tokenizeContent(t *Tokenizer, content string) string {
 	for {
 		originalContent := content
 
+		// Math and nowiki might contain anything that looks like wikitext, so they have to be handled first.
 		content = t.parseNowiki(content)
+		content = t.parseMath(content)
 
 		content = t.parseBoldAndItalic(content)
 		content = t.parseHeadings(content)
@@ -151,7 +153,6 @@ func tokenizeContent(t *Tokenizer, content string) string {
 		content = t.parseImages(content)
 
 		content = t.parseExternalLinks(content)
-		content = t.parseMath(content)
 		content = t.parseLists(content)
 		content = t.parseTables(content)
 		content = t.parseParagraphs(content)
-- 
2.43.0


From 3209fd5a9469e7343c25c56036d4c2643e5778df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 13/63] fix: keep equals signs in heading texts and in lines
 without heading text

---
 src/parser/heading.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/heading.go b/src/parser/heading.go
index 17473f6..5930995 100644
--- a/src/parser/heading.go
+++ b/src/parser/heading.go
@@ -20,9 +20,10 @@ func (t *Tokenizer) parseHeadings(content string) string {
 		for i := 0; i < len(lines); i++ {
 			line := strings.TrimSpace(lines[i])
 
-			if strings.HasPrefix(line, headingMediawikiMarker) && strings.HasSuffix(line, headingMediawikiMarker) {
-				headingText := strings.ReplaceAll(line, headingMediawikiMarker, "")
-				headingText = strings.TrimSpace(headingText)
+			// There must be some text between the two markers, otherwise it's just a line of "=" characters.
+			if len(line) > 2*depth && strings.HasPrefix(line, headingMediawikiMarker) && strings.HasSuffix(line, headingMediawikiMarker) {
+				// Only remove the markers at the beginning and end, the text itself might contain "=" as well.
+				headingText := strings.TrimSpace(line[depth : len(line)-depth])
 
 				token := t.getToken(TOKEN_HEADING)
 				t.setRawToken(token, HeadingToken{
-- 
2.43.0


From 066597c4af1d1cfd14f3de3a7fc494c569a6fdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:02 +0000
Subject: [PATCH 14/63] fix: do not merge lines when removing a comment with
 text behind it

---
 src/parser/cleaner.go | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 9ab8649..5372a1a 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -35,36 +35,35 @@ func (t *Tokenizer) removeComments(content string) string {
 	//   3. Only append the non-comment parts of the splits to the result segments
 
 	splitContent := strings.Split(content, "-->")
-	var resultSegments []string
+	result := ""
 
 	for i, splitItem := range splitContent {
 		if i == len(splitContent)-1 {
 			// The last string is never the end of a comment. It's either an empty string (in case the content directly
 			// ends with a comment) or it's the text after the last comment.
-			resultSegments = append(resultSegments, splitItem)
+			result += splitItem
 			continue
 		}
 
-		segments := strings.Split(splitItem, "<!--")
-		if len(segments) == 1 {
-			resultSegments = append(resultSegments, segments...)
-			resultSegments = append(resultSegments, "-->")
-		} else {
-			nonCommentSegment := segments[0]
-
-			// Remove potentially trailing newline:
-			if len(nonCommentSegment) > 0 && nonCommentSegment[len(nonCommentSegment)-1] == '\n' {
-				// If this segments ends with a newline, the comment following it started with a newline. We remove the
-				// newline, because otherwise, there will be additional blank lines between former comments. Example:
-				// "foo\n<!--comment-->\nbar"  would turn into  "foo\n\nbar"  instead of  "foo\nbar"
-				nonCommentSegment = nonCommentSegment[:len(nonCommentSegment)-1]
-			}
+		nonCommentSegment, _, hasComment := strings.Cut(splitItem, "<!--")
+		result += nonCommentSegment
+		if !hasComment {
+			result += "-->"
+			continue
+		}
 
-			resultSegments = append(resultSegments, nonCommentSegment)
+		// Remove potentially trailing newline:
+		commentEndsContent := i == len(splitContent)-2 && splitContent[i+1] == ""
+		if commentEndsContent || strings.HasPrefix(splitContent[i+1], "\n") {
+			// If the text before the comment ends with a newline, the comment started a new line and there's nothing
+			// else in this line. We remove the newline, because otherwise, there will be additional blank lines between
+			// former comments. Example:
+			// "foo\n<!--comment-->\nbar"  would turn into  "foo\n\nbar"  instead of  "foo\nbar"
+			result = strings.TrimSuffix(result, "\n")
 		}
 	}
 
-	return strings.Join(resultSegments, "")
+	return result
 }
 
 // removeUnwantedInternalLinks removes all kind of unwanted links. This method leaves all allowed internal links
-- 
2.43.0


From 0061f9fd74b894e3e047590d54a05f73aa5bfb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 15/63] fix: keep links with a colon in their display text

---
 src/parser/cleaner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 5372a1a..1a7cfa0 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -82,7 +82,9 @@ func (t *Tokenizer) removeUnwantedInternalLinks(content string) string {
 			}
 
 			totalLinkContent := content[i+2 : endIndex]
-			linkSegments := strings.SplitN(totalLinkContent, ":", -1)
+			// Only the link target might contain prefixes, colons in the display text are normal text.
+			linkTarget, _, _ := strings.Cut(totalLinkContent, "|")
+			linkSegments := strings.SplitN(linkTarget, ":", -1)
 			allPrefixes := linkSegments[:len(linkSegments)-1]
 
 			// It's possible to link categories with a leading colon, e.g. [[:SomeCategory:SomeLinkText]]. They should
-- 
2.43.0


From 3e698677d4484de90e482b23d054537c4d3eba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:33 +0000
Subject: [PATCH 16/63] fix: keep paragraphs starting and ending with bold text
 in front of headings

---
 src/parser/cleaner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 1a7cfa0..4bc1099 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -301,7 +301,8 @@ func (t *Tokenizer) walkSection(i int, lines []string, previousHeadingDepth int)
 func (t *Tokenizer) headingDepth(line string) int {
 	if !strings.HasPrefix(line, "=") || !strings.HasSuffix(line, "=") {
 		// No real heading. But maybe a semi-heading (line with only bold text)?
-		if strings.HasPrefix(line, "'''") && strings.HasSuffix(line, "'''") {
+		isBold := len(line) > 6 && strings.HasPrefix(line, "'''") && strings.HasSuffix(line, "'''")
+		if isBold && !strings.Contains(line[3:len(line)-3], "'''") {
 			return semiHeadingDepth
 		}
 		// Not even semi-heading -> No heading at all
-- 
2.43.0


From c95860985238536ea2155e09ba1ecc3662ac6e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 17/63] fix: keep parameters of trailing templates and
 templates with a matching prefix

---
 src/parser/cleaner.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 4bc1099..26bcc2e 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -158,8 +158,8 @@ func (t *Tokenizer) handleUnwantedAndTrailingTemplates(content string) string {
 				content = strings.Replace(content, templateText, "", 1)
 
 				// Collect templates that should be moved to the bottom of the article
-				if util.Contains(trailingTemplates, templateName) {
-					foundTrailingTemplates = append(foundTrailingTemplates, templateName)
+				if util.HasAnyPrefix(templateName, trailingTemplates...) {
+					foundTrailingTemplates = append(foundTrailingTemplates, templateText)
 				}
 
 				// Because the template was removed, we have to start from the original location again in the next
@@ -171,7 +171,7 @@ func (t *Tokenizer) handleUnwantedAndTrailingTemplates(content string) string {
 
 	// Re-add trailing templates to the bottom of the article
 	for _, foundTrailingTemplate := range foundTrailingTemplates {
-		content += "\n{{" + foundTrailingTemplate + "}}"
+		content += "\n" + foundTrailingTemplate
 	}
 
 	return content
-- 
2.43.0


From 9adc1d996fbaa472a1fd81b91cbb399b01327eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 18/63] fix: number references in headings together with the
 other references

---
 src/parser/tokenizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index 5d2b9c2..498b9b1 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -144,8 +144,9 @@ func tokenizeContent(t *Tokenizer, content string) string {
 		content = t.parseMath(content)
 
 		content = t.parseBoldAndItalic(content)
-		content = t.parseHeadings(content)
+		// References have to be handled before any nested content (e.g. of headings) is tokenized to number them correctly.
 		content = t.parseReferences(content)
+		content = t.parseHeadings(content)
 		content = t.parseInternalLinks(content)
 
 		content = t.parseGalleries(content)
-- 
2.43.0


From c8644da0d64d60c0fa3737d085895d0c207f534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:33 +0000
Subject: [PATCH 19/63] fix: do not skip references directly behind other
 reference tags

---
 src/parser/reference.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/reference.go b/src/parser/reference.go
index 63a674b..772af5c 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -86,7 +86,9 @@ func (t *Tokenizer) parseReferences(content string) string {
 			refNumberCounterForCurrentGroup := refNumberCounter[currentPlaceholderGroup]
 			refNumberToContentForCurrentGroup := refNumberToContent[currentPlaceholderGroup]
 
+			contentAfterLen := len(content) - startEndIndex - 1
 			content = t.parseReferenceEndPlaceholder(content, i, startEndIndex, refNumberCounterForCurrentGroup, refNumberToContentForCurrentGroup)
+			i = len(content) - contentAfterLen - 1 // Continue right behind the list of references
 			cursorWithinReferencePlaceholder = false
 			currentPlaceholderGroup = ""
 		} else if referencePlaceholderStartRegex.MatchString(content[i : startEndIndex+1]) {
@@ -94,6 +96,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 			// TODO indices correct?
 			currentPlaceholderGroup = t.getGroupOrDefault(content[i:startEndIndex])
 			content = content[0:i] + content[startEndIndex+1:] // Remove tag from content
+			i--                                                // Compensate "i++" to not skip the character behind the removed tag
 			cursorWithinReferencePlaceholder = true
 		} else {
 			// Tag like "<ref name=..." or "<ref>..." found
@@ -111,6 +114,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 			nameToRefNumberForCurrentGroup := nameToRefNumber[groupName]
 			refNumberToContentForCurrentGroup := refNumberToContent[groupName]
 			refNumberCounterForCurrentGroup := refNumberCounter[groupName]
+			contentLen := len(content)
 
 			isReferenceUsage := content[startEndIndex-1] == '/' // Reference definitions end with "/>" instead of "</ref>"
 			if isReferenceUsage {
@@ -128,6 +132,10 @@ func (t *Tokenizer) parseReferences(content string) string {
 			}
 
 			refNumberCounter[groupName] = refNumberCounterForCurrentGroup
+
+			if cursorWithinReferencePlaceholder && len(content) < contentLen {
+				i-- // Compensate "i++" to not skip the character behind the removed definition
+			}
 		}
 	}
 
-- 
2.43.0


From 12d74a9f8d549c367bc50b6c7ab747bcb52bd7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 20/63] fix: keep the text of a reference when it is reused by
 an empty definition

---
 src/parser/reference.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/reference.go b/src/parser/reference.go
index 772af5c..2a9f6a8 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -221,7 +221,11 @@ func (t *Tokenizer) parseReferenceDefinition(content string, i int, startEndInde
 		}
 	}
 
-	refNumberToContent[refNumber] = t.tokenizeContent(t, content[startEndIndex+1:refEndIndex])
+	refText := content[startEndIndex+1 : refEndIndex]
+	if nameAttributeValue == "" || strings.TrimSpace(refText) != "" {
+		// An empty named reference is just another usage and must not replace the actual text of the reference.
+		refNumberToContent[refNumber] = t.tokenizeContent(t, refText)
+	}
 
 	if !cursorWithinReferencePlaceholder {
 		tokenKey := t.getToken(TOKEN_REF_USAGE)
-- 
2.43.0


From fabae27f87d852238820dae98021a4d744eb3793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 21/63] fix: support single quotes and spaces in attributes of
 references

---
 src/parser/pattern.go   |  6 ++++++
 src/parser/reference.go | 33 ++++++++-------------------------
 2 files changed, 14 insertions(+), 25 deletions(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 9e991e5..4ed199d 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -57,6 +57,12 @@ var (
 	referencePlaceholderShortRegex = regexp.MustCompile(`(?i)<references.*?/\s*>`) // <references />
 	referencePlaceholderStartRegex = regexp.MustCompile(`(?i)<references.*?\s*>`)  // <references group="foo" >
 	referencePlaceholderEndRegex   = regexp.MustCompile(`(?i)</references\s*>`)    // </references>
+
+	// Attributes of references, e.g. »name="foo bar"«, »name='foo bar'« or »name=foo«
+	referenceAttributeRegexes = map[string]*regexp.Regexp{
+		"name":  regexp.MustCompile(`\sname\s*=\s*(?:"([^"]*)|'([^']*)|([^\s/>]*))`),
+		"group": regexp.MustCompile(`\sgroup\s*=\s*(?:"([^"]*)|'([^']*)|([^\s/>]*))`),
+	}
 )
 
 // Math
diff --git a/src/parser/reference.go b/src/parser/reference.go
index 2a9f6a8..a94b936 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -259,32 +259,15 @@ func (t *Tokenizer) getGroupOrDefault(content string) string {
 
 // getAttribute determines the values after "{attributeName}=" (so e.g. "name=") and supports quoted and unquoted
 // attributes. When unquoted attributes are used (e.g. as in name=foobar), the value is only interpreted until a space
-// of slash. For quoted attributes (e.g. as in name="foo bar") everything until the next quote is interpreted as name value.
+// of slash. For quoted attributes (e.g. as in name="foo bar" or name='foo bar') everything until the next quote is
+// interpreted as name value. There might be spaces around the equals sign.
 func (t *Tokenizer) getAttribute(content string, attributeName string) string {
-	if strings.Contains(content, " "+attributeName+"=\"") {
-		// Attribute with quotation
-		parts := strings.Split(content, "\"")
-		for i, part := range parts {
-			if strings.HasSuffix(part, " "+attributeName+"=") {
-				// Found attribute key, next item is the value which can be returned
-				return parts[i+1]
-			}
-		}
-	} else if strings.Contains(content, " "+attributeName+"=") {
-		// Attribute without quotation like "name=foo"
-		// The value ends with a space (separator for additional attributes) or slash (and of <ref.../>-token).
-		parts := strings.SplitN(content, " "+attributeName+"=", 2)
-		var letter rune
-		var attributeValue string
-		for _, letter = range parts[1] {
-			if letter == '/' || letter == ' ' || letter == '>' {
-				break
-			}
-			attributeValue += string(letter)
-		}
-		return attributeValue
+	match := referenceAttributeRegexes[attributeName].FindStringSubmatch(content)
+	if match == nil {
+		// Attribut not found
+		return ""
 	}
 
-	// Attribut not found
-	return ""
+	// Only the group of the quotation style that's actually used is not empty.
+	return match[1] + match[2] + match[3]
 }
-- 
2.43.0


From 2f87be4ce58f18733503e4ce67ce7624b391bacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 22/63] fix: do not change or drop text behind brackets that
 are not closed

---
 src/parser/link.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser/link.go b/src/parser/link.go
index cc1e592..6c82100 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -71,6 +71,13 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 		}
 
 		segments := strings.Split(splitItem, closingBrackets)
+		isClosed := len(segments) > 1
+		if !isClosed && linkType == LINK_TYPE_INTERNAL {
+			// Just opening brackets but no link.
+			resultSegments = append(resultSegments, openingBrackets)
+			resultSegments = append(resultSegments, splitItem)
+			continue
+		}
 
 		possibleLinkWikitext := segments[0]
 
@@ -148,10 +155,13 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 			resultSegments = append(resultSegments, tokenKey)
 		} else {
 			// No actual link found, just some words in brackets:
-			resultSegments = append(resultSegments, fmt.Sprintf("%s%s%s", openingBrackets, possibleLinkWikitext, closingBrackets))
+			resultSegments = append(resultSegments, fmt.Sprintf("%s%s", openingBrackets, possibleLinkWikitext))
+			if isClosed {
+				resultSegments = append(resultSegments, closingBrackets)
+			}
 		}
 
-		if len(segments) > 1 {
+		if isClosed {
 			// Add all uninteresting segments behind the link
 			contentBehindLink := strings.Join(segments[1:], closingBrackets)
 			resultSegments = append(resultSegments, contentBehindLink)
-- 
2.43.0


From 08ac1f0beec78c9cb5c4e0cc54221d65086a9eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:32 +0000
Subject: [PATCH 23/63] fix: recognize images by their actual file prefix

---
 src/parser/image.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index 32fe477..1a85075 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -225,13 +225,20 @@ func (t *Tokenizer) parseImages(content string) string {
 			continue
 		}
 
+		// The match ends with the ":" behind the prefix
+		filePrefix := strings.ToLower(content[startIndex[0]+2 : startIndex[1]-1])
+		if !util.Contains(config.Current.FilePrefixes, filePrefix) {
+			// This is not a file -> leave it as normal text and find next image
+			searchIndex = startIndex[0] + 2
+			startIndex = internalLinkStartRegex.FindStringIndex(content[searchIndex:])
+			continue
+		}
+
 		imageContent := content[startIndex[1]:endIndex]
 		imageContent = t.tokenizeContent(t, imageContent)
 		imageContent = t.escapeImages(imageContent)
 
-		filePrefix := strings.ToLower(strings.SplitN(imageContent, ":", 2)[0])
-
-		if imageContent == "" || !util.Contains(config.Current.FilePrefixes, filePrefix) {
+		if imageContent == "" {
 			content = content[0:startIndex[0]] + content[endIndex+2:]
 		} else {
 			options := strings.Split(imageContent, "|")
-- 
2.43.0


From d2d56123a341e815e9aa04d3ea42f6797c41a832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 24/63] fix: find captions of images behind and in front of all
 kinds of options

---
 src/parser/image.go   | 64 +++++++++++++++++++++++--------------------
 src/parser/pattern.go |  2 ++
 2 files changed, 37 insertions(+), 29 deletions(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index 1a85075..f5d2785 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -205,6 +205,24 @@ func (t *Tokenizer) parseImageMaps(content string) string {
 	return content
 }
 
+// isAnyImageOption returns true when the given parameter of an image is one of the options. Options might have a value,
+// e.g. "page=3" or "upright 1.3". Parameters only starting like an option, e.g. captions, are no options.
+func isAnyImageOption(parameter string, options []string) bool {
+	for _, option := range options {
+		value, hasOptionPrefix := strings.CutPrefix(parameter, option)
+		if !hasOptionPrefix {
+			continue
+		}
+
+		value = strings.TrimLeft(value, " ")
+		isOptionWithNumber := imageOptionNumberRegex.MatchString(parameter[len(option):])
+		if value == "" || strings.HasPrefix(value, "=") || isOptionWithNumber {
+			return true
+		}
+	}
+	return false
+}
+
 func (t *Tokenizer) parseImages(content string) string {
 	var err error
 
@@ -250,41 +268,29 @@ func (t *Tokenizer) parseImages(content string) string {
 			ySizeInt := -1
 			xSizeInt := -1
 
-			// Do some cleanup: Remove definitely uninteresting options.
-			var filteredOptions []string
-			for _, option := range options {
-				if !util.HasAnyPrefix(option, config.Current.IgnoredImageParams...) {
-					filteredOptions = append(filteredOptions, option)
-				}
-			}
+			// The last parameter, which is not an option, is the caption.
+			caption := ""
 
-			for i, option := range filteredOptions {
-				if util.HasAnyPrefix(option, imageNonInlineParameters...) {
+			for _, option := range options[1:] {
+				trimmedOption := strings.TrimSpace(option)
+
+				if isAnyImageOption(trimmedOption, config.Current.IgnoredImageParams) {
+					// Definitely uninteresting option
+					continue
+				} else if isAnyImageOption(strings.ToLower(trimmedOption), imageNonInlineParameters) {
 					tokenType = TOKEN_IMAGE
 					hasCaption = true
-				} else if strings.HasSuffix(option, "px") {
-					option = strings.TrimSuffix(option, "px")
-					sizes := strings.Split(option, "x")
-
+				} else if sizes := imageSizeRegex.FindStringSubmatch(trimmedOption); sizes != nil {
 					// Valid formats:
 					//   {width}px
 					//   x{height}px
 					//   {width}x{height}px
-					xSize := strings.TrimSpace(sizes[0])
-					ySize := ""
-
-					if len(sizes) == 2 {
-						ySize = strings.TrimSpace(sizes[1])
-					} else if len(sizes) > 2 {
-						sigolo.Errorf("Invalid size specification %spx of image %s", option, filename)
-					}
-
-					xSizeInt, err = strconv.Atoi(xSize)
+					xSizeInt, err = strconv.Atoi(sizes[1])
 					if err != nil {
 						xSizeInt = -1
 					}
 
-					ySizeInt, err = strconv.Atoi(ySize)
+					ySizeInt, err = strconv.Atoi(sizes[2])
 					if err != nil {
 						ySizeInt = -1
 					}
@@ -294,14 +300,14 @@ func (t *Tokenizer) parseImages(content string) string {
 						tokenType = TOKEN_IMAGE
 						// no change in hasCaption flag, only explicit non-inline images have a caption
 					}
-				} else if i == len(filteredOptions)-1 && tokenType == TOKEN_IMAGE {
-					// Last remaining option is the caption. We ignore captions on inline images.
-					captionToken.Content = t.tokenizeContent(t, option)
+				} else {
+					caption = option
 				}
 			}
 
-			if !hasCaption {
-				captionToken = CaptionToken{}
+			// We ignore captions on inline images.
+			if hasCaption && caption != "" {
+				captionToken.Content = t.tokenizeContent(t, caption)
 			}
 
 			var imageToken Token
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 4ed199d..1d0dc63 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -42,6 +42,8 @@ var (
 var (
 	galleryStartRegex          = regexp.MustCompile(`(?i)^<gallery.*?>`)
 	imagemapStartRegex         = regexp.MustCompile(`(?i)^<imagemap.*?>`)
+	imageSizeRegex             = regexp.MustCompile(`^(\d*)\s*(?:x\s*(\d*)\s*)?px$`)
+	imageOptionNumberRegex     = regexp.MustCompile(`^ +[0-9.,]+$`)
 	hasNonInlineParameterRegex = regexp.MustCompile("(?i)(" + strings.Join(imageNonInlineParameters, "|") + ")")
 )
 
-- 
2.43.0


From 8193ced7b206b5bd8d50e835de754c263dc16138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:41 +0000
Subject: [PATCH 25/63] fix: end galleries at closing tags behind images and
 recognize inline parameters only as parameters

---
 src/parser/image.go   | 49 +++++++++++++++++++++++++++++++++----------
 src/parser/pattern.go | 11 +++++-----
 2 files changed, 43 insertions(+), 17 deletions(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index f5d2785..6553550 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"fmt"
 	"path/filepath"
+	"regexp"
 	"strconv"
 	"strings"
 	"wiki2book/config"
@@ -88,8 +89,32 @@ func (t *Tokenizer) escapeImages(content string) string {
 	return strings.Join(segments, "|")
 }
 
+// splitLinesAtTag returns the lines of the content with each match of the given regex being on its own line.
+func splitLinesAtTag(content string, tagRegex *regexp.Regexp) []string {
+	var lines []string
+	for _, line := range strings.Split(content, "\n") {
+		tagIndex := tagRegex.FindStringIndex(line)
+		if tagIndex == nil {
+			lines = append(lines, line)
+			continue
+		}
+
+		for ; tagIndex != nil; tagIndex = tagRegex.FindStringIndex(line) {
+			if strings.TrimSpace(line[:tagIndex[0]]) != "" {
+				lines = append(lines, line[:tagIndex[0]])
+			}
+			lines = append(lines, line[tagIndex[0]:tagIndex[1]])
+			line = line[tagIndex[1]:]
+		}
+		if strings.TrimSpace(line) != "" {
+			lines = append(lines, line)
+		}
+	}
+	return lines
+}
+
 func (t *Tokenizer) parseGalleries(content string) string {
-	lines := strings.Split(content, "\n")
+	lines := splitLinesAtTag(content, galleryEndRegex)
 	withinGallery := false
 	var resultLines []string
 
@@ -98,17 +123,12 @@ func (t *Tokenizer) parseGalleries(content string) string {
 		trimmedLine := strings.TrimSpace(line)
 
 		// Gallery ends -> Simply remove line and end "withinGallery" mode
-		if util.HasPrefixIgnoreCase(trimmedLine, "</gallery>") {
+		if util.EqualsIgnoreCase(trimmedLine, "</gallery>") {
 			withinGallery = false
+			continue
+		}
 
-			if util.EqualsIgnoreCase(trimmedLine, "</gallery>") {
-				// This line just contains the tag -> ignore it and proceed with parsing
-				continue
-			}
-
-			// If the line contains more than the closing tag -> Keep it and proceed with the processing
-			line = util.ReplaceAllIgnoreCase(line, "</gallery>", "")
-		} else if galleryStartRegex.MatchString(trimmedLine) {
+		if galleryStartRegex.MatchString(trimmedLine) {
 			withinGallery = true
 
 			// Gallery starts -> Remove tag and see if the line also contains the first image
@@ -124,7 +144,14 @@ func (t *Tokenizer) parseGalleries(content string) string {
 
 			lineSegments := strings.Split(trimmedLine, "|")
 
-			if !hasNonInlineParameterRegex.MatchString(trimmedLine) {
+			hasNonInlineParameter := false
+			for _, parameter := range lineSegments[1:] {
+				if isAnyImageOption(strings.ToLower(strings.TrimSpace(parameter)), imageNonInlineParameters) {
+					hasNonInlineParameter = true
+				}
+			}
+
+			if !hasNonInlineParameter {
 				// Line has no non-inline parameter -> Add one to make it a non-inline image in further image parsing/escaping
 				// The last parameter is the caption, so the non-inline parameter is added right behind the file name
 				newLineSegments := make([]string, len(lineSegments)+1)
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 1d0dc63..29a6f4f 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"regexp"
-	"strings"
 )
 
 /*
@@ -40,11 +39,11 @@ var (
 
 // Media files
 var (
-	galleryStartRegex          = regexp.MustCompile(`(?i)^<gallery.*?>`)
-	imagemapStartRegex         = regexp.MustCompile(`(?i)^<imagemap.*?>`)
-	imageSizeRegex             = regexp.MustCompile(`^(\d*)\s*(?:x\s*(\d*)\s*)?px$`)
-	imageOptionNumberRegex     = regexp.MustCompile(`^ +[0-9.,]+$`)
-	hasNonInlineParameterRegex = regexp.MustCompile("(?i)(" + strings.Join(imageNonInlineParameters, "|") + ")")
+	galleryStartRegex      = regexp.MustCompile(`(?i)^<gallery.*?>`)
+	galleryEndRegex        = regexp.MustCompile(`(?i)</gallery>`)
+	imagemapStartRegex     = regexp.MustCompile(`(?i)^<imagemap.*?>`)
+	imageSizeRegex         = regexp.MustCompile(`^(\d*)\s*(?:x\s*(\d*)\s*)?px$`)
+	imageOptionNumberRegex = regexp.MustCompile(`^ +[0-9.,]+$`)
 )
 
 // Tables
-- 
2.43.0


From 91ce9da788e2078ab2fb722b5deb0b21f58566d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 26/63] fix: end image maps at closing tags behind other text
 and directly behind the opening tag

---
 src/parser/image.go   | 7 ++++++-
 src/parser/pattern.go | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index 6553550..34147c2 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -183,7 +183,7 @@ func (t *Tokenizer) parseGalleries(content string) string {
 }
 
 func (t *Tokenizer) parseImageMaps(content string) string {
-	lines := strings.Split(content, "\n")
+	lines := splitLinesAtTag(content, imagemapEndRegex)
 
 	withinImageMap := false
 
@@ -215,6 +215,11 @@ func (t *Tokenizer) parseImageMaps(content string) string {
 					break
 				}
 				line = lines[i]
+				if util.EqualsIgnoreCase(line, "</imagemap>") {
+					// The image map has no content at all -> delete this line within the next iteration
+					i--
+					continue
+				}
 			}
 
 			// "line" contains definitely the image of the imagemap
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 29a6f4f..9248e20 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -42,6 +42,7 @@ var (
 	galleryStartRegex      = regexp.MustCompile(`(?i)^<gallery.*?>`)
 	galleryEndRegex        = regexp.MustCompile(`(?i)</gallery>`)
 	imagemapStartRegex     = regexp.MustCompile(`(?i)^<imagemap.*?>`)
+	imagemapEndRegex       = regexp.MustCompile(`(?i)</imagemap>`)
 	imageSizeRegex         = regexp.MustCompile(`^(\d*)\s*(?:x\s*(\d*)\s*)?px$`)
 	imageOptionNumberRegex = regexp.MustCompile(`^ +[0-9.,]+$`)
 )
-- 
2.43.0


From e53dd33ba12cccd578fabfc62adad5e4a19969a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 27/63] fix: ignore blanks in front of the first image of a
 gallery

---
 src/parser/image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index 34147c2..f52379c 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -132,7 +132,7 @@ func (t *Tokenizer) parseGalleries(content string) string {
 			withinGallery = true
 
 			// Gallery starts -> Remove tag and see if the line also contains the first image
-			trimmedLine = galleryStartRegex.ReplaceAllString(trimmedLine, "")
+			trimmedLine = strings.TrimSpace(galleryStartRegex.ReplaceAllString(trimmedLine, ""))
 		}
 
 		if withinGallery {
-- 
2.43.0


From e331bd0b32724e82aa3c6447fa38643bf593a1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 28/63] fix: keep kind and complete text of table cells

---
 src/parser/table.go | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 9485260..546ec0d 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -94,9 +94,18 @@ func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 // tokenizeTable expects content to be all lines of a table.
 func (t *Tokenizer) tokenizeTable(content string) TableToken {
 	// ensure that each entry starts in a new row
-	content = strings.ReplaceAll(content, "||", "\n|")
-	content = strings.ReplaceAll(content, "!!", "\n!")
-	lines := strings.Split(content, "\n")
+	var lines []string
+	for _, line := range strings.Split(content, "\n") {
+		trimmedLine := strings.TrimSpace(line)
+		if strings.HasPrefix(trimmedLine, "!") {
+			// Both separators are allowed and all cells of this line are headings
+			line = strings.ReplaceAll(line, "!!", "||")
+			line = strings.ReplaceAll(line, "||", "\n!")
+		} else if strings.HasPrefix(trimmedLine, "|") {
+			line = strings.ReplaceAll(line, "||", "\n|")
+		}
+		lines = append(lines, strings.Split(line, "\n")...)
+	}
 
 	var rowTokens []TableRowToken
 	var captionToken TableCaptionToken
@@ -165,8 +174,12 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 			break
 		}
 
-		line = strings.TrimPrefix(line, "|")
-		line = strings.TrimPrefix(line, "!")
+		isHeading := strings.HasPrefix(line, "!")
+		if isHeading {
+			line = strings.TrimPrefix(line, "!")
+		} else {
+			line = strings.TrimPrefix(line, "|")
+		}
 		line = strings.TrimSpace(line)
 
 		// Collect all normal text rows until the next row or column starts.
@@ -184,18 +197,10 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 		tokenizedLine, attributeToken := t.tokenizeTableEntry(line)
 		tokenizedLine = strings.TrimSpace(tokenizedLine)
 
-		var token TableColToken
-		if strings.HasPrefix(strings.TrimSpace(lines[i]), "!") {
-			token = TableColToken{
-				Attributes: attributeToken,
-				Content:    tokenizedLine,
-				IsHeading:  true,
-			}
-		} else {
-			token = TableColToken{
-				Attributes: attributeToken,
-				Content:    tokenizedLine,
-			}
+		token := TableColToken{
+			Attributes: attributeToken,
+			Content:    tokenizedLine,
+			IsHeading:  isHeading,
 		}
 
 		columnTokens = append(columnTokens, token)
@@ -246,8 +251,9 @@ func (t *Tokenizer) tokenizeTableCaption(lines []string, i int) (TableCaptionTok
 func (t *Tokenizer) tokenizeTableEntry(content string) (string, TableColAttributeToken) {
 	var attributeToken TableColAttributeToken
 
-	splittedContent := strings.Split(content, "|")
-	if len(splittedContent) < 2 {
+	// Attributes are always in the first line, everything below is normal text.
+	splittedContent := strings.SplitN(content, "|", 2)
+	if len(splittedContent) < 2 || strings.Contains(splittedContent[0], "\n") {
 		return t.tokenizeContent(t, content), attributeToken
 	}
 
-- 
2.43.0


From 035daba291aafecb3b63c42a719542559d3087fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 29/63] fix: keep text behind the end of a table

---
 src/parser/table.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/parser/table.go b/src/parser/table.go
index 546ec0d..63e2df0 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -47,6 +47,7 @@ func (t *Tokenizer) parseTables(content string) string {
 			var newLines []string
 			newLines = append(newLines, lines[:i]...)
 			newLines = append(newLines, listPrefix+token)
+			newLines = append(newLines, getTextBehindTable(lines, newIndex)...)
 			if i+length+1 < len(lines) {
 				newLines = append(newLines, lines[i+length+1:]...)
 			}
@@ -58,6 +59,21 @@ func (t *Tokenizer) parseTables(content string) string {
 	return content
 }
 
+// getTextBehindTable returns the text following the end of a table within the line with the given index. The result is
+// empty, when there is no such text.
+func getTextBehindTable(lines []string, tableEndIndex int) []string {
+	if tableEndIndex >= len(lines) {
+		// table is not closed
+		return nil
+	}
+
+	text := strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(lines[tableEndIndex]), "|}"))
+	if text == "" {
+		return nil
+	}
+	return []string{text}
+}
+
 // tokenizeTable returns the token of the table and the index of the row where this table ended.
 func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 	var tableLines []string
@@ -73,6 +89,7 @@ func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 			// another table starts
 			tableToken, i = t.tokenizeTables(lines, i)
 			tableLines = append(tableLines, tableToken)
+			tableLines = append(tableLines, getTextBehindTable(lines, i)...)
 		} else if strings.HasPrefix(line, "|}") {
 			// the table ends with this line
 			tableLines = append(tableLines, lines[i])
-- 
2.43.0


From 5fa0b5a2dbfefe821b2a56c5ddf65a45ed7e52e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:41 +0000
Subject: [PATCH 30/63] fix: recognize indented tables

---
 src/parser/list.go  | 5 +++--
 src/parser/table.go | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/list.go b/src/parser/list.go
index 3d97a63..cf05f5e 100644
--- a/src/parser/list.go
+++ b/src/parser/list.go
@@ -46,7 +46,8 @@ func (t *Tokenizer) parseLists(content string) string {
 	for i := 0; i < len(lines); i++ {
 		line := strings.TrimSpace(lines[i])
 
-		if line == "" || !isListStartingCharacter(line[0]) {
+		if line == "" || !isListStartingCharacter(line[0]) || tableStartRegex.MatchString(line) {
+			// No list or an indented table, which is handled elsewhere.
 			continue
 		}
 
@@ -91,7 +92,7 @@ func (t *Tokenizer) tokenizeList(lines []string, startLineIndex int, listPrefix
 	for i := startLineIndex; i < len(lines); i++ {
 		line := strings.TrimSpace(lines[i])
 
-		if !belongsToListPrefix(line, listPrefix) {
+		if !belongsToListPrefix(line, listPrefix) || tableStartRegex.MatchString(line) {
 			break
 		}
 
diff --git a/src/parser/table.go b/src/parser/table.go
index 63e2df0..906c341 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -85,7 +85,7 @@ func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 	for ; i < len(lines); i++ {
 		line := strings.TrimSpace(lines[i])
 
-		if strings.HasPrefix(line, "{|") || strings.HasPrefix(line, ":{|") {
+		if tableStartRegex.MatchString(line) {
 			// another table starts
 			tableToken, i = t.tokenizeTables(lines, i)
 			tableLines = append(tableLines, tableToken)
-- 
2.43.0


From 3b0764cd69b3db6d25ec46853abd96e25858176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 31/63] fix: keep row and column spans with single quotes,
 spaces or upper case letters

---
 src/parser/pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 9248e20..69f37bf 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -50,7 +50,7 @@ var (
 // Tables
 var (
 	tableStartRegex         = regexp.MustCompile(`^(:*)(\{\|.*)`)
-	tableRowAndColspanRegex = regexp.MustCompile(`(colspan|rowspan)="?(\d+)"?`)
+	tableRowAndColspanRegex = regexp.MustCompile(`(?i)(colspan|rowspan)\s*=\s*["']?(\d+)["']?`)
 	tableTextAlignRegex     = regexp.MustCompile(`text-align:.+?;`)
 )
 
-- 
2.43.0


From bee344ed450c649f85418d3972a2596a4ef9b081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 32/63] fix: do not accept remains of removed escape sequences
 as sanitized names

---
 src/util/files.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/util/files.go b/src/util/files.go
index d676673..4e4b45f 100644
--- a/src/util/files.go
+++ b/src/util/files.go
@@ -197,16 +197,17 @@ func IsSanitized(path string) bool {
 	parts := strings.SplitN(path, string(filepath.Separator), -1)
 	for _, part := range parts {
 		// The escape sequences are fine, but no other "%" should exist, since it indicates an un-sanitized "%" character.
-		part = strings.ReplaceAll(part, "%25", "")
-		part = strings.ReplaceAll(part, "%3C", "")
-		part = strings.ReplaceAll(part, "%3E", "")
-		part = strings.ReplaceAll(part, "%3A", "")
-		part = strings.ReplaceAll(part, "%22", "")
-		part = strings.ReplaceAll(part, "%2F", "")
-		part = strings.ReplaceAll(part, "%5C", "")
-		part = strings.ReplaceAll(part, "%7C", "")
-		part = strings.ReplaceAll(part, "%3F", "")
-		part = strings.ReplaceAll(part, "%2A", "")
+		// They are replaced (and not just removed) so that the text around them doesn't form a new escape sequence.
+		part = strings.ReplaceAll(part, "%25", "_")
+		part = strings.ReplaceAll(part, "%3C", "_")
+		part = strings.ReplaceAll(part, "%3E", "_")
+		part = strings.ReplaceAll(part, "%3A", "_")
+		part = strings.ReplaceAll(part, "%22", "_")
+		part = strings.ReplaceAll(part, "%2F", "_")
+		part = strings.ReplaceAll(part, "%5C", "_")
+		part = strings.ReplaceAll(part, "%7C", "_")
+		part = strings.ReplaceAll(part, "%3F", "_")
+		part = strings.ReplaceAll(part, "%2A", "_")
 
 		if strings.Contains(part, "%") ||
 			strings.Contains(part, "<") ||
-- 
2.43.0


From 21a4f6d2426daba2a58a7395aea876b17245fd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 33/63] fix: do not crash when searching the largest file of an
 empty cache

---
 src/util/files.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/files.go b/src/util/files.go
index 4e4b45f..a150387 100644
--- a/src/util/files.go
+++ b/src/util/files.go
@@ -359,6 +359,11 @@ func (o *OsFilesystem) FindLargestFile(path string, exceptDir string) (error, in
 		return err, math.MinInt64, ""
 	}
 
+	if currentLargestFile == nil {
+		// No file was found
+		return nil, 0, ""
+	}
+
 	return nil, currentLargestFile.Size(), currentLargestFilePath
 }
 
-- 
2.43.0


From 15deba67240472fcc6a23784309ed7bb8376027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 34/63] fix: do not count a new file twice when checking the
 cache size

---
 src/cache/cache.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cache/cache.go b/src/cache/cache.go
index 029f44a..041288b 100644
--- a/src/cache/cache.go
+++ b/src/cache/cache.go
@@ -109,6 +109,8 @@ func CacheToFile(cacheFolderName string, filename string, reader io.Reader) (str
 		}
 
 		tempFileSizeInBytes := tempFileStat.Size()
+		// The temporary file lies within the cache folder, but the new file must not be counted twice.
+		cacheSizeInBytes -= tempFileSizeInBytes
 		err = deleteFilesFromCacheIfNeeded(cacheFolderName, filename, tempFileSizeInBytes, cacheSizeInBytes)
 		if err != nil {
 			return outputFilepath, err
-- 
2.43.0


From 4b9dad1e76608f035ed6fe88a3f31bf576135bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 35/63] fix: store files larger than the cache limit instead of
 failing when nothing is left to evict

---
 src/cache/cache.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cache/cache.go b/src/cache/cache.go
index 041288b..3d7b45e 100644
--- a/src/cache/cache.go
+++ b/src/cache/cache.go
@@ -26,6 +26,8 @@ const (
 
 var (
 	cacheWriteMutex = &sync.Mutex{}
+
+	errNothingToEvict = errors.New("no file to delete in cache")
 )
 
 func GetFilePathInCache(cacheFolderName string, filename string) string {
@@ -160,6 +162,10 @@ func deleteFilesFromCacheIfNeeded(cacheFolderName string, newFileName string, ne
 		} else {
 			sigolo.Fatalf("Unsupported cache eviction strategy '%s'. This is a Bug.", config.Current.CacheEvictionStrategy)
 		}
+		if err == errNothingToEvict {
+			sigolo.Warnf("New file (%s ; %f MB) exceeds the max cache size of %f MB even though the cache is empty", newFileName, util.ToMB(newFileSizeInBytes), util.ToMB(config.Current.CacheMaxSize))
+			break
+		}
 		if err != nil {
 			return err
 		}
@@ -177,6 +183,10 @@ func deleteLargestFileFromCache(cacheSizeInBytes int64) (error, int64) {
 		return errors.Wrap(err, fmt.Sprintf("Unable to determine largest file in cache '%s'", config.Current.CacheDir)), cacheSizeInBytes
 	}
 
+	if largestFilePath == "" {
+		return errNothingToEvict, cacheSizeInBytes
+	}
+
 	sigolo.Debugf("Delete largest file from cache: '%s' (%f MB)", largestFilePath, util.ToMB(largestFileSizeInBytes))
 	err = util.CurrentFilesystem.Remove(largestFilePath)
 	if err != nil {
@@ -195,6 +205,10 @@ func deleteLruFileFromCache(cacheSizeInBytes int64) (error, int64) {
 		return errors.Wrap(err, fmt.Sprintf("Unable to determine least recently used file in cache '%s'", config.Current.CacheDir)), cacheSizeInBytes
 	}
 
+	if lruFilePath == "" {
+		return errNothingToEvict, cacheSizeInBytes
+	}
+
 	sigolo.Debugf("Delete least recently used file from cache: '%s' (%f MB)", lruFilePath, util.ToMB(lruFileSizeInBytes))
 	err = util.CurrentFilesystem.Remove(lruFilePath)
 	if err != nil {
-- 
2.43.0


From 0bd6074f9601a0cbfa9c5a7b5950f6410cdd4514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 36/63] fix: consider the deletion of the old state of a file
 when evicting files for its new state

---
 src/cache/cache.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/cache/cache.go b/src/cache/cache.go
index 3d7b45e..fd887be 100644
--- a/src/cache/cache.go
+++ b/src/cache/cache.go
@@ -142,17 +142,11 @@ func CacheToFile(cacheFolderName string, filename string, reader io.Reader) (str
 // deleteFilesFromCacheIfNeeded deletes files from the cache based on the configured cache eviction strategy. When the
 // cache is small enough for the new file, no (further) files will be deleted.
 func deleteFilesFromCacheIfNeeded(cacheFolderName string, newFileName string, newFileSizeInBytes int64, cacheSizeInBytes int64) error {
-	// The new file might already exist in an older state (and thus with different size). The file will, therefore, not
-	// just be added to the cache, but instead the old file will be replaced. The cache then grows much less in size or
-	// might even shrink (in case the new file is smaller than the old one).
-	var netCacheSizeChangeInBytes = newFileSizeInBytes
-	existingFileSizeInBytes, err := util.CurrentFilesystem.GetSizeInBytes(GetFilePathInCache(cacheFolderName, newFileName))
-	if err == nil {
-		netCacheSizeChangeInBytes = newFileSizeInBytes - existingFileSizeInBytes
-	}
+	netCacheSizeChangeInBytes, existingFileSizeInBytes := getNetCacheSizeChange(cacheFolderName, newFileName, newFileSizeInBytes)
 
 	sigolo.Debugf("Max cache size: %f MB; current size: %f MB; new file size: %f MB; existing file size: %f MB (NaN means there's no existing file); net cache size change: %f MB", util.ToMB(config.Current.CacheMaxSize), util.ToMB(cacheSizeInBytes), util.ToMB(newFileSizeInBytes), util.ToMB(existingFileSizeInBytes), util.ToMB(netCacheSizeChangeInBytes))
 	for config.Current.CacheMaxSize <= cacheSizeInBytes+netCacheSizeChangeInBytes {
+		var err error
 		sigolo.Debugf("New file (%s ; %f MB) would exceed max cache size: Max cache size of %f MB < current size of %f MB + net size change of %f MB = new size of %f MB. Remove largest files until cache is small enough.", newFileName, util.ToMB(newFileSizeInBytes), util.ToMB(config.Current.CacheMaxSize), util.ToMB(cacheSizeInBytes), util.ToMB(netCacheSizeChangeInBytes), util.ToMB(cacheSizeInBytes+netCacheSizeChangeInBytes))
 
 		if config.Current.CacheEvictionStrategy == config.CacheEvictionStrategyLargest {
@@ -169,11 +163,26 @@ func deleteFilesFromCacheIfNeeded(cacheFolderName string, newFileName string, ne
 		if err != nil {
 			return err
 		}
+
+		// The deleted file might be the old state of the new file.
+		netCacheSizeChangeInBytes, _ = getNetCacheSizeChange(cacheFolderName, newFileName, newFileSizeInBytes)
 	}
 
 	return nil
 }
 
+// getNetCacheSizeChange returns by how many bytes the cache grows (or shrinks) by the new file and the size of the
+// already existing file. The new file might already exist in an older state (and thus with different size). The file
+// will, therefore, not just be added to the cache, but instead the old file will be replaced. The cache then grows much
+// less in size or might even shrink (in case the new file is smaller than the old one).
+func getNetCacheSizeChange(cacheFolderName string, newFileName string, newFileSizeInBytes int64) (int64, int64) {
+	existingFileSizeInBytes, err := util.CurrentFilesystem.GetSizeInBytes(GetFilePathInCache(cacheFolderName, newFileName))
+	if err != nil {
+		return newFileSizeInBytes, existingFileSizeInBytes
+	}
+	return newFileSizeInBytes - existingFileSizeInBytes, existingFileSizeInBytes
+}
+
 func deleteLargestFileFromCache(cacheSizeInBytes int64) (error, int64) {
 	var err error
 	var largestFilePath string
-- 
2.43.0


From 7f3c248f61d1e36bb895e6583ca9e517a46c5a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 37/63] fix: send the whole body again when a request has to be
 repeated

---
 src/http/http.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/http/http.go b/src/http/http.go
index 9db145b..d81ff23 100644
--- a/src/http/http.go
+++ b/src/http/http.go
@@ -152,6 +152,14 @@ func (d *DefaultHttpService) doRequest(url string, request *http.Request) (*http
 			}
 			sigolo.Debugf("Received response status code %d and try request again in %d seconds", response.StatusCode, waitTime)
 			sleepFunc(waitTime)
+
+			// The body has already been read by the first attempt, so the next attempt needs a fresh copy of it
+			if request.GetBody != nil {
+				request.Body, err = request.GetBody()
+				if err != nil {
+					return nil, errors.Wrap(err, fmt.Sprintf("Unable to repeat %s request to url %s", request.Method, url))
+				}
+			}
 			continue
 		} else if response.StatusCode != http.StatusOK {
 			return nil, errors.Errorf("%s request to url %s failed with status code %d", request.Method, url, response.StatusCode)
-- 
2.43.0


From e17cabd3d0c0b30d9d4e8bae15d599f385b63460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 38/63] fix: handle image names and API responses without
 colons and image names with several ones

---
 src/wikipedia/wikipedia.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 5737d70..b1f020f 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -195,8 +195,11 @@ func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshl
 // in case of errors). Whenever an error is returned, the article cache folder is needed as some files might be
 // redirects and such a redirect counts as article.
 func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNameWithPrefix string) (string, bool, error) {
-	// TODO handle colons in file names
-	imageName := "File:" + strings.Split(imageNameWithPrefix, ":")[1]
+	imageNameWithoutPrefix, err := removePrefix(imageNameWithPrefix)
+	if err != nil {
+		return "", true, err
+	}
+	imageName := "File:" + imageNameWithoutPrefix
 	sigolo.Debugf("Download article file for image '%s' from '%s'", imageName, imageArticleHost)
 	imageArticle, err := w.DownloadArticle(imageArticleHost, imageName)
 	if err != nil {
@@ -206,11 +209,17 @@ func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNa
 	// Replace spaces with underscore because wikimedia doesn't know spaces in file names:
 
 	originalImageNameWithPrefix := imageArticle.Parse.OriginalTitle
-	originalImageName := strings.Split(originalImageNameWithPrefix, ":")[1]
+	originalImageName, err := removePrefix(originalImageNameWithPrefix)
+	if err != nil {
+		return "", true, err
+	}
 	originalImageName = strings.ReplaceAll(originalImageName, " ", "_")
 
 	actualImageNameWithPrefix := imageArticle.Parse.Title
-	actualImageName := strings.Split(actualImageNameWithPrefix, ":")[1]
+	actualImageName, err := removePrefix(actualImageNameWithPrefix)
+	if err != nil {
+		return "", true, err
+	}
 	actualImageName = strings.ReplaceAll(actualImageName, " ", "_")
 
 	md5sum := fmt.Sprintf("%x", md5.Sum([]byte(actualImageName)))
@@ -245,6 +254,16 @@ func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNa
 	return cachedFilePath, freshlyDownloaded, nil
 }
 
+// removePrefix removes the namespace prefix from an image name, e.g. it turns "File:foo.jpg" into "foo.jpg". The name
+// itself might contain further colons. An error is returned when there is no prefix.
+func removePrefix(imageNameWithPrefix string) (string, error) {
+	_, imageName, hasPrefix := strings.Cut(imageNameWithPrefix, ":")
+	if !hasPrefix {
+		return "", errors.Errorf("Image name '%s' has no prefix such as 'File:'", imageNameWithPrefix)
+	}
+	return imageName, nil
+}
+
 func (w *DefaultWikipediaService) EvaluateTemplate(template string, cacheFile string) (string, error) {
 	sigolo.Debugf("Evaluate template %s (hash/filename: %s)", util.TruncString(template), cacheFile)
 
-- 
2.43.0


From f406ee3f41b8bf5e3a3a48607a539b71e95c750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 39/63] fix: do not treat the file name of an image as wikitext

---
 src/parser/image.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index f52379c..cf18b11 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -285,7 +285,10 @@ func (t *Tokenizer) parseImages(content string) string {
 		}
 
 		imageContent := content[startIndex[1]:endIndex]
-		imageContent = t.tokenizeContent(t, imageContent)
+		// The name of the file is no wikitext, even if it looks like it (e.g. "*foo.jpg"), so only the parameters are tokenized.
+		if parameterIndex := strings.Index(imageContent, "|"); parameterIndex != -1 {
+			imageContent = imageContent[:parameterIndex] + t.tokenizeContent(t, imageContent[parameterIndex:])
+		}
 		imageContent = t.escapeImages(imageContent)
 
 		if imageContent == "" {
-- 
2.43.0


From 885c1dfaf1e58c7aa6c94b912e51ce5fab949c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 40/63] fix: count the content of nested lists in statistics

---
 src/generator/stats.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index 4668261..df65839 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -229,7 +229,20 @@ func (g *StatsGenerator) expandListItems(items []parser.ListItemToken) (string,
 }
 
 func (g *StatsGenerator) expandListItem(token parser.ListItemToken) (string, error) {
-	return expand(g, token.Content)
+	result, err := expand(g, token.Content)
+	if err != nil {
+		return "", err
+	}
+
+	for _, subListToken := range token.SubLists {
+		expandedSubList, err := expand(g, subListToken)
+		if err != nil {
+			return "", err
+		}
+		result += expandedSubList
+	}
+
+	return result, nil
 }
 
 func (g *StatsGenerator) expandRefDefinition(token parser.RefDefinitionToken) (string, error) {
-- 
2.43.0


From 334457d7fdcddc9a2db63b44cb7b7091a98aba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 41/63] fix: count the text within nowiki tags in statistics

---
 src/generator/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index df65839..6c141a2 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -261,7 +261,7 @@ func (g *StatsGenerator) expandMath(token parser.MathToken) (string, error) {
 }
 
 func (g *StatsGenerator) expandNowiki(token parser.NowikiToken) string {
-	return ""
+	return g.expandSimpleString(token.Content)
 }
 
 func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
-- 
2.43.0


From 8f1426d5c39e5b17eb7b689888ef2fa92cc7b922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:59 +0000
Subject: [PATCH 42/63] fix: make the order within statistics independent of
 the order of map entries

---
 src/generator/stats.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index 6c141a2..b2e5bfe 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -275,6 +275,7 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 		Top10UncoveredInternalLinks: map[string]int{},
 	}
 	articles := map[string]*articleStats{}
+	var articleNames []string
 
 	for _, statFile := range statFiles {
 		var fileContent []byte
@@ -292,6 +293,9 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 			return errors.Wrapf(err, "Error parsing JSON from stats file '%s'", statFile)
 		}
 
+		if _, ok := articles[stats.ArticleName]; !ok {
+			articleNames = append(articleNames, stats.ArticleName)
+		}
 		articles[stats.ArticleName] = stats
 		combinedStats.NumberOfCharacters += stats.NumberOfCharacters
 		combinedStats.NumberOfWords += stats.NumberOfWords
@@ -317,7 +321,11 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 	}
 
 	slices.SortFunc(uncoveredArticles, func(a, b string) int {
-		return cmp.Compare(combinedStats.UncoveredInternalLinks[b], combinedStats.UncoveredInternalLinks[a])
+		// Most frequent links first, equally frequent ones in alphabetical order to get a reproducible output
+		return cmp.Or(
+			cmp.Compare(combinedStats.UncoveredInternalLinks[b], combinedStats.UncoveredInternalLinks[a]),
+			cmp.Compare(a, b),
+		)
 	})
 	for i, uncoveredArticle := range uncoveredArticles {
 		if i >= 10 {
@@ -333,7 +341,7 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 	if config.Current.OutputType == config.OutputTypeStatsJson {
 		outputConent, err = generateJsonStatsContent(combinedStats)
 	} else if config.Current.OutputType == config.OutputTypeStatsTxt {
-		outputConent, err = generateTxtStatsContent(articles, combinedStats)
+		outputConent, err = generateTxtStatsContent(articleNames, combinedStats)
 	} else {
 		return errors.Errorf("Invalid output type '%s' for stats", config.Current.OutputType)
 	}
@@ -364,7 +372,7 @@ func generateJsonStatsContent(combinedStats *articleStats) ([]byte, error) {
 	return outputConent, nil
 }
 
-func generateTxtStatsContent(articles map[string]*articleStats, combinedStats *articleStats) ([]byte, error) {
+func generateTxtStatsContent(articleNames []string, combinedStats *articleStats) ([]byte, error) {
 	result := "Statistics generated with wiki2book:\n\n"
 
 	result += "General:\n"
@@ -374,8 +382,8 @@ func generateTxtStatsContent(articles map[string]*articleStats, combinedStats *a
 
 	// Article names
 	result += "Article:\n"
-	for _, article := range articles {
-		result += "  " + article.ArticleName + "\n"
+	for _, articleName := range articleNames {
+		result += "  " + articleName + "\n"
 	}
 	result += "\n"
 
@@ -391,7 +399,10 @@ func generateTxtStatsContent(articles map[string]*articleStats, combinedStats *a
 		sortedUncoveredLinks = append(sortedUncoveredLinks, uncoveredLinkEntry{k, v})
 	}
 	sort.Slice(sortedUncoveredLinks, func(i, j int) bool {
-		return sortedUncoveredLinks[i].occurrences > sortedUncoveredLinks[j].occurrences
+		if sortedUncoveredLinks[i].occurrences != sortedUncoveredLinks[j].occurrences {
+			return sortedUncoveredLinks[i].occurrences > sortedUncoveredLinks[j].occurrences
+		}
+		return sortedUncoveredLinks[i].articleName < sortedUncoveredLinks[j].articleName
 	})
 
 	for i := 0; i < int(math.Min(float64(len(sortedUncoveredLinks)), 20)); i++ {
-- 
2.43.0


From fd12103eea59cc40979e0e08c4ad7899adf445f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 43/63] fix: let explicit default values override
 configurations with lower precedence

---
 src/config/config.go  | 75 +++++++++++++++++++++++--------------------
 src/config/project.go | 20 ++++++++++++
 src/main.go           | 13 +++++---
 3 files changed, 70 insertions(+), 38 deletions(-)

diff --git a/src/config/config.go b/src/config/config.go
index fe9172c..5de72d6 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -483,73 +483,80 @@ type Configuration struct {
 // MergeIntoCurrentConfig goes through all the properties of the given configuration and overwrites the respective field
 // in the Current configuration in case the field of the given config is different to the default value.
 func MergeIntoCurrentConfig(c *Configuration) {
-	if c.ForceRegenerateHtml != defaultConfig.ForceRegenerateHtml {
+	MergeEntriesIntoCurrentConfig(c, func(entry string) bool { return false })
+}
+
+// MergeEntriesIntoCurrentConfig works like MergeIntoCurrentConfig, but additionally copies the values of all entries that
+// have been specified explicitly (according to the given function, which gets the JSON name of the entry), because even
+// an explicit default value has to override the value of a configuration with lower precedence.
+func MergeEntriesIntoCurrentConfig(c *Configuration, isExplicit func(entry string) bool) {
+	if c.ForceRegenerateHtml != defaultConfig.ForceRegenerateHtml || isExplicit("force-regenerate-html") {
 		sigolo.Tracef("Override ForceRegenerateHtml with %v", c.ForceRegenerateHtml)
 		Current.ForceRegenerateHtml = c.ForceRegenerateHtml
 	}
-	if c.SvgSizeToViewbox != defaultConfig.SvgSizeToViewbox {
+	if c.SvgSizeToViewbox != defaultConfig.SvgSizeToViewbox || isExplicit("svg-size-to-viewbox") {
 		sigolo.Tracef("Override SvgSizeToViewbox with %v", c.SvgSizeToViewbox)
 		Current.SvgSizeToViewbox = c.SvgSizeToViewbox
 	}
-	if c.OutputType != defaultConfig.OutputType {
+	if c.OutputType != defaultConfig.OutputType || isExplicit("output-type") {
 		sigolo.Tracef("Override OutputType with %s", c.OutputType)
 		Current.OutputType = c.OutputType
 	}
-	if c.OutputDriver != defaultConfig.OutputDriver {
+	if c.OutputDriver != defaultConfig.OutputDriver || isExplicit("output-driver") {
 		sigolo.Tracef("Override OutputDriver with %s", c.OutputDriver)
 		Current.OutputDriver = c.OutputDriver
 	}
-	if c.CacheDir != defaultConfig.CacheDir {
+	if c.CacheDir != defaultConfig.CacheDir || isExplicit("cache-dir") {
 		absolutePath, err := util.ToAbsolutePath(c.CacheDir)
 		sigolo.FatalCheck(err)
 		sigolo.Tracef("Override CacheDir with %s", absolutePath)
 		Current.CacheDir = absolutePath
 	}
-	if c.CacheMaxSize != defaultConfig.CacheMaxSize {
+	if c.CacheMaxSize != defaultConfig.CacheMaxSize || isExplicit("cache-max-size") {
 		sigolo.Tracef("Override CacheMaxSize with %d", c.CacheMaxSize)
 		Current.CacheMaxSize = c.CacheMaxSize
 	}
-	if c.CacheMaxAge != defaultConfig.CacheMaxAge {
+	if c.CacheMaxAge != defaultConfig.CacheMaxAge || isExplicit("cache-max-age") {
 		sigolo.Tracef("Override CacheMaxAge with %d", c.CacheMaxAge)
 		Current.CacheMaxAge = c.CacheMaxAge
 	}
-	if c.CacheEvictionStrategy != defaultConfig.CacheEvictionStrategy {
+	if c.CacheEvictionStrategy != defaultConfig.CacheEvictionStrategy || isExplicit("cache-eviction-strategy") {
 		sigolo.Tracef("Override CacheEvictionStrategy with %s", c.CacheEvictionStrategy)
 		Current.CacheEvictionStrategy = c.CacheEvictionStrategy
 	}
-	if c.StyleFile != defaultConfig.StyleFile {
+	if c.StyleFile != defaultConfig.StyleFile || isExplicit("style-file") {
 		absolutePath, err := util.ToAbsolutePath(c.StyleFile)
 		sigolo.FatalCheck(err)
 		sigolo.Tracef("Override StyleFile with '%s'", absolutePath)
 		Current.StyleFile = absolutePath
 	}
-	if c.CoverImage != defaultConfig.CoverImage {
+	if c.CoverImage != defaultConfig.CoverImage || isExplicit("cover-image") {
 		absolutePath, err := util.ToAbsolutePath(c.CoverImage)
 		sigolo.FatalCheck(err)
 		sigolo.Tracef("Override CoverImage with %s", absolutePath)
 		Current.CoverImage = absolutePath
 	}
-	if c.CommandTemplateSvgToPng != defaultConfig.CommandTemplateSvgToPng {
+	if c.CommandTemplateSvgToPng != defaultConfig.CommandTemplateSvgToPng || isExplicit("command-template-svg-to-png") {
 		sigolo.Tracef("Override CommandTemplateSvgToPng with %s", c.CommandTemplateSvgToPng)
 		Current.CommandTemplateSvgToPng = c.CommandTemplateSvgToPng
 	}
-	if c.CommandTemplateMathSvgToPng != defaultConfig.CommandTemplateMathSvgToPng {
+	if c.CommandTemplateMathSvgToPng != defaultConfig.CommandTemplateMathSvgToPng || isExplicit("command-template-math-svg-to-png") {
 		sigolo.Tracef("Override CommandTemplateMathSvgToPng with %s", c.CommandTemplateMathSvgToPng)
 		Current.CommandTemplateMathSvgToPng = c.CommandTemplateMathSvgToPng
 	}
-	if c.CommandTemplateImageProcessing != defaultConfig.CommandTemplateImageProcessing {
+	if c.CommandTemplateImageProcessing != defaultConfig.CommandTemplateImageProcessing || isExplicit("command-template-image-processing") {
 		sigolo.Tracef("Override CommandTemplateImageProcessing with %s", c.CommandTemplateImageProcessing)
 		Current.CommandTemplateImageProcessing = c.CommandTemplateImageProcessing
 	}
-	if c.CommandTemplatePdfToPng != defaultConfig.CommandTemplatePdfToPng {
+	if c.CommandTemplatePdfToPng != defaultConfig.CommandTemplatePdfToPng || isExplicit("command-template-pdf-to-png") {
 		sigolo.Tracef("Override CommandTemplatePdfToPng with %s", c.CommandTemplatePdfToPng)
 		Current.CommandTemplatePdfToPng = c.CommandTemplatePdfToPng
 	}
-	if c.CommandTemplateWebpToPng != defaultConfig.CommandTemplateWebpToPng {
+	if c.CommandTemplateWebpToPng != defaultConfig.CommandTemplateWebpToPng || isExplicit("command-template-webp-to-png") {
 		sigolo.Tracef("Override CommandTemplateWebpToPng with %s", c.CommandTemplateWebpToPng)
 		Current.CommandTemplateWebpToPng = c.CommandTemplateWebpToPng
 	}
-	if c.PandocExecutable != defaultConfig.PandocExecutable {
+	if c.PandocExecutable != defaultConfig.PandocExecutable || isExplicit("pandoc-executable") {
 		var err error
 		newPath := c.PandocExecutable
 		if strings.Contains(c.PandocExecutable, "/") {
@@ -561,79 +568,79 @@ func MergeIntoCurrentConfig(c *Configuration) {
 		sigolo.Tracef("Override PandocExecutable with %s", c.PandocExecutable)
 		Current.PandocExecutable = newPath
 	}
-	if c.PandocDataDir != defaultConfig.PandocDataDir {
+	if c.PandocDataDir != defaultConfig.PandocDataDir || isExplicit("pandoc-data-dir") {
 		absolutePath, err := util.ToAbsolutePath(c.PandocDataDir)
 		sigolo.FatalCheck(err)
 		sigolo.Tracef("Override PandocDataDir with %s", absolutePath)
 		Current.PandocDataDir = absolutePath
 	}
-	if !util.EqualsInAnyOrder(c.FontFiles, defaultConfig.FontFiles) {
+	if !util.EqualsInAnyOrder(c.FontFiles, defaultConfig.FontFiles) || isExplicit("font-files") {
 		absolutePaths, err := util.ToAbsolutePaths(c.FontFiles...)
 		sigolo.FatalCheck(err)
 		sigolo.Tracef("Override FontFiles with %v", c.SvgSizeToViewbox)
 		Current.FontFiles = absolutePaths
 	}
-	if !util.EqualsInAnyOrder(c.IgnoredTemplates, defaultConfig.IgnoredTemplates) {
+	if !util.EqualsInAnyOrder(c.IgnoredTemplates, defaultConfig.IgnoredTemplates) || isExplicit("ignored-templates") {
 		sigolo.Tracef("Override IgnoredTemplates with %v", c.IgnoredTemplates)
 		Current.IgnoredTemplates = c.IgnoredTemplates
 	}
-	if !util.EqualsInAnyOrder(c.TrailingTemplates, defaultConfig.TrailingTemplates) {
+	if !util.EqualsInAnyOrder(c.TrailingTemplates, defaultConfig.TrailingTemplates) || isExplicit("trailing-templates") {
 		sigolo.Tracef("Override TrailingTemplates with %v", c.TrailingTemplates)
 		Current.TrailingTemplates = c.TrailingTemplates
 	}
-	if !util.EqualsInAnyOrder(c.IgnoredImageParams, defaultConfig.IgnoredImageParams) {
+	if !util.EqualsInAnyOrder(c.IgnoredImageParams, defaultConfig.IgnoredImageParams) || isExplicit("ignored-image-params") {
 		sigolo.Tracef("Override IgnoredImageParams with %v", c.IgnoredImageParams)
 		Current.IgnoredImageParams = c.IgnoredImageParams
 	}
-	if !util.EqualsInAnyOrder(c.IgnoredMediaTypes, defaultConfig.IgnoredMediaTypes) {
+	if !util.EqualsInAnyOrder(c.IgnoredMediaTypes, defaultConfig.IgnoredMediaTypes) || isExplicit("ignored-media-types") {
 		sigolo.Tracef("Override IgnoredMediaTypes with %v", c.IgnoredMediaTypes)
 		Current.IgnoredMediaTypes = c.IgnoredMediaTypes
 	}
-	if c.WikipediaInstance != defaultConfig.WikipediaInstance {
+	if c.WikipediaInstance != defaultConfig.WikipediaInstance || isExplicit("wikipedia-instance") {
 		sigolo.Tracef("Override WikipediaInstance with %s", c.WikipediaInstance)
 		Current.WikipediaInstance = c.WikipediaInstance
 	}
-	if c.WikipediaHost != defaultConfig.WikipediaHost {
+	if c.WikipediaHost != defaultConfig.WikipediaHost || isExplicit("wikipedia-host") {
 		sigolo.Tracef("Override WikipediaHost with %s", c.WikipediaHost)
 		Current.WikipediaHost = c.WikipediaHost
 	}
-	if c.WikipediaImageHost != defaultConfig.WikipediaImageHost {
+	if c.WikipediaImageHost != defaultConfig.WikipediaImageHost || isExplicit("wikipedia-image-host") {
 		sigolo.Tracef("Override WikipediaImageHost with %s", c.WikipediaImageHost)
 		Current.WikipediaImageHost = c.WikipediaImageHost
 	}
-	if c.WikipediaMathRestApi != defaultConfig.WikipediaMathRestApi {
+	if c.WikipediaMathRestApi != defaultConfig.WikipediaMathRestApi || isExplicit("wikipedia-math-rest-api") {
 		sigolo.Tracef("Override WikipediaMathRestApi with %s", c.WikipediaMathRestApi)
 		Current.WikipediaMathRestApi = c.WikipediaMathRestApi
 	}
-	if !util.EqualsInAnyOrder(c.WikipediaImageArticleHosts, defaultConfig.WikipediaImageArticleHosts) {
+	if !util.EqualsInAnyOrder(c.WikipediaImageArticleHosts, defaultConfig.WikipediaImageArticleHosts) || isExplicit("wikipedia-image-article-hosts") {
 		sigolo.Tracef("Override WikipediaImageArticleHosts with %v", c.WikipediaImageArticleHosts)
 		Current.WikipediaImageArticleHosts = c.WikipediaImageArticleHosts
 	}
-	if !util.EqualsInAnyOrder(c.FilePrefixes, defaultConfig.FilePrefixes) {
+	if !util.EqualsInAnyOrder(c.FilePrefixes, defaultConfig.FilePrefixes) || isExplicit("file-prefixes") {
 		sigolo.Tracef("Override FilePrefixes with %v", c.FilePrefixes)
 		Current.FilePrefixes = c.FilePrefixes
 	}
-	if !util.EqualsInAnyOrder(c.AllowedLinkPrefixes, defaultConfig.AllowedLinkPrefixes) {
+	if !util.EqualsInAnyOrder(c.AllowedLinkPrefixes, defaultConfig.AllowedLinkPrefixes) || isExplicit("allowed-link-prefixes") {
 		sigolo.Tracef("Override AllowedLinkPrefixes with %v", c.AllowedLinkPrefixes)
 		Current.AllowedLinkPrefixes = c.AllowedLinkPrefixes
 	}
-	if !util.EqualsInAnyOrder(c.CategoryPrefixes, defaultConfig.CategoryPrefixes) {
+	if !util.EqualsInAnyOrder(c.CategoryPrefixes, defaultConfig.CategoryPrefixes) || isExplicit("category-prefixes") {
 		sigolo.Tracef("Override CategoryPrefixes with %v", c.CategoryPrefixes)
 		Current.CategoryPrefixes = c.CategoryPrefixes
 	}
-	if c.MathConverter != defaultConfig.MathConverter {
+	if c.MathConverter != defaultConfig.MathConverter || isExplicit("math-converter") {
 		sigolo.Tracef("Override MathConverter with %s", c.MathConverter)
 		Current.MathConverter = c.MathConverter
 	}
-	if c.TocDepth != defaultConfig.TocDepth {
+	if c.TocDepth != defaultConfig.TocDepth || isExplicit("toc-depth") {
 		sigolo.Tracef("Override TocDepth with %d", c.TocDepth)
 		Current.TocDepth = c.TocDepth
 	}
-	if c.WorkerThreads != defaultConfig.WorkerThreads {
+	if c.WorkerThreads != defaultConfig.WorkerThreads || isExplicit("worker-threads") {
 		sigolo.Tracef("Override WorkerThreads with %d", c.WorkerThreads)
 		Current.WorkerThreads = c.WorkerThreads
 	}
-	if c.UserAgentTemplate != defaultConfig.UserAgentTemplate {
+	if c.UserAgentTemplate != defaultConfig.UserAgentTemplate || isExplicit("user-agent-template") {
 		sigolo.Tracef("Override UserAgentTemplate with %s", c.UserAgentTemplate)
 		Current.UserAgentTemplate = c.UserAgentTemplate
 	}
diff --git a/src/config/project.go b/src/config/project.go
index e7132aa..cb317fa 100644
--- a/src/config/project.go
+++ b/src/config/project.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"os"
 	"strings"
+	"wiki2book/util"
 
 	"github.com/hauke96/sigolo/v2"
 	"github.com/pkg/errors"
@@ -15,6 +16,9 @@ type Project struct {
 	Metadata   Metadata `json:"metadata"`
 	OutputFile string   `json:"output-file"`
 	Articles   []string `json:"articles"`
+
+	// Names of all entries that are specified in the project file.
+	entries []string
 }
 
 type Metadata struct {
@@ -31,6 +35,11 @@ func (p *Project) Print() {
 	sigolo.Debugf("Project:\n  OutputFile: %s\n  Articles: %v\n  Metadata: %s", p.OutputFile, strings.Join(p.Articles, ", "), string(jsonBytes))
 }
 
+// IsExplicit returns true when the entry with the given JSON name is specified in the project file.
+func (p *Project) IsExplicit(entry string) bool {
+	return util.Contains(p.entries, entry)
+}
+
 // LoadProject reads the given file and creates a corresponding Project instance. It also alters the config.Current
 // object to override default configurations since project specific configs have a higher precedence.
 func LoadProject(file string) (*Project, error) {
@@ -46,5 +55,16 @@ func LoadProject(file string) (*Project, error) {
 		return nil, errors.Wrap(err, "Error parsing project file content")
 	}
 
+	entries := map[string]interface{}{}
+	err = json.Unmarshal(projectString, &entries)
+	if err != nil {
+		return nil, errors.Wrap(err, "Error parsing entries of project file content")
+	}
+	for entry, value := range entries {
+		if value != nil {
+			project.entries = append(project.entries, strings.ToLower(entry))
+		}
+	}
+
 	return project, nil
 }
diff --git a/src/main.go b/src/main.go
index 1b2010f..88d3711 100644
--- a/src/main.go
+++ b/src/main.go
@@ -32,6 +32,9 @@ const (
 
 var cliConfig = config.NewDefaultConfig()
 
+// Returns true when the config entry with the given name is specified as CLI argument.
+var isCliArgument = func(entry string) bool { return false }
+
 func main() {
 	rootCmd := initCli()
 
@@ -113,6 +116,8 @@ func initCli() *cobra.Command {
 	rootCmd.PersistentFlags().IntVar(&cliConfig.WorkerThreads, "worker-threads", cliConfig.WorkerThreads, "Number of threads to process the articles. Only affects projects but not single articles or the standalone mode. The value must at least be 1.")
 	rootCmd.PersistentFlags().StringVar(&cliConfig.UserAgentTemplate, "user-agent-template", cliConfig.UserAgentTemplate, "Template for the user-agent used in HTTP requests.")
 
+	isCliArgument = rootCmd.PersistentFlags().Changed
+
 	projectCmd := getCommand("project [file]", "Uses a project file to create the eBook.")
 	projectCmd.Args = cobra.MatchAll(cobra.ExactArgs(1))
 	projectCmd.Run = func(cmd *cobra.Command, args []string) {
@@ -133,7 +138,7 @@ func initCli() *cobra.Command {
 	articleCmd.Args = cobra.MatchAll(cobra.ExactArgs(1))
 	articleCmd.Run = func(cmd *cobra.Command, args []string) {
 		sigolo.Infof("Prepare generating eBook from single article")
-		config.MergeIntoCurrentConfig(cliConfig)
+		config.MergeEntriesIntoCurrentConfig(cliConfig, isCliArgument)
 		generateArticleEbook(
 			args[0],
 			cliOutputFile,
@@ -144,7 +149,7 @@ func initCli() *cobra.Command {
 	standaloneCmd.Args = cobra.MatchAll(cobra.ExactArgs(1))
 	standaloneCmd.Run = func(cmd *cobra.Command, args []string) {
 		sigolo.Infof("Prepare generating eBook from standalone mediawiki file")
-		config.MergeIntoCurrentConfig(cliConfig)
+		config.MergeEntriesIntoCurrentConfig(cliConfig, isCliArgument)
 		generateStandaloneEbook(
 			args[0],
 			cliOutputFile,
@@ -249,8 +254,8 @@ func generateProjectEbook(projectFile string, outputFile string) {
 	proj.OutputFile, err = util.ToAbsolutePath(proj.OutputFile)
 	sigolo.FatalCheck(err)
 
-	config.MergeIntoCurrentConfig(&proj.Configuration)
-	config.MergeIntoCurrentConfig(cliConfig)
+	config.MergeEntriesIntoCurrentConfig(&proj.Configuration, proj.IsExplicit)
+	config.MergeEntriesIntoCurrentConfig(cliConfig, isCliArgument)
 
 	config.Current.Print()
 	proj.Print()
-- 
2.43.0


From 9a83392e2cb0d37131c18330bf7353a59564e50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 44/63] fix: keep absolute paths of font files in configuration
 files

---
 src/config/config.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/config/config.go b/src/config/config.go
index 5de72d6..46318ef 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -669,9 +669,8 @@ func (c *Configuration) makePathsAbsolute(file string) {
 	sigolo.FatalCheck(err)
 
 	for i, f := range c.FontFiles {
-		absoluteFile := filepath.Join(absoluteConfigDir, f)
+		c.FontFiles[i], err = util.ToAbsolutePathWithBasedir(absoluteConfigDir, f)
 		sigolo.FatalCheck(err)
-		c.FontFiles[i] = absoluteFile
 	}
 }
 
-- 
2.43.0


From 47d12545b22c76087df353e774f38bc7b9113da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 45/63] fix: use the default output file when neither the
 project nor the CLI specifies one

---
 src/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.go b/src/main.go
index 88d3711..06ae825 100644
--- a/src/main.go
+++ b/src/main.go
@@ -249,6 +249,9 @@ func generateProjectEbook(projectFile string, outputFile string) {
 		sigolo.Tracef("Project has no output file set, so I'll use '%s'", outputFile)
 		proj.OutputFile = outputFile
 	}
+	if proj.OutputFile == "" {
+		proj.OutputFile = defaultEpubOutputFile
+	}
 
 	sigolo.Debug("Turn output file path into absolute path")
 	proj.OutputFile, err = util.ToAbsolutePath(proj.OutputFile)
-- 
2.43.0


From 6070edf9383a790ecae075dcc5e1c65f90c8d3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 46/63] fix: use the specified output file for statistics, only
 replace the name of the default one

---
 src/main.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main.go b/src/main.go
index 06ae825..b12c6ca 100644
--- a/src/main.go
+++ b/src/main.go
@@ -495,16 +495,16 @@ func shouldRecreateHtml(htmlFilePath string, forceHtmlRecreate bool) bool {
 func ensurePathsAndClearTempDir(outputFile string) string {
 	var err error
 
-	if config.Current.OutputType == config.OutputTypeStatsJson && !strings.HasSuffix(outputFile, "json") {
+	if config.Current.OutputType == config.OutputTypeStatsJson && filepath.Base(outputFile) == defaultEpubOutputFile {
 		// For stats, the output file is not an EPUB, therefore we change the default file in case it's the default EPUB one.
-		outputFile = defaultStatsJsonOutputFile
+		outputFile = filepath.Join(filepath.Dir(outputFile), defaultStatsJsonOutputFile)
 		sigolo.Infof("Notice: Changing output file from default '%s' to '%s'", defaultEpubOutputFile, outputFile)
 		outputFile, err = util.ToAbsolutePath(outputFile)
 		sigolo.FatalCheck(err)
 	}
-	if config.Current.OutputType == config.OutputTypeStatsTxt && !strings.HasSuffix(outputFile, "txt") {
+	if config.Current.OutputType == config.OutputTypeStatsTxt && filepath.Base(outputFile) == defaultEpubOutputFile {
 		// For stats, the output file is not an EPUB, therefore we change the default file in case it's the default EPUB one.
-		outputFile = defaultStatsTxtOutputFile
+		outputFile = filepath.Join(filepath.Dir(outputFile), defaultStatsTxtOutputFile)
 		sigolo.Infof("Notice: Changing output file from default '%s' to '%s'", defaultEpubOutputFile, outputFile)
 		outputFile, err = util.ToAbsolutePath(outputFile)
 		sigolo.FatalCheck(err)
-- 
2.43.0


From 53d498ae77629bdfa40ca33a5cc5b313e958f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 47/63] fix: keep every occurrence of an article that is listed
 multiple times

---
 src/main.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/main.go b/src/main.go
index b12c6ca..7d0328e 100644
--- a/src/main.go
+++ b/src/main.go
@@ -350,7 +350,8 @@ func generateBookFromArticles(project *config.Project) {
 	numberOfArticles := len(articles)
 	articleOutputFiles := make([]string, numberOfArticles)
 
-	articleChan := make(chan string, config.Current.WorkerThreads)
+	// The channel contains the indices of the articles, because names are not necessarily unique
+	articleChan := make(chan int, config.Current.WorkerThreads)
 	sigolo.Debugf("Use %d worker threads to process the articles", config.Current.WorkerThreads)
 
 	wikipediaService := wikipedia.NewWikipediaService(
@@ -372,16 +373,10 @@ func generateBookFromArticles(project *config.Project) {
 		sigolo.Debugf("Start worker thread %d", i)
 
 		go func(threadNumber int) {
-			for articleName := range articleChan {
+			for articleNumber := range articleChan {
+				articleName := articles[articleNumber]
 				sigolo.Debugf("Processing article %s on thread %d", articleName, threadNumber)
 
-				articleNumber := 0
-				for ; articleNumber < len(articles); articleNumber++ {
-					if articleName == articles[articleNumber] {
-						break
-					}
-				}
-
 				thisArticleOutputFile := processArticle(articleName, articleNumber+1, numberOfArticles, wikipediaService)
 				articleOutputFiles[articleNumber] = thisArticleOutputFile
 			}
@@ -392,9 +387,9 @@ func generateBookFromArticles(project *config.Project) {
 		}(i)
 	}
 
-	for _, articleName := range articles {
+	for articleNumber, articleName := range articles {
 		sigolo.Debugf("Pass article %s to worker threads", articleName)
-		articleChan <- articleName
+		articleChan <- articleNumber
 	}
 	close(articleChan)
 
-- 
2.43.0


From e1b3aabb891e4686527d286ad2327b5b3d6de7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 48/63] fix: look for existing HTML files in the cache and use
 them in the book

---
 src/main.go | 105 +++++++++++++++++++++++++++-------------------------
 1 file changed, 55 insertions(+), 50 deletions(-)

diff --git a/src/main.go b/src/main.go
index 7d0328e..26f92a5 100644
--- a/src/main.go
+++ b/src/main.go
@@ -297,15 +297,8 @@ func generateStandaloneEbook(inputFile string, outputFile string) {
 	sigolo.FatalCheck(err)
 
 	// TODO Adjust this when additional non-epub output types are supported.
-	htmlFilePath := path.Join(cache.HtmlCacheDirName, article.Title+".html")
-	if shouldRecreateHtml(htmlFilePath, config.Current.ForceRegenerateHtml) {
-		htmlGenerator := &generator.HtmlGenerator{
-			TokenMap:         article.TokenMap,
-			WikipediaService: wikipediaService,
-		}
-		htmlFilePath, err = htmlGenerator.Generate(article)
-		sigolo.FatalCheck(err)
-	}
+	htmlFilePath, err := getOrGenerateHtml(article, wikipediaService)
+	sigolo.FatalCheck(err)
 
 	sigolo.Infof("Start generating %s file", config.Current.OutputType)
 	metadata := config.Metadata{
@@ -428,44 +421,36 @@ func processArticle(articleName string, currentArticleNumber int, totalNumberOfA
 	sigolo.Infof("Article '%s' (%d/%d): Start processing", articleName, currentArticleNumber, totalNumberOfArticles)
 
 	wikipediaArticleHost := fmt.Sprintf("%s.%s", config.Current.WikipediaInstance, config.Current.WikipediaHost)
-	htmlFilePath := filepath.Join(cache.HtmlCacheDirName, articleName+".html") // TODO use generator to get this file (currently determining the filepath happens twice)
 	articleOutputFile := ""
-	if !shouldRecreateHtml(htmlFilePath, config.Current.ForceRegenerateHtml) {
-		sigolo.Debugf("Article '%s' (%d/%d): HTML for article does already exist. Skip parsing and HTML generation.", articleName, currentArticleNumber, totalNumberOfArticles)
-	} else {
-		sigolo.Debugf("Article '%s' (%d/%d): Download article", articleName, currentArticleNumber, totalNumberOfArticles)
-		wikiArticleDto, err := wikipediaService.DownloadArticle(wikipediaArticleHost, articleName)
-		sigolo.FatalCheck(err)
 
-		sigolo.Debugf("Article '%s' (%d/%d): Tokenize content", articleName, currentArticleNumber, totalNumberOfArticles)
-		tokenizer := parser.NewTokenizer(wikipediaService)
-		article, err := tokenizer.Tokenize(wikiArticleDto.Parse.Wikitext.Content, wikiArticleDto.Parse.OriginalTitle)
-		sigolo.FatalCheck(err)
+	sigolo.Debugf("Article '%s' (%d/%d): Download article", articleName, currentArticleNumber, totalNumberOfArticles)
+	wikiArticleDto, err := wikipediaService.DownloadArticle(wikipediaArticleHost, articleName)
+	sigolo.FatalCheck(err)
 
-		sigolo.Debugf("Article '%s' (%d/%d): Download images", articleName, currentArticleNumber, totalNumberOfArticles)
-		err = wikipediaService.DownloadImages(article.Images)
-		sigolo.FatalCheck(err)
+	sigolo.Debugf("Article '%s' (%d/%d): Tokenize content", articleName, currentArticleNumber, totalNumberOfArticles)
+	tokenizer := parser.NewTokenizer(wikipediaService)
+	article, err := tokenizer.Tokenize(wikiArticleDto.Parse.Wikitext.Content, wikiArticleDto.Parse.OriginalTitle)
+	sigolo.FatalCheck(err)
 
-		switch config.Current.OutputType {
-		case config.OutputTypeEpub2:
-			fallthrough
-		case config.OutputTypeEpub3:
-			sigolo.Debugf("Article '%s' (%d/%d): Generate HTML", articleName, currentArticleNumber, totalNumberOfArticles)
-			htmlGenerator := &generator.HtmlGenerator{
-				TokenMap:         article.TokenMap,
-				WikipediaService: wikipediaService,
-			}
-			htmlFilePath, err = htmlGenerator.Generate(article)
-			articleOutputFile = htmlFilePath
-			sigolo.FatalCheck(err)
-		case config.OutputTypeStatsJson:
-			fallthrough
-		case config.OutputTypeStatsTxt:
-			sigolo.Debugf("Article '%s' (%d/%d): Generate stats", articleName, currentArticleNumber, totalNumberOfArticles)
-			statsGenerator := generator.NewStatsGenerator(article.TokenMap)
-			articleOutputFile, err = statsGenerator.Generate(article)
-			sigolo.FatalCheck(err)
-		}
+	// Images might have been evicted from the cache, so this is also needed for already existing HTML files.
+	sigolo.Debugf("Article '%s' (%d/%d): Download images", articleName, currentArticleNumber, totalNumberOfArticles)
+	err = wikipediaService.DownloadImages(article.Images)
+	sigolo.FatalCheck(err)
+
+	switch config.Current.OutputType {
+	case config.OutputTypeEpub2:
+		fallthrough
+	case config.OutputTypeEpub3:
+		sigolo.Debugf("Article '%s' (%d/%d): Generate HTML", articleName, currentArticleNumber, totalNumberOfArticles)
+		articleOutputFile, err = getOrGenerateHtml(article, wikipediaService)
+		sigolo.FatalCheck(err)
+	case config.OutputTypeStatsJson:
+		fallthrough
+	case config.OutputTypeStatsTxt:
+		sigolo.Debugf("Article '%s' (%d/%d): Generate stats", articleName, currentArticleNumber, totalNumberOfArticles)
+		statsGenerator := generator.NewStatsGenerator(article.TokenMap)
+		articleOutputFile, err = statsGenerator.Generate(article)
+		sigolo.FatalCheck(err)
 	}
 
 	sigolo.Debugf("Article '%s' (%d/%d): Finished processing", articleName, currentArticleNumber, totalNumberOfArticles)
@@ -473,16 +458,36 @@ func processArticle(articleName string, currentArticleNumber int, totalNumberOfA
 	return articleOutputFile
 }
 
-func shouldRecreateHtml(htmlFilePath string, forceHtmlRecreate bool) bool {
-	if forceHtmlRecreate || config.Current.OutputType == config.OutputTypeStatsJson || config.Current.OutputType == config.OutputTypeStatsTxt {
-		return true
+// getOrGenerateHtml returns the path of the HTML file of the given article. The file is only generated when it's not in
+// the cache or when the configuration forces it.
+func getOrGenerateHtml(article *parser.Article, wikipediaService *wikipedia.DefaultWikipediaService) (string, error) {
+	// TODO use generator to get this file (currently determining the file name happens twice)
+	htmlFilePath, htmlFileExists, err := cache.GetFile(cache.HtmlCacheDirName, article.Title+".html")
+	if err != nil {
+		return "", err
 	}
 
-	// Check if HTML file already exists. If so, no recreate is wanted.
-	_, err := os.Stat(htmlFilePath)
-	htmlFileExists := err == nil
+	if !htmlFileExists || config.Current.ForceRegenerateHtml {
+		htmlGenerator := &generator.HtmlGenerator{
+			TokenMap:         article.TokenMap,
+			WikipediaService: wikipediaService,
+		}
+		return htmlGenerator.Generate(article)
+	}
+
+	sigolo.Debugf("HTML for article '%s' does already exist. Skip HTML generation.", article.Title)
+
+	// The rendered math, which is used by the existing HTML file, might not be in the cache anymore.
+	for _, token := range article.TokenMap {
+		if mathToken, isMathToken := token.(parser.MathToken); isMathToken {
+			_, _, err = wikipediaService.RenderMath(mathToken.Content)
+			if err != nil {
+				return "", err
+			}
+		}
+	}
 
-	return !htmlFileExists
+	return htmlFilePath, nil
 }
 
 // ensurePathsAndClearTempDir ensures that the output folder for the given outputFile exists and clears up any
-- 
2.43.0


From 118164c4f2ce5071b8f07bbdb3a40093168cff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 49/63] fix: convert freshly downloaded images again

---
 src/wikipedia/wikipedia.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index b1f020f..00a1d9b 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -165,7 +165,8 @@ func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshl
 	if commandTemplate != "" {
 		outputPngFilepath := util.GetPngPathForFile(outputFilepath)
 		pngAlreadyExists := util.PathExists(outputPngFilepath)
-		if !pngAlreadyExists {
+		if freshlyDownloaded || !pngAlreadyExists {
+			// An existing PNG belongs to the old version of a freshly downloaded image
 			err := w.imageProcessingService.ConvertToPng(outputFilepath, outputPngFilepath, commandTemplate)
 			if err != nil {
 				return err
-- 
2.43.0


From f67f6723816faa824899fa36b5430d9dc9a91329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 50/63] fix: remove unfinished images when processing them
 failed

---
 src/image/image.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/image/image.go b/src/image/image.go
index 5d75d7f..9946a4a 100644
--- a/src/image/image.go
+++ b/src/image/image.go
@@ -1,6 +1,7 @@
 package image
 
 import (
+	"os"
 	"strings"
 	"wiki2book/config"
 	"wiki2book/util"
@@ -28,6 +29,9 @@ func (s *ImageProcessingServiceImpl) ResizeAndCompressImage(imageFilepath string
 	commandString = strings.ReplaceAll(commandString, config.OutputPlaceholder, imageFilepath)
 
 	err := util.ExecuteCommandWithArgs(commandString, config.Current.CacheDir)
+	if err != nil {
+		removeUnfinishedImage(imageFilepath)
+	}
 	return errors.Wrapf(err, "Converting image '%s' failed", imageFilepath)
 }
 
@@ -38,5 +42,16 @@ func (s *ImageProcessingServiceImpl) ConvertToPng(inputFile string, pngFile stri
 	commandString = strings.ReplaceAll(commandString, config.OutputPlaceholder, pngFile)
 
 	err := util.ExecuteCommandWithArgs(commandString, ".")
+	if err != nil {
+		removeUnfinishedImage(pngFile)
+	}
 	return errors.Wrapf(err, "Converting image '%s' to PNG failed", inputFile)
 }
+
+// removeUnfinishedImage removes the given file, because existing image files are considered to be completely processed.
+func removeUnfinishedImage(imageFilepath string) {
+	err := util.CurrentFilesystem.Remove(imageFilepath)
+	if err != nil && !os.IsNotExist(err) {
+		sigolo.Warnf("Unable to remove unfinished image '%s': %s", imageFilepath, err.Error())
+	}
+}
-- 
2.43.0


From 3b08c65c38ae90eefb71e93ab8db9bba090c9c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 51/63] fix: pass paths with spaces as single arguments to
 commands

---
 src/image/image.go | 26 ++++++++++++++++++--------
 src/util/cmd.go    |  8 --------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/image/image.go b/src/image/image.go
index 9946a4a..151a52f 100644
--- a/src/image/image.go
+++ b/src/image/image.go
@@ -25,10 +25,7 @@ func NewImageProcessingService() ImageProcessingService {
 func (s *ImageProcessingServiceImpl) ResizeAndCompressImage(imageFilepath string, commandTemplate string) error {
 	sigolo.Tracef("Process image '%s'", imageFilepath)
 
-	commandString := strings.ReplaceAll(commandTemplate, config.InputPlaceholder, imageFilepath)
-	commandString = strings.ReplaceAll(commandString, config.OutputPlaceholder, imageFilepath)
-
-	err := util.ExecuteCommandWithArgs(commandString, config.Current.CacheDir)
+	err := executeCommandTemplate(commandTemplate, imageFilepath, imageFilepath, config.Current.CacheDir)
 	if err != nil {
 		removeUnfinishedImage(imageFilepath)
 	}
@@ -38,16 +35,29 @@ func (s *ImageProcessingServiceImpl) ResizeAndCompressImage(imageFilepath string
 func (s *ImageProcessingServiceImpl) ConvertToPng(inputFile string, pngFile string, commandTemplate string) error {
 	sigolo.Tracef("Convert '%s' to PNG '%s'", inputFile, pngFile)
 
-	commandString := strings.ReplaceAll(commandTemplate, config.InputPlaceholder, inputFile)
-	commandString = strings.ReplaceAll(commandString, config.OutputPlaceholder, pngFile)
-
-	err := util.ExecuteCommandWithArgs(commandString, ".")
+	err := executeCommandTemplate(commandTemplate, inputFile, pngFile, ".")
 	if err != nil {
 		removeUnfinishedImage(pngFile)
 	}
 	return errors.Wrapf(err, "Converting image '%s' to PNG failed", inputFile)
 }
 
+// executeCommandTemplate executes the command with the given files as input and output. The placeholders are replaced
+// within the single arguments of the command, because file paths might contain spaces.
+func executeCommandTemplate(commandTemplate string, inputFile string, outputFile string, workingDirectory string) error {
+	commandParts := strings.Fields(commandTemplate)
+	if len(commandParts) == 0 {
+		return errors.New("Empty command template")
+	}
+
+	placeholderReplacer := strings.NewReplacer(config.InputPlaceholder, inputFile, config.OutputPlaceholder, outputFile)
+	for i, commandPart := range commandParts {
+		commandParts[i] = placeholderReplacer.Replace(commandPart)
+	}
+
+	return util.Execute(commandParts[0], workingDirectory, commandParts[1:]...)
+}
+
 // removeUnfinishedImage removes the given file, because existing image files are considered to be completely processed.
 func removeUnfinishedImage(imageFilepath string) {
 	err := util.CurrentFilesystem.Remove(imageFilepath)
diff --git a/src/util/cmd.go b/src/util/cmd.go
index 59c6f63..ed8f2e8 100644
--- a/src/util/cmd.go
+++ b/src/util/cmd.go
@@ -9,14 +9,6 @@ import (
 	"github.com/pkg/errors"
 )
 
-func ExecuteCommandWithArgs(commandString string, workingDirectory string) error {
-	commandParts := strings.Split(commandString, " ")
-	commandExecutable := commandParts[0]
-	commandArgs := commandParts[1:]
-
-	return Execute(commandExecutable, workingDirectory, commandArgs...)
-}
-
 func Execute(name string, workingDirectory string, arg ...string) error {
 	cmd := exec.Command(name, arg...)
 
-- 
2.43.0


From 8cfc74e79027f21306887141eb5d07dfc929574d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 52/63] fix: only replace relative sizes of the root element of
 SVGs

---
 src/image/svg.go | 61 +++++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/src/image/svg.go b/src/image/svg.go
index 0ce51e6..fba59de 100644
--- a/src/image/svg.go
+++ b/src/image/svg.go
@@ -22,6 +22,8 @@ type SimpleSvgAttributes struct {
 
 var (
 	xmlNamespaceValueRegex = regexp.MustCompile(`&ns.*?;`) // Attributes like  xmlns="&ns_svg;"  cause error during Unmarshalling.
+	svgRootTagRegex        = regexp.MustCompile(`(?s)<!--.*?-->|(<(?:\w+:)?svg(?:\s(?:[^>"']|"[^"]*"|'[^']*')*)?/?>)`)
+	svgAttributeRegex      = regexp.MustCompile(`(\s)([^\s=]+)(\s*=\s*)("[^"]*"|'[^']*')`)
 )
 
 func ReadSimpleAvgAttributes(filename string) (*SimpleSvgAttributes, error) {
@@ -56,7 +58,7 @@ func MakeSvgSizeAbsolute(filename string) error {
 	}
 	sigolo.Tracef("Found SVG attributes: %#v", attributes)
 
-	if !strings.HasSuffix(attributes.Width, "%") && strings.HasSuffix(attributes.Height, "%") {
+	if !strings.HasSuffix(attributes.Width, "%") && !strings.HasSuffix(attributes.Height, "%") {
 		// Width and height are already absolute values, nothing to do here.
 		sigolo.Debugf("SVG file '%s' does not relative width and height attributes. Found width=%s and height=%s. File stays unchanged.", filename, attributes.Width, attributes.Height)
 		return nil
@@ -76,44 +78,49 @@ func MakeSvgSizeAbsolute(filename string) error {
 }
 
 func replaceRelativeSizeByViewboxSize(fileString string, filename string, oldAttributes *SimpleSvgAttributes) string {
-	// Find index of "viewbox" attribute
-	viewboxIndex := strings.Index(fileString, "viewBox=\"")
-	if viewboxIndex == -1 {
-		// No "viewbox" attribute specified, so we can't change the width/height.
-		sigolo.Debugf("SVG file '%s' does not contain a 'viewBox' attribute. File stays unchanged.", filename)
-		return fileString
+	// Find the start tag of the root element, since other elements might have the same attributes
+	var rootTag []int
+	for _, match := range svgRootTagRegex.FindAllStringSubmatchIndex(fileString, -1) {
+		if match[2] != -1 {
+			rootTag = match[2:4]
+			break
+		}
 	}
-
-	viewboxAttributeContentSlice := strings.SplitN(fileString[viewboxIndex:], "\"", 3)
-	if len(viewboxAttributeContentSlice) == 1 {
-		// SVG file probably broken, at least we're not able to find a correct value for the viewbox attribute.
-		sigolo.Debugf("Unable to find 'viewBox' attribute values in file '%s'. File stays unchanged.", filename)
+	if rootTag == nil {
+		sigolo.Debugf("SVG file '%s' does not contain an 'svg' element. File stays unchanged.", filename)
 		return fileString
 	}
+	rootTagString := fileString[rootTag[0]:rootTag[1]]
 
-	var viewboxAttributeValues []string
-	viewboxAttributeString := viewboxAttributeContentSlice[1]
-	sigolo.Tracef("Found viewBox=%s", viewboxAttributeString)
-	if strings.Contains(viewboxAttributeString, ",") {
-		viewboxAttributeValues = strings.Split(viewboxAttributeString, ",")
-	} else if strings.Contains(viewboxAttributeString, " ") {
-		viewboxAttributeValues = strings.Split(viewboxAttributeString, " ")
-	} else {
-		// No supported separator found
-		sigolo.Debugf("Unsupported separator for 'viewBox' attribute values in file '%s', file stays unchanged. Expected comma or space in attribute 'viewbox=\"%s\"'", filename, viewboxAttributeString)
-		return fileString
+	viewboxAttributeString := ""
+	for _, attribute := range svgAttributeRegex.FindAllStringSubmatch(rootTagString, -1) {
+		if attribute[2] == "viewBox" {
+			viewboxAttributeString = attribute[4][1 : len(attribute[4])-1]
+		}
 	}
+	sigolo.Tracef("Found viewBox=%s", viewboxAttributeString)
 
+	viewboxAttributeValues := strings.FieldsFunc(viewboxAttributeString, func(r rune) bool {
+		return strings.ContainsRune(", \t\r\n", r)
+	})
 	if len(viewboxAttributeValues) != 4 {
-		// Wrong number of elements in viewbox
+		// No "viewbox" attribute specified or wrong number of elements in it, so we can't change the width/height.
 		sigolo.Debugf("Wrong number of 'viewBox' attribute values in file '%s': Expected 4 but got %d. File stays unchanged.", filename, len(viewboxAttributeValues))
 		return fileString
 	}
 
 	sigolo.Tracef("Replace width=%s -> width=%s and height=%s -> height=%s", oldAttributes.Width, viewboxAttributeValues[2], oldAttributes.Height, viewboxAttributeValues[3])
-	fileString = strings.Replace(fileString, "width=\""+oldAttributes.Width+"\"", "width=\""+viewboxAttributeValues[2]+"pt\"", 1)
-	fileString = strings.Replace(fileString, "height=\""+oldAttributes.Height+"\"", "height=\""+viewboxAttributeValues[3]+"pt\"", 1)
-	return fileString
+	newRootTagString := svgAttributeRegex.ReplaceAllStringFunc(rootTagString, func(attribute string) string {
+		parts := svgAttributeRegex.FindStringSubmatch(attribute)
+		switch parts[2] {
+		case "width":
+			return parts[1] + parts[2] + parts[3] + "\"" + viewboxAttributeValues[2] + "pt\""
+		case "height":
+			return parts[1] + parts[2] + parts[3] + "\"" + viewboxAttributeValues[3] + "pt\""
+		}
+		return attribute
+	})
+	return fileString[:rootTag[0]] + newRootTagString + fileString[rootTag[1]:]
 }
 
 func parseSimpleSvgAttributes(fileContent []byte, filename string) (*SimpleSvgAttributes, error) {
-- 
2.43.0


From e1242fa72ae4ad9461231bc4505f8b1f826d227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 53/63] fix: close manual list items with sub-lists

---
 src/generator/html.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/html.go b/src/generator/html.go
index 32b114f..e09441d 100644
--- a/src/generator/html.go
+++ b/src/generator/html.go
@@ -341,7 +341,7 @@ func (g *HtmlGenerator) expandListItem(token parser.ListItemToken) (string, erro
 			// item of the manual HTML within this list might contain additional arguments, so we use their item
 			// instead of the item from the template.
 			template = "%s"
-			if !strings.Contains(listItemString, "</li") {
+			if !strings.Contains(token.Content, "</li") {
 				template += "</li>"
 			}
 		} else {
-- 
2.43.0


From 72c10c1ec029f45d8032a44244541731d07e063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:14 +0000
Subject: [PATCH 54/63] fix: use the article of the right host when an image is
 tried at the next source

---
 doc/caches.md              |  1 +
 src/wikipedia/wikipedia.go | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/doc/caches.md b/doc/caches.md
index 1ced509..8fd5a8d 100644
--- a/doc/caches.md
+++ b/doc/caches.md
@@ -53,6 +53,7 @@ All folder names are within the configured `cache-dir` folder.
 
 * Folder: `articles`
 * Filenames: Article name but spaces are replaced by underscores (`_`).
+  The articles of images start with the host they come from and a `#`, because each host can have a different article for the same image.
 
 This contains the json response of the Wikipedia API, for example: `{"parse":{"title":"Interstellares Eis","pageid":10700436,"wikitext":{"*":"'''Interstellares Eis''', oder auch ........."}}}`.
 
diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 00a1d9b..c59ae6f 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -75,11 +75,15 @@ func NewWikipediaService(wikipediaInstance string, wikipediaHost string, wikiped
 }
 
 func (w *DefaultWikipediaService) DownloadArticle(host string, title string) (*WikiArticleDto, error) {
+	return w.downloadArticleToFile(host, title, strings.ReplaceAll(title, " ", "_")+".json")
+}
+
+// downloadArticleToFile downloads the given article and stores it in the given file within the article cache.
+func (w *DefaultWikipediaService) downloadArticleToFile(host string, title string, cachedFile string) (*WikiArticleDto, error) {
 	titleWithoutWhitespaces := strings.ReplaceAll(title, " ", "_")
 	escapedTitle := url.QueryEscape(titleWithoutWhitespaces)
 	urlString := fmt.Sprintf("https://%s/w/api.php?action=parse&prop=wikitext&redirects=true&format=json&page=%s", host, escapedTitle)
 
-	cachedFile := titleWithoutWhitespaces + ".json"
 	cachedFilePath, _, err := w.httpService.DownloadAndCache(urlString, cache.ArticleCacheDirName, cachedFile)
 	if err != nil {
 		return nil, errors.Wrapf(err, "Unable to download article %s", title)
@@ -202,7 +206,10 @@ func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNa
 	}
 	imageName := "File:" + imageNameWithoutPrefix
 	sigolo.Debugf("Download article file for image '%s' from '%s'", imageName, imageArticleHost)
-	imageArticle, err := w.DownloadArticle(imageArticleHost, imageName)
+	// The same image might have a different article on each host, so each of them needs its own file in the cache. The
+	// "#" is not allowed in titles.
+	cachedFile := imageArticleHost + "#" + strings.ReplaceAll(imageName, " ", "_") + ".json"
+	imageArticle, err := w.downloadArticleToFile(imageArticleHost, imageName, cachedFile)
 	if err != nil {
 		return "", true, err
 	}
-- 
2.43.0


From 98b1a700ab8a23c1d56b73249726142afec9e8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:09 +0000
Subject: [PATCH 55/63] fix: make the size of SVGs with an upper case file
 ending absolute as well

---
 src/wikipedia/wikipedia.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index c59ae6f..bc704b0 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -252,7 +252,7 @@ func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNa
 		return "", freshlyDownloaded, err
 	}
 
-	if freshlyDownloaded && config.Current.SvgSizeToViewbox && filepath.Ext(cachedFilePath) == util.FileEndingSvg {
+	if freshlyDownloaded && config.Current.SvgSizeToViewbox && filepath.Ext(strings.ToLower(cachedFilePath)) == util.FileEndingSvg {
 		err = image.MakeSvgSizeAbsolute(cachedFilePath)
 		if err != nil {
 			sigolo.Errorf("Unable to make size of SVG '%s' absolute. This error will be ignored, since false errors exist for the XML parsing of SVGs. Error: %+v", cachedFilePath, err)
-- 
2.43.0


From b07aad4bfcdf51421b2ce0d4b4380971d8cd3255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:58 +0000
Subject: [PATCH 56/63] fix: characters at the beginning of inline texts are no
 list or heading

---
 src/parser/heading.go   |  2 +-
 src/parser/image.go     |  2 +-
 src/parser/link.go      |  6 +++---
 src/parser/list.go      |  8 ++++----
 src/parser/pattern.go   |  1 +
 src/parser/reference.go |  2 +-
 src/parser/table.go     |  4 ++--
 src/parser/tokenizer.go | 13 +++++++++++++
 8 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/parser/heading.go b/src/parser/heading.go
index 5930995..8549c55 100644
--- a/src/parser/heading.go
+++ b/src/parser/heading.go
@@ -27,7 +27,7 @@ func (t *Tokenizer) parseHeadings(content string) string {
 
 				token := t.getToken(TOKEN_HEADING)
 				t.setRawToken(token, HeadingToken{
-					Content: t.tokenizeContent(t, headingText),
+					Content: t.tokenizeInlineContent(headingText),
 					Depth:   depth,
 				})
 				lines[i] = token
diff --git a/src/parser/image.go b/src/parser/image.go
index cf18b11..637fb28 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -342,7 +342,7 @@ func (t *Tokenizer) parseImages(content string) string {
 
 			// We ignore captions on inline images.
 			if hasCaption && caption != "" {
-				captionToken.Content = t.tokenizeContent(t, caption)
+				captionToken.Content = t.tokenizeInlineContent(caption)
 			}
 
 			var imageToken Token
diff --git a/src/parser/link.go b/src/parser/link.go
index 6c82100..73e558f 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -127,7 +127,7 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 		if linkType == LINK_TYPE_INTERNAL {
 			token = InternalLinkToken{
 				ArticleName: linkTarget,
-				LinkText:    t.tokenizeContent(t, linkText),
+				LinkText:    t.tokenizeInlineContent(linkText),
 			}
 			linkTokenKey = TOKEN_INTERNAL_LINK
 		} else if linkType == LINK_TYPE_EXTERNAL {
@@ -136,12 +136,12 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 			if util.HasAnyPrefix(linkTarget, "http://", "https://") {
 				token = ExternalLinkToken{
 					URL:      linkTarget,
-					LinkText: t.tokenizeContent(t, linkText),
+					LinkText: t.tokenizeInlineContent(linkText),
 				}
 				linkTokenKey = TOKEN_EXTERNAL_LINK
 			} else if strings.Contains(linkTarget, "://") {
 				token = StringToken{
-					String: t.tokenizeContent(t, linkText),
+					String: t.tokenizeInlineContent(linkText),
 				}
 				linkTokenKey = TOKEN_STRING
 			}
diff --git a/src/parser/list.go b/src/parser/list.go
index cf05f5e..a322392 100644
--- a/src/parser/list.go
+++ b/src/parser/list.go
@@ -162,7 +162,7 @@ func (t *Tokenizer) tokenizeList(lines []string, startLineIndex int, listPrefix
 				// Description list head -> also check for description list item in the same line
 				lineParts := strings.SplitN(line[1:], ":", 2)
 
-				headPart := t.tokenizeContent(t, lineParts[0])
+				headPart := t.tokenizeInlineContent(lineParts[0])
 				headToken := ListItemToken{
 					Type:    DESCRIPTION_HEAD,
 					Content: headPart,
@@ -171,7 +171,7 @@ func (t *Tokenizer) tokenizeList(lines []string, startLineIndex int, listPrefix
 
 				if len(lineParts) > 1 {
 					// There's a description list item after the heading -> Create separate token for that
-					itemPart := t.tokenizeContent(t, lineParts[1])
+					itemPart := t.tokenizeInlineContent(lineParts[1])
 					itemToken := ListItemToken{
 						Type:    DESCRIPTION_ITEM,
 						Content: itemPart,
@@ -182,12 +182,12 @@ func (t *Tokenizer) tokenizeList(lines []string, startLineIndex int, listPrefix
 				// Description list item
 				itemToken := ListItemToken{
 					Type:    DESCRIPTION_ITEM,
-					Content: t.tokenizeContent(t, line[1:]),
+					Content: t.tokenizeInlineContent(line[1:]),
 				}
 				allListItemTokens = append(allListItemTokens, itemToken)
 			} else {
 				// Normal list item
-				tokenizedLine := t.tokenizeContent(t, line[1:])
+				tokenizedLine := t.tokenizeInlineContent(line[1:])
 				lineToken := ListItemToken{
 					Type:    NORMAL_ITEM,
 					Content: tokenizedLine,
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 69f37bf..d525442 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -24,6 +24,7 @@ const (
 
 var (
 	tokenLineRegex = regexp.MustCompile(TOKEN_LINE_REGEX)
+	lineStartRegex = regexp.MustCompile(`^[ \t]*([*#:;=]+)`) // Characters with a meaning at the start of lines
 )
 
 // Categories, templates, unwanted HTML
diff --git a/src/parser/reference.go b/src/parser/reference.go
index a94b936..b5ebb02 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -224,7 +224,7 @@ func (t *Tokenizer) parseReferenceDefinition(content string, i int, startEndInde
 	refText := content[startEndIndex+1 : refEndIndex]
 	if nameAttributeValue == "" || strings.TrimSpace(refText) != "" {
 		// An empty named reference is just another usage and must not replace the actual text of the reference.
-		refNumberToContent[refNumber] = t.tokenizeContent(t, refText)
+		refNumberToContent[refNumber] = t.tokenizeInlineContent(refText)
 	}
 
 	if !cursorWithinReferencePlaceholder {
diff --git a/src/parser/table.go b/src/parser/table.go
index 906c341..276546c 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -271,11 +271,11 @@ func (t *Tokenizer) tokenizeTableEntry(content string) (string, TableColAttribut
 	// Attributes are always in the first line, everything below is normal text.
 	splittedContent := strings.SplitN(content, "|", 2)
 	if len(splittedContent) < 2 || strings.Contains(splittedContent[0], "\n") {
-		return t.tokenizeContent(t, content), attributeToken
+		return t.tokenizeInlineContent(content), attributeToken
 	}
 
 	attributeString := strings.TrimSpace(splittedContent[0])
-	entryText := t.tokenizeContent(t, splittedContent[1])
+	entryText := t.tokenizeInlineContent(splittedContent[1])
 
 	var relevantTags []string
 
diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index 498b9b1..98ec080 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -165,3 +165,16 @@ func tokenizeContent(t *Tokenizer, content string) string {
 
 	return content
 }
+
+// tokenizeInlineContent tokenizes text, which does not start at the beginning of a line (e.g. the text of a link).
+// Characters at its beginning, which usually start a list or heading, are therefore normal text.
+func (t *Tokenizer) tokenizeInlineContent(content string) string {
+	lineStart := lineStartRegex.FindStringSubmatchIndex(content)
+	if lineStart == nil {
+		return t.tokenizeContent(t, content)
+	}
+
+	tokenKey := t.getToken(TOKEN_NOWIKI)
+	t.setRawToken(tokenKey, NowikiToken{Content: content[lineStart[2]:lineStart[3]]})
+	return content[:lineStart[2]] + t.tokenizeContent(t, tokenKey+content[lineStart[3]:])
+}
-- 
2.43.0


From a8dc81fa0bdb32cc52bb0cd6efabe62e4fefdfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:56 +0000
Subject: [PATCH 57/63] fix: keep the content of nowiki and math tags verbatim

The clean-up and the template evaluation were applied to the content of
<nowiki> and <math> as well: comments, links, blanks and empty lines were
removed from it and templates evaluated, so that formulas were corrupted
and an opening template in a nowiki area was a fatal error.
---
 src/parser/nowiki.go    | 54 ++++++++++++++++++++++++++++++++++++++---
 src/parser/pattern.go   |  3 ++-
 src/parser/tokenizer.go |  5 ++++
 3 files changed, 58 insertions(+), 4 deletions(-)

diff --git a/src/parser/nowiki.go b/src/parser/nowiki.go
index 9575853..f8f2ecb 100644
--- a/src/parser/nowiki.go
+++ b/src/parser/nowiki.go
@@ -1,6 +1,14 @@
 package parser
 
-import "wiki2book/util"
+import (
+	"strings"
+	"wiki2book/util"
+)
+
+const (
+	nowikiStart = "<nowiki>"
+	nowikiEnd   = "</nowiki>"
+)
 
 type NowikiToken struct {
 	Token
@@ -13,8 +21,6 @@ func (t *Tokenizer) parseNowiki(content string) string {
 	//   2. For each element in that slice, split by start token "<nowiki>" of comments
 	//   3. Only append the non-comment parts of the splits to the result segments
 
-	nowikiStart := "<nowiki>"
-	nowikiEnd := "</nowiki>"
 	nowikiStartLen := len(nowikiStart)
 	nowikiEndLen := len(nowikiEnd)
 
@@ -40,3 +46,45 @@ func (t *Tokenizer) parseNowiki(content string) string {
 
 	return content
 }
+
+// tokenizeVerbatimContent turns all nowiki and math areas into tokens, so that their content, which might contain
+// anything that looks like wikitext, is neither cleaned up nor evaluated. Areas within comments and templates are
+// ignored, because comments are going to be removed and the content of templates is evaluated by Wikipedia.
+func (t *Tokenizer) tokenizeVerbatimContent(content string) string {
+	result := strings.Builder{}
+
+	// All relevant areas start with one of these characters
+	for i := strings.IndexAny(content, "<{"); i != -1; i = strings.IndexAny(content, "<{") {
+		result.WriteString(content[:i])
+		content = content[i:]
+
+		area := content[:1]
+		tokenizedArea := area
+
+		if strings.HasPrefix(content, "<!--") {
+			if endIndex := strings.Index(content, "-->"); endIndex != -1 {
+				area = content[:endIndex+len("-->")]
+				tokenizedArea = area
+			}
+		} else if strings.HasPrefix(content, templateStartToken) {
+			if endIndex := FindCorrespondingCloseToken(content, templateStartTokenLen, templateStartToken, templateEndToken); endIndex != -1 {
+				area = content[:endIndex+templateEndTokenLen]
+				tokenizedArea = area
+			}
+		} else if len(content) >= len(nowikiStart) && util.EqualsIgnoreCase(content[:len(nowikiStart)], nowikiStart) {
+			if endIndex := FindCorrespondingCloseTokenIgnoreCase(content, len(nowikiStart), nowikiStart, nowikiEnd); endIndex != -1 {
+				area = content[:endIndex+len(nowikiEnd)]
+				tokenizedArea = t.parseNowiki(area)
+			}
+		} else if location := mathAreaRegex.FindStringIndex(content); location != nil {
+			area = content[:location[1]]
+			tokenizedArea = t.parseMath(area)
+		}
+
+		result.WriteString(tokenizedArea)
+		content = content[len(area):]
+	}
+	result.WriteString(content)
+
+	return result.String()
+}
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index d525442..4537da9 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -70,5 +70,6 @@ var (
 
 // Math
 var (
-	mathRegex = regexp.MustCompile(`<math.*?>((.|\n|\r)*?)</math>`)
+	mathRegex     = regexp.MustCompile(`<math.*?>((.|\n|\r)*?)</math>`)
+	mathAreaRegex = regexp.MustCompile(`^<math.*?>((.|\n|\r)*?)</math>`)
 )
diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index 98ec080..7518d6c 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -83,6 +83,9 @@ func NewTokenizer(wikipediaService wikipedia.WikipediaService) Tokenizer {
 func (t *Tokenizer) Tokenize(content string, title string) (*Article, error) {
 	var err error
 
+	// Nowiki and math areas must be neither cleaned up nor evaluated. They might also be part of evaluated templates.
+	content = t.tokenizeVerbatimContent(content)
+
 	sigolo.Debugf("Tokenize article '%s' [1/4]: First cleanup", title)
 	content, err = t.clean(content)
 	if err != nil {
@@ -95,6 +98,8 @@ func (t *Tokenizer) Tokenize(content string, title string) (*Article, error) {
 		return nil, err
 	}
 
+	content = t.tokenizeVerbatimContent(content)
+
 	sigolo.Debugf("Tokenize article '%s' [3/4]: Second cleanup", title)
 	content, err = t.clean(content)
 	if err != nil {
-- 
2.43.0


From e3ab6d4804ef74be0d6463e5382e648a2908d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:03 +0000
Subject: [PATCH 58/63] fix: resolve relative paths of the pandoc executable
 against the folder of the configuration file

---
 src/config/config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/config/config.go b/src/config/config.go
index 46318ef..0bfa8db 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -668,6 +668,12 @@ func (c *Configuration) makePathsAbsolute(file string) {
 	c.PandocDataDir, err = util.ToAbsolutePathWithBasedir(absoluteConfigDir, c.PandocDataDir)
 	sigolo.FatalCheck(err)
 
+	if strings.Contains(c.PandocExecutable, "/") {
+		// Just the name of the executable, e.g. just "pandoc", is no path.
+		c.PandocExecutable, err = util.ToAbsolutePathWithBasedir(absoluteConfigDir, c.PandocExecutable)
+		sigolo.FatalCheck(err)
+	}
+
 	for i, f := range c.FontFiles {
 		c.FontFiles[i], err = util.ToAbsolutePathWithBasedir(absoluteConfigDir, f)
 		sigolo.FatalCheck(err)
-- 
2.43.0


From 575bf3f529b48e7539e7903ec396e31300ad918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:08 +0000
Subject: [PATCH 59/63] fix: end the address of an external link before
 formatting, quotes and elements

---
 src/parser/link.go    | 5 +++++
 src/parser/pattern.go | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/link.go b/src/parser/link.go
index 73e558f..d4a7166 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -134,6 +134,11 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 			// See https://www.mediawiki.org/wiki/API:Extlinks property "elprotocol" for all possible values that are
 			// supported by MediaWiki. However, these are the most likely ones:
 			if util.HasAnyPrefix(linkTarget, "http://", "https://") {
+				// Formatting, quotes and elements are never part of the URL, they belong to the text.
+				if urlEnd := externalLinkUrlEndRegex.FindStringIndex(linkTarget); urlEnd != nil {
+					linkText = linkTarget[urlEnd[0]:] + linkDelimiter + linkText
+					linkTarget = linkTarget[:urlEnd[0]]
+				}
 				token = ExternalLinkToken{
 					URL:      linkTarget,
 					LinkText: t.tokenizeInlineContent(linkText),
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 4537da9..b1e9294 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -35,7 +35,8 @@ var (
 
 // Links
 var (
-	internalLinkStartRegex = regexp.MustCompile(`(?s)\[\[([^]]+?):`)
+	internalLinkStartRegex  = regexp.MustCompile(`(?s)\[\[([^]]+?):`)
+	externalLinkUrlEndRegex = regexp.MustCompile(`["<>]|\$\$(TOKEN|MARKER)_`)
 )
 
 // Media files
-- 
2.43.0


From 413bbaf950b519093fcc652c72da74e55c6d3b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:14 +0000
Subject: [PATCH 60/63] fix: process an image needed by several articles at the
 same time only once

---
 src/wikipedia/wikipedia.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index bc704b0..9e16ee3 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -10,6 +10,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"strings"
+	"sync"
 	"wiki2book/cache"
 	"wiki2book/config"
 	ownHttp "wiki2book/http"
@@ -60,6 +61,8 @@ type DefaultWikipediaService struct {
 	wikipediaMathRestApi       string
 	imageProcessingService     image.ImageProcessingService
 	httpService                ownHttp.HttpService
+	fileMutexes                map[string]*sync.Mutex // One mutex for each image file, see lockFile.
+	fileMutexesMutex           sync.Mutex
 }
 
 func NewWikipediaService(wikipediaInstance string, wikipediaHost string, wikipediaImageInstances []string, wikipediaImageHost string, wikipediaMathRestApi string, imageProcessingService image.ImageProcessingService, httpClient ownHttp.HttpService) *DefaultWikipediaService {
@@ -71,6 +74,7 @@ func NewWikipediaService(wikipediaInstance string, wikipediaHost string, wikiped
 		wikipediaMathRestApi:       wikipediaMathRestApi,
 		imageProcessingService:     imageProcessingService,
 		httpService:                httpClient,
+		fileMutexes:                map[string]*sync.Mutex{},
 	}
 }
 
@@ -115,7 +119,10 @@ func (w *DefaultWikipediaService) DownloadImages(images []string) error {
 	for _, image := range images {
 		sigolo.Debugf("Download image %s", image)
 
+		// Articles with the same image might be processed at the same time
+		unlockFile := w.lockFile(strings.ReplaceAll(image[strings.Index(image, ":")+1:], " ", "_"))
 		downloadErr := w.downloadImageUsingAllSources(image)
+		unlockFile()
 		if downloadErr != nil {
 			return downloadErr
 		}
@@ -123,6 +130,21 @@ func (w *DefaultWikipediaService) DownloadImages(images []string) error {
 	return nil
 }
 
+// lockFile ensures that the image file with the given name is only processed by one thread at the same time. The returned
+// function has to be called afterwards.
+func (w *DefaultWikipediaService) lockFile(filename string) func() {
+	w.fileMutexesMutex.Lock()
+	mutex, exists := w.fileMutexes[filename]
+	if !exists {
+		mutex = &sync.Mutex{}
+		w.fileMutexes[filename] = mutex
+	}
+	w.fileMutexesMutex.Unlock()
+
+	mutex.Lock()
+	return mutex.Unlock
+}
+
 func (w *DefaultWikipediaService) downloadImageUsingAllSources(image string) error {
 	var downloadErr error
 
@@ -322,6 +344,7 @@ func (w *DefaultWikipediaService) RenderMath(mathString string) (string, string,
 		}
 		return cachedSvgFile, cachedPngFile, nil
 	} else if config.Current.MathConverter == config.MathConverterTemplate {
+		defer w.lockFile(mathSvgFilename + util.FileEndingPng)()
 		cachedPngFile := cache.GetFilePathInCache(cache.ImageCacheDirName, mathSvgFilename+util.FileEndingPng)
 		err = w.imageProcessingService.ConvertToPng(cachedSvgFile, cachedPngFile, config.Current.CommandTemplateMathSvgToPng)
 		if err != nil {
-- 
2.43.0


From 4ffd691cbd9d89bfdbfd0542d97c090fcfd7ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:30 +0000
Subject: [PATCH 61/63] fix: only use the title of an article as title within
 EPUBs of the internal output driver

---
 src/generator/epub.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index 36fae3a..324d3f0 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -95,7 +95,7 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		return errors.Wrap(err, fmt.Sprintf("Error setting internal image '%s' as cover image on EPUB object", internalCoverImagePath))
 	}
 
-	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*)</h1>`)
+	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*?)</h1>`)
 	var fileBytes []byte
 	for _, sourceFile := range sourceFiles {
 		sigolo.Debugf("Add source file %s to EPUB object", sourceFile)
-- 
2.43.0


From 21db71ecc05718bdd378a96baab582cabd67aa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:35 +0000
Subject: [PATCH 62/63] fix: cover, style and font files of the internal output
 driver

---
 src/generator/epub.go | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index 324d3f0..5eb5271 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -85,14 +85,25 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 	epubObj.SetLang(metadata.Language)
 	epubObj.SetTitle(metadata.Title)
 
-	internalCoverImagePath, err := epubObj.AddImage(config.Current.CoverImage, "cover.png")
-	if err != nil {
-		return errors.Wrap(err, fmt.Sprintf("Error adding cover image '%s' to EPUB object", config.Current.CoverImage))
+	if config.Current.CoverImage != "" {
+		var internalCoverImagePath string
+		internalCoverImagePath, err = epubObj.AddImage(config.Current.CoverImage, "cover.png")
+		if err != nil {
+			return errors.Wrap(err, fmt.Sprintf("Error adding cover image '%s' to EPUB object", config.Current.CoverImage))
+		}
+
+		err = epubObj.SetCover(internalCoverImagePath, "")
+		if err != nil {
+			return errors.Wrap(err, fmt.Sprintf("Error setting internal image '%s' as cover image on EPUB object", internalCoverImagePath))
+		}
 	}
 
-	err = epubObj.SetCover(internalCoverImagePath, "")
-	if err != nil {
-		return errors.Wrap(err, fmt.Sprintf("Error setting internal image '%s' as cover image on EPUB object", internalCoverImagePath))
+	internalStyleFilePath := ""
+	if config.Current.StyleFile != "" {
+		internalStyleFilePath, err = epubObj.AddCSS(config.Current.StyleFile, "style.css")
+		if err != nil {
+			return errors.Wrap(err, fmt.Sprintf("Error adding CSS file %s to EPUB object", config.Current.StyleFile))
+		}
 	}
 
 	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*?)</h1>`)
@@ -109,18 +120,13 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		sectionTitle := headingTitleRegex.FindStringSubmatch(fileContent)[1]
 
 		// TODO Find a way to add subsections to TOC as well
-		_, err = epubObj.AddSection(fileContent, sectionTitle, "", "")
+		_, err = epubObj.AddSection(fileContent, sectionTitle, "", internalStyleFilePath)
 		if err != nil {
 			return errors.Wrap(err, fmt.Sprintf("Error reading source file %s to add it to the EPUB object", sourceFile))
 		}
 		epubObj.EmbedImages()
 	}
 
-	_, err = epubObj.AddCSS(config.Current.StyleFile, "style.css")
-	if err != nil {
-		return errors.Wrap(err, fmt.Sprintf("Error adding CSS file %s to EPUB object", config.Current.StyleFile))
-	}
-
 	//for _, image := range images {
 	//	image = strings.Split(image, ":")[1] // Remove whatever prefix (e.g. "File:" or "Datei:") this image has
 	//	imageFilepath := filepath.Join(imageCache, image)
@@ -134,7 +140,7 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 	// TODO Test if this if working. The name in the CSS style and the name inside the EPUB probably need to match.
 	for _, fontFile := range config.Current.FontFiles {
 		sigolo.Debugf("Add font file %s to EPUB object", fontFile)
-		_, err = epubObj.AddFont(fontFile, fontFile)
+		_, err = epubObj.AddFont(fontFile, "")
 		if err != nil {
 			return errors.Wrap(err, fmt.Sprintf("Error adding font file %s to EPUB object", fontFile))
 		}
-- 
2.43.0


From 9dd73b1de47db9441608eb9087dc68b61c2b2e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:39 +0000
Subject: [PATCH 63/63] fix: add the images of the cache to EPUBs of the
 internal output driver

---
 src/generator/epub.go | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index 5eb5271..12936a2 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -2,7 +2,9 @@ package generator
 
 import (
 	"fmt"
+	"net/url"
 	"os"
+	"path/filepath"
 	"regexp"
 	"strconv"
 	"wiki2book/config"
@@ -13,6 +15,8 @@ import (
 	"github.com/pkg/errors"
 )
 
+var imageSourceRegex = regexp.MustCompile(`(<img [^>]*src=")\./([^"]*)(")`)
+
 func GenerateEpub(articleFiles []string, outputFile string, metadata config.Metadata) error {
 	var err error
 
@@ -106,6 +110,7 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		}
 	}
 
+	internalImagePaths := map[string]string{}
 	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*?)</h1>`)
 	var fileBytes []byte
 	for _, sourceFile := range sourceFiles {
@@ -115,7 +120,7 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 			return errors.Wrap(err, fmt.Sprintf("Error reading source file '%s' to add it to the EPUB object", sourceFile))
 		}
 
-		fileContent := string(fileBytes)
+		fileContent := addImagesToEpub(epubObj, string(fileBytes), internalImagePaths)
 
 		sectionTitle := headingTitleRegex.FindStringSubmatch(fileContent)[1]
 
@@ -124,19 +129,8 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		if err != nil {
 			return errors.Wrap(err, fmt.Sprintf("Error reading source file %s to add it to the EPUB object", sourceFile))
 		}
-		epubObj.EmbedImages()
 	}
 
-	//for _, image := range images {
-	//	image = strings.Split(image, ":")[1] // Remove whatever prefix (e.g. "File:" or "Datei:") this image has
-	//	imageFilepath := filepath.Join(imageCache, image)
-	//	sigolo.Debugf("Add image file %s to EPUB object", imageFilepath)
-	//	_, err = epubObj.AddImage(imageFilepath, imageFilepath)
-	//	if err != nil {
-	//		return errors.Wrap(err, fmt.Sprintf("Error adding image file %s to EPUB object", image))
-	//	}
-	//}
-
 	// TODO Test if this if working. The name in the CSS style and the name inside the EPUB probably need to match.
 	for _, fontFile := range config.Current.FontFiles {
 		sigolo.Debugf("Add font file %s to EPUB object", fontFile)
@@ -153,3 +147,28 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 
 	return nil
 }
+
+// addImagesToEpub adds all images of the given HTML, which are located in the cache, to the EPUB. The returned HTML contains
+// the paths of the images within the EPUB. The given map contains these paths for the already added images.
+func addImagesToEpub(epubObj *epub.Epub, html string, internalImagePaths map[string]string) string {
+	return imageSourceRegex.ReplaceAllStringFunc(html, func(imageTag string) string {
+		segments := imageSourceRegex.FindStringSubmatch(imageTag)
+
+		internalImagePath, isAlreadyAdded := internalImagePaths[segments[2]]
+		if !isAlreadyAdded {
+			imagePath, err := url.PathUnescape(segments[2])
+			if err == nil {
+				imagePath = filepath.Join(config.Current.CacheDir, imagePath)
+				internalFilename := fmt.Sprintf("image%d%s", len(internalImagePaths), filepath.Ext(imagePath))
+				internalImagePath, err = epubObj.AddImage(imagePath, internalFilename)
+			}
+			if err != nil {
+				sigolo.Warnf("Unable to add image '%s' to EPUB object: %+v", imagePath, err)
+				return imageTag
+			}
+			internalImagePaths[segments[2]] = internalImagePath
+		}
+
+		return segments[1] + internalImagePath + segments[3]
+	})
+}
-- 
2.43.0

