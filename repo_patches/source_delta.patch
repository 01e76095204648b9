From dd26a76613454fe3a1a5ad49326dcfec7dce0a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:11 +0000
Subject: [PATCH 01/34] fix: do not panic on a filter value that is a single
 quote character

A filter such as #(b==') has a value of one quote, which is both the
prefix and the suffix, so stripping the quotes sliced [1:0].
---
 filter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filter.go b/filter.go
index 3ea0a2e..926d607 100644
--- a/filter.go
+++ b/filter.go
@@ -221,8 +221,9 @@ func parseFilterCondition(expr string) (*Filter, error) {
 	}
 
 	// Remove quotes from string values
-	if (strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'")) ||
-		(strings.HasPrefix(value, "\"") && strings.HasSuffix(value, "\"")) {
+	if len(value) >= 2 &&
+		((strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'")) ||
+			(strings.HasPrefix(value, "\"") && strings.HasSuffix(value, "\""))) {
 		value = value[1 : len(value)-1]
 	}
 
-- 
2.43.0


From cf1609df8cfbc09167ae04ab2d5e8131f16aedfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:23 +0000
Subject: [PATCH 02/34] fix: locate modification targets on the original
 document bytes

Set and Delete searched nested elements in re-serialized content and used
the resulting positions on the original bytes. White space inside tags,
quotes inside attribute values or '</a >' before or at the target shifted
every position and corrupted the document.
---
 builder.go | 40 +++++++++++++++++++++-------------------
 parser.go  |  4 ++++
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/builder.go b/builder.go
index a79466b..6cc3937 100644
--- a/builder.go
+++ b/builder.go
@@ -171,6 +171,7 @@ type elementLocation struct {
 	endTagPos     int    // Position of '<' in closing tag
 	contentStart  int    // Position after '>' of opening tag
 	contentEnd    int    // Position of '<' in closing tag
+	endPos        int    // Position after '>' of closing tag
 	elementName   string // Name of the element
 	attrs         map[string]string
 	isSelfClosing bool
@@ -225,7 +226,7 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 					} else {
 						_ = parser.parseElementContent(elemName)
 						// parser.pos is now just after the '>' of </name>
-						endTagPos = parser.pos - len(elemName) - 3 // at '<' of </name>
+						endTagPos = parser.closeTagPos // at '<' of </name>
 						contentEnd = endTagPos
 					}
 					return &elementLocation{
@@ -233,20 +234,22 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 						endTagPos:     endTagPos + baseOffset,
 						contentStart:  contentStart + baseOffset,
 						contentEnd:    contentEnd + baseOffset,
+						endPos:        parser.pos + baseOffset,
 						elementName:   elemName,
 						attrs:         attrs,
 						isSelfClosing: isSelfClosing,
 					}, true
 				}
 				// Continue searching within this element
-				var content string
+				// Search the original bytes (not the normalized content) so that
+				// positions stay valid in the document
+				var content []byte
 				contentStartPos := parser.pos
-				if isSelfClosing {
-					content = ""
-				} else {
-					content = parser.parseElementContent(elemName)
+				if !isSelfClosing {
+					parser.parseElementContent(elemName)
+					content = parser.data[contentStartPos:parser.closeTagPos]
 				}
-				contentParser := newXMLParser([]byte(content))
+				contentParser := newXMLParser(content)
 				// Pass the current content start position as the new base offset
 				// Check for overflow before recursing
 				newOffset := baseOffset + contentStartPos
@@ -273,19 +276,18 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 				contentEnd = parser.pos
 				endTagPos = parser.pos
 			} else {
-				startOfContent := parser.pos
 				_ = parser.parseElementContent(elemName)
 				// parser.pos is now just after the '>' of </name>
 				// We want endTagPos to be at the '<' of </name>
-				endTagPos = parser.pos - len(elemName) - 3 // at '<' of </name>
+				endTagPos = parser.closeTagPos // at '<' of </name>
 				contentEnd = endTagPos
-				_ = startOfContent
 			}
 			return &elementLocation{
 				startPos:      elemStartPos + baseOffset,
 				endTagPos:     endTagPos + baseOffset,
 				contentStart:  contentStart + baseOffset,
 				contentEnd:    contentEnd + baseOffset,
+				endPos:        parser.pos + baseOffset,
 				elementName:   elemName,
 				attrs:         attrs,
 				isSelfClosing: isSelfClosing,
@@ -293,14 +295,15 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 		}
 
 		// Continue searching within this element
-		var content string
+		// Search the original bytes (not the normalized content) so that
+		// positions stay valid in the document
+		var content []byte
 		contentStartPos := parser.pos
-		if isSelfClosing {
-			content = ""
-		} else {
-			content = parser.parseElementContent(elemName)
+		if !isSelfClosing {
+			parser.parseElementContent(elemName)
+			content = parser.data[contentStartPos:parser.closeTagPos]
 		}
-		contentParser := newXMLParser([]byte(content))
+		contentParser := newXMLParser(content)
 		// Pass the current content start position as the new base offset
 		// Check for overflow before recursing
 		newOffset := baseOffset + contentStartPos
@@ -519,7 +522,7 @@ func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw boo
 
 	// Find where root element ends
 	_ = parser.parseElementContent(elemName)
-	contentEnd := parser.pos - len(elemName) - 3
+	contentEnd := parser.closeTagPos
 
 	b.result.Reset()
 	b.result.Write(b.data[:contentEnd])
@@ -1066,8 +1069,7 @@ func (b *xmlBuilder) deleteElement(path []PathSegment) error {
 	} else {
 		// Regular element: <tag>content</tag>
 		// Skip past the closing tag </name>
-		endPos := location.endTagPos + len(location.elementName) + 3 // </name>
-		b.result.Write(b.data[endPos:])
+		b.result.Write(b.data[location.endPos:])
 	}
 
 	return nil
diff --git a/parser.go b/parser.go
index 2253de1..888fc18 100644
--- a/parser.go
+++ b/parser.go
@@ -70,6 +70,7 @@ type xmlParser struct {
 	depth       int
 	filterDepth int
 	dataLen     int // Cache data length to avoid repeated len() calls
+	closeTagPos int // Position of '<' in the closing tag last consumed by parseElementContent
 }
 
 // newXMLParser creates a new XML parser
@@ -261,6 +262,7 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 	var content strings.Builder
 	// Track element-specific depth for matching tags
 	elementDepth := 1
+	p.closeTagPos = p.dataLen // No closing tag found yet
 
 	for p.pos < p.dataLen && elementDepth > 0 {
 		c := p.peek()
@@ -272,6 +274,7 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 
 				if next == '/' {
 					// Closing tag
+					closeTagPos := p.pos
 					p.next() // skip '<'
 					p.next() // skip '/'
 					closeName := p.readUntil('>')
@@ -286,6 +289,7 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 					if closeName == elementName {
 						elementDepth--
 						if elementDepth == 0 {
+							p.closeTagPos = closeTagPos
 							break
 						}
 					}
-- 
2.43.0


From 52ab4c48de27fb6ad0d34b26bc3cf4b97dc7221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:10 +0000
Subject: [PATCH 03/34] fix: open a self-closing element when setting its
 content

Setting the value of '<a/>' wrote the value after the tag instead of
inside the element.
---
 builder.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/builder.go b/builder.go
index 6cc3937..af350af 100644
--- a/builder.go
+++ b/builder.go
@@ -327,6 +327,18 @@ func (b *xmlBuilder) replaceElement(location *elementLocation, segment PathSegme
 	// Build the result XML
 	b.result.Reset()
 
+	if location.isSelfClosing {
+		// Self-closing tag - convert to full element with content
+		b.result.Write(b.data[:location.startPos])
+		b.writeAsOpeningTag(location.startPos, location.contentStart)
+		b.result.WriteString(xmlValue)
+		b.result.WriteString("</")
+		b.result.WriteString(location.elementName)
+		b.result.WriteString(">")
+		b.result.Write(b.data[location.contentStart:])
+		return nil
+	}
+
 	// Write everything up to and including the opening tag (up to contentStart)
 	b.result.Write(b.data[:location.contentStart])
 
@@ -340,6 +352,13 @@ func (b *xmlBuilder) replaceElement(location *elementLocation, segment PathSegme
 	return nil
 }
 
+// writeAsOpeningTag writes the self-closing tag at data[start:end] as an opening tag
+func (b *xmlBuilder) writeAsOpeningTag(start, end int) {
+	tag := strings.TrimSuffix(string(b.data[start:end]), "/>")
+	b.result.WriteString(strings.TrimRight(tag, " \t\n\r"))
+	b.result.WriteString(">")
+}
+
 // replaceAttribute replaces or adds an attribute to an element
 func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string, attrValue string) error {
 	// Build new opening tag with updated attribute
-- 
2.43.0


From 20904d690868d4b42e90698457d720fe98104cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:22 +0000
Subject: [PATCH 04/34] fix: reject Set paths whose missing part is not an
 element

Setting through a missing index, '%', '#', wildcard or filter segment, or
setting an attribute with an invalid name, produced nameless tags or broken
attributes. Return ErrInvalidPath instead.
---
 builder.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/builder.go b/builder.go
index af350af..50fe879 100644
--- a/builder.go
+++ b/builder.go
@@ -139,6 +139,9 @@ func (b *xmlBuilder) setElement(path []PathSegment, value interface{}) error {
 		// This is an attribute set, not element set
 		attrName := path[len(path)-1].Value
 		elementPath := path[:len(path)-1]
+		if err := validateName(attrName); err != nil {
+			return fmt.Errorf("%w: invalid attribute name '%s': %s", ErrInvalidPath, attrName, err)
+		}
 
 		// Find the parent element
 		parser := newXMLParser(b.data)
@@ -442,6 +445,9 @@ func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string
 func (b *xmlBuilder) createElement(path []PathSegment, xmlValue string, isRaw bool) error {
 	// Special case: empty XML - create new root element
 	if len(b.data) == 0 {
+		if err := validateCreatePath(path); err != nil {
+			return err
+		}
 		return b.createSiblingRoot(path, xmlValue, isRaw)
 	}
 
@@ -462,6 +468,11 @@ func (b *xmlBuilder) createElement(path []PathSegment, xmlValue string, isRaw bo
 		}
 	}
 
+	// Only elements can be created (not indices, filters, wildcards, ...)
+	if err := validateCreatePath(path[parentDepth+1:]); err != nil {
+		return err
+	}
+
 	if parentDepth == -1 || parentLocation == nil {
 		// No parent found in path - need to find root element and append
 		// Skip the first segment if it matches root
@@ -472,6 +483,19 @@ func (b *xmlBuilder) createElement(path []PathSegment, xmlValue string, isRaw bo
 	return b.createInParent(parentLocation, path[parentDepth+1:], xmlValue, isRaw)
 }
 
+// validateCreatePath checks that every segment to be created is an element
+func validateCreatePath(path []PathSegment) error {
+	if len(path) == 0 {
+		return fmt.Errorf("%w: no element to create", ErrInvalidPath)
+	}
+	for _, seg := range path {
+		if seg.Type != SegmentElement {
+			return fmt.Errorf("%w: cannot create missing non-element segment", ErrInvalidPath)
+		}
+	}
+	return nil
+}
+
 // createInRoot creates element path starting from root
 func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw bool) error {
 	// Check if we should create a sibling root instead
-- 
2.43.0


From c821c908c14d0eab462925345296a04c85c86c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:39 +0000
Subject: [PATCH 05/34] fix: delete the only element of a document

Deleting the last remaining root returned the document unchanged because an
empty result was taken for 'nothing written'.
---
 builder.go | 5 ++++-
 set.go     | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/builder.go b/builder.go
index 50fe879..f83021a 100644
--- a/builder.go
+++ b/builder.go
@@ -21,6 +21,8 @@ type xmlBuilder struct {
 	result strings.Builder
 	pos    int
 	opts   *Options
+	// emptied is set when a deletion removed the whole document
+	emptied bool
 }
 
 // newXMLBuilder creates a new XML builder with default options
@@ -1114,6 +1116,7 @@ func (b *xmlBuilder) deleteElement(path []PathSegment) error {
 		// Skip past the closing tag </name>
 		b.result.Write(b.data[location.endPos:])
 	}
+	b.emptied = b.result.Len() == 0
 
 	return nil
 }
@@ -1190,7 +1193,7 @@ func (b *xmlBuilder) deleteAttribute(location *elementLocation, attrName string)
 
 // getResult returns the built XML string
 func (b *xmlBuilder) getResult() string {
-	if b.result.Len() == 0 {
+	if b.result.Len() == 0 && !b.emptied {
 		return string(b.data)
 	}
 	return b.result.String()
diff --git a/set.go b/set.go
index d9a89fa..e2b6d7b 100644
--- a/set.go
+++ b/set.go
@@ -407,7 +407,11 @@ func DeleteManyBytes(xml []byte, paths ...string) ([]byte, error) {
 	result := xml
 	var err error
 
-	for _, path := range uniquePaths {
+	for i, path := range uniquePaths {
+		if i > 0 && len(result) == 0 {
+			// Everything is already deleted - remaining paths do not exist
+			break
+		}
 		result, err = DeleteBytes(result, path)
 		if err != nil {
 			return xml, fmt.Errorf("error deleting path %q: %w", path, err)
-- 
2.43.0


From 9f4e39b8188a5a87726bdbe53de6b6f7ab34f972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:12 +0000
Subject: [PATCH 06/34] fix: make attribute order and case-insensitive
 attribute lookup deterministic

Result.Raw, elements opened by Set and lookups among attributes that differ
only in case followed the random map iteration order.
---
 builder.go |  6 ++++--
 get.go     | 21 ++++++++++++++-------
 parser.go  | 14 +++++++++++++-
 3 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/builder.go b/builder.go
index f83021a..5a68f78 100644
--- a/builder.go
+++ b/builder.go
@@ -541,7 +541,8 @@ func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw boo
 
 		// Write attributes if any
 		if len(attrs) > 0 {
-			for k, v := range attrs {
+			for _, k := range sortedAttrNames(attrs) {
+				v := attrs[k]
 				b.result.WriteString(" ")
 				b.result.WriteString(k)
 				b.result.WriteString(`="`)
@@ -653,7 +654,8 @@ func (b *xmlBuilder) createInParent(parentLocation *elementLocation, remainingPa
 
 		// Write attributes if any
 		if len(parentLocation.attrs) > 0 {
-			for k, v := range parentLocation.attrs {
+			for _, k := range sortedAttrNames(parentLocation.attrs) {
+				v := parentLocation.attrs[k]
 				b.result.WriteString(" ")
 				b.result.WriteString(k)
 				b.result.WriteString(`="`)
diff --git a/get.go b/get.go
index c97fb46..8627a8d 100644
--- a/get.go
+++ b/get.go
@@ -1157,7 +1157,8 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 			attrName := segments[segIndex+1].Value
 			// For case-insensitive matching, search attrs case-insensitively
 			if !opts.CaseSensitive {
-				for k, v := range attrs {
+				for _, k := range sortedAttrNames(attrs) {
+					v := attrs[k]
 					if toLowerASCII(k) == attrName {
 						if segIndex+2 < len(segments) {
 							return Result{Type: Null}
@@ -1228,7 +1229,8 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 					if segments[segIndex+2].Type == SegmentAttribute {
 						attrName := segments[segIndex+2].Value
 						if !opts.CaseSensitive {
-							for k, v := range match.attrs {
+							for _, k := range sortedAttrNames(match.attrs) {
+								v := match.attrs[k]
 								if toLowerASCII(k) == attrName {
 									return Result{
 										Type: Attribute,
@@ -1305,7 +1307,8 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 		if nextSeg.Type == SegmentAttribute {
 			attrName := nextSeg.Value
 			if !opts.CaseSensitive {
-				for k, v := range match.attrs {
+				for _, k := range sortedAttrNames(match.attrs) {
+					v := match.attrs[k]
 					if toLowerASCII(k) == attrName {
 						if segIndex+2 >= len(segments) {
 							allResults = append(allResults, Result{
@@ -1446,7 +1449,8 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 				case SegmentAttribute:
 					attrName := nextSegment.Value
 					if !opts.CaseSensitive {
-						for k, v := range attrs {
+						for _, k := range sortedAttrNames(attrs) {
+							v := attrs[k]
 							if toLowerASCII(k) == attrName {
 								if segIndex+2 >= len(segments) {
 									*ctx.results = append(*ctx.results, Result{
@@ -1631,7 +1635,8 @@ func executeFieldExtractionWithOptions(matches []elementMatch, segment PathSegme
 			// Case-insensitive attribute lookup
 			if !opts.CaseSensitive {
 				attrNameLower := toLowerASCII(attrName)
-				for k, v := range match.attrs {
+				for _, k := range sortedAttrNames(match.attrs) {
+					v := match.attrs[k]
 					if toLowerASCII(k) == attrNameLower {
 						results = append(results, Result{
 							Type: Attribute,
@@ -2081,7 +2086,8 @@ func processFirstMatchWithOptions(match elementMatch, segments []PathSegment, se
 		attrName := nextSeg.Value
 		// For case-insensitive matching, search attrs case-insensitively
 		if !opts.CaseSensitive {
-			for k, v := range match.attrs {
+			for _, k := range sortedAttrNames(match.attrs) {
+				v := match.attrs[k]
 				if toLowerASCII(k) == attrName {
 					result := Result{
 						Type: Attribute,
@@ -2172,7 +2178,8 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 		if nextSeg.Type == SegmentAttribute {
 			attrName := nextSeg.Value
 			if !opts.CaseSensitive {
-				for k, v := range match.attrs {
+				for _, k := range sortedAttrNames(match.attrs) {
+					v := match.attrs[k]
 					if toLowerASCII(k) == attrName {
 						allResults = append(allResults, Result{
 							Type: Attribute,
diff --git a/parser.go b/parser.go
index 888fc18..e644b14 100644
--- a/parser.go
+++ b/parser.go
@@ -4,6 +4,7 @@
 package xmldot
 
 import (
+	"sort"
 	"strings"
 )
 
@@ -222,6 +223,16 @@ func (p *xmlParser) parseAttributes() map[string]string {
 	return attrs
 }
 
+// sortedAttrNames returns the attribute names in sorted order for deterministic output
+func sortedAttrNames(attrs map[string]string) []string {
+	names := make([]string, 0, len(attrs))
+	for name := range attrs {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // parseElementName extracts the element name and attributes from an opening tag
 // Assumes the parser is positioned after the '<' character
 // Returns: elementName, attributes, isSelfClosing, error
@@ -311,7 +322,8 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 
 					// Parse attributes and check for self-closing
 					attrs := p.parseAttributes()
-					for attrName, attrValue := range attrs {
+					for _, attrName := range sortedAttrNames(attrs) {
+						attrValue := attrs[attrName]
 						content.WriteString(" ")
 						content.WriteString(attrName)
 						content.WriteString("=\"")
-- 
2.43.0


From 26a5a7201288fcaa17ec6a209611c08687101be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:37 +0000
Subject: [PATCH 07/34] fix: enforce document size and attribute limits on the
 result of Set

Set could return a document above MaxDocumentSize or with more than
MaxAttributes attributes on an element, which every later call rejects.
---
 builder.go | 4 ++++
 set.go     | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/builder.go b/builder.go
index 5a68f78..77d1d36 100644
--- a/builder.go
+++ b/builder.go
@@ -402,6 +402,10 @@ func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string
 		}
 	}
 	if !attrExists {
+		// Security check: enforce maximum attribute count
+		if len(attrNames) >= MaxAttributes {
+			return fmt.Errorf("%w: too many attributes (maximum %d)", ErrInvalidValue, MaxAttributes)
+		}
 		attrNames = append(attrNames, attrName)
 	}
 
diff --git a/set.go b/set.go
index e2b6d7b..0f725d6 100644
--- a/set.go
+++ b/set.go
@@ -488,7 +488,13 @@ func SetBytesWithOptions(xml []byte, path string, value interface{}, opts *Optio
 		return xml, err
 	}
 
-	return []byte(builder.getResult()), nil
+	// Security check: the result must stay within the document size limit
+	result := []byte(builder.getResult())
+	if len(result) > MaxDocumentSize {
+		return xml, fmt.Errorf("%w: resulting document exceeds maximum size", ErrInvalidValue)
+	}
+
+	return result, nil
 }
 
 // DeleteBytesWithOptions is like DeleteBytes but accepts Options for behavioral control.
-- 
2.43.0


From 46636a141721ec885ae702f1683493b74b00427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:43 +0000
Subject: [PATCH 08/34] fix: keep raw attribute values from breaking out of the
 attribute

A raw ([]byte or SetRaw) value containing a double quote or '<' ended the
attribute and could inject markup.
---
 builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder.go b/builder.go
index 77d1d36..282cea6 100644
--- a/builder.go
+++ b/builder.go
@@ -144,6 +144,10 @@ func (b *xmlBuilder) setElement(path []PathSegment, value interface{}) error {
 		if err := validateName(attrName); err != nil {
 			return fmt.Errorf("%w: invalid attribute name '%s': %s", ErrInvalidPath, attrName, err)
 		}
+		if isRaw {
+			// Raw values are not escaped - keep them from ending the attribute
+			xmlValue = strings.NewReplacer("\"", "&quot;", "<", "&lt;").Replace(xmlValue)
+		}
 
 		// Find the parent element
 		parser := newXMLParser(b.data)
-- 
2.43.0


From 2fcdd5a73907e7470e65cd948e5516aa56f86f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:33 +0000
Subject: [PATCH 09/34] fix: keep character references in attributes when a tag
 is rewritten

Only the five predefined entities are decoded, but everything was escaped
again on output, so '&#65;' in an untouched attribute became '&amp;#65;'
in modified documents and in Result.Raw.
---
 builder.go | 32 ++++++++++++++++++++++++++------
 parser.go  | 15 +++++++++++----
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/builder.go b/builder.go
index 282cea6..2a1383c 100644
--- a/builder.go
+++ b/builder.go
@@ -146,7 +146,7 @@ func (b *xmlBuilder) setElement(path []PathSegment, value interface{}) error {
 		}
 		if isRaw {
 			// Raw values are not escaped - keep them from ending the attribute
-			xmlValue = strings.NewReplacer("\"", "&quot;", "<", "&lt;").Replace(xmlValue)
+			xmlValue = escapeRawAttr(xmlValue)
 		}
 
 		// Find the parent element
@@ -183,9 +183,27 @@ type elementLocation struct {
 	endPos        int    // Position after '>' of closing tag
 	elementName   string // Name of the element
 	attrs         map[string]string
+	rawAttrs      map[string]string // Attribute values as written in the source, without unescaping
 	isSelfClosing bool
 }
 
+// rawAttributes extracts the attributes of an opening tag without unescaping their values
+func rawAttributes(tag []byte) map[string]string {
+	parser := newXMLParser(tag)
+	parser.rawAttrs = true
+	parser.next() // skip '<'
+	_, attrs, _ := parser.parseElementName()
+	return attrs
+}
+
+// escapeRawAttr escapes what must not appear in a double-quoted attribute value,
+// keeping the entity and character references of the source intact
+func escapeRawAttr(value string) string {
+	return rawAttrEscaper.Replace(value)
+}
+
+var rawAttrEscaper = strings.NewReplacer("\"", "&quot;", "'", "&apos;", "<", "&lt;", ">", "&gt;")
+
 // findElementLocation locates an element in the XML based on the path
 // baseOffset tracks the position offset in the original document when recursing into nested content
 func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegment, segIndex int, baseOffset int) (*elementLocation, bool) {
@@ -246,6 +264,7 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 						endPos:        parser.pos + baseOffset,
 						elementName:   elemName,
 						attrs:         attrs,
+						rawAttrs:      rawAttributes(parser.data[elemStartPos:contentStart]),
 						isSelfClosing: isSelfClosing,
 					}, true
 				}
@@ -299,6 +318,7 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 				endPos:        parser.pos + baseOffset,
 				elementName:   elemName,
 				attrs:         attrs,
+				rawAttrs:      rawAttributes(parser.data[elemStartPos:contentStart]),
 				isSelfClosing: isSelfClosing,
 			}, true
 		}
@@ -432,7 +452,7 @@ func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string
 		if isModifiedAttr {
 			b.result.WriteString(attrValue)
 		} else {
-			b.result.WriteString(escapeXML(location.attrs[name]))
+			b.result.WriteString(escapeRawAttr(location.rawAttrs[name]))
 		}
 		b.result.WriteString("\"")
 	}
@@ -663,11 +683,11 @@ func (b *xmlBuilder) createInParent(parentLocation *elementLocation, remainingPa
 		// Write attributes if any
 		if len(parentLocation.attrs) > 0 {
 			for _, k := range sortedAttrNames(parentLocation.attrs) {
-				v := parentLocation.attrs[k]
+				v := parentLocation.rawAttrs[k]
 				b.result.WriteString(" ")
 				b.result.WriteString(k)
 				b.result.WriteString(`="`)
-				b.result.WriteString(escapeXML(v))
+				b.result.WriteString(escapeRawAttr(v))
 				b.result.WriteString(`"`)
 			}
 		}
@@ -839,7 +859,7 @@ func (b *xmlBuilder) appendElement(path []PathSegment, value interface{}) error
 				b.result.WriteString(" ")
 				b.result.WriteString(name)
 				b.result.WriteString(`="`)
-				b.result.WriteString(escapeXML(parentLoc.attrs[name]))
+				b.result.WriteString(escapeRawAttr(parentLoc.rawAttrs[name]))
 				b.result.WriteString(`"`)
 			}
 		}
@@ -1185,7 +1205,7 @@ func (b *xmlBuilder) deleteAttribute(location *elementLocation, attrName string)
 		b.result.WriteString(" ")
 		b.result.WriteString(name)
 		b.result.WriteString("=\"")
-		b.result.WriteString(escapeXML(location.attrs[name]))
+		b.result.WriteString(escapeRawAttr(location.rawAttrs[name]))
 		b.result.WriteString("\"")
 	}
 
diff --git a/parser.go b/parser.go
index e644b14..cdebbf7 100644
--- a/parser.go
+++ b/parser.go
@@ -70,8 +70,9 @@ type xmlParser struct {
 	pos         int
 	depth       int
 	filterDepth int
-	dataLen     int // Cache data length to avoid repeated len() calls
-	closeTagPos int // Position of '<' in the closing tag last consumed by parseElementContent
+	dataLen     int  // Cache data length to avoid repeated len() calls
+	rawAttrs    bool // Keep attribute values as written (no unescaping)
+	closeTagPos int  // Position of '<' in the closing tag last consumed by parseElementContent
 }
 
 // newXMLParser creates a new XML parser
@@ -212,7 +213,10 @@ func (p *xmlParser) parseAttributes() map[string]string {
 			p.next() // skip opening quote
 			value := p.readUntil(quote)
 			p.next() // skip closing quote
-			attrs[name] = unescapeXML(value)
+			if !p.rawAttrs {
+				value = unescapeXML(value)
+			}
+			attrs[name] = value
 		} else {
 			// Unquoted attribute value (read until whitespace or >)
 			value := p.readUntilAny(" \t\n\r/>")
@@ -321,13 +325,16 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 					content.WriteString(nestedName)
 
 					// Parse attributes and check for self-closing
+					rawAttrs := p.rawAttrs
+					p.rawAttrs = true // Raw keeps the references of the source
 					attrs := p.parseAttributes()
+					p.rawAttrs = rawAttrs
 					for _, attrName := range sortedAttrNames(attrs) {
 						attrValue := attrs[attrName]
 						content.WriteString(" ")
 						content.WriteString(attrName)
 						content.WriteString("=\"")
-						content.WriteString(escapeXML(attrValue))
+						content.WriteString(escapeRawAttr(attrValue))
 						content.WriteString("\"")
 					}
 
-- 
2.43.0


From 36eabb3de38bad0c053c97ab8a0bca5294625941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:05 +0000
Subject: [PATCH 10/34] fix: skip comments, CDATA and processing instructions
 as a whole

Markup inside them was taken for elements or leaked into text values, and a
literal '>' in text was dropped. The parser and the validator now agree on
where these sections end.
---
 parser.go   | 52 ++++++++++++++++++++++++++++++++++++++++++++++++----
 result.go   |  5 +++++
 validate.go | 29 ++++++++++++++++++++++++++++-
 3 files changed, 81 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index cdebbf7..3f91f8a 100644
--- a/parser.go
+++ b/parser.go
@@ -311,6 +311,10 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 					content.WriteString("</")
 					content.WriteString(closeName)
 					content.WriteString(">")
+				} else if end := sectionEnd(p.data, p.pos); end > 0 {
+					// Comment, CDATA or processing instruction - include as written
+					content.Write(p.data[p.pos:end])
+					p.pos = end
 				} else if next == '!' {
 					// Comment or CDATA - include in content for now
 					content.WriteByte(c)
@@ -368,6 +372,31 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 	return content.String()
 }
 
+// markupSections lists the markup that can contain arbitrary characters
+var markupSections = [...]struct{ start, end string }{
+	{"<!--", "-->"},
+	{"<![CDATA[", "]]>"},
+	{"<?", "?>"},
+}
+
+// sectionEnd returns the position after the comment, CDATA section or processing
+// instruction that starts at pos, or -1 if there is none.
+// An unterminated section extends to the end of the data.
+func sectionEnd[T string | []byte](data T, pos int) int {
+	for _, s := range markupSections {
+		if len(data)-pos < len(s.start) || string(data[pos:pos+len(s.start)]) != s.start {
+			continue
+		}
+		for i := pos + len(s.start); i+len(s.end) <= len(data); i++ {
+			if string(data[i:i+len(s.end)]) == s.end {
+				return i + len(s.end)
+			}
+		}
+		return len(data)
+	}
+	return -1
+}
+
 // extractTextContent extracts only text content, stripping out all XML tags
 func extractTextContent(content string) string {
 	var result strings.Builder
@@ -376,8 +405,12 @@ func extractTextContent(content string) string {
 	for i := 0; i < len(content); i++ {
 		c := content[i]
 		if c == '<' {
+			if end := sectionEnd(content, i); end > 0 && !inTag {
+				i = end - 1 // not text
+				continue
+			}
 			inTag = true
-		} else if c == '>' {
+		} else if c == '>' && inTag {
 			inTag = false
 		} else if !inTag {
 			result.WriteByte(c)
@@ -397,6 +430,10 @@ func extractDirectTextOnly(content string) string {
 	for i := 0; i < len(content); i++ {
 		c := content[i]
 		if c == '<' {
+			if end := sectionEnd(content, i); end > 0 && !inTag {
+				i = end - 1 // not text
+				continue
+			}
 			inTag = true
 			// Check if it's an opening or closing tag
 			if i+1 < len(content) && content[i+1] == '/' {
@@ -406,7 +443,7 @@ func extractDirectTextOnly(content string) string {
 				// Opening tag (not comment or PI)
 				depth++
 			}
-		} else if c == '>' {
+		} else if c == '>' && inTag {
 			// Check for self-closing tag
 			if i > 0 && content[i-1] == '/' {
 				depth--
@@ -461,10 +498,18 @@ func (p *xmlParser) skipToNextElement() bool {
 							continue
 						}
 					}
+					// Skip CDATA as a whole
+					if p.pos+2 < p.dataLen && p.data[p.pos+2] == '[' {
+						if end := sectionEnd(p.data, p.pos); end > 0 {
+							p.pos = end
+							continue
+						}
+					}
 					// Skip comment or CDATA
 					p.next() // skip '<'
 					p.next() // skip '!'
 					if p.pos+1 < p.dataLen && p.data[p.pos] == '-' && p.data[p.pos+1] == '-' {
+						p.pos += 2 // skip '--'
 						// Comment: skip to -->
 						for p.pos < p.dataLen-2 {
 							if p.data[p.pos] == '-' && p.data[p.pos+1] == '-' && p.data[p.pos+2] == '>' {
@@ -476,8 +521,7 @@ func (p *xmlParser) skipToNextElement() bool {
 					}
 				} else if next == '?' {
 					// Skip processing instruction
-					p.readUntil('>')
-					p.next()
+					p.pos = sectionEnd(p.data, p.pos)
 				} else {
 					// Skip closing tag
 					p.readUntil('>')
diff --git a/result.go b/result.go
index 6b311ce..c4b1dde 100644
--- a/result.go
+++ b/result.go
@@ -735,6 +735,11 @@ func isMultiRootFragment(xml string) bool {
 
 		if !inTag {
 			if char == '<' {
+				if end := sectionEnd(xml, i); end > 0 {
+					i = end - 1 // comment, CDATA or processing instruction
+					continue
+				}
+
 				// Start of tag
 				inTag = true
 				isSelfClosing = false
diff --git a/validate.go b/validate.go
index 7e8932d..d17f059 100644
--- a/validate.go
+++ b/validate.go
@@ -178,7 +178,7 @@ func (p *validatingParser) parseTag() *ValidateError {
 	// Processing instruction
 	if next == '?' {
 		p.advance()
-		return p.skipUntilTracked('>')
+		return p.skipPI(tagLine, tagColumn)
 	}
 
 	// Comment or CDATA
@@ -223,6 +223,33 @@ func (p *validatingParser) parseTag() *ValidateError {
 	return p.parseOpeningTag(tagLine, tagColumn)
 }
 
+// skipPI skips a processing instruction up to and including '?>'
+func (p *validatingParser) skipPI(tagLine, tagColumn int) *ValidateError {
+	start := p.pos
+
+	for p.pos+1 < p.dataLen {
+		if p.pos-start > MaxTokenSize {
+			return &ValidateError{
+				Line:    p.line,
+				Column:  p.column,
+				Message: "token exceeds maximum size",
+			}
+		}
+
+		if p.data[p.pos] == '?' && p.data[p.pos+1] == '>' {
+			p.advance()
+			p.advance()
+			return nil
+		}
+		p.advance()
+	}
+	return &ValidateError{
+		Line:    tagLine,
+		Column:  tagColumn,
+		Message: "unclosed processing instruction",
+	}
+}
+
 // parseOpeningTag parses an opening tag
 func (p *validatingParser) parseOpeningTag(tagLine, tagColumn int) *ValidateError {
 	// Read element name
-- 
2.43.0


From 3e53056daf11c8a01f086626822095ceb8dcffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:39 +0000
Subject: [PATCH 11/34] fix: do not leak attributes beyond the limit into text

After MaxAttributes attributes the rest of the tag was read as content.
---
 parser.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/parser.go b/parser.go
index 3f91f8a..a3e4ca5 100644
--- a/parser.go
+++ b/parser.go
@@ -177,6 +177,7 @@ func (p *xmlParser) parseAttributes() map[string]string {
 
 		// Security check: enforce maximum attribute count to prevent DoS attacks
 		if attrCount >= MaxAttributes {
+			p.skipToTagEnd()
 			break
 		}
 
@@ -227,6 +228,24 @@ func (p *xmlParser) parseAttributes() map[string]string {
 	return attrs
 }
 
+// skipToTagEnd advances to the '>' or '/>' that ends the current tag
+func (p *xmlParser) skipToTagEnd() {
+	var quote byte
+	for p.pos < p.dataLen {
+		c := p.data[p.pos]
+		if quote != 0 {
+			if c == quote {
+				quote = 0
+			}
+		} else if c == '"' || c == '\'' {
+			quote = c
+		} else if c == '>' || (c == '/' && p.pos+1 < p.dataLen && p.data[p.pos+1] == '>') {
+			return
+		}
+		p.pos++
+	}
+}
+
 // sortedAttrNames returns the attribute names in sorted order for deterministic output
 func sortedAttrNames(attrs map[string]string) []string {
 	names := make([]string, 0, len(attrs))
-- 
2.43.0


From ba6d496c71570dec1d7d782a8db677acc7651b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:39 +0000
Subject: [PATCH 12/34] fix: tighten SetRaw validation

Unterminated or unquoted tags and lower-case DOCTYPE/ENTITY declarations were
accepted; '>' inside quotes and tabs or newlines in tags were rejected.
---
 set.go | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/set.go b/set.go
index 0f725d6..a066ece 100644
--- a/set.go
+++ b/set.go
@@ -126,7 +126,7 @@ func validateRawXML(rawxml string) error {
 				tagNameStart := i
 
 				// Extract tag name
-				for i < len(rawxml) && rawxml[i] != '>' && rawxml[i] != ' ' {
+				for i < len(rawxml) && rawxml[i] != '>' && !isWhitespace(rawxml[i]) {
 					i++
 				}
 				tagName := rawxml[tagNameStart:i]
@@ -179,12 +179,19 @@ func validateRawXML(rawxml string) error {
 					// but we can optionally warn about suspicious patterns
 
 					i = cdataStart + cdataEnd + 3
-				} else if strings.HasPrefix(rawxml[i:], "<!DOCTYPE") {
+				} else if hasPrefixFold(rawxml[i:], "<!DOCTYPE") {
 					// DOCTYPE - REJECT for security
 					return fmt.Errorf("%w: DOCTYPE declarations not allowed in SetRaw", ErrInvalidValue)
-				} else if strings.HasPrefix(rawxml[i:], "<!ENTITY") {
+				} else if hasPrefixFold(rawxml[i:], "<!ENTITY") {
 					// ENTITY declarations - REJECT for security
 					return fmt.Errorf("%w: ENTITY declarations not allowed in SetRaw", ErrInvalidValue)
+				} else if next == '?' {
+					// PI - skip to ?>
+					endPos := strings.Index(rawxml[i:], "?>")
+					if endPos == -1 {
+						return ErrInvalidValue
+					}
+					i += endPos + 2
 				} else {
 					// PI or other - skip to end
 					endPos := strings.Index(rawxml[i:], ">")
@@ -199,7 +206,7 @@ func validateRawXML(rawxml string) error {
 			// Opening tag - extract tag name
 			i++
 			tagNameStart := i
-			for i < len(rawxml) && rawxml[i] != '>' && rawxml[i] != ' ' && rawxml[i] != '/' {
+			for i < len(rawxml) && rawxml[i] != '>' && !isWhitespace(rawxml[i]) && rawxml[i] != '/' {
 				i++
 			}
 			tagName := rawxml[tagNameStart:i]
@@ -210,8 +217,16 @@ func validateRawXML(rawxml string) error {
 
 			// Check for self-closing
 			isSelfClosing := false
+			var quote byte
 			for i < len(rawxml) {
-				if rawxml[i] == '/' && i+1 < len(rawxml) && rawxml[i+1] == '>' {
+				if quote != 0 {
+					// Inside a quoted attribute value
+					if rawxml[i] == quote {
+						quote = 0
+					}
+				} else if rawxml[i] == '"' || rawxml[i] == '\'' {
+					quote = rawxml[i]
+				} else if rawxml[i] == '/' && i+1 < len(rawxml) && rawxml[i+1] == '>' {
 					isSelfClosing = true
 					i += 2
 					break
@@ -236,9 +251,19 @@ func validateRawXML(rawxml string) error {
 		return ErrInvalidValue
 	}
 
+	// Verify the details (quoting, names, unterminated tags) with the validator
+	if !Valid("<raw>" + rawxml + "</raw>") {
+		return ErrInvalidValue
+	}
+
 	return nil
 }
 
+// hasPrefixFold reports whether s begins with prefix, ignoring case
+func hasPrefixFold(s, prefix string) bool {
+	return len(s) >= len(prefix) && strings.EqualFold(s[:len(prefix)], prefix)
+}
+
 // SetMany performs multiple Set operations, applying each modification
 // sequentially. This is more convenient than calling Set multiple times manually.
 // If multiple paths overlap, later operations take precedence.
-- 
2.43.0


From 7567d3911f5e86dcd42d10f722196e826ad7f0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:01 +0000
Subject: [PATCH 13/34] fix: treat dots and pipes inside a filter as part of
 the filter

'#(rating>=4.5)', '#(category.type==x)' and '#(name=="a|b")' were split at
the dot or pipe, which silently dropped the filter.
---
 modifier.go |  9 +++++++--
 path.go     | 47 ++++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 53 insertions(+), 3 deletions(-)

diff --git a/modifier.go b/modifier.go
index d2a255f..bef63fe 100644
--- a/modifier.go
+++ b/modifier.go
@@ -210,8 +210,13 @@ func applyModifiers(r Result, modifierNames []string) Result {
 // parseModifiers extracts modifiers from a path segment.
 // Example: "element|@reverse|@first" → element="element", modifiers=["reverse", "first"]
 func parseModifiers(pathPart string) (elementPath string, modifiers []string) {
-	parts := strings.Split(pathPart, "|")
-	elementPath = parts[0]
+	// A '|' inside a filter belongs to the filter
+	start := 0
+	if end := filterEnd(pathPart, 0); end > 0 {
+		start = end
+	}
+	parts := strings.Split(pathPart[start:], "|")
+	elementPath = pathPart[:start] + parts[0]
 
 	for i := 1; i < len(parts); i++ {
 		mod := strings.TrimSpace(parts[i])
diff --git a/path.go b/path.go
index 77c47b4..1ffe121 100644
--- a/path.go
+++ b/path.go
@@ -318,6 +318,7 @@ func splitPath(path string) []string {
 	var parts []string
 	var current strings.Builder
 	escaped := false
+	filterEndPos := -1 // Dots up to this position belong to a filter
 
 	for i := 0; i < len(path); i++ {
 		c := path[i]
@@ -333,10 +334,17 @@ func splitPath(path string) []string {
 			continue
 		}
 
-		if c == '.' {
+		if current.Len() == 0 && i > filterEndPos {
+			filterEndPos = filterEnd(path, i)
+		}
+
+		if c == '.' && i > filterEndPos {
 			// Split point
 			parts = append(parts, current.String())
 			current.Reset()
+			if len(parts) > MaxPathSegments {
+				return parts // Too long - rejected by the caller
+			}
 		} else {
 			current.WriteByte(c)
 		}
@@ -348,6 +356,43 @@ func splitPath(path string) []string {
 	return parts
 }
 
+// filterEnd returns the position of the ')' that closes the filter #(...) starting
+// at pos, or -1 if there is no (closed) filter. Parentheses inside a quoted value
+// do not count.
+func filterEnd(s string, pos int) int {
+	if !strings.HasPrefix(s[pos:], "#(") {
+		return -1
+	}
+
+	depth := 0
+	afterOp := false // the last non-blank character was an operator
+	var quote byte
+	for i := pos + 1; i < len(s); i++ {
+		c := s[i]
+		switch {
+		case c == '\\':
+			i++ // skip escaped character
+		case quote != 0:
+			if c == quote {
+				quote = 0
+			}
+		case afterOp && (c == '\'' || c == '"'):
+			quote = c
+		case c == '(':
+			depth++
+		case c == ')':
+			depth--
+			if depth == 0 {
+				return i
+			}
+		}
+		if c != ' ' {
+			afterOp = strings.IndexByte("=!<>%", c) >= 0
+		}
+	}
+	return -1
+}
+
 // isNumeric checks if a string is a valid integer
 func isNumeric(s string) bool {
 	if s == "" {
-- 
2.43.0


From 6ad28d452b986ab6f43d7c8250b150ca7049ae15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:25 +0000
Subject: [PATCH 14/34] fix: accept two-character operators in a quoted filter
 value

A filter such as #(name%'a==b') was rejected because the operator inside the
quotes was taken for the operator of the filter.
---
 filter.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/filter.go b/filter.go
index 926d607..5a05eab 100644
--- a/filter.go
+++ b/filter.go
@@ -168,6 +168,15 @@ func parseFilterCondition(expr string) (*Filter, error) {
 		}
 	}
 
+	// A two-character operator in a quoted value belongs to the value
+	if opPos >= 0 {
+		if i := strings.IndexAny(expr[:opPos], "<>%"); i >= 0 {
+			if value := strings.TrimSpace(expr[i+1:]); value[0] == '\'' || value[0] == '"' {
+				opPos = -1
+			}
+		}
+	}
+
 	// If no two-character operator found, check for single-character operators
 	if opPos < 0 {
 		for i := 0; i < len(expr); i++ {
-- 
2.43.0


From 5261901482307b12f579b8fed809e55d3fa01dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:25 +0000
Subject: [PATCH 15/34] fix: only treat a leading minus sign as part of an
 index

A segment such as '1-2' was parsed as index 0.
---
 path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/path.go b/path.go
index 1ffe121..b760fed 100644
--- a/path.go
+++ b/path.go
@@ -398,9 +398,9 @@ func isNumeric(s string) bool {
 	if s == "" {
 		return false
 	}
-	for _, c := range s {
+	for i, c := range s {
 		if c < '0' || c > '9' {
-			if c == '-' && len(s) > 1 {
+			if c == '-' && i == 0 && len(s) > 1 {
 				// Allow negative indices
 				continue
 			}
-- 
2.43.0


From e1be0a47ac47205788a0ef88cec1c5d87468157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:25 +0000
Subject: [PATCH 16/34] fix: match prefixed roots by local name in array
 operations

'item.0' and 'item.#' did not find a root such as <ns:item> although 'item'
does.
---
 get.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/get.go b/get.go
index 8627a8d..3ee4f20 100644
--- a/get.go
+++ b/get.go
@@ -123,6 +123,7 @@ type searchContext struct {
 // Security: Limited to MaxWildcardResults (1000) elements
 func collectFragmentRoots(parser *xmlParser, targetName string) []elementMatch {
 	var matches []elementMatch
+	target := PathSegment{Type: SegmentElement, Value: targetName}
 
 	for parser.skipToNextElement() {
 		// Security limit: prevent collecting too many roots
@@ -134,7 +135,7 @@ func collectFragmentRoots(parser *xmlParser, targetName string) []elementMatch {
 		elemName, attrs, isSelfClosing := parser.parseElementName()
 
 		// Only collect roots with matching name
-		if elemName != targetName {
+		if !target.matches(elemName) {
 			// Skip non-matching root element
 			if !isSelfClosing {
 				parser.parseElementContent(elemName)
-- 
2.43.0


From 7b278046cfb89fd76b5c3b6b29e454533a443ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:31 +0000
Subject: [PATCH 17/34] fix: support text extraction after an index below the
 root

'root.item.0.%' returned nothing while 'item.0.%' worked.
---
 get.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/get.go b/get.go
index 3ee4f20..b690771 100644
--- a/get.go
+++ b/get.go
@@ -526,6 +526,20 @@ func executeQuery(parser *xmlParser, segments []PathSegment, segIndex int) Resul
 						return Result{Type: Null}
 					}
 
+					// Check if next segment is text content extraction
+					if segments[segIndex+2].Type == SegmentText {
+						textContent := extractDirectTextOnly(match.content)
+						result := Result{
+							Type: String,
+							Str:  unescapeXML(textContent),
+							Raw:  match.content,
+						}
+						if len(segments[segIndex+2].Modifiers) > 0 {
+							result = applyModifiers(result, segments[segIndex+2].Modifiers)
+						}
+						return result
+					}
+
 					// Continue matching within this element
 					contentParser := newXMLParser([]byte(match.content))
 					return executeQuery(contentParser, segments, segIndex+2)
@@ -1252,6 +1266,15 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 						return Result{Type: Null}
 					}
 
+					if segments[segIndex+2].Type == SegmentText {
+						textContent := extractDirectTextOnly(match.content)
+						return Result{
+							Type: String,
+							Str:  unescapeXML(textContent),
+							Raw:  match.content,
+						}
+					}
+
 					contentParser := newXMLParser([]byte(match.content))
 					return executeQueryWithOptions(contentParser, segments, segIndex+2, opts)
 				}
-- 
2.43.0


From 95362e91791286b8bf6ca7227766e9e17fcc9eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:01 +0000
Subject: [PATCH 18/34] fix: apply trailing modifiers once to the collected
 result

After '*', '**' or '#(...)#' the modifiers of the last segment were applied
to each part, twice, or not at all, so 'a.*.b.c|@sort' or 'a.**.b|@first'
returned wrong results. With options, an empty field extraction below '*'
now returns an empty array as it does without.
---
 get.go | 86 ++++++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 72 insertions(+), 14 deletions(-)

diff --git a/get.go b/get.go
index b690771..5c2d582 100644
--- a/get.go
+++ b/get.go
@@ -577,6 +577,20 @@ func executeQuery(parser *xmlParser, segments []PathSegment, segIndex int) Resul
 	return Result{Type: Null}
 }
 
+// withoutFinalModifiers returns the segments without the modifiers of the last one.
+// Queries that collect several results use it for the parts, because the modifiers
+// apply once, to the collected result.
+func withoutFinalModifiers(segments []PathSegment) []PathSegment {
+	last := len(segments) - 1
+	if len(segments[last].Modifiers) == 0 {
+		return segments
+	}
+	result := make([]PathSegment, len(segments))
+	copy(result, segments)
+	result[last].Modifiers = nil
+	return result
+}
+
 // handleWildcardMatches processes matches from a single-level wildcard
 func handleWildcardMatches(matches []elementMatch, segments []PathSegment, segIndex int) Result {
 	isLastSegment := segIndex == len(segments)-1
@@ -610,6 +624,7 @@ func handleWildcardMatches(matches []elementMatch, segments []PathSegment, segIn
 
 	// Continue matching with the next segment for each match
 	var allResults []Result
+	parts := withoutFinalModifiers(segments)
 	hasFieldExtraction := false // Track if field extraction is in remaining path
 
 	for _, match := range matches {
@@ -646,7 +661,7 @@ func handleWildcardMatches(matches []elementMatch, segments []PathSegment, segIn
 
 		// Continue matching within this element's content
 		contentParser := newXMLParser([]byte(match.content))
-		result := executeQuery(contentParser, segments, segIndex+1)
+		result := executeQuery(contentParser, parts, segIndex+1)
 		if result.Type != Null {
 			// If we got an empty Array back, that means field extraction occurred
 			if result.Type == Array && len(result.Results) == 0 {
@@ -688,6 +703,10 @@ func handleWildcardMatches(matches []elementMatch, segments []PathSegment, segIn
 	if segIndex+1 < len(segments) && len(segments[segIndex+1].Modifiers) > 0 {
 		result = applyModifiers(result, segments[segIndex+1].Modifiers)
 	}
+	// Modifiers at the end of a longer path apply to the collected result as well
+	if last := len(segments) - 1; segIndex+1 < last && len(segments[last].Modifiers) > 0 {
+		result = applyModifiers(result, segments[last].Modifiers)
+	}
 
 	return result
 }
@@ -707,18 +726,24 @@ func handleRecursiveWildcard(parser *xmlParser, segments []PathSegment, segIndex
 	// Recursively search for matches at any depth
 	var allResults []Result
 	ctx := &searchContext{operations: 0, results: &allResults}
-	recursiveSearchWithContext(parser, targetSeg, segments, nextSegIndex, ctx, 0)
+	recursiveSearchWithContext(parser, targetSeg, withoutFinalModifiers(segments), nextSegIndex, ctx, 0)
 
 	if len(allResults) == 0 {
 		return Result{Type: Null}
 	}
-	if len(allResults) == 1 {
-		return allResults[0]
-	}
-	return Result{
+	result := Result{
 		Type:    Array,
 		Results: allResults,
 	}
+	if len(allResults) == 1 {
+		result = allResults[0]
+	}
+
+	// Apply modifiers of the last segment to the collected result
+	if modifiers := segments[len(segments)-1].Modifiers; len(modifiers) > 0 {
+		result = applyModifiers(result, modifiers)
+	}
+	return result
 }
 
 // recursiveSearchWithContext performs depth-first search with operation tracking
@@ -1325,6 +1350,9 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 	}
 
 	var allResults []Result
+	parts := withoutFinalModifiers(segments)
+	hasFieldExtraction := false // Track if field extraction is in remaining path
+
 	for _, match := range matches {
 		nextSeg := segments[segIndex+1]
 
@@ -1368,8 +1396,11 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 		}
 
 		contentParser := newXMLParser([]byte(match.content))
-		result := executeQueryWithOptions(contentParser, segments, segIndex+1, opts)
+		result := executeQueryWithOptions(contentParser, parts, segIndex+1, opts)
 		if result.Type != Null {
+			if result.Type == Array && len(result.Results) == 0 {
+				hasFieldExtraction = true
+			}
 			if result.Type == Array {
 				allResults = append(allResults, result.Results...)
 			} else {
@@ -1378,7 +1409,14 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 		}
 	}
 
+	// If field extraction occurred (even with no results), return empty Array not Null
 	if len(allResults) == 0 {
+		if hasFieldExtraction {
+			return Result{
+				Type:    Array,
+				Results: []Result{},
+			}
+		}
 		return Result{Type: Null}
 	}
 
@@ -1398,6 +1436,10 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 	if segIndex+1 < len(segments) && len(segments[segIndex+1].Modifiers) > 0 {
 		result = applyModifiers(result, segments[segIndex+1].Modifiers)
 	}
+	// Modifiers at the end of a longer path apply to the collected result as well
+	if last := len(segments) - 1; segIndex+1 < last && len(segments[last].Modifiers) > 0 {
+		result = applyModifiers(result, segments[last].Modifiers)
+	}
 
 	return result
 }
@@ -1413,18 +1455,24 @@ func handleRecursiveWildcardWithOptions(parser *xmlParser, segments []PathSegmen
 
 	var allResults []Result
 	ctx := &searchContext{operations: 0, results: &allResults}
-	recursiveSearchWithContextAndOptions(parser, targetSeg, segments, nextSegIndex, ctx, 0, opts)
+	recursiveSearchWithContextAndOptions(parser, targetSeg, withoutFinalModifiers(segments), nextSegIndex, ctx, 0, opts)
 
 	if len(allResults) == 0 {
 		return Result{Type: Null}
 	}
-	if len(allResults) == 1 {
-		return allResults[0]
-	}
-	return Result{
+	result := Result{
 		Type:    Array,
 		Results: allResults,
 	}
+	if len(allResults) == 1 {
+		result = allResults[0]
+	}
+
+	// Apply modifiers of the last segment to the collected result
+	if modifiers := segments[len(segments)-1].Modifiers; len(modifiers) > 0 {
+		result = applyModifiers(result, modifiers)
+	}
+	return result
 }
 
 // recursiveSearchWithContextAndOptions is like recursiveSearchWithContext but with Options support
@@ -1938,7 +1986,7 @@ func processAllMatches(matches []elementMatch, segments []PathSegment, segIndex
 
 		// Continue query within matched element
 		contentParser := newXMLParser([]byte(match.content))
-		result := executeQuery(contentParser, segments, segIndex+1)
+		result := executeQuery(contentParser, withoutFinalModifiers(segments), segIndex+1)
 		if result.Type != Null {
 			if result.Type == Array {
 				// Flatten nested arrays
@@ -1974,6 +2022,11 @@ func processAllMatches(matches []elementMatch, segments []PathSegment, segIndex
 		result = applyModifiers(result, nextSeg.Modifiers)
 	}
 
+	// Modifiers at the end of a longer path apply to the collected result as well
+	if last := len(segments) - 1; segIndex+1 < last && len(segments[last].Modifiers) > 0 {
+		result = applyModifiers(result, segments[last].Modifiers)
+	}
+
 	return result
 }
 
@@ -2244,7 +2297,7 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 
 		// Continue query within matched element
 		contentParser := newXMLParser([]byte(match.content))
-		result := executeQueryWithOptions(contentParser, segments, segIndex+1, opts)
+		result := executeQueryWithOptions(contentParser, withoutFinalModifiers(segments), segIndex+1, opts)
 		if result.Type != Null {
 			if result.Type == Array {
 				// Flatten nested arrays
@@ -2280,6 +2333,11 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 		result = applyModifiers(result, nextSeg.Modifiers)
 	}
 
+	// Modifiers at the end of a longer path apply to the collected result as well
+	if last := len(segments) - 1; segIndex+1 < last && len(segments[last].Modifiers) > 0 {
+		result = applyModifiers(result, segments[last].Modifiers)
+	}
+
 	return result
 }
 
-- 
2.43.0


From 77fd8f80893816d5d648ee3370cee7d254cccaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:21 +0000
Subject: [PATCH 19/34] fix: apply modifiers to root-level array access and in
 queries with options

Modifiers after 'item.#', 'item.0', 'item.0.@a' on root elements, and after
plain paths in the WithOptions functions, were silently dropped.
---
 get.go | 82 +++++++++++++++++++++++++++++++++-------------------------
 1 file changed, 47 insertions(+), 35 deletions(-)

diff --git a/get.go b/get.go
index 5c2d582..a013216 100644
--- a/get.go
+++ b/get.go
@@ -200,11 +200,11 @@ func executeQuery(parser *xmlParser, segments []PathSegment, segIndex int) Resul
 						if segments[segIndex+2].Type == SegmentAttribute {
 							attrName := segments[segIndex+2].Value
 							if attrValue, ok := match.attrs[attrName]; ok {
-								return Result{
+								return withModifiers(Result{
 									Type: Attribute,
 									Str:  attrValue,
 									Raw:  attrValue,
-								}
+								}, segments[segIndex+2])
 							}
 							return Result{Type: Null}
 						}
@@ -212,11 +212,11 @@ func executeQuery(parser *xmlParser, segments []PathSegment, segIndex int) Resul
 						// Check if next segment is text content
 						if segments[segIndex+2].Type == SegmentText {
 							textContent := extractDirectTextOnly(match.content)
-							return Result{
+							return withModifiers(Result{
 								Type: String,
 								Str:  unescapeXML(textContent),
 								Raw:  match.content,
-							}
+							}, segments[segIndex+2])
 						}
 
 						// Continue matching within selected root element
@@ -225,21 +225,21 @@ func executeQuery(parser *xmlParser, segments []PathSegment, segIndex int) Resul
 					}
 
 					// No more segments - return the indexed root element
-					return Result{
+					return withModifiers(Result{
 						Type: Element,
 						Str:  unescapeXML(extractTextContent(match.content)),
 						Raw:  match.content,
-					}
+					}, nextSeg)
 				}
 				return Result{Type: Null} // Out of bounds
 
 			case SegmentCount:
 				// Return count of matching roots
-				return Result{
+				return withModifiers(Result{
 					Type: Number,
 					Num:  float64(len(matches)),
 					Str:  itoa(len(matches)),
-				}
+				}, nextSeg)
 			}
 		}
 	}
@@ -577,6 +577,14 @@ func executeQuery(parser *xmlParser, segments []PathSegment, segIndex int) Resul
 	return Result{Type: Null}
 }
 
+// withModifiers applies the modifiers of a segment, if any, to its result
+func withModifiers(result Result, seg PathSegment) Result {
+	if len(seg.Modifiers) > 0 {
+		return applyModifiers(result, seg.Modifiers)
+	}
+	return result
+}
+
 // withoutFinalModifiers returns the segments without the modifiers of the last one.
 // Queries that collect several results use it for the parts, because the modifiers
 // apply once, to the collected result.
@@ -990,11 +998,11 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 						if segments[segIndex+2].Type == SegmentAttribute {
 							attrName := segments[segIndex+2].Value
 							if attrValue, ok := match.attrs[attrName]; ok {
-								return Result{
+								return withModifiers(Result{
 									Type: Attribute,
 									Str:  attrValue,
 									Raw:  attrValue,
-								}
+								}, segments[segIndex+2])
 							}
 							return Result{Type: Null}
 						}
@@ -1002,11 +1010,11 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 						// Check if next segment is text content
 						if segments[segIndex+2].Type == SegmentText {
 							textContent := extractDirectTextOnly(match.content)
-							return Result{
+							return withModifiers(Result{
 								Type: String,
 								Str:  unescapeXML(textContent),
 								Raw:  match.content,
-							}
+							}, segments[segIndex+2])
 						}
 
 						// Continue matching within selected root element
@@ -1015,21 +1023,21 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 					}
 
 					// No more segments - return the indexed root element
-					return Result{
+					return withModifiers(Result{
 						Type: Element,
 						Str:  unescapeXML(extractTextContent(match.content)),
 						Raw:  match.content,
-					}
+					}, nextSeg)
 				}
 				return Result{Type: Null} // Out of bounds
 
 			case SegmentCount:
 				// Return count of matching roots
-				return Result{
+				return withModifiers(Result{
 					Type: Number,
 					Num:  float64(len(matches)),
 					Str:  itoa(len(matches)),
-				}
+				}, nextSeg)
 			}
 		}
 	}
@@ -1203,11 +1211,11 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 						if segIndex+2 < len(segments) {
 							return Result{Type: Null}
 						}
-						return Result{
+						return withModifiers(Result{
 							Type: Attribute,
 							Str:  v,
 							Raw:  v,
-						}
+						}, segments[segIndex+1])
 					}
 				}
 				return Result{Type: Null}
@@ -1216,11 +1224,11 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 				if segIndex+2 < len(segments) {
 					return Result{Type: Null}
 				}
-				return Result{
+				return withModifiers(Result{
 					Type: Attribute,
 					Str:  attrValue,
 					Raw:  attrValue,
-				}
+				}, segments[segIndex+1])
 			}
 			return Result{Type: Null}
 		}
@@ -1228,20 +1236,20 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 		// Check if next segment is text content extraction
 		if !isLastSegment && segments[segIndex+1].Type == SegmentText {
 			textContent := extractDirectTextOnly(content)
-			return Result{
+			return withModifiers(Result{
 				Type: String,
 				Str:  unescapeXML(textContent),
 				Raw:  content,
-			}
+			}, segments[segIndex+1])
 		}
 
 		// If this is the last segment, return the element content
 		if isLastSegment {
-			return Result{
+			return withModifiers(Result{
 				Type: Element,
 				Str:  unescapeXML(extractTextContent(content)),
 				Raw:  content,
-			}
+			}, currentSeg)
 		}
 
 		// Otherwise, parse the content and continue matching
@@ -1254,7 +1262,11 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 
 	// Handle wildcard or filter results
 	if (isWildcard || hasFilter) && len(matches) > 0 {
-		return handleWildcardMatchesWithOptions(matches, segments, segIndex, opts)
+		result := handleWildcardMatchesWithOptions(matches, segments, segIndex, opts)
+		if isLastSegment {
+			result = withModifiers(result, currentSeg)
+		}
+		return result
 	}
 
 	// Handle array operations
@@ -1272,51 +1284,51 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 							for _, k := range sortedAttrNames(match.attrs) {
 								v := match.attrs[k]
 								if toLowerASCII(k) == attrName {
-									return Result{
+									return withModifiers(Result{
 										Type: Attribute,
 										Str:  v,
 										Raw:  v,
-									}
+									}, segments[segIndex+2])
 								}
 							}
 							return Result{Type: Null}
 						}
 						if attrValue, ok := match.attrs[attrName]; ok {
-							return Result{
+							return withModifiers(Result{
 								Type: Attribute,
 								Str:  attrValue,
 								Raw:  attrValue,
-							}
+							}, segments[segIndex+2])
 						}
 						return Result{Type: Null}
 					}
 
 					if segments[segIndex+2].Type == SegmentText {
 						textContent := extractDirectTextOnly(match.content)
-						return Result{
+						return withModifiers(Result{
 							Type: String,
 							Str:  unescapeXML(textContent),
 							Raw:  match.content,
-						}
+						}, segments[segIndex+2])
 					}
 
 					contentParser := newXMLParser([]byte(match.content))
 					return executeQueryWithOptions(contentParser, segments, segIndex+2, opts)
 				}
 
-				return Result{
+				return withModifiers(Result{
 					Type: Element,
 					Str:  unescapeXML(extractTextContent(match.content)),
 					Raw:  match.content,
-				}
+				}, nextSeg)
 			}
 			return Result{Type: Null}
 		case SegmentCount:
-			return Result{
+			return withModifiers(Result{
 				Type: Number,
 				Num:  float64(len(matches)),
 				Str:  itoa(len(matches)),
-			}
+			}, nextSeg)
 		}
 	}
 
-- 
2.43.0


From 9686dcb1804ac0f3b61d0ef632364e80b9978a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:28 +0000
Subject: [PATCH 20/34] fix: support field extraction below '**' in queries
 with options

---
 get.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/get.go b/get.go
index a013216..dfafa24 100644
--- a/get.go
+++ b/get.go
@@ -1563,6 +1563,17 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 						Str:  unescapeXML(textContent),
 						Raw:  content,
 					})
+				case SegmentFieldExtraction:
+					match := elementMatch{
+						name:          elemName,
+						attrs:         attrs,
+						content:       content,
+						isSelfClosing: isSelfClosing,
+					}
+					result := executeFieldExtractionWithOptions([]elementMatch{match}, nextSegment, opts)
+					if result.Type == Array {
+						*ctx.results = append(*ctx.results, result.Results...)
+					}
 				default:
 					contentParser := newXMLParser([]byte(content))
 					result := executeQueryWithOptions(contentParser, segments, segIndex+1, opts)
-- 
2.43.0


From 76d78d90464c8c500a7519ad1c58b542379c2234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:35 +0000
Subject: [PATCH 21/34] fix: enforce the wildcard result limit on flattened
 results

Nested wildcards collected up to MaxWildcardResults per level and returned
all of them.
---
 get.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/get.go b/get.go
index dfafa24..be72e95 100644
--- a/get.go
+++ b/get.go
@@ -577,6 +577,15 @@ func executeQuery(parser *xmlParser, segments []PathSegment, segIndex int) Resul
 	return Result{Type: Null}
 }
 
+// limitResults enforces the result limit on results flattened from several matches
+// Security: prevents result counts from multiplying with nested wildcards
+func limitResults(results []Result) []Result {
+	if len(results) > MaxWildcardResults {
+		return results[:MaxWildcardResults]
+	}
+	return results
+}
+
 // withModifiers applies the modifiers of a segment, if any, to its result
 func withModifiers(result Result, seg PathSegment) Result {
 	if len(seg.Modifiers) > 0 {
@@ -696,6 +705,7 @@ func handleWildcardMatches(matches []elementMatch, segments []PathSegment, segIn
 	}
 
 	// Package results
+	allResults = limitResults(allResults)
 	var result Result
 	if len(allResults) == 1 {
 		result = allResults[0]
@@ -739,6 +749,7 @@ func handleRecursiveWildcard(parser *xmlParser, segments []PathSegment, segIndex
 	if len(allResults) == 0 {
 		return Result{Type: Null}
 	}
+	allResults = limitResults(allResults)
 	result := Result{
 		Type:    Array,
 		Results: allResults,
@@ -1433,6 +1444,7 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 	}
 
 	// Package results
+	allResults = limitResults(allResults)
 	var result Result
 	if len(allResults) == 1 {
 		result = allResults[0]
@@ -1472,6 +1484,7 @@ func handleRecursiveWildcardWithOptions(parser *xmlParser, segments []PathSegmen
 	if len(allResults) == 0 {
 		return Result{Type: Null}
 	}
+	allResults = limitResults(allResults)
 	result := Result{
 		Type:    Array,
 		Results: allResults,
@@ -2030,6 +2043,7 @@ func processAllMatches(matches []elementMatch, segments []PathSegment, segIndex
 	}
 
 	// Package results
+	allResults = limitResults(allResults)
 	var result Result
 	if len(allResults) == 1 {
 		result = allResults[0]
@@ -2341,6 +2355,7 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 	}
 
 	// Package results
+	allResults = limitResults(allResults)
 	var result Result
 	if len(allResults) == 1 {
 		result = allResults[0]
-- 
2.43.0


From 220500fb46f412cd8f43882925aaf61e6c3f3aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:27 +0000
Subject: [PATCH 22/34] fix: keep namespace prefixes in @pretty output

Prefixes of elements were dropped and prefixes of attributes replaced.
---
 modifier.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/modifier.go b/modifier.go
index bef63fe..b3e0420 100644
--- a/modifier.go
+++ b/modifier.go
@@ -377,7 +377,7 @@ func (m *prettyModifier) Apply(r Result) Result {
 
 	// Copy tokens from decoder to encoder
 	for {
-		token, err := decoder.Token()
+		token, err := decoder.RawToken()
 		if err != nil {
 			// End of document or parse error
 			if err.Error() == "EOF" {
@@ -399,9 +399,13 @@ func (m *prettyModifier) Apply(r Result) Result {
 			newStartElem := xml.StartElement{
 				Name: xml.Name{
 					Space: "", // Clear namespace to prevent encoder from adding xmlns
-					Local: startElem.Name.Local,
+					Local: prefixedName(startElem.Name),
 				},
-				Attr: dedupedAttrs,
+				Attr: make([]xml.Attr, 0, len(dedupedAttrs)),
+			}
+			for _, attr := range dedupedAttrs {
+				attr.Name = xml.Name{Local: prefixedName(attr.Name)}
+				newStartElem.Attr = append(newStartElem.Attr, attr)
 			}
 
 			token = newStartElem
@@ -410,7 +414,7 @@ func (m *prettyModifier) Apply(r Result) Result {
 			token = xml.EndElement{
 				Name: xml.Name{
 					Space: "",
-					Local: endElem.Name.Local,
+					Local: prefixedName(endElem.Name),
 				},
 			}
 		}
@@ -420,8 +424,8 @@ func (m *prettyModifier) Apply(r Result) Result {
 		}
 	}
 
-	// Flush the encoder
-	if err := encoder.Flush(); err != nil {
+	// Flush the encoder, which also reports unclosed elements
+	if err := encoder.Close(); err != nil {
 		return r
 	}
 
@@ -433,6 +437,14 @@ func (m *prettyModifier) Apply(r Result) Result {
 	}
 }
 
+// prefixedName returns a name as written in the source (RawToken keeps the prefix in Space)
+func prefixedName(name xml.Name) string {
+	if name.Space == "" {
+		return name.Local
+	}
+	return name.Space + ":" + name.Local
+}
+
 // deduplicateXmlnsAttrs removes duplicate xmlns namespace declarations from attributes.
 // Keeps the first occurrence of each unique xmlns declaration.
 func deduplicateXmlnsAttrs(attrs []xml.Attr) []xml.Attr {
-- 
2.43.0


From 69f4323dff4891441acc76a9fff52432608b6479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:16 +0000
Subject: [PATCH 23/34] fix: skip quoted literals and comments when looking for
 the end of a DOCTYPE

---
 parser.go   | 46 +++++++++++++++++++++++++++++++---------------
 validate.go | 16 +++++-----------
 2 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/parser.go b/parser.go
index a3e4ca5..7f14eea 100644
--- a/parser.go
+++ b/parser.go
@@ -4,6 +4,7 @@
 package xmldot
 
 import (
+	"bytes"
 	"sort"
 	"strings"
 )
@@ -416,6 +417,35 @@ func sectionEnd[T string | []byte](data T, pos int) int {
 	return -1
 }
 
+// findDoctypeEnd returns the position after the DOCTYPE declaration whose content starts
+// at pos, and whether its end was found. Brackets in quoted literals, comments and
+// processing instructions of the declaration do not count.
+func findDoctypeEnd(data []byte, pos int) (int, bool) {
+	depth := 0
+	for pos < len(data) {
+		c := data[pos]
+		switch {
+		case c == '<':
+			if end := sectionEnd(data, pos); end > 0 {
+				pos = end
+				continue
+			}
+		case c == '"' || c == '\'':
+			if end := bytes.IndexByte(data[pos+1:], c); end >= 0 {
+				pos += end + 1
+			}
+		case c == '[':
+			depth++
+		case c == ']':
+			depth--
+		case c == '>' && depth == 0:
+			return pos + 1, true
+		}
+		pos++
+	}
+	return len(data), false
+}
+
 // extractTextContent extracts only text content, stripping out all XML tags
 func extractTextContent(content string) string {
 	var result strings.Builder
@@ -499,21 +529,7 @@ func (p *xmlParser) skipToNextElement() bool {
 						doctype := string(p.data[p.pos:doctypeEnd])
 						if strings.EqualFold(doctype, "<!DOCTYPE") {
 							// DOCTYPE detected - skip it to prevent XXE attacks
-							p.pos += len(doctype)
-							// Skip to end of DOCTYPE declaration
-							depth := 0
-							for p.pos < p.dataLen {
-								c := p.data[p.pos]
-								if c == '[' {
-									depth++
-								} else if c == ']' {
-									depth--
-								} else if c == '>' && depth == 0 {
-									p.pos++
-									break
-								}
-								p.pos++
-							}
+							p.pos, _ = findDoctypeEnd(p.data, p.pos+len(doctype))
 							continue
 						}
 					}
diff --git a/validate.go b/validate.go
index d17f059..49fe2c7 100644
--- a/validate.go
+++ b/validate.go
@@ -578,19 +578,13 @@ func (p *validatingParser) skipCDATA() *ValidateError {
 
 // skipDOCTYPE skips a DOCTYPE declaration
 func (p *validatingParser) skipDOCTYPE() *ValidateError {
-	depth := 0
-	for p.pos < p.dataLen {
-		c := p.peekChar()
-		if c == '[' {
-			depth++
-		} else if c == ']' {
-			depth--
-		} else if c == '>' && depth == 0 {
-			p.advance()
-			return nil
-		}
+	end, closed := findDoctypeEnd(p.data, p.pos)
+	for p.pos < end {
 		p.advance()
 	}
+	if closed {
+		return nil
+	}
 
 	return &ValidateError{
 		Line:    p.line,
-- 
2.43.0


From afa2be801947ce2ce8437628f3ebfc8144c0d5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:52 +0000
Subject: [PATCH 24/34] fix: check the pattern complexity limit before
 allocating the match table

Matching a pattern against a text of several megabytes allocated a table of
text length times pattern length, gigabytes for an allowed document, before
the limit stopped the match.
---
 internal/pattern/match.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/pattern/match.go b/internal/pattern/match.go
index 6a50fb2..66229bb 100644
--- a/internal/pattern/match.go
+++ b/internal/pattern/match.go
@@ -49,6 +49,11 @@ func Match(str, pattern string, maxIterations int) (matched, stopped bool) {
 	p, escapes := processEscapes(p)
 	pLen := len(p)
 
+	// Security: check the complexity limit before allocating the table
+	if sLen*pLen > maxIterations {
+		return false, true
+	}
+
 	// DP table: dp[i][j] = whether s[0:i] matches p[0:j]
 	dp := make([][]bool, sLen+1)
 	for i := range dp {
-- 
2.43.0


From ea272a407d4dc73d6745bd66fef063aa3f077454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:27 +0000
Subject: [PATCH 25/34] fix: ignore case of names in filter conditions when
 matching ignores case

With CaseSensitive: false the element and attribute names of a path match in
any case, but the names inside a filter condition still had to match exactly.
---
 filter.go | 26 ++++++++++++++++++++++++++
 get.go    |  6 +++---
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/filter.go b/filter.go
index 5a05eab..ede1db2 100644
--- a/filter.go
+++ b/filter.go
@@ -371,6 +371,32 @@ func evaluateFilterOnMatch(filter *Filter, match elementMatch) bool {
 	return evaluateFilterWithDepth(filter, match.content, match.attrs, 0)
 }
 
+// evaluateFilterOnMatchWithOptions is like evaluateFilterOnMatch but looks up the value
+// to compare with Options support.
+func evaluateFilterOnMatchWithOptions(filter *Filter, match elementMatch, opts *Options) bool {
+	if filter == nil || opts == nil || opts.CaseSensitive {
+		return evaluateFilterOnMatch(filter, match)
+	}
+
+	// Look up the value ignoring case and compare it under a fixed name
+	value := make(map[string]string, 1)
+	if strings.HasPrefix(filter.Path, "@") {
+		attrName := toLowerASCII(filter.Path[1:])
+		for _, k := range sortedAttrNames(match.attrs) {
+			if toLowerASCII(k) == attrName {
+				value["value"] = match.attrs[k]
+				break
+			}
+		}
+	} else {
+		parser := newXMLParser([]byte(match.content))
+		if result := executeQueryWithOptions(parser, parsePathWithOptions(filter.Path, opts), 0, opts); result.Exists() {
+			value["value"] = result.String()
+		}
+	}
+	return evaluateFilterWithDepth(&Filter{Path: "@value", Op: filter.Op, Value: filter.Value}, "", value, 0)
+}
+
 // isNumericValue checks if a string contains a valid numeric value (int or float).
 // Fast path helper to avoid expensive ParseFloat on non-numeric strings.
 func isNumericValue(s string) bool {
diff --git a/get.go b/get.go
index be72e95..d73b425 100644
--- a/get.go
+++ b/get.go
@@ -1200,7 +1200,7 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 			}
 
 			if hasFilter {
-				if evaluateFilterOnMatch(currentSeg.Filter, match) {
+				if evaluateFilterOnMatchWithOptions(currentSeg.Filter, match, opts) {
 					matches = append(matches, match)
 				}
 			} else {
@@ -2123,7 +2123,7 @@ func handleFilterQueryWithOptions(parser *xmlParser, segments []PathSegment, seg
 		}
 
 		// Evaluate filter condition
-		if evaluateFilterOnMatch(currentSeg.Filter, match) {
+		if evaluateFilterOnMatchWithOptions(currentSeg.Filter, match, opts) {
 			matches = append(matches, match)
 
 			// Security: enforce result limit
@@ -2155,7 +2155,7 @@ func handleFilterQueryOnMatchesWithOptions(allMatches []elementMatch, segments [
 	// Filter the matches
 	var filteredMatches []elementMatch
 	for _, match := range allMatches {
-		if evaluateFilterOnMatch(currentSeg.Filter, match) {
+		if evaluateFilterOnMatchWithOptions(currentSeg.Filter, match, opts) {
 			filteredMatches = append(filteredMatches, match)
 		}
 	}
-- 
2.43.0


From 823fe7b474c1046812852c785bca557f04e6b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:22 +0000
Subject: [PATCH 26/34] fix: keep modifiers out of the search for a match

A modifier that removes a result (an unknown name, or a custom one) made
the query go on to the next sibling and return that one instead.
---
 get.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/get.go b/get.go
index d73b425..f308c47 100644
--- a/get.go
+++ b/get.go
@@ -91,7 +91,7 @@ func GetBytes(xml []byte, path string) Result {
 	parser := newXMLParser(xml)
 
 	// Execute the query
-	return executeQuery(parser, segments, 0)
+	return executePath(parser, segments)
 }
 
 const (
@@ -162,6 +162,21 @@ func collectFragmentRoots(parser *xmlParser, targetName string) []elementMatch {
 	return matches
 }
 
+// executePath runs a query and applies the modifiers of the last segment to its result.
+// They do not take part in the search: a result removed by a modifier is not a reason to
+// look for another match.
+func executePath(parser *xmlParser, segments []PathSegment) Result {
+	return withFinalModifiers(executeQuery(parser, withoutFinalModifiers(segments), 0), segments)
+}
+
+// withFinalModifiers applies the modifiers of the last segment to an existing result
+func withFinalModifiers(result Result, segments []PathSegment) Result {
+	if result.Type == Null {
+		return result
+	}
+	return withModifiers(result, segments[len(segments)-1])
+}
+
 // executeQuery recursively matches path segments against XML structure
 func executeQuery(parser *xmlParser, segments []PathSegment, segIndex int) Result {
 	// Base case: we've matched all segments
@@ -927,7 +942,7 @@ func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {
 			return Result{Type: Null}
 		}
 		parser := newXMLParser(xml)
-		return executeQuery(parser, segments, 0)
+		return executePath(parser, segments)
 	}
 
 	// Parse path with options-aware parsing
@@ -940,7 +955,8 @@ func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {
 	parser := newXMLParser(xml)
 
 	// Execute query with options
-	return executeQueryWithOptions(parser, segments, 0, opts)
+	result := executeQueryWithOptions(parser, withoutFinalModifiers(segments), 0, opts)
+	return withFinalModifiers(result, segments)
 }
 
 // parsePathWithOptions parses a path with options-aware parsing.
-- 
2.43.0


From 112802769b20e1848d4cbf7c025d3044a24a2260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:16 +0000
Subject: [PATCH 27/34] fix: accept comments starting with '>' in SetRaw

The end of the comment was searched from its start, so '<!-->' was taken for a
whole comment and the rest of the comment for markup.
---
 set.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/set.go b/set.go
index a066ece..0cc12de 100644
--- a/set.go
+++ b/set.go
@@ -154,13 +154,13 @@ func validateRawXML(rawxml string) error {
 				continue
 			} else if next == '!' || next == '?' {
 				// Comment, CDATA, or PI - skip
-				if i+2 < len(rawxml) && rawxml[i+2] == '-' {
+				if strings.HasPrefix(rawxml[i:], "<!--") {
 					// Comment: <!--
-					endPos := strings.Index(rawxml[i:], "-->")
+					endPos := strings.Index(rawxml[i+4:], "-->")
 					if endPos == -1 {
 						return ErrInvalidValue
 					}
-					i += endPos + 3
+					i += 4 + endPos + 3
 				} else if strings.HasPrefix(rawxml[i:], "<![CDATA[") {
 					// CDATA - validate no nested CDATA or suspicious patterns
 					cdataStart := i + 9
-- 
2.43.0


From 6e9e9ee104e9f87abd3a30f859242f846ed0ef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:19 +0000
Subject: [PATCH 28/34] fix: reject attribute values beyond the token size
 limit in Set

The result was a document that the validator refuses and queries misread.
---
 builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder.go b/builder.go
index 2a1383c..09000c8 100644
--- a/builder.go
+++ b/builder.go
@@ -148,6 +148,10 @@ func (b *xmlBuilder) setElement(path []PathSegment, value interface{}) error {
 			// Raw values are not escaped - keep them from ending the attribute
 			xmlValue = escapeRawAttr(xmlValue)
 		}
+		// Security check: reject values that could not be read back
+		if len(xmlValue) > MaxTokenSize {
+			return fmt.Errorf("%w: attribute value exceeds maximum size of %d bytes", ErrInvalidValue, MaxTokenSize)
+		}
 
 		// Find the parent element
 		parser := newXMLParser(b.data)
-- 
2.43.0


From 8a294aa0ce72d1a9212949246014a9a94f8a1395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:35 +0000
Subject: [PATCH 29/34] fix: refuse raw XML that makes the document invalid

A fragment nested too deeply for its place was inserted, and the result could
not be modified any further.
---
 set.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index 0cc12de..6ff365f 100644
--- a/set.go
+++ b/set.go
@@ -104,7 +104,16 @@ func SetRaw(xml, path, rawxml string) (string, error) {
 	}
 
 	// Use Set with []byte to insert raw XML
-	return Set(xml, path, []byte(rawxml))
+	result, err := Set(xml, path, []byte(rawxml))
+	if err != nil {
+		return xml, err
+	}
+
+	// The fragment may be too deeply nested for its place in the document
+	if !Valid(result) {
+		return xml, fmt.Errorf("%w: raw XML does not fit into the document", ErrInvalidValue)
+	}
+	return result, nil
 }
 
 // validateRawXML performs basic validation on raw XML to prevent injection
-- 
2.43.0


From e67fcfed73808228097f4fed15d50b6598e659e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:26 +0000
Subject: [PATCH 30/34] fix: refuse to create elements without a name

A step that consists of a modifier only, as in "a.|@raw", has no name and
made Set write '<></>'.
---
 builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder.go b/builder.go
index 09000c8..81ff857 100644
--- a/builder.go
+++ b/builder.go
@@ -526,6 +526,9 @@ func validateCreatePath(path []PathSegment) error {
 		if seg.Type != SegmentElement {
 			return fmt.Errorf("%w: cannot create missing non-element segment", ErrInvalidPath)
 		}
+		if seg.Value == "" {
+			return fmt.Errorf("%w: cannot create an element without a name", ErrInvalidPath)
+		}
 	}
 	return nil
 }
@@ -820,6 +823,9 @@ func (b *xmlBuilder) appendElement(path []PathSegment, value interface{}) error
 	if elementSeg.Type != SegmentElement {
 		return fmt.Errorf("%w: can only append elements, not attributes or other types", ErrInvalidPath)
 	}
+	if elementSeg.Value == "" {
+		return fmt.Errorf("%w: cannot append an element without a name", ErrInvalidPath)
+	}
 
 	// Find parent element location
 	parser := newXMLParser(b.data)
-- 
2.43.0


From ec8b7e75bcd899c56142c569857f20c93397db61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:45:20 +0000
Subject: [PATCH 31/34] fix: bound nested recursive wildcards by one operation
 count

Each recursive wildcard within another one, or within a filter condition,
started counting from zero. A path such as **.a.**.a.**.a.**.zz took minutes
on a document of a few hundred bytes.
---
 filter.go |  4 ++--
 get.go    | 43 ++++++++++++++++++++++++++++++++++---------
 path.go   |  4 ++++
 3 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/filter.go b/filter.go
index ede1db2..736b2d3 100644
--- a/filter.go
+++ b/filter.go
@@ -272,7 +272,7 @@ func evaluateFilterWithDepth(filter *Filter, content string, attrs map[string]st
 		// Element filter - extract text from specific child element
 		parser := newXMLParser([]byte(content))
 		parser.filterDepth = depth + 1
-		result := executeQuery(parser, parsePath(filter.Path), 0)
+		result := executeQuery(parser, shareOperations(parsePath(filter.Path), filter.operations), 0)
 		exists = result.Exists()
 		actualValue = result.String()
 	}
@@ -390,7 +390,7 @@ func evaluateFilterOnMatchWithOptions(filter *Filter, match elementMatch, opts *
 		}
 	} else {
 		parser := newXMLParser([]byte(match.content))
-		if result := executeQueryWithOptions(parser, parsePathWithOptions(filter.Path, opts), 0, opts); result.Exists() {
+		if result := executeQueryWithOptions(parser, shareOperations(parsePathWithOptions(filter.Path, opts), filter.operations), 0, opts); result.Exists() {
 			value["value"] = result.String()
 		}
 	}
diff --git a/get.go b/get.go
index f308c47..dc384c2 100644
--- a/get.go
+++ b/get.go
@@ -114,10 +114,29 @@ type elementMatch struct {
 
 // searchContext tracks recursive search operations to prevent DoS attacks
 type searchContext struct {
-	operations int
+	operations *int
 	results    *[]Result
 }
 
+// shareOperations gives all recursive wildcards of a path the same operation count, so that
+// wildcards within one another cannot multiply MaxRecursiveOperations.
+func shareOperations(segments []PathSegment, operations *int) []PathSegment {
+	if operations == nil {
+		return segments
+	}
+	shared := make([]PathSegment, len(segments))
+	copy(shared, segments)
+	for i := range shared {
+		shared[i].operations = operations
+		if shared[i].Filter != nil {
+			filter := *shared[i].Filter
+			filter.operations = operations
+			shared[i].Filter = &filter
+		}
+	}
+	return shared
+}
+
 // collectFragmentRoots collects all root elements matching the target name in a fragment.
 // This enables array operations on fragments: <user>A</user><user>B</user>
 // Security: Limited to MaxWildcardResults (1000) elements
@@ -758,7 +777,10 @@ func handleRecursiveWildcard(parser *xmlParser, segments []PathSegment, segIndex
 
 	// Recursively search for matches at any depth
 	var allResults []Result
-	ctx := &searchContext{operations: 0, results: &allResults}
+	if segments[segIndex].operations == nil {
+		segments = shareOperations(segments, new(int))
+	}
+	ctx := &searchContext{operations: segments[segIndex].operations, results: &allResults}
 	recursiveSearchWithContext(parser, targetSeg, withoutFinalModifiers(segments), nextSegIndex, ctx, 0)
 
 	if len(allResults) == 0 {
@@ -784,8 +806,8 @@ func handleRecursiveWildcard(parser *xmlParser, segments []PathSegment, segIndex
 // Security: limits recursion depth, result count, and total operations
 func recursiveSearchWithContext(parser *xmlParser, targetSeg PathSegment, segments []PathSegment, segIndex int, ctx *searchContext, depth int) {
 	// Security checks: limit recursion depth, result count, and total operations
-	ctx.operations++
-	if depth > MaxNestingDepth || len(*ctx.results) >= MaxWildcardResults || ctx.operations >= MaxRecursiveOperations {
+	*ctx.operations++
+	if depth > MaxNestingDepth || len(*ctx.results) >= MaxWildcardResults || *ctx.operations >= MaxRecursiveOperations {
 		return
 	}
 
@@ -810,7 +832,7 @@ func recursiveSearchWithContext(parser *xmlParser, targetSeg PathSegment, segmen
 		}
 
 		// Check operation limit again after recursion
-		if ctx.operations >= MaxRecursiveOperations {
+		if *ctx.operations >= MaxRecursiveOperations {
 			return
 		}
 
@@ -1494,7 +1516,10 @@ func handleRecursiveWildcardWithOptions(parser *xmlParser, segments []PathSegmen
 	targetSeg := segments[nextSegIndex]
 
 	var allResults []Result
-	ctx := &searchContext{operations: 0, results: &allResults}
+	if segments[segIndex].operations == nil {
+		segments = shareOperations(segments, new(int))
+	}
+	ctx := &searchContext{operations: segments[segIndex].operations, results: &allResults}
 	recursiveSearchWithContextAndOptions(parser, targetSeg, withoutFinalModifiers(segments), nextSegIndex, ctx, 0, opts)
 
 	if len(allResults) == 0 {
@@ -1518,8 +1543,8 @@ func handleRecursiveWildcardWithOptions(parser *xmlParser, segments []PathSegmen
 
 // recursiveSearchWithContextAndOptions is like recursiveSearchWithContext but with Options support
 func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegment, segments []PathSegment, segIndex int, ctx *searchContext, depth int, opts *Options) {
-	ctx.operations++
-	if depth > MaxNestingDepth || len(*ctx.results) >= MaxWildcardResults || ctx.operations >= MaxRecursiveOperations {
+	*ctx.operations++
+	if depth > MaxNestingDepth || len(*ctx.results) >= MaxWildcardResults || *ctx.operations >= MaxRecursiveOperations {
 		return
 	}
 
@@ -1541,7 +1566,7 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 			recursiveSearchWithContextAndOptions(contentParser, targetSeg, segments, segIndex, ctx, depth+1, opts)
 		}
 
-		if ctx.operations >= MaxRecursiveOperations {
+		if *ctx.operations >= MaxRecursiveOperations {
 			return
 		}
 
diff --git a/path.go b/path.go
index b760fed..3e20af2 100644
--- a/path.go
+++ b/path.go
@@ -97,6 +97,8 @@ type PathSegment struct {
 	// Modifiers execute in order after the path segment resolves.
 	// Example: "items.item|@sort|@first" applies @sort then @first to "item" results.
 	Modifiers []string
+	// operations counts recursive search operations while a query is running.
+	operations *int
 }
 
 // Filter represents a query filter condition.
@@ -107,6 +109,8 @@ type Filter struct {
 	Op FilterOp
 	// Value is the value to compare against.
 	Value string
+	// operations counts recursive search operations while a query is running.
+	operations *int
 }
 
 // parsePath parses a path string into a slice of PathSegments.
-- 
2.43.0


From c0929d811371413b2dbbbf0e8e9ebca13662d060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:45:27 +0000
Subject: [PATCH 32/34] fix: leave too deeply nested content as it is in
 @pretty

Indenting took memory with the square of the nesting depth. A document of
less than 1 MB could use up all memory.
---
 modifier.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modifier.go b/modifier.go
index b3e0420..89114ab 100644
--- a/modifier.go
+++ b/modifier.go
@@ -376,6 +376,7 @@ func (m *prettyModifier) Apply(r Result) Result {
 	encoder.Indent("", "  ")
 
 	// Copy tokens from decoder to encoder
+	depth := 0
 	for {
 		token, err := decoder.RawToken()
 		if err != nil {
@@ -392,6 +393,12 @@ func (m *prettyModifier) Apply(r Result) Result {
 		// xml.Encoder sees Name.Space is set and adds xmlns again, causing duplicates
 		// Solution: Clear namespace from both start and end elements since xmlns attrs preserve it
 		if startElem, ok := token.(xml.StartElement); ok {
+			// Security check: indentation grows with the square of the nesting depth
+			depth++
+			if depth > MaxNestingDepth {
+				return r
+			}
+
 			// Deduplicate xmlns attributes first
 			dedupedAttrs := deduplicateXmlnsAttrs(startElem.Attr)
 
@@ -410,6 +417,7 @@ func (m *prettyModifier) Apply(r Result) Result {
 
 			token = newStartElem
 		} else if endElem, ok := token.(xml.EndElement); ok {
+			depth--
 			// Also clear namespace from end elements to match the cleared start elements
 			token = xml.EndElement{
 				Name: xml.Name{
-- 
2.43.0


From 748ce1f9b51f701825c49d61cd71fd4099d00751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:03:06 +0000
Subject: [PATCH 33/34] fix: keep white space in comments and processing
 instructions when compacting XML

The @ugly modifier dropped white space behind a > inside comments and
processing instructions. A comment ending in "- -->" became "--->", which is
not well-formed, and an instruction could end at another place.
---
 modifier.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/modifier.go b/modifier.go
index 89114ab..619952c 100644
--- a/modifier.go
+++ b/modifier.go
@@ -525,6 +525,26 @@ func compactXML(xmlStr string) string {
 	inCDATA := false
 
 	for i := 0; i < len(xmlStr); i++ {
+		// Copy comments and processing instructions verbatim: without their
+		// white space they can end at another place
+		if !inTag && !inCDATA && xmlStr[i] == '<' {
+			open, terminator := "", ""
+			if strings.HasPrefix(xmlStr[i:], "<!--") {
+				open, terminator = "<!--", "-->"
+			} else if strings.HasPrefix(xmlStr[i:], "<?") {
+				open, terminator = "<?", "?>"
+			}
+			if open != "" {
+				end := len(xmlStr)
+				if n := strings.Index(xmlStr[i+len(open):], terminator); n >= 0 {
+					end = i + len(open) + n + len(terminator)
+				}
+				buf.WriteString(xmlStr[i:end])
+				i = end - 1
+				continue
+			}
+		}
+
 		// Check for CDATA start
 		if !inTag && i+9 <= len(xmlStr) && xmlStr[i:i+9] == "<![CDATA[" {
 			inCDATA = true
-- 
2.43.0


From d43e000d24863dde1ecc137772b98fa9a2aded32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:57:29 +0000
Subject: [PATCH 34/34] fix: do not search for the end of a section while
 inside a tag when extracting text

Looking for the end of a comment or CDATA section at every '<' inside an
unterminated tag took time with the square of the document size.
---
 parser.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/parser.go b/parser.go
index 7f14eea..5bc39e6 100644
--- a/parser.go
+++ b/parser.go
@@ -454,9 +454,11 @@ func extractTextContent(content string) string {
 	for i := 0; i < len(content); i++ {
 		c := content[i]
 		if c == '<' {
-			if end := sectionEnd(content, i); end > 0 && !inTag {
-				i = end - 1 // not text
-				continue
+			if !inTag {
+				if end := sectionEnd(content, i); end > 0 {
+					i = end - 1 // not text
+					continue
+				}
 			}
 			inTag = true
 		} else if c == '>' && inTag {
@@ -479,9 +481,11 @@ func extractDirectTextOnly(content string) string {
 	for i := 0; i < len(content); i++ {
 		c := content[i]
 		if c == '<' {
-			if end := sectionEnd(content, i); end > 0 && !inTag {
-				i = end - 1 // not text
-				continue
+			if !inTag {
+				if end := sectionEnd(content, i); end > 0 {
+					i = end - 1 // not text
+					continue
+				}
 			}
 			inTag = true
 			// Check if it's an opening or closing tag
-- 
2.43.0

