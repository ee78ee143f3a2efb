From 3a51e0195904be17db9832c4db56cab304c44f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 01/43] fix: report an error when the input continues after a
 complete parse

Parse returned neither a BSR set nor an error if a prefix of the input was
parsed as the start symbol and the next token was in its follow set.
---
 gen/golang/gll/parser.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index 8f66094..737f674 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -171,6 +171,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 		}
 	}
 	if !p.bsrSet.Contain(symbols.NT_{{.StartSymbol}}, 0, m) {
+		p.trailingTokenErrors()
 		p.sortParseErrors()
 		return nil, p.parseErrors
 	}
@@ -456,6 +457,20 @@ func (p *parser) parseError(slot slot.Label, i int, expected map[token.Type]stri
 	p.parseErrors = append(p.parseErrors, pe)
 }
 
+// trailingTokenErrors adds an error for every parse of the start symbol, which
+// ends before the end of the input at a token in the follow set of the start
+// symbol.
+func (p *parser) trailingTokenErrors() {
+	for _, b := range p.bsrSet.GetAll() {
+		if b.Label.Head() == symbols.NT_{{.StartSymbol}} && b.LeftExtent() == 0 {
+			p.cI = b.RightExtent()
+			if p.follow(symbols.NT_{{.StartSymbol}}) {
+				p.parseError(b.Label, p.cI, map[token.Type]string{token.EOF: token.EOF.ID()})
+			}
+		}
+	}
+}
+
 func (p *parser) sortParseErrors() {
 	sort.Slice(p.parseErrors,
 		func(i, j int) bool {
-- 
2.43.0


From db2c9332ff880ec5b020bbcad6364538f2ab1969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 02/43] fix: report the slot at the end of an alternate for
 follow set errors

The error slot was the start of the alternate although the whole alternate had
been parsed.
---
 gen/golang/gll/codex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gen/golang/gll/codex.go b/gen/golang/gll/codex.go
index 491a554..d02e876 100644
--- a/gen/golang/gll/codex.go
+++ b/gen/golang/gll/codex.go
@@ -36,6 +36,7 @@ func (g *gen) genAlternatesCode() string {
 type AltData struct {
 	NT         string
 	AltLabel   string
+	EndLabel   string
 	AltComment string
 	Empty      bool
 	Slots      []*SlotData
@@ -61,6 +62,7 @@ func (g *gen) getAltData(nt string, alt *ast.SyntaxAlternate, altI int) *AltData
 	d := &AltData{
 		NT:         nt,
 		AltLabel:   L.Label(),
+		EndLabel:   gslot.NewLabel(nt, altI, len(alt.Symbols), g.gs, g.ff).Label(),
 		AltComment: L.String(),
 		Empty:      alt.Empty(),
 	}
@@ -117,6 +119,6 @@ case slot.{{$slot.PostLabel}}: // {{$slot.Comment}}
 			if p.follow(symbols.NT_{{.NT}}) {
 				p.rtn(symbols.NT_{{.NT}}, cU, p.cI)
 			} else { 
-				p.parseError(slot.{{.AltLabel}}, p.cI, followSets[symbols.NT_{{.NT}}])
+				p.parseError(slot.{{.EndLabel}}, p.cI, followSets[symbols.NT_{{.NT}}])
 			}
 	`
-- 
2.43.0


From 4087c996a72926baa8ff73cd94d02e7f63a76145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 03/43] fix: compare GLL descriptors by value

The set of descriptors compared pointers to newly allocated descriptors, so
descriptors were processed repeatedly and duplicate BSRs were added.
---
 gen/golang/gll/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index 737f674..c3a7ce4 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -325,7 +325,7 @@ type descriptors struct {
 
 func (ds *descriptors) contain(d *descriptor) bool {
 	for _, d1 := range ds.set {
-		if d1 == d {
+		if *d1 == *d {
 			return true
 		}
 	}
-- 
2.43.0


From b36ac8ad897a77380055314c1d54b2bb1c1d157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 04/43] fix: keep all pivots of the string elements of a BSR
 set

String elements with the same symbols and extents but different pivots replaced
each other, so that derivations of ambiguous prefixes were lost.
---
 gen/golang/gll/bsr/bsr.go | 61 ++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 20 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index f80fa28..4bcd410 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -72,7 +72,7 @@ Set contains the set of Binary Subtree Representations (BSR).
 type Set struct {
     slotEntries   map[BSR]bool
     ntSlotEntries map[ntSlot][]BSR
-    stringEntries map[stringKey]*stringBSR
+    stringEntries map[stringKey][]*stringBSR
     rightExtent   int
     lex           *lexer.Lexer
 
@@ -113,7 +113,7 @@ func New(startSymbol symbols.NT, l *lexer.Lexer) *Set {
     return &Set{
         slotEntries:   make(map[BSR]bool),
         ntSlotEntries: make(map[ntSlot][]BSR),
-        stringEntries: make(map[stringKey]*stringBSR),
+        stringEntries: make(map[stringKey][]*stringBSR),
         rightExtent:   0,
         lex:           l,
         startSym:      startSymbol,
@@ -213,9 +213,11 @@ func (s *Set) GetRoots() (roots []BSR) {
 // GetAllStrings returns all string elements with symbols = str,
 // left extent = lext and right extent = rext
 func (s *Set) GetAllStrings(str symbols.Symbols, lext, rext int) (strs []*stringBSR) {
-    for _, s := range s.stringEntries {
-        if s.Symbols.Equal(str) && s.leftExtent == lext && s.rightExtent == rext {
-            strs = append(strs, s)
+    for _, sbs := range s.stringEntries {
+        for _, s := range sbs {
+            if s.Symbols.Equal(str) && s.leftExtent == lext && s.rightExtent == rext {
+                strs = append(strs, s)
+            }
         }
     }
     return
@@ -234,19 +236,20 @@ func (s *Set) getNTBSRs() BSRs {
 
 func (s *Set) getStringBSRs() stringBSRs {
     bsrs := make(stringBSRs, 0, len(s.stringEntries))
-    for _, bsr := range s.stringEntries {
-        bsrs = append(bsrs, bsr)
+    for _, sbs := range s.stringEntries {
+        bsrs = append(bsrs, sbs...)
     }
     sort.Sort(bsrs)
     return bsrs
 }
 
-func (s *Set) getString(symbols symbols.Symbols, leftExtent, rightExtent int) *stringBSR {
-    // fmt.Printf("Set.getString(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
+// getStrings returns the string elements of symbols for all the pivots.
+func (s *Set) getStrings(symbols symbols.Symbols, leftExtent, rightExtent int) []*stringBSR {
+    // fmt.Printf("Set.getStrings(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
 
-    strBsr, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
+    strBsrs, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
     if exist {
-        return strBsr
+        return strBsrs
     }
 
     panic(fmt.Sprintf("Error: no string %s left extent=%d right extent=%d\n",
@@ -263,7 +266,12 @@ func (s *Set) insert(bsr bsr) {
         nt := ntSlot{b.Label.Head(), b.leftExtent, b.rightExtent}
         s.ntSlotEntries[nt] = append(s.ntSlotEntries[nt], b)
     case *stringBSR:
-        s.stringEntries[b.key()] = b
+        for _, sb := range s.stringEntries[b.key()] {
+            if sb.pivot == b.pivot {
+                return
+            }
+        }
+        s.stringEntries[b.key()] = append(s.stringEntries[b.key()], b)
     default:
         panic(fmt.Sprintf("Invalid type %T", bsr))
     }
@@ -354,19 +362,32 @@ func (b BSR) GetNTChildrenI(i int) []BSR {
         return b.set.getNTSlot(b.Label.Symbols()[i], b.pivot, b.rightExtent)
     }
 
-    // Walk to pos i from the right
+    // Walk to pos i from the right. The prefix of b up to symbol i may have
+    // more than one parse.
     symbols := b.Label.Symbols()[:b.Label.Pos()-1]
-    str := b.set.getString(symbols, b.leftExtent, b.pivot)
+    strs := b.set.getStrings(symbols, b.leftExtent, b.pivot)
     for len(symbols) > i+1 && len(symbols) > 2 {
         symbols = symbols[:len(symbols)-1]
-        str = b.set.getString(symbols, str.leftExtent, str.pivot)
+        prefixes, done := []*stringBSR{}, map[int]bool{}
+        for _, str := range strs {
+            if !done[str.pivot] {
+                done[str.pivot] = true
+                prefixes = append(prefixes, b.set.getStrings(symbols, str.leftExtent, str.pivot)...)
+            }
+        }
+        strs = prefixes
     }
 
-    bsrs := []BSR{}
-    if i == 0 {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.leftExtent, str.pivot)
-    } else {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.pivot, str.rightExtent)
+    bsrs, done := []BSR{}, map[[2]int]bool{}
+    for _, str := range strs {
+        lext, rext := str.pivot, str.rightExtent
+        if i == 0 {
+            lext, rext = str.leftExtent, str.pivot
+        }
+        if !done[[2]int{lext, rext}] {
+            done[[2]int{lext, rext}] = true
+            bsrs = append(bsrs, b.set.getNTSlot(b.Label.Symbols()[i], lext, rext)...)
+        }
     }
 
     // fmt.Println(bsrs)
-- 
2.43.0


From 73d7fd752661696e921040f98bfbcdaf360ba46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:46 +0000
Subject: [PATCH 05/43] fix: do not overwrite the grammar slots when building
 an SPPF

append wrote the rest of the alternate into the symbols of the slot table that
the string element aliases.
---
 gen/golang/gll/bsr/bsr.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index 4bcd410..9fcdf8d 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -645,11 +645,10 @@ func (pf *Set) ToSPPF() *sppf.SymbolNode {
                     in.Lext, in.Lext, in.Rext))
             } else {
                 // for each (α,i,k, j)∈Υ { mkPN(X ::=α·δ,i,k, j,G) } } } }
-                alpha, delta := in.Body[:in.Pos], in.Body[in.Pos:]
+                alpha := in.Body[:in.Pos]
                 for _, str := range pf.GetAllStrings(alpha, in.Lext, in.Rext) {
-                    body := append(str.Symbols, delta...)
                     in.Children = append(in.Children,
-                        bld.mkPN(in.NT, body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
+                        bld.mkPN(in.NT, in.Body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
                 }
             }
         }
-- 
2.43.0


From 8284221cda10ebe304949c081e0a7f6394a1c828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 06/43] fix: report nested ambiguities and terminate on cyclic
 parse forests

ReportAmbiguous printed "No ambiguous BSRs" if only a nested BSR was ambiguous
and recursed without end if the grammar is cyclic.
---
 gen/golang/gll/bsr/bsr.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index 9fcdf8d..c2073f4 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -547,14 +547,19 @@ func (s *Set) ReportAmbiguous() {
     }
     for i, b := range s.GetRoots() {
         fmt.Println("In root", i)
-        if !s.report(b) {
+        if !s.report(b, make(map[BSR]bool)) {
             fmt.Println("No ambiguous BSRs")
         }
     }
 }
 
-// report return true iff at least one ambigous BSR was found
-func (s *Set) report(b BSR) bool {
+// report return true iff at least one ambigous BSR was found.
+// visited contains the BSRs, which have been reported already.
+func (s *Set) report(b BSR, visited map[BSR]bool) bool {
+    if visited[b] {
+        return false
+    }
+    visited[b] = true
     ambiguous := false
     for i, sym := range b.Label.Symbols() {
         ln, col := s.getLineColumn(b.LeftExtent())
@@ -569,7 +574,9 @@ func (s *Set) report(b BSR) bool {
                 }
             }
             for _, b1 := range b.GetNTChildrenI(i) {
-                s.report(b1)
+                if s.report(b1, visited) {
+                    ambiguous = true
+                }
             }
         }
     }
-- 
2.43.0


From 0acceac83ff78d88dc79343fd3c9b2e55e4a90b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 07/43] fix: escape quotes in the labels of SPPF nodes

The DOT file was malformed if the grammar has a string literal with a quote or
a backslash.
---
 gen/golang/gll/sppf/sppf.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gen/golang/gll/sppf/sppf.go b/gen/golang/gll/sppf/sppf.go
index d443952..384d9dd 100644
--- a/gen/golang/gll/sppf/sppf.go
+++ b/gen/golang/gll/sppf/sppf.go
@@ -107,15 +107,15 @@ func slotString(nt symbols.NT, body symbols.Symbols, pos int) string {
 }
 
 func (n *IntermediateNode) Label() string {
-	return fmt.Sprintf("\"%s:,%d,%d\"", slotString(n.NT, n.Body, n.Pos), n.Lext, n.Rext)
+	return fmt.Sprintf("%q", fmt.Sprintf("%s:,%d,%d", slotString(n.NT, n.Body, n.Pos), n.Lext, n.Rext))
 }
 
 func (n *SymbolNode) Label() string {
-	return fmt.Sprintf("\"%s,%d,%d\"", n.Symbol, n.Lext, n.Rext)
+	return fmt.Sprintf("%q", fmt.Sprintf("%s,%d,%d", n.Symbol, n.Lext, n.Rext))
 }
 
 func (n *PackedNode) Label() string {
-	return fmt.Sprintf("\"%s,%d,%d,%d\"", slotString(n.NT, n.Body, n.Pos), n.Lext, n.Pivot, n.Rext)
+	return fmt.Sprintf("%q", fmt.Sprintf("%s,%d,%d,%d", slotString(n.NT, n.Body, n.Pos), n.Lext, n.Pivot, n.Rext))
 }
 
 func (n *IntermediateNode) String() string {
-- 
2.43.0


From 8849cf9c177ed7abb5c175421816c8a2105558d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:29 +0000
Subject: [PATCH 08/43] fix: lexer transitions for overlapping character
 classes

Items were moved on the first matching event only if their symbol contains the
whole event, so tokens were lost when classes overlap without one containing
the other, and the relation was wrong for several pairs of classes. The
intersections of overlapping classes are now events too.
---
 ast/lex.go                |  43 ++++
 gen/golang/lexer/lexer.go |   2 +
 gen/rust/lexer/lexer.go   |   2 +
 lex/items/event/event.go  | 406 ++++++++++++++------------------------
 lex/items/items.go        |   7 +-
 5 files changed, 198 insertions(+), 262 deletions(-)

diff --git a/ast/lex.go b/ast/lex.go
index 6fc4c8d..4d02b95 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -56,6 +56,11 @@ type CharLiteral struct {
 	Literal []rune
 }
 
+// Intersection is the set of characters that are in both A and B
+type Intersection struct {
+	A, B LexBase
+}
+
 type LexBracket struct {
 	leftBracket *token.Token
 	Type        BracketType
@@ -80,6 +85,7 @@ type LexBase interface {
 func (*Any) isLexBase()          {}
 func (*AnyOf) isLexBase()        {}
 func (*CharLiteral) isLexBase()  {}
+func (*Intersection) isLexBase() {}
 func (*Not) isLexBase()          {}
 func (*UnicodeClass) isLexBase() {}
 func (*UnicodeSet) isLexBase()   {}
@@ -99,6 +105,7 @@ type LexSymbol interface {
 func (*Any) isLexSymbol()          {}
 func (*AnyOf) isLexSymbol()        {}
 func (*CharLiteral) isLexSymbol()  {}
+func (*Intersection) isLexSymbol() {}
 func (*LexBracket) isLexSymbol()   {}
 func (*Not) isLexSymbol()          {}
 func (*UnicodeClass) isLexSymbol() {}
@@ -184,6 +191,15 @@ func (a *AnyOf) Lext() int {
 	return a.any.Lext()
 }
 
+// NewAnyOf returns the AnyOf with the given runes
+func NewAnyOf(runes ...rune) *AnyOf {
+	a := &AnyOf{Set: runeset.New()}
+	for _, r := range runes {
+		a.Set.Add(r)
+	}
+	return a
+}
+
 func NewCharLiteral(tok *token.Token, literal []rune) *CharLiteral {
 	return &CharLiteral{
 		tok:     tok,
@@ -230,6 +246,25 @@ func (c *CharLiteral) Lext() int {
 	return c.tok.Lext()
 }
 
+func (i *Intersection) Equal(other LexBase) bool {
+	if other == nil {
+		return false
+	}
+	i1, ok := other.(*Intersection)
+	if !ok {
+		return false
+	}
+	return i.A.Equal(i1.A) && i.B.Equal(i1.B)
+}
+
+func (i *Intersection) Lext() int {
+	return i.A.Lext()
+}
+
+func (i *Intersection) String() string {
+	return fmt.Sprintf("(%s & %s)", i.A, i.B)
+}
+
 func (l *LexBracket) LeftBracket() string {
 	switch l.Type {
 	case LexGroup:
@@ -318,6 +353,9 @@ func (*Any) String() string {
 }
 
 func (a *AnyOf) String() string {
+	if a.strLit == nil {
+		return fmt.Sprintf("any %q", string(a.Set.Elements()))
+	}
 	return fmt.Sprintf("any %s", string(a.strLit.Literal()))
 }
 
@@ -440,6 +478,11 @@ func (u UnicodeRanges) Equal(other UnicodeRanges) bool {
 			return false
 		}
 	}
+	for _, rng := range other {
+		if !u.Contain(rng) {
+			return false
+		}
+	}
 	return true
 }
 
diff --git a/gen/golang/lexer/lexer.go b/gen/golang/lexer/lexer.go
index 038e9ce..71b193b 100644
--- a/gen/golang/lexer/lexer.go
+++ b/gen/golang/lexer/lexer.go
@@ -112,6 +112,8 @@ func getCondition(event ast.LexBase) string {
 			return "r == '\\''"
 		}
 		return fmt.Sprintf("r == %s", cstr)
+	case *ast.Intersection:
+		return fmt.Sprintf("(%s) && (%s)", getCondition(e.A), getCondition(e.B))
 	case *ast.Not:
 		return fmt.Sprintf("not(r, %s)", e.Set)
 	case *ast.UnicodeClass:
diff --git a/gen/rust/lexer/lexer.go b/gen/rust/lexer/lexer.go
index 7c71543..f690f83 100644
--- a/gen/rust/lexer/lexer.go
+++ b/gen/rust/lexer/lexer.go
@@ -108,6 +108,8 @@ func getCondition(event ast.LexBase) string {
 		return fmt.Sprintf("any(c, %s)", toSlice(e.Set))
 	case *ast.CharLiteral:
 		return fmt.Sprintf("c == %s", string(e.Literal))
+	case *ast.Intersection:
+		return fmt.Sprintf("(%s) && (%s)", getCondition(e.A), getCondition(e.B))
 	case *ast.Not:
 		return fmt.Sprintf("not(c, %s)", toSlice(e.Set))
 	case *ast.UnicodeClass:
diff --git a/lex/items/event/event.go b/lex/items/event/event.go
index eefc68e..8422688 100644
--- a/lex/items/event/event.go
+++ b/lex/items/event/event.go
@@ -24,161 +24,151 @@ Package event implements the events that cause transitions between FSA states.
 package event
 
 import (
-	"fmt"
-	"os"
 	"sort"
 	"unicode"
 
 	"github.com/goccmack/gogll/v3/ast"
 	"github.com/goccmack/gogll/v3/lex/item"
-	"github.com/goccmack/gogll/v3/util/runeset"
 )
 
-// TriState has range: {True, False, Undefined}
-type TriState int
-
-const (
-	// Undefined is a TriState value
-	Undefined TriState = iota
-	// False is a TriState value
-	False
-	// True is a TriState value
-	True
-)
-
-type eventPair struct {
-	a, b ast.LexBase
-}
-
 // GetOrdered returns the set of unique transition events for items, ordered
-// by the event precedence.
+// from the most to the least specific. The lexer takes the first transition
+// that matches a character. The intersection of overlapping events is
+// therefore also an event, on which the items of both events move.
 func GetOrdered(items ...*item.Item) (events []ast.LexBase) {
 	events = getEvents(items...)
-	incompatibleEvents := []eventPair{}
-	for i := 0; i < len(events)-1; i++ {
-		for j := i + 1; j < len(events); j++ {
-			if Subset(events[i], events[j]) == Undefined &&
-				Subset(events[j], events[i]) == Undefined {
-				incompatibleEvents = append(incompatibleEvents,
-					eventPair{events[i], events[j]})
+	for i := 1; i < len(events); i++ {
+		for j := 0; j < i; j++ {
+			if Subset(events[i], events[j]) || Subset(events[j], events[i]) {
+				continue
+			}
+			if event := intersection(events[j], events[i]); event != nil && !containsSame(events, event) {
+				events = append(events, event)
 			}
 		}
 	}
-	if len(incompatibleEvents) > 0 {
-		fail(items, incompatibleEvents)
-	}
 	sortEvents(events)
 	return
 }
 
-// Subset returns True if a is a subset of b, False if a is not a subset of b,
-// and Undefined if the subset relationship is not defined between a and b
-func Subset(a, b ast.LexBase) TriState {
-	switch a1 := a.(type) {
-	case *ast.Any:
-		_, ok := b.(*ast.Any)
-		return toTriState(ok)
+// Subset returns true iff every character of a is a character of b
+func Subset(a, b ast.LexBase) bool {
+	runes, finite := finiteSet(a)
+	if !finite {
+		if _, finite = finiteSet(b); finite {
+			return false
+		}
+		return getRuneTable(a).subset(getRuneTable(b))
+	}
+	for _, r := range runes {
+		if !Contains(b, r) {
+			return false
+		}
+	}
+	return true
+}
 
+// Contains returns true iff r is a character of event
+func Contains(event ast.LexBase, r rune) bool {
+	switch e := event.(type) {
+	case *ast.Any:
+		return true
 	case *ast.AnyOf:
-		switch b1 := b.(type) {
-		case *ast.Any:
-			return True
-		case *ast.AnyOf:
-			return toTriState(a1.Set.Subset(b1.Set))
-		case *ast.CharLiteral:
-			return toTriState(a1.Set.Contains(b1.Char()))
-		case *ast.Not:
-			return toTriState(!a1.Set.Subset(b1.Set))
-		case *ast.UnicodeClass:
-			return toTriState(unicodeClassContains(b1, a1.Set.Elements()...))
-		case *ast.UnicodeSet:
-			return toTriState(b1.ContainsRunes(a1.Set.Elements()...))
-		default:
-			panic("Invalid")
-		}
+		return e.Set.Contains(r)
+	case *ast.CharLiteral:
+		return e.Char() == r
+	case *ast.Intersection:
+		return Contains(e.A, r) && Contains(e.B, r)
+	case *ast.Not:
+		return !e.Set.Contains(r)
+	case *ast.UnicodeClass:
+		return unicodeClassContains(e, r)
+	case *ast.UnicodeSet:
+		return e.ContainsRune(r)
+	}
+	panic("Invalid")
+}
 
+// finiteSet returns the characters of an event that lists them
+func finiteSet(event ast.LexBase) (runes []rune, finite bool) {
+	switch e := event.(type) {
+	case *ast.AnyOf:
+		return e.Set.Elements(), true
 	case *ast.CharLiteral:
-		switch b1 := b.(type) {
-		case *ast.Any:
-			return True
-		case *ast.AnyOf:
-			return toTriState(b1.Set.Contains(a1.Char()))
-		case *ast.CharLiteral:
-			return toTriState(a1.Char() == b1.Char())
-		case *ast.Not:
-			return toTriState(!b1.Set.Contains(a1.Char()))
-		case *ast.UnicodeClass:
-			return toTriState(unicodeClassContains(b1, a1.Char()))
-		case *ast.UnicodeSet:
-			return toTriState(b1.ContainsRune(a1.Char()))
-		default:
-			panic("Invalid")
-		}
+		return []rune{e.Char()}, true
+	}
+	return nil, false
+}
 
-	case *ast.Not:
-		switch b1 := b.(type) {
-		case *ast.Any:
-			return True
-		case *ast.AnyOf:
-			return Undefined
-		case *ast.CharLiteral:
-			return False
-		case *ast.Not:
-			return toTriState(b1.Set.Subset(a1.Set))
-		case *ast.UnicodeClass:
-			return Undefined
-		case *ast.UnicodeSet:
-			return Undefined
-		default:
-			panic("Invalid")
+// intersection returns the event with the characters that a and b share, or
+// nil if they share none.
+func intersection(a, b ast.LexBase) ast.LexBase {
+	runes, finite := finiteSet(a)
+	if !finite {
+		if runes, finite = finiteSet(b); finite {
+			a, b = b, a
 		}
-
-	case *ast.UnicodeClass:
-		switch b1 := b.(type) {
-		case *ast.Any:
-			return True
-		case *ast.AnyOf:
-			return Undefined
-		case *ast.CharLiteral:
-			return False
-		case *ast.Not:
-			return False
-		case *ast.UnicodeClass:
-			return toTriState(a1.Type == b1.Type ||
-				(b1.Type == ast.Letter && (a1.Type == ast.Lowcase || a1.Type == ast.Upcase)))
-		case *ast.UnicodeSet:
-			return toTriState(b1.ContainsClass(a1))
-		default:
-			panic("Invalid")
+	}
+	if finite {
+		common := []rune{}
+		for _, r := range runes {
+			if Contains(b, r) {
+				common = append(common, r)
+			}
 		}
+		if len(common) == 0 {
+			return nil
+		}
+		return ast.NewAnyOf(common...)
+	}
+	if !getRuneTable(a).intersects(getRuneTable(b)) {
+		return nil
+	}
+	return &ast.Intersection{A: a, B: b}
+}
 
-	case *ast.UnicodeSet:
-		switch b1 := b.(type) {
-		case *ast.Any:
-			return True
-		case *ast.AnyOf:
-			return Undefined
-		case *ast.CharLiteral:
-			return False
-		case *ast.Not:
-			return False
-		case *ast.UnicodeClass:
-			return toTriState(b1.ContainsSet(a1))
-		case *ast.UnicodeSet:
-			return toTriState(b1.ContainsSet(a1))
-		default:
-			panic("Invalid")
+/*** runeTable ***/
+
+// runeTable has a bit for every Unicode code point
+type runeTable []uint64
+
+var runeTables = make(map[string]runeTable)
+
+func getRuneTable(event ast.LexBase) runeTable {
+	id := event.String()
+	if rt, exist := runeTables[id]; exist {
+		return rt
+	}
+	rt := make(runeTable, unicode.MaxRune/64+1)
+	for r := rune(0); r <= unicode.MaxRune; r++ {
+		if Contains(event, r) {
+			rt[r/64] |= 1 << (r % 64)
 		}
+	}
+	runeTables[id] = rt
+	return rt
+}
 
-	default:
-		panic("Invalid")
+func (rt runeTable) intersects(other runeTable) bool {
+	for i, word := range rt {
+		if word&other[i] != 0 {
+			return true
+		}
 	}
+	return false
 }
 
-func anyOf(r rune, rs *runeset.RuneSet) bool {
-	return rs.Contains(r)
+func (rt runeTable) subset(other runeTable) bool {
+	for i, word := range rt {
+		if word&^other[i] != 0 {
+			return false
+		}
+	}
+	return true
 }
 
+/*** Utils ***/
+
 func contains(events []ast.LexBase, event ast.LexBase) bool {
 	for _, ev := range events {
 		if ev.Equal(event) {
@@ -188,6 +178,16 @@ func contains(events []ast.LexBase, event ast.LexBase) bool {
 	return false
 }
 
+// containsSame returns true iff an element of events has the characters of event
+func containsSame(events []ast.LexBase, event ast.LexBase) bool {
+	for _, ev := range events {
+		if Subset(ev, event) && Subset(event, ev) {
+			return true
+		}
+	}
+	return false
+}
+
 func getEvents(items ...*item.Item) (events []ast.LexBase) {
 	for _, item := range items {
 		event := item.Symbol()
@@ -200,147 +200,35 @@ func getEvents(items ...*item.Item) (events []ast.LexBase) {
 	return
 }
 
-func noneOf(r rune, rs *runeset.RuneSet) bool {
-	return !rs.Contains(r)
-}
-
-// sort events from most to least specific class
+// sort events from most to least specific class. Events that are not
+// comparable do not share any character for which there is no earlier event.
 func sortEvents(events []ast.LexBase) {
-	sort.Slice(events, func(i, j int) bool {
-		switch e1 := events[i].(type) {
-		case *ast.Any:
-			return false
-		case *ast.AnyOf:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return e1.Set.Subset(e2.Set)
-			case *ast.CharLiteral:
-				return e1.Set.Contains(e2.Char())
-			case *ast.Not:
-				return e1.Set.Subset(e2.Set)
-			case *ast.UnicodeClass:
-				return unicodeClassContains(e2, e1.Set.Elements()...)
-			case *ast.UnicodeSet:
-				return e2.ContainsRunes(e1.Set.Elements()...)
-			default:
-				panic("Invalid")
-			}
-		case *ast.CharLiteral:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return true
-			case *ast.CharLiteral:
-				return e1.Char() < e2.Char()
-			case *ast.Not:
-				return true
-			case *ast.UnicodeClass:
-				return true
-			case *ast.UnicodeSet:
-				return true
-			default:
-				panic("Invalid")
-			}
-		case *ast.Not:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return e1.Set.Subset(e2.Set)
-			case *ast.UnicodeClass:
-				return false
-			case *ast.UnicodeSet:
-				return false
-			default:
-				panic("Invalid")
-			}
-		case *ast.UnicodeClass:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return !unicodeClassContains(e1, e2.Set.Elements()...)
-			case *ast.UnicodeClass:
-				return e2.Type == ast.Letter && (e1.Type == ast.Lowcase || e1.Type == ast.Upcase)
-			case *ast.UnicodeSet:
-				return e2.ContainsClass(e1)
-			default:
-				panic("Invalid")
+	// number of events of which an event is a subset
+	rank := make(map[ast.LexBase]int)
+	for _, a := range events {
+		for _, b := range events {
+			if Subset(a, b) {
+				rank[a]++
 			}
-		case *ast.UnicodeSet:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return !e1.ContainsRunes(e2.Set.Elements()...)
-			case *ast.UnicodeClass:
-				return e2.ContainsSet(e1)
-			case *ast.UnicodeSet:
-				return e2.ContainsSet(e1)
-			default:
-				panic("Invalid")
-			}
-		default:
-			panic("Invalid")
 		}
-	})
-}
-
-func toTriState(b bool) TriState {
-	if b {
-		return True
 	}
-	return False
-}
-
-func unicodeClassContains(c *ast.UnicodeClass, rs ...rune) bool {
-	for _, r := range rs {
-		ok := false
-		switch c.Type {
-		case ast.Letter:
-			ok = unicode.IsLetter(r)
-		case ast.Upcase:
-			ok = unicode.IsUpper(r)
-		case ast.Lowcase:
-			ok = unicode.IsLower(r)
-		case ast.Number:
-			ok = unicode.IsNumber(r)
-		case ast.Space:
-			ok = unicode.IsSpace(r)
-		default:
-			panic("Invalid")
-		}
-		if !ok {
-			return false
-		}
-	}
-	return true
+	sort.SliceStable(events, func(i, j int) bool {
+		return rank[events[i]] > rank[events[j]]
+	})
 }
 
-func fail(items []*item.Item, incomatibleEvents []eventPair) {
-	fmt.Println("Error in lexer events")
-	fmt.Println("  Set:")
-	for _, item := range items {
-		fmt.Println("    ", item)
-	}
-	fmt.Println("  Incompatible events:")
-	for _, ee := range incomatibleEvents {
-		fmt.Println("    ", ee.a, " ", ee.b)
+func unicodeClassContains(c *ast.UnicodeClass, r rune) bool {
+	switch c.Type {
+	case ast.Letter:
+		return unicode.IsLetter(r)
+	case ast.Upcase:
+		return unicode.IsUpper(r)
+	case ast.Lowcase:
+		return unicode.IsLower(r)
+	case ast.Number:
+		return unicode.IsNumber(r)
+	case ast.Space:
+		return unicode.IsSpace(r)
 	}
-	os.Exit(1)
+	panic("Invalid")
 }
diff --git a/lex/items/items.go b/lex/items/items.go
index 8b6add6..c8faf16 100644
--- a/lex/items/items.go
+++ b/lex/items/items.go
@@ -176,7 +176,7 @@ func (set *Set) nextSets() (sets []*Set) {
 		newSet := &Set{}
 		for _, item := range set.set {
 			if sym := item.Symbol(); sym != nil {
-				if event.Subset(ev, sym.(ast.LexBase)) == event.True {
+				if event.Subset(ev, sym.(ast.LexBase)) {
 					newSet.Add(item.Next().Emoves()...)
 				}
 			}
@@ -218,8 +218,9 @@ func set0(g *ast.GoGLL) *Set {
 	for _, rule := range g.LexRules {
 		s0.add(item.New(rule).Emoves()...)
 	}
-	for _, sl := range g.StringLiterals {
-		s0.add(item.New(stringLitToRule(sl)))
+	// In a fixed order, so that the generated lexer is always the same
+	for _, sl := range g.GetStringLiterals() {
+		s0.add(item.New(stringLitToRule(g.StringLiterals[sl])))
 	}
 	return s0
 }
-- 
2.43.0


From 6c7fbee59f421035e779ba20e1d324363e986345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 09/43] fix: lexer generation did not terminate for a repeated
 bracket that may be empty

---
 lex/item/item.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/lex/item/item.go b/lex/item/item.go
index b18b9e3..7313caa 100644
--- a/lex/item/item.go
+++ b/lex/item/item.go
@@ -101,6 +101,9 @@ func (i *Item) Emoves() []*Item {
 	// fmt.Println("Emoves:", i)
 
 	after := []*Item{i}
+	// The items at bracket boundaries that have been expanded. A bracket that
+	// is repeated and matches the empty string leads back to such an item.
+	expanded := []*Item{}
 	for changed := true; changed; {
 		// fmt.Println(" Again")
 		before := after
@@ -109,6 +112,13 @@ func (i *Item) Emoves() []*Item {
 		for _, item := range before {
 			// fmt.Println("  ", item)
 
+			if item.atBeforeBracket() || item.atEndOfBracket() {
+				if item.in(expanded) {
+					continue
+				}
+				expanded = append(expanded, item)
+			}
+
 			switch {
 			case item.atBeforeBracket():
 				for j := range item.Symbol().(*ast.LexBracket).Alternates {
@@ -131,7 +141,9 @@ func (i *Item) Emoves() []*Item {
 				after = append(after, item.afterCurrentBracket())
 				changed = true
 			default:
-				after = append(after, item)
+				if !item.in(after) {
+					after = append(after, item)
+				}
 			}
 		}
 	}
@@ -144,6 +156,15 @@ func (i *Item) Equal(other *Item) bool {
 		i.Pos.Equal(other.Pos)
 }
 
+func (i *Item) in(items []*Item) bool {
+	for _, item := range items {
+		if i.Equal(item) {
+			return true
+		}
+	}
+	return false
+}
+
 // Next returns the next item after i. If i is a reduce item Next returns nil
 func (i *Item) Next() *Item {
 	if i.IsReduce() {
-- 
2.43.0


From aba218c2fd0d575cb86fc9d72f87cc4864c05dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 10/43] fix: recognise a code fence that follows another
 immediately

---
 gen/golang/lexer/lexer.go | 1 +
 lexer/lexer.go            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gen/golang/lexer/lexer.go b/gen/golang/lexer/lexer.go
index 71b193b..1ea0cb7 100644
--- a/gen/golang/lexer/lexer.go
+++ b/gen/golang/lexer/lexer.go
@@ -313,6 +313,7 @@ func loadMd(input []rune) {
 				input[i+j] = ' '
 			}
 			i += 3
+			continue
 		}
 		if i < len(input) {
 			if text {
diff --git a/lexer/lexer.go b/lexer/lexer.go
index 5bb0edd..1618afe 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -146,6 +146,7 @@ func loadMd(input []rune) {
 				input[i+j] = ' '
 			}
 			i += 3
+			continue
 		}
 		if i < len(input) {
 			if text {
-- 
2.43.0


From c15c346721a43451334b169cdc95bf5067caa279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:02 +0000
Subject: [PATCH 11/43] fix: range tables of Unicode category aliases such as
 Letter

---
 ast/lex.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ast/lex.go b/ast/lex.go
index 4d02b95..cfeb7dc 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -547,10 +547,28 @@ func rangeTableInRangeTable(a, b *unicode.RangeTable) bool {
 	return true
 }
 
+// categoryAliases has the categories that are not keys of unicode.Categories
+var categoryAliases = map[string]*unicode.RangeTable{
+	"Digit":  unicode.Digit,
+	"Letter": unicode.Letter,
+	"Lower":  unicode.Lower,
+	"Mark":   unicode.Mark,
+	"Number": unicode.Number,
+	"Other":  unicode.Other,
+	"Punct":  unicode.Punct,
+	"Space":  unicode.Space,
+	"Symbol": unicode.Symbol,
+	"Title":  unicode.Title,
+	"Upper":  unicode.Upper,
+}
+
 // GetRangeTable returns the category or property RangeTable of r
 func (u *UnicodeRange) GetRangeTable() *unicode.RangeTable {
 	switch u.Type {
 	case UnicodeCategory:
+		if table, exist := categoryAliases[u.Range]; exist {
+			return table
+		}
 		if unicode.Categories[u.Range] == nil {
 			panic(u.Range)
 		}
-- 
2.43.0


From be780c2e4be30447ce21f6986b2eb33665008ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 12/43] fix: token rules that refer to the same definition
 overwrote each other

---
 ast/build.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/build.go b/ast/build.go
index 4395f06..6bb676e 100644
--- a/ast/build.go
+++ b/ast/build.go
@@ -197,7 +197,8 @@ func (bld *builder) getLexRuleBody(tokid *token.Token) []LexSymbol {
 	if lexRule == nil {
 		bld.fail(fmt.Errorf("token %s not defined yet", tokid.LiteralString()), tokid.Lext())
 	}
-	return lexRule.RegExp.Symbols
+	// A copy, because the caller appends to it
+	return append([]LexSymbol{}, lexRule.RegExp.Symbols...)
 }
 
 // LexSymbol
-- 
2.43.0


From 066012b938880b09b0e48da42b9828db19026498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 13/43] fix: LiteralStripEscape returned \r for \n and panicked
 at a final backslash

---
 gen/golang/token/token.go | 4 ++--
 token/token.go            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gen/golang/token/token.go b/gen/golang/token/token.go
index 473db7e..013c87e 100644
--- a/gen/golang/token/token.go
+++ b/gen/golang/token/token.go
@@ -148,7 +148,7 @@ func (t *Token) LiteralStripEscape() []rune {
 	lit := t.Literal()
 	strip := make([]rune, 0, len(lit))
 	for i := 0; i < len(lit); i++ {
-		if lit[i] == '\\' {
+		if lit[i] == '\\' && i+1 < len(lit) {
 			i++
 			switch lit[i] {
 			case 't':
@@ -156,7 +156,7 @@ func (t *Token) LiteralStripEscape() []rune {
 			case 'r':
 				strip = append(strip, '\r')
 			case 'n':
-				strip = append(strip, '\r')
+				strip = append(strip, '\n')
 			default:
 				strip = append(strip, lit[i])
 			}
diff --git a/token/token.go b/token/token.go
index f20e796..2445015 100755
--- a/token/token.go
+++ b/token/token.go
@@ -69,7 +69,7 @@ func (t *Token) LiteralStripEscape() []rune {
 	lit := t.Literal()
 	strip := make([]rune, 0, len(lit))
 	for i := 0; i < len(lit); i++ {
-		if lit[i] == '\\' {
+		if lit[i] == '\\' && i+1 < len(lit) {
 			i++
 			switch lit[i] {
 			case 't':
@@ -77,7 +77,7 @@ func (t *Token) LiteralStripEscape() []rune {
 			case 'r':
 				strip = append(strip, '\r')
 			case 'n':
-				strip = append(strip, '\r')
+				strip = append(strip, '\n')
 			default:
 				strip = append(strip, lit[i])
 			}
-- 
2.43.0


From 9f507199a7bda1cf8f78b2c6d709471d6332af5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 14/43] fix: escape unprintable characters in the conditions of
 the generated lexer

---
 gen/golang/lexer/lexer.go |  6 +-----
 util/runeset/runeset.go   | 18 +-----------------
 2 files changed, 2 insertions(+), 22 deletions(-)

diff --git a/gen/golang/lexer/lexer.go b/gen/golang/lexer/lexer.go
index 1ea0cb7..b6cbd30 100644
--- a/gen/golang/lexer/lexer.go
+++ b/gen/golang/lexer/lexer.go
@@ -107,11 +107,7 @@ func getCondition(event ast.LexBase) string {
 	case *ast.AnyOf:
 		return fmt.Sprintf("any(r, %s)", e.Set)
 	case *ast.CharLiteral:
-		cstr := string(e.Literal)
-		if cstr == "'''" {
-			return "r == '\\''"
-		}
-		return fmt.Sprintf("r == %s", cstr)
+		return fmt.Sprintf("r == %q", e.Char())
 	case *ast.Intersection:
 		return fmt.Sprintf("(%s) && (%s)", getCondition(e.A), getCondition(e.B))
 	case *ast.Not:
diff --git a/util/runeset/runeset.go b/util/runeset/runeset.go
index 2716478..fde2699 100644
--- a/util/runeset/runeset.go
+++ b/util/runeset/runeset.go
@@ -103,24 +103,8 @@ func (rs *RuneSet) String() string {
 		if i > 0 {
 			fmt.Fprint(w, ",")
 		}
-		fmt.Fprintf(w, "'%s'", escape(r))
+		fmt.Fprintf(w, "%q", r)
 	}
 	fmt.Fprint(w, "}")
 	return w.String()
 }
-
-func escape(r rune) string {
-	switch r {
-	case '\\':
-		return "\\\\"
-	case '\'':
-		return "\\'"
-	case '\r':
-		return "\\r"
-	case '\n':
-		return "\\n"
-	case '\t':
-		return "\\t"
-	}
-	return string(r)
-}
-- 
2.43.0


From c13a441af6fe922074d9333545715e42bfa9d5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 15/43] fix: the text of a BSR string element contained the
 token after it

---
 gen/golang/gll/bsr/bsr.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index c2073f4..887a269 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -511,8 +511,12 @@ func (s stringBSR) Empty() bool {
 
 // String returns a string representation of s
 func (s stringBSR) String() string {
+    srcStr := "ℇ"
+    if s.leftExtent < s.rightExtent {
+        srcStr = s.set.lex.GetString(s.LeftExtent(), s.RightExtent()-1)
+    }
     return fmt.Sprintf("%s,%d,%d,%d - %s", &s.Symbols, s.leftExtent, s.pivot,
-        s.rightExtent, s.set.lex.GetString(s.LeftExtent(), s.RightExtent()))
+        s.rightExtent, srcStr)
 }
 
 func (s *Set) getNTSlot(sym symbols.Symbol, leftExtent, rightExtent int) (bsrs []BSR) {
-- 
2.43.0


From 2fbb40893336afed2ec6cff07f80b9d78657288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 16/43] fix: compute the intersections of character classes
 from ranges

The tables with a bit per code point made the generation of lexers with many
overlapping classes slow.
---
 lex/items/event/event.go | 71 +++++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 23 deletions(-)

diff --git a/lex/items/event/event.go b/lex/items/event/event.go
index 8422688..6379ffb 100644
--- a/lex/items/event/event.go
+++ b/lex/items/event/event.go
@@ -58,7 +58,7 @@ func Subset(a, b ast.LexBase) bool {
 		if _, finite = finiteSet(b); finite {
 			return false
 		}
-		return getRuneTable(a).subset(getRuneTable(b))
+		return getRanges(a).subset(getRanges(b))
 	}
 	for _, r := range runes {
 		if !Contains(b, r) {
@@ -121,46 +121,71 @@ func intersection(a, b ast.LexBase) ast.LexBase {
 		}
 		return ast.NewAnyOf(common...)
 	}
-	if !getRuneTable(a).intersects(getRuneTable(b)) {
+	if len(getRanges(a).intersection(getRanges(b))) == 0 {
 		return nil
 	}
 	return &ast.Intersection{A: a, B: b}
 }
 
-/*** runeTable ***/
+/*** ranges ***/
 
-// runeTable has a bit for every Unicode code point
-type runeTable []uint64
+type runeRange struct{ from, to rune }
 
-var runeTables = make(map[string]runeTable)
+// runeRanges are the characters of an event in ascending order
+type runeRanges []runeRange
 
-func getRuneTable(event ast.LexBase) runeTable {
+var rangesOf = make(map[string]runeRanges)
+
+func getRanges(event ast.LexBase) (ranges runeRanges) {
 	id := event.String()
-	if rt, exist := runeTables[id]; exist {
-		return rt
+	if ranges, exist := rangesOf[id]; exist {
+		return ranges
 	}
-	rt := make(runeTable, unicode.MaxRune/64+1)
-	for r := rune(0); r <= unicode.MaxRune; r++ {
-		if Contains(event, r) {
-			rt[r/64] |= 1 << (r % 64)
+	if e, ok := event.(*ast.Intersection); ok {
+		ranges = getRanges(e.A).intersection(getRanges(e.B))
+	} else {
+		for r := rune(0); r <= unicode.MaxRune; r++ {
+			if Contains(event, r) {
+				if n := len(ranges); n > 0 && ranges[n-1].to == r-1 {
+					ranges[n-1].to = r
+				} else {
+					ranges = append(ranges, runeRange{r, r})
+				}
+			}
 		}
 	}
-	runeTables[id] = rt
-	return rt
+	rangesOf[id] = ranges
+	return
 }
 
-func (rt runeTable) intersects(other runeTable) bool {
-	for i, word := range rt {
-		if word&other[i] != 0 {
-			return true
+func (rs runeRanges) intersection(other runeRanges) (common runeRanges) {
+	for i, j := 0, 0; i < len(rs) && j < len(other); {
+		from, to := rs[i].from, rs[i].to
+		if other[j].from > from {
+			from = other[j].from
+		}
+		if other[j].to < to {
+			to = other[j].to
+		}
+		if from <= to {
+			common = append(common, runeRange{from, to})
+		}
+		if rs[i].to < other[j].to {
+			i++
+		} else {
+			j++
 		}
 	}
-	return false
+	return
 }
 
-func (rt runeTable) subset(other runeTable) bool {
-	for i, word := range rt {
-		if word&^other[i] != 0 {
+func (rs runeRanges) subset(other runeRanges) bool {
+	j := 0
+	for _, r := range rs {
+		for j < len(other) && other[j].to < r.from {
+			j++
+		}
+		if j == len(other) || r.from < other[j].from || other[j].to < r.to {
 			return false
 		}
 	}
-- 
2.43.0


From cc51c6ec5d524f6eb1ae0e839eaae86a06faa168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:54 +0000
Subject: [PATCH 17/43] fix: propagate contexts to a fixed point in the closure
 of an LR(1) state

The context added to a configuration group that was already in the state did not
reach the groups derived from it.
---
 lr1/states/state.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lr1/states/state.go b/lr1/states/state.go
index 25d9a13..0b1519c 100644
--- a/lr1/states/state.go
+++ b/lr1/states/state.go
@@ -65,7 +65,8 @@ func (this *State) CanRecover() bool {
 }
 
 func (this *State) Closure() *State {
-	cgList := append(this.Nucleus.List(), this.NonNucleus.List()...)
+	cgList := append([]*ConfigGroup{}, this.Nucleus.List()...)
+	cgList = append(cgList, this.NonNucleus.List()...)
 	for i := 0; i < len(cgList); i++ {
 		cgi := cgList[i]
 		if symbols.IsNonTerminal(cgi.Item.ExpectedSymbol()) {
@@ -76,8 +77,9 @@ func (this *State) Closure() *State {
 				if oldCfgGrp := this.GetGroup(newCfgGrp); oldCfgGrp == nil {
 					this.Add(newCfgGrp)
 					cgList = append(cgList, newCfgGrp)
-				} else {
-					oldCfgGrp.AddContext(newCfgGrp.ContextSet.List...)
+				} else if oldCfgGrp.ContextSet.Add(newCfgGrp.ContextSet.List...) {
+					// the new context must reach the groups derived from oldCfgGrp
+					cgList = append(cgList, oldCfgGrp)
 				}
 			}
 		}
-- 
2.43.0


From 17e3f4bc4c59ff8df5b783398299fee3663074e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:54 +0000
Subject: [PATCH 18/43] fix: print that conflicts were resolved only if they
 were

---
 lr1/gen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lr1/gen.go b/lr1/gen.go
index ac75b73..092cd01 100644
--- a/lr1/gen.go
+++ b/lr1/gen.go
@@ -52,12 +52,12 @@ func Gen(g *ast.GoGLL) ([]*basicprod.Production, *states.States, action.Actions)
 
 func handleConflicts(conflicts [][]*action.Conflict, states *states.States) {
 	if numConflicts(conflicts) > 0 {
-		fmt.Printf("%d LR(1) conflicts. See LR1_conflicts.txt", numConflicts(conflicts))
+		fmt.Printf("%d LR(1) conflicts. See LR1_conflicts.txt\n", numConflicts(conflicts))
 		writeConflicts(conflicts)
 		if !*cfg.AutoResolveLRConf {
-			fmt.Println("LR(1) conflicts were automatically resolved")
 			os.Exit(1)
 		}
+		fmt.Println("LR(1) conflicts were automatically resolved")
 	}
 }
 
-- 
2.43.0


From ce19abd4797b108ed085af2ce3d4e10b16b08dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:54 +0000
Subject: [PATCH 19/43] fix: report conflicts between accept and a reduction

They are possible if the start symbol derives itself, but gogll panicked.
---
 lr1/action/action.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lr1/action/action.go b/lr1/action/action.go
index 3bdc614..a688ebe 100644
--- a/lr1/action/action.go
+++ b/lr1/action/action.go
@@ -111,7 +111,9 @@ func (this Shift) Equal(act Action) bool {
 }
 
 func (this Accept) ResolveConflict(that Action) Action {
-	if _, ok := that.(Error); ok {
+	switch that.(type) {
+	case Error, Reduce:
+		// Accept is the reduction of the first production
 		return this
 	}
 	panic(fmt.Sprintf("Cannot have LR1 conflict with Accept."))
@@ -138,7 +140,7 @@ func (this Shift) ResolveConflict(that Action) Action {
 func (this Reduce) ResolveConflict(that Action) Action {
 	switch that := that.(type) {
 	case Accept:
-		panic(fmt.Sprintf("Impossible conflict: Shift(%d)/Accept", int(this)))
+		return that
 	case Shift:
 		return that
 	case Error:
-- 
2.43.0


From f0cae1df72ebeeda833342d2acb07be55bdd220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 20/43] fix: call the action function of empty LR(1)
 productions

The generated call ast.nil did not compile. gogll generates an action function
for every alternate, including the empty ones.
---
 gen/golang/lr1/parser/productionstable.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/gen/golang/lr1/parser/productionstable.go b/gen/golang/lr1/parser/productionstable.go
index b9a27aa..344b644 100644
--- a/gen/golang/lr1/parser/productionstable.go
+++ b/gen/golang/lr1/parser/productionstable.go
@@ -50,16 +50,11 @@ func getProdsTab(pkg string, prods []*basicprod.Production, states *states.State
 		data.ProdTab[i].String = fmt.Sprintf("`%s`", prod.String())
 		data.ProdTab[i].Id = prod.Head
 		data.ProdTab[i].NTType = int(symbols.GetNTType(prod.Head))
-		if len(prod.Body.Symbols) == 0 {
-			data.ProdTab[i].NumSymbols = 0
-			data.ProdTab[i].ReduceFunc = fmt.Sprintf("nil, nil")
-		} else {
-			data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
-			data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s%d(%s)",
-				prod.Head,
-				prod.Alternate,
-				getParamIDs(len(prod.Body.Symbols)))
-		}
+		data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
+		data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s%d(%s)",
+			prod.Head,
+			prod.Alternate,
+			getParamIDs(len(prod.Body.Symbols)))
 	}
 
 	return data
-- 
2.43.0


From bf3a52e429cb911cfd8976edcd280199d8cc64f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 21/43] fix: quote the productions in the generated LR(1)
 production table

A literal with a backquote ended the Go string.
---
 gen/golang/lr1/parser/productionstable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/golang/lr1/parser/productionstable.go b/gen/golang/lr1/parser/productionstable.go
index 344b644..9db20db 100644
--- a/gen/golang/lr1/parser/productionstable.go
+++ b/gen/golang/lr1/parser/productionstable.go
@@ -47,7 +47,7 @@ func getProdsTab(pkg string, prods []*basicprod.Production, states *states.State
 		ProdTab: make([]prodTabEntry, len(prods)),
 	}
 	for i, prod := range prods {
-		data.ProdTab[i].String = fmt.Sprintf("`%s`", prod.String())
+		data.ProdTab[i].String = fmt.Sprintf("%q", prod.String())
 		data.ProdTab[i].Id = prod.Head
 		data.ProdTab[i].NTType = int(symbols.GetNTType(prod.Head))
 		data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
-- 
2.43.0


From 2aad763ff8416687a4ce7e0a1ab88214ba8a1ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 22/43] fix: call the action function of the LR(1) start
 production

The documentation says that G00 is called when the parser accepts and that the
parser returns its value.
---
 gen/golang/lr1/parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gen/golang/lr1/parser/parser.go b/gen/golang/lr1/parser/parser.go
index dc82045..4fc5e30 100644
--- a/gen/golang/lr1/parser/parser.go
+++ b/gen/golang/lr1/parser/parser.go
@@ -256,7 +256,9 @@ func (p *Parser) Parse() (res interface{}, err error) {
 
 		switch act := action.(type) {
 		case accept:
-			res = p.stack.popN(1)[0]
+			if res, err = productionsTable[0].ReduceFunc(p.stack.popN(1)); err != nil {
+				return nil, p.newError(err)
+			}
 			acc = true
 		case shift:
 			p.stack.push(int(act), p.nextToken)
-- 
2.43.0


From b6d6d1f8d646f2cf19cfe034e1a0faf577fdb460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 23/43] fix: print the type and the literal of the token of an
 LR(1) error

---
 gen/golang/lr1/parser/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/golang/lr1/parser/errors.go b/gen/golang/lr1/parser/errors.go
index 2d42c6d..9ccbf3b 100644
--- a/gen/golang/lr1/parser/errors.go
+++ b/gen/golang/lr1/parser/errors.go
@@ -62,7 +62,7 @@ func (E *Error) String() string {
 	} else {
 		fmt.Fprintf(w, "\n")
 	}
-	fmt.Fprintf(w, "Token: type=%d, lit=%s\n", E.ErrorToken.Type, E.ErrorToken.Literal())
+	fmt.Fprintf(w, "Token: type=%d, lit=%s\n", E.ErrorToken.Type(), E.ErrorToken.LiteralString())
 	ln, col := E.ErrorToken.GetLineColumn()
 	fmt.Fprintf(w, "Pos: offset=%d, line=%d, column=%d\n", E.ErrorToken.Lext(), ln, col)
 	fmt.Fprintf(w, "Expected one of: ")
-- 
2.43.0


From 5390ac1cd9876a13bc8150e53f32b77763a8b5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:37 +0000
Subject: [PATCH 24/43] fix: propagate contexts through the merged states of
 the PGM parser

Context that was merged into a state reached only its direct successors, so that
the generated parser rejected sentences and conflicts were missed. The successors
of a state are computed again when its context grows. States were also merged
when a single pair of configuration groups allowed it.
---
 lr1/pgm/states.go | 151 +++++++++++++++++++---------------------------
 1 file changed, 61 insertions(+), 90 deletions(-)

diff --git a/lr1/pgm/states.go b/lr1/pgm/states.go
index 8856541..0301f43 100644
--- a/lr1/pgm/states.go
+++ b/lr1/pgm/states.go
@@ -13,31 +13,32 @@ func States(symbols []string, lr0items *items.Items, first *first.First) *states
 	}
 	s.NewState0(symbols, lr0items, first, states.NewConfigGroup(lr0items.List[0], "$"))
 	symSuccessors := symbolsuccessors.NewSymbolSuccessors()
-	for si := 0; si < len(s.List); si++ {
+
+	// States of which the successors have to be computed, again if their
+	// context has grown.
+	todo, queued := []int{0}, map[int]bool{0: true}
+	enqueue := func(snum int) {
+		if !queued[snum] {
+			todo, queued[snum] = append(todo, snum), true
+		}
+	}
+	for len(todo) > 0 {
+		si := todo[0]
+		todo = todo[1:]
+		queued[si] = false
 		st_trans := make([]states.Transition, 0, 4)
 		for _, trans := range s.List[si].Next().List() {
-			merged := false
-			for _, snum := range symSuccessors[trans.Sym] {
-				if weaklyCompatibleStates(s.List[snum], trans.State) {
-					merged = true
-					newStates := mergeStates(s.List[snum], trans.State)
-					for sym, states := range newStates {
-						for _, state := range states {
-							s.List = append(s.List, state)
-							state.Number = len(s.List) - 1
-							symSuccessors[sym] = append(symSuccessors[sym], state.Number)
-						}
-					}
-
-					st_trans = append(st_trans, states.Transition{Sym: trans.Sym, State: s.List[snum]})
-				}
-			}
-			if !merged {
-				st_trans = append(st_trans, trans)
-				s.List = append(s.List, trans.State)
-				trans.State.Number = len(s.List) - 1
-				symSuccessors[trans.Sym] = append(symSuccessors[trans.Sym], trans.State.Number)
+			next := getCompatibleState(s, si, trans, symSuccessors[trans.Sym])
+			if next == nil {
+				next = trans.State
+				next.Number = len(s.List)
+				s.List = append(s.List, next)
+				symSuccessors[trans.Sym] = append(symSuccessors[trans.Sym], next.Number)
+				enqueue(next.Number)
+			} else if mergeStates(next, trans.State) {
+				enqueue(next.Number)
 			}
+			st_trans = append(st_trans, states.Transition{Sym: trans.Sym, State: next})
 		}
 		s.List[si].Transitions = states.NewTransitionsList(st_trans, symbols)
 	}
@@ -45,89 +46,66 @@ func States(symbols []string, lr0items *items.Items, first *first.First) *states
 	return s
 }
 
-func makeContext(from *states.ConfigGroupSet, to *states.ConfigGroupSet) *states.ConfigGroupSet {
-	newNucleus := to.CloneFromCore()
-	for _, cfg := range from.List() {
-		if toCfg := newNucleus.GetGroupByCore(cfg.Item.NextItem); toCfg != nil {
-			toCfg.AddContext(cfg.ContextSet.List...)
+/*
+Return a state with which trans.State can be merged, or nil if there is none.
+The existing successor of state si is preferred.
+*/
+func getCompatibleState(s *states.States, si int, trans states.Transition, candidates []int) *states.State {
+	if s.List[si].Transitions != nil {
+		old := s.List[si].Transitions.Transition(trans.Sym)
+		if old != nil && weaklyCompatibleStates(old, trans.State) {
+			return old
 		}
 	}
-	return newNucleus
-}
-
-func mergeStates(this *states.State, that *states.State) (newStates map[string][]*states.State) {
-	oldNucleus := this.Nucleus.Clone()
-	mergeCfgGrpSet(this.Nucleus, that.Nucleus)
-	this.NonNucleus = states.NewConfigGroupSet()
-	this.Closure()
-	cfgDiff := this.Nucleus.ContextDiff(oldNucleus)
-	cfgDiff.Add(this.NonNucleus.List()...)
-	return propagateContext(this, cfgDiff)
+	for _, snum := range candidates {
+		if weaklyCompatibleStates(s.List[snum], trans.State) {
+			return s.List[snum]
+		}
+	}
+	return nil
 }
 
 /*
-The context of all config groups in that, which give context to the nucleus group of this,
-is merged into the nucleus of this.
+Merge the context of that into this. Return true iff the context of this has grown.
 */
-func mergeContext(this *states.State, thatNucleus *states.ConfigGroupSet) {
-	for _, grp := range thatNucleus.List() {
-		this.Nucleus.GetGroup(grp).AddContext(grp.ContextSet.List...)
+func mergeStates(this *states.State, that *states.State) bool {
+	if !mergeCfgGrpSet(this.Nucleus, that.Nucleus) {
+		return false
 	}
 	this.NonNucleus = states.NewConfigGroupSet()
 	this.Closure()
-}
-
-/*
-Return a map of (symbol:*states.State) of newly generated states. Each new state has minus the same number as the one it replaces.
-For example: The existing set has number 10 and the new state -10. The caller of this function must resolve
-the state numbers as other sets may still have valid transitions to the original.
-*/
-func propagateContext(this *states.State, expandedNucleusCfGrps *states.ConfigGroupSet) (newStates map[string][]*states.State) {
-	newStates = make(map[string][]*states.State)
-	if this.Transitions == nil {
-		return
-	}
-	for _, t := range this.Transitions.List() {
-		sym, nextState := t.Sym, t.State
-		newNucleus := makeContext(expandedNucleusCfGrps, nextState.Nucleus)
-		if weaklyCompatibleCfgGrpSet(nextState.Nucleus, newNucleus) {
-			mergeContext(nextState, newNucleus)
-		} else {
-			newState := this.NextSymbol(sym)
-			newState.Number = -nextState.Number
-			this.Transitions.Replace(sym, newState)
-			newStates[sym] = append(newStates[sym], newState)
-		}
-	}
-	return
+	return true
 }
 
 func weaklyCompatibleStates(this *states.State, that *states.State) bool {
 	return weaklyCompatibleCfgGrpSet(this.Nucleus, that.Nucleus)
 }
 
-func mergeCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) {
+func mergeCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) (changed bool) {
 	for _, cfGrp := range this.List() {
-		if diffContext := that.GetGroup(cfGrp).ContextSet.Diff(cfGrp.ContextSet); diffContext.Size() > 0 {
-			cfGrp.ContextSet.Add(diffContext.List...)
+		if cfGrp.ContextSet.Add(that.GetGroup(cfGrp).ContextSet.List...) {
+			changed = true
 		}
 	}
+	return
 }
 
+/*
+The sets are weakly compatible iff they have the same core and for every pair of
+config groups (i, j): the contexts of this[i] and that[j] as well as this[j] and
+that[i] are disjunct; or the contexts of this[i] and this[j] are not; or the
+contexts of that[i] and that[j] are not.
+*/
 func weaklyCompatibleCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) bool {
 	if !this.CoreEqual(that) {
 		return false
 	}
-	if contextMutuallyDisjunct(this, that) {
-		return true
-	}
-	return !contextInternallyDisjunct(this) || !contextInternallyDisjunct(that)
-}
-
-func contextMutuallyDisjunct(this *states.ConfigGroupSet, that *states.ConfigGroupSet) bool {
-	for _, thisCfgGrp := range this.List() {
-		for _, thatCfgGrp := range that.List() {
-			if thisCfgGrp.HashKey() != thatCfgGrp.HashKey() && len(thisCfgGrp.ContextSet.Intersection(thatCfgGrp.ContextSet)) > 0 {
+	for i, this_i := range this.List() {
+		that_i := that.GetGroup(this_i)
+		for _, this_j := range this.List()[i+1:] {
+			that_j := that.GetGroup(this_j)
+			if (intersect(this_i, that_j) || intersect(this_j, that_i)) &&
+				!intersect(this_i, this_j) && !intersect(that_i, that_j) {
 				return false
 			}
 		}
@@ -135,13 +113,6 @@ func contextMutuallyDisjunct(this *states.ConfigGroupSet, that *states.ConfigGro
 	return true
 }
 
-func contextInternallyDisjunct(this *states.ConfigGroupSet) bool {
-	for i := 0; i < len(this.List())-1; i++ {
-		for j := i + 1; j < len(this.List()); j++ {
-			if len(this.List()[i].ContextSet.Intersection(this.List()[j].ContextSet)) > 0 {
-				return false
-			}
-		}
-	}
-	return true
+func intersect(a, b *states.ConfigGroup) bool {
+	return len(a.ContextSet.Intersection(b.ContextSet)) > 0
 }
-- 
2.43.0


From 2bbd2149cb48b8687044e63b2350d835097f8926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:08 +0000
Subject: [PATCH 25/43] fix: reject string literals with any Unicode white
 space in syntax rules

---
 ast/lex.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ast/lex.go b/ast/lex.go
index cfeb7dc..a866a1c 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -382,8 +382,7 @@ func (n *Not) String() string {
 
 func (sl *StringLit) ContainsWhiteSpace() bool {
 	for _, r := range sl.tok.LiteralStripEscape() {
-		switch r {
-		case ' ', '\t', '\n', '\r':
+		if unicode.IsSpace(r) {
 			return true
 		}
 	}
-- 
2.43.0


From 6cccaf7599c2d08fa50394c921eb4409a103ed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:52 +0000
Subject: [PATCH 26/43] fix: regenerate the front end with the corrected
 generator

The committed lexer took '\\ (a character literal that is not closed) for a
char_lit.
---
 lexer/lexer.go    | 1530 ++++++++++++++++++++++-----------------------
 parser/bsr/bsr.go |   95 ++-
 parser/parser.go  |  283 +++++----
 sppf/sppf.go      |  105 +++-
 token/token.go    |    4 +-
 5 files changed, 1052 insertions(+), 965 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 1618afe..5ec8009 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -284,9 +284,17 @@ func not(r rune, set []rune) bool {
 
 var accept = []token.Type{ 
 	token.Error, 
-	token.T_0, 
 	token.Error, 
 	token.Error, 
+	token.Error, 
+	token.Error, 
+	token.Error, 
+	token.Error, 
+	token.Error, 
+	token.Error, 
+	token.Error, 
+	token.T_101, 
+	token.T_0, 
 	token.T_2, 
 	token.T_3, 
 	token.T_4, 
@@ -298,42 +306,40 @@ var accept = []token.Type{
 	token.T_10, 
 	token.Error, 
 	token.T_93, 
-	token.Error, 
-	token.Error, 
-	token.Error, 
-	token.Error, 
-	token.Error, 
-	token.Error, 
 	token.T_107, 
 	token.T_108, 
 	token.T_109, 
-	token.T_101, 
-	token.Error, 
-	token.Error, 
+	token.T_105, 
+	token.T_105, 
+	token.T_105, 
+	token.T_105, 
+	token.T_105, 
+	token.T_105, 
+	token.T_105, 
+	token.T_105, 
+	token.T_105, 
 	token.Error, 
 	token.T_1, 
 	token.Error, 
 	token.Error, 
 	token.Error, 
+	token.Error, 
 	token.T_94, 
+	token.T_95, 
 	token.T_105, 
 	token.T_105, 
 	token.T_105, 
+	token.T_100, 
 	token.T_105, 
 	token.T_105, 
 	token.T_105, 
-	token.T_105, 
-	token.T_105, 
-	token.T_105, 
-	token.T_104, 
 	token.T_96, 
 	token.T_96, 
+	token.T_104, 
 	token.Error, 
-	token.T_95, 
 	token.T_105, 
 	token.T_105, 
 	token.T_105, 
-	token.T_100, 
 	token.T_105, 
 	token.T_105, 
 	token.T_105, 
@@ -358,7 +364,7 @@ var accept = []token.Type{
 	token.Error, 
 	token.Error, 
 	token.Error, 
-	token.T_105, 
+	token.T_97, 
 	token.T_105, 
 	token.T_105, 
 	token.T_105, 
@@ -431,12 +437,11 @@ var accept = []token.Type{
 	token.Error, 
 	token.Error, 
 	token.T_92, 
-	token.T_97, 
-	token.T_105, 
-	token.T_105, 
-	token.T_105, 
+	token.T_98, 
 	token.T_105, 
+	token.T_102, 
 	token.T_105, 
+	token.T_106, 
 	token.Error, 
 	token.Error, 
 	token.T_13, 
@@ -502,11 +507,8 @@ var accept = []token.Type{
 	token.T_89, 
 	token.T_90, 
 	token.T_91, 
-	token.T_98, 
-	token.T_105, 
-	token.T_102, 
-	token.T_105, 
-	token.T_106, 
+	token.T_99, 
+	token.T_103, 
 	token.Error, 
 	token.Error, 
 	token.Error, 
@@ -543,8 +545,6 @@ var accept = []token.Type{
 	token.Error, 
 	token.Error, 
 	token.Error, 
-	token.T_99, 
-	token.T_103, 
 	token.Error, 
 	token.Error, 
 	token.T_18, 
@@ -970,55 +970,55 @@ var nextState = []func(r rune) state{
 	// Set0
 	func(r rune) state {
 		switch { 
-		case r == '!':
+		case r == 'a':
 			return 1 
-		case r == '"':
+		case r == 'e':
 			return 2 
-		case r == '\'':
+		case r == 'l':
 			return 3 
-		case r == '(':
+		case r == 'n':
 			return 4 
-		case r == ')':
+		case r == 'p':
 			return 5 
-		case r == '-':
+		case r == 'u':
 			return 6 
-		case r == '.':
+		case r == '\'':
 			return 7 
-		case r == ':':
+		case unicode.IsLower(r):
 			return 8 
-		case r == ';':
+		case r == '"':
 			return 9 
-		case r == '<':
+		case unicode.IsUpper(r):
 			return 10 
-		case r == '>':
+		case r == '!':
 			return 11 
-		case r == '[':
+		case r == '(':
 			return 12 
-		case r == '\\':
+		case r == ')':
 			return 13 
-		case r == ']':
+		case r == '-':
 			return 14 
-		case r == 'a':
+		case r == '.':
 			return 15 
-		case r == 'e':
+		case r == ':':
 			return 16 
-		case r == 'l':
+		case r == ';':
 			return 17 
-		case r == 'n':
+		case r == '<':
 			return 18 
-		case r == 'p':
+		case r == '>':
 			return 19 
-		case r == 'u':
+		case r == '[':
 			return 20 
-		case r == '{':
+		case r == '\\':
 			return 21 
-		case r == '|':
+		case r == ']':
 			return 22 
-		case r == '}':
+		case r == '{':
 			return 23 
-		case unicode.IsUpper(r):
+		case r == '|':
 			return 24 
-		case unicode.IsLower(r):
+		case r == '}':
 			return 25 
 		}
 		return nullState
@@ -1026,15 +1026,27 @@ var nextState = []func(r rune) state{
 	// Set1
 	func(r rune) state {
 		switch { 
+		case r == 'n':
+			return 26 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
 	// Set2
 	func(r rune) state {
 		switch { 
-		case r == '\\':
-			return 26 
-		case not(r, []rune{'"','\\'}):
+		case r == 'm':
+			return 28 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
+		case r == '_':
 			return 27 
 		}
 		return nullState
@@ -1042,54 +1054,106 @@ var nextState = []func(r rune) state{
 	// Set3
 	func(r rune) state {
 		switch { 
-		case r == '[':
-			return 28 
-		case r == '\\':
+		case r == 'e':
 			return 29 
-		case not(r, []rune{'\''}):
+		case r == 'o':
 			return 30 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
 	// Set4
 	func(r rune) state {
 		switch { 
+		case r == 'o':
+			return 31 
+		case r == 'u':
+			return 32 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
 	// Set5
 	func(r rune) state {
 		switch { 
+		case r == 'a':
+			return 33 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
 	// Set6
 	func(r rune) state {
 		switch { 
+		case r == 'p':
+			return 34 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
 	// Set7
 	func(r rune) state {
 		switch { 
+		case r == '\\':
+			return 35 
+		case r == '[':
+			return 36 
+		case not(r, []rune{'\''}):
+			return 37 
 		}
 		return nullState
 	}, 
 	// Set8
 	func(r rune) state {
 		switch { 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
 	// Set9
 	func(r rune) state {
 		switch { 
+		case not(r, []rune{'"','\\'}):
+			return 38 
+		case r == '\\':
+			return 39 
 		}
 		return nullState
 	}, 
 	// Set10
 	func(r rune) state {
 		switch { 
+		case unicode.IsLetter(r):
+			return 10 
+		case unicode.IsNumber(r):
+			return 10 
+		case r == '_':
+			return 10 
 		}
 		return nullState
 	}, 
@@ -1108,116 +1172,64 @@ var nextState = []func(r rune) state{
 	// Set13
 	func(r rune) state {
 		switch { 
-		case r == 'p':
-			return 31 
 		}
 		return nullState
 	}, 
 	// Set14
 	func(r rune) state {
 		switch { 
-		case r == '\'':
-			return 32 
 		}
 		return nullState
 	}, 
 	// Set15
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'n':
-			return 34 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
 		}
 		return nullState
 	}, 
 	// Set16
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'm':
-			return 35 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
 		}
 		return nullState
 	}, 
 	// Set17
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'e':
-			return 36 
-		case r == 'o':
-			return 37 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
 		}
 		return nullState
 	}, 
 	// Set18
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'o':
-			return 38 
-		case r == 'u':
-			return 39 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
 		}
 		return nullState
 	}, 
 	// Set19
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'a':
-			return 40 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
 		}
 		return nullState
 	}, 
 	// Set20
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'p':
-			return 41 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
 		}
 		return nullState
 	}, 
 	// Set21
 	func(r rune) state {
 		switch { 
+		case r == 'p':
+			return 40 
 		}
 		return nullState
 	}, 
 	// Set22
 	func(r rune) state {
 		switch { 
+		case r == '\'':
+			return 41 
 		}
 		return nullState
 	}, 
@@ -1230,31 +1242,25 @@ var nextState = []func(r rune) state{
 	// Set24
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 24 
-		case unicode.IsLetter(r):
-			return 24 
-		case unicode.IsNumber(r):
-			return 24 
 		}
 		return nullState
 	}, 
 	// Set25
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
 		}
 		return nullState
 	}, 
 	// Set26
 	func(r rune) state {
 		switch { 
-		case any(r, []rune{'"','\\','n','r','t'}):
+		case r == 'y':
+			return 42 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
+		case r == '_':
 			return 27 
 		}
 		return nullState
@@ -1262,11 +1268,11 @@ var nextState = []func(r rune) state{
 	// Set27
 	func(r rune) state {
 		switch { 
-		case r == '"':
-			return 42 
-		case r == '\\':
-			return 26 
-		case not(r, []rune{'"','\\'}):
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
+		case r == '_':
 			return 27 
 		}
 		return nullState
@@ -1274,745 +1280,775 @@ var nextState = []func(r rune) state{
 	// Set28
 	func(r rune) state {
 		switch { 
-		case r == '\'':
+		case r == 'p':
 			return 43 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
 	// Set29
 	func(r rune) state {
 		switch { 
-		case any(r, []rune{'\'','\\','n','r','t'}):
-			return 44 
-		case r == '\'':
+		case r == 't':
 			return 44 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
 	// Set30
 	func(r rune) state {
 		switch { 
-		case r == '\'':
-			return 43 
+		case r == 'w':
+			return 45 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
 	// Set31
 	func(r rune) state {
 		switch { 
-		case r == '{':
-			return 45 
+		case r == 't':
+			return 46 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
 	// Set32
 	func(r rune) state {
 		switch { 
+		case r == 'm':
+			return 47 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
 	// Set33
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
+		case r == 'c':
+			return 48 
 		case unicode.IsLetter(r):
-			return 33 
+			return 27 
 		case unicode.IsNumber(r):
-			return 33 
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
 	// Set34
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'y':
-			return 46 
+		case r == 'c':
+			return 49 
 		case unicode.IsLetter(r):
-			return 33 
+			return 27 
 		case unicode.IsNumber(r):
-			return 33 
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
 	// Set35
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'p':
-			return 47 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
+		case r == '\'':
+			return 50 
+		case any(r, []rune{'\'','\\','n','r','t'}):
+			return 37 
 		}
 		return nullState
 	}, 
 	// Set36
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 't':
-			return 48 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
+		case r == '\'':
+			return 51 
 		}
 		return nullState
 	}, 
 	// Set37
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'w':
-			return 49 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
+		case r == '\'':
+			return 51 
 		}
 		return nullState
 	}, 
 	// Set38
 	func(r rune) state {
 		switch { 
+		case not(r, []rune{'"','\\'}):
+			return 38 
+		case r == '\\':
+			return 39 
+		case r == '"':
+			return 52 
+		}
+		return nullState
+	}, 
+	// Set39
+	func(r rune) state {
+		switch { 
+		case any(r, []rune{'"','\\','n','r','t'}):
+			return 38 
+		}
+		return nullState
+	}, 
+	// Set40
+	func(r rune) state {
+		switch { 
+		case r == '{':
+			return 53 
+		}
+		return nullState
+	}, 
+	// Set41
+	func(r rune) state {
+		switch { 
+		}
+		return nullState
+	}, 
+	// Set42
+	func(r rune) state {
+		switch { 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
 		case r == '_':
-			return 33 
+			return 27 
+		}
+		return nullState
+	}, 
+	// Set43
+	func(r rune) state {
+		switch { 
 		case r == 't':
-			return 50 
+			return 54 
 		case unicode.IsLetter(r):
-			return 33 
+			return 27 
 		case unicode.IsNumber(r):
-			return 33 
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
-	// Set39
+	// Set44
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'm':
-			return 51 
+		case r == 't':
+			return 55 
 		case unicode.IsLetter(r):
-			return 33 
+			return 27 
 		case unicode.IsNumber(r):
-			return 33 
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
-	// Set40
+	// Set45
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
 		case r == 'c':
-			return 52 
+			return 56 
 		case unicode.IsLetter(r):
-			return 33 
+			return 27 
 		case unicode.IsNumber(r):
-			return 33 
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
-	// Set41
+	// Set46
 	func(r rune) state {
 		switch { 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
 		case r == '_':
-			return 33 
-		case r == 'c':
-			return 53 
+			return 27 
+		}
+		return nullState
+	}, 
+	// Set47
+	func(r rune) state {
+		switch { 
+		case r == 'b':
+			return 57 
 		case unicode.IsLetter(r):
-			return 33 
+			return 27 
 		case unicode.IsNumber(r):
-			return 33 
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
-	// Set42
+	// Set48
 	func(r rune) state {
 		switch { 
+		case r == 'k':
+			return 58 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
-	// Set43
+	// Set49
 	func(r rune) state {
 		switch { 
+		case r == 'a':
+			return 59 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
-	// Set44
+	// Set50
 	func(r rune) state {
 		switch { 
 		case r == '\'':
-			return 43 
+			return 51 
 		}
 		return nullState
 	}, 
-	// Set45
+	// Set51
+	func(r rune) state {
+		switch { 
+		}
+		return nullState
+	}, 
+	// Set52
+	func(r rune) state {
+		switch { 
+		}
+		return nullState
+	}, 
+	// Set53
 	func(r rune) state {
 		switch { 
 		case r == 'A':
-			return 54 
+			return 60 
 		case r == 'B':
-			return 55 
+			return 61 
 		case r == 'C':
-			return 56 
+			return 62 
 		case r == 'D':
-			return 57 
+			return 63 
 		case r == 'E':
-			return 58 
+			return 64 
 		case r == 'H':
-			return 59 
+			return 65 
 		case r == 'I':
-			return 60 
+			return 66 
 		case r == 'J':
-			return 61 
+			return 67 
 		case r == 'L':
-			return 62 
+			return 68 
 		case r == 'M':
-			return 63 
+			return 69 
 		case r == 'N':
-			return 64 
+			return 70 
 		case r == 'O':
-			return 65 
+			return 71 
 		case r == 'P':
-			return 66 
+			return 72 
 		case r == 'Q':
-			return 67 
+			return 73 
 		case r == 'R':
-			return 68 
+			return 74 
 		case r == 'S':
-			return 69 
+			return 75 
 		case r == 'T':
-			return 70 
+			return 76 
 		case r == 'U':
-			return 71 
+			return 77 
 		case r == 'V':
-			return 72 
+			return 78 
 		case r == 'W':
-			return 73 
+			return 79 
 		case r == 'Z':
-			return 74 
+			return 80 
 		}
 		return nullState
 	}, 
-	// Set46
+	// Set54
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
+		case r == 'y':
+			return 81 
 		case unicode.IsLetter(r):
-			return 33 
+			return 27 
 		case unicode.IsNumber(r):
-			return 33 
-		}
-		return nullState
-	}, 
-	// Set47
-	func(r rune) state {
-		switch { 
+			return 27 
 		case r == '_':
-			return 33 
-		case r == 't':
-			return 75 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
+			return 27 
 		}
 		return nullState
 	}, 
-	// Set48
+	// Set55
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 't':
-			return 76 
+		case r == 'e':
+			return 82 
 		case unicode.IsLetter(r):
-			return 33 
+			return 27 
 		case unicode.IsNumber(r):
-			return 33 
-		}
-		return nullState
-	}, 
-	// Set49
-	func(r rune) state {
-		switch { 
+			return 27 
 		case r == '_':
-			return 33 
-		case r == 'c':
-			return 77 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
+			return 27 
 		}
 		return nullState
 	}, 
-	// Set50
+	// Set56
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
+		case r == 'a':
+			return 83 
 		case unicode.IsLetter(r):
-			return 33 
+			return 27 
 		case unicode.IsNumber(r):
-			return 33 
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
-	// Set51
+	// Set57
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'b':
-			return 78 
+		case r == 'e':
+			return 84 
 		case unicode.IsLetter(r):
-			return 33 
+			return 27 
 		case unicode.IsNumber(r):
-			return 33 
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
-	// Set52
+	// Set58
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'k':
-			return 79 
+		case r == 'a':
+			return 85 
 		case unicode.IsLetter(r):
-			return 33 
+			return 27 
 		case unicode.IsNumber(r):
-			return 33 
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
-	// Set53
+	// Set59
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'a':
-			return 80 
+		case r == 's':
+			return 86 
 		case unicode.IsLetter(r):
-			return 33 
+			return 27 
 		case unicode.IsNumber(r):
-			return 33 
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
-	// Set54
+	// Set60
 	func(r rune) state {
 		switch { 
 		case r == 'S':
-			return 81 
+			return 87 
 		}
 		return nullState
 	}, 
-	// Set55
+	// Set61
 	func(r rune) state {
 		switch { 
 		case r == 'i':
-			return 82 
+			return 88 
 		}
 		return nullState
 	}, 
-	// Set56
+	// Set62
 	func(r rune) state {
 		switch { 
 		case r == 'c':
-			return 83 
+			return 89 
 		case r == 'f':
-			return 84 
+			return 90 
 		case r == 'o':
-			return 85 
+			return 91 
 		case r == 's':
-			return 86 
+			return 92 
 		case r == '}':
-			return 87 
+			return 93 
 		}
 		return nullState
 	}, 
-	// Set57
+	// Set63
 	func(r rune) state {
 		switch { 
 		case r == 'a':
-			return 88 
+			return 94 
 		case r == 'e':
-			return 89 
+			return 95 
 		case r == 'i':
-			return 90 
+			return 96 
 		}
 		return nullState
 	}, 
-	// Set58
+	// Set64
 	func(r rune) state {
 		switch { 
 		case r == 'x':
-			return 91 
+			return 97 
 		}
 		return nullState
 	}, 
-	// Set59
+	// Set65
 	func(r rune) state {
 		switch { 
 		case r == 'e':
-			return 92 
+			return 98 
 		case r == 'y':
-			return 93 
+			return 99 
 		}
 		return nullState
 	}, 
-	// Set60
+	// Set66
 	func(r rune) state {
 		switch { 
 		case r == 'D':
-			return 94 
+			return 100 
 		case r == 'd':
-			return 95 
+			return 101 
 		}
 		return nullState
 	}, 
-	// Set61
+	// Set67
 	func(r rune) state {
 		switch { 
 		case r == 'o':
-			return 96 
+			return 102 
 		}
 		return nullState
 	}, 
-	// Set62
+	// Set68
 	func(r rune) state {
 		switch { 
 		case r == 'e':
-			return 97 
+			return 103 
 		case r == 'l':
-			return 98 
+			return 104 
 		case r == 'm':
-			return 99 
+			return 105 
 		case r == 'o':
-			return 100 
+			return 106 
 		case r == 't':
-			return 101 
+			return 107 
 		case r == 'u':
-			return 102 
+			return 108 
 		case r == '}':
-			return 103 
+			return 109 
 		}
 		return nullState
 	}, 
-	// Set63
+	// Set69
 	func(r rune) state {
 		switch { 
 		case r == 'a':
-			return 104 
+			return 110 
 		case r == 'c':
-			return 105 
+			return 111 
 		case r == 'e':
-			return 106 
+			return 112 
 		case r == 'n':
-			return 107 
+			return 113 
 		case r == '}':
-			return 108 
+			return 114 
 		}
 		return nullState
 	}, 
-	// Set64
+	// Set70
 	func(r rune) state {
 		switch { 
 		case r == 'd':
-			return 109 
+			return 115 
 		case r == 'l':
-			return 110 
+			return 116 
 		case r == 'o':
-			return 111 
+			return 117 
 		case r == 'u':
-			return 112 
+			return 118 
 		case r == '}':
-			return 113 
+			return 119 
 		}
 		return nullState
 	}, 
-	// Set65
+	// Set71
 	func(r rune) state {
 		switch { 
 		case r == 't':
-			return 114 
+			return 120 
 		}
 		return nullState
 	}, 
-	// Set66
+	// Set72
 	func(r rune) state {
 		switch { 
 		case r == 'a':
-			return 115 
+			return 121 
 		case r == 'c':
-			return 116 
+			return 122 
 		case r == 'd':
-			return 117 
+			return 123 
 		case r == 'e':
-			return 118 
+			return 124 
 		case r == 'f':
-			return 119 
+			return 125 
 		case r == 'i':
-			return 120 
+			return 126 
 		case r == 'o':
-			return 121 
+			return 127 
 		case r == 'r':
-			return 122 
+			return 128 
 		case r == 's':
-			return 123 
+			return 129 
 		case r == 'u':
-			return 124 
+			return 130 
 		case r == '}':
-			return 125 
+			return 131 
 		}
 		return nullState
 	}, 
-	// Set67
+	// Set73
 	func(r rune) state {
 		switch { 
 		case r == 'u':
-			return 126 
+			return 132 
 		}
 		return nullState
 	}, 
-	// Set68
+	// Set74
 	func(r rune) state {
 		switch { 
 		case r == 'a':
-			return 127 
+			return 133 
 		case r == 'e':
-			return 128 
+			return 134 
 		}
 		return nullState
 	}, 
-	// Set69
+	// Set75
 	func(r rune) state {
 		switch { 
 		case r == 'T':
-			return 129 
+			return 135 
 		case r == 'c':
-			return 130 
+			return 136 
 		case r == 'e':
-			return 131 
+			return 137 
 		case r == 'k':
-			return 132 
+			return 138 
 		case r == 'm':
-			return 133 
+			return 139 
 		case r == 'o':
-			return 134 
+			return 140 
 		case r == 'p':
-			return 135 
+			return 141 
 		case r == 'y':
-			return 136 
+			return 142 
 		case r == '}':
-			return 137 
+			return 143 
 		}
 		return nullState
 	}, 
-	// Set70
+	// Set76
 	func(r rune) state {
 		switch { 
 		case r == 'e':
-			return 138 
+			return 144 
 		case r == 'i':
-			return 139 
+			return 145 
 		}
 		return nullState
 	}, 
-	// Set71
+	// Set77
 	func(r rune) state {
 		switch { 
 		case r == 'n':
-			return 140 
+			return 146 
 		case r == 'p':
-			return 141 
+			return 147 
 		}
 		return nullState
 	}, 
-	// Set72
+	// Set78
 	func(r rune) state {
 		switch { 
 		case r == 'a':
-			return 142 
+			return 148 
 		}
 		return nullState
 	}, 
-	// Set73
+	// Set79
 	func(r rune) state {
 		switch { 
 		case r == 'h':
-			return 143 
+			return 149 
 		}
 		return nullState
 	}, 
-	// Set74
+	// Set80
 	func(r rune) state {
 		switch { 
 		case r == 'l':
-			return 144 
+			return 150 
 		case r == 'p':
-			return 145 
+			return 151 
 		case r == 's':
-			return 146 
+			return 152 
 		case r == '}':
-			return 147 
+			return 153 
 		}
 		return nullState
 	}, 
-	// Set75
+	// Set81
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'y':
-			return 148 
 		case unicode.IsLetter(r):
-			return 33 
+			return 27 
 		case unicode.IsNumber(r):
-			return 33 
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
-	// Set76
+	// Set82
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'e':
-			return 149 
+		case r == 'r':
+			return 154 
 		case unicode.IsLetter(r):
-			return 33 
+			return 27 
 		case unicode.IsNumber(r):
-			return 33 
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
-	// Set77
+	// Set83
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'a':
-			return 150 
+		case r == 's':
+			return 155 
 		case unicode.IsLetter(r):
-			return 33 
+			return 27 
 		case unicode.IsNumber(r):
-			return 33 
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
-	// Set78
+	// Set84
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'e':
-			return 151 
+		case r == 'r':
+			return 156 
 		case unicode.IsLetter(r):
-			return 33 
+			return 27 
 		case unicode.IsNumber(r):
-			return 33 
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
-	// Set79
+	// Set85
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'a':
-			return 152 
+		case r == 'g':
+			return 157 
 		case unicode.IsLetter(r):
-			return 33 
+			return 27 
 		case unicode.IsNumber(r):
-			return 33 
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
-	// Set80
+	// Set86
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 's':
-			return 153 
+		case r == 'e':
+			return 158 
 		case unicode.IsLetter(r):
-			return 33 
+			return 27 
 		case unicode.IsNumber(r):
-			return 33 
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
-	// Set81
+	// Set87
 	func(r rune) state {
 		switch { 
 		case r == 'C':
-			return 154 
-		}
-		return nullState
-	}, 
-	// Set82
-	func(r rune) state {
-		switch { 
-		case r == 'd':
-			return 155 
-		}
-		return nullState
-	}, 
-	// Set83
-	func(r rune) state {
-		switch { 
-		case r == '}':
-			return 156 
-		}
-		return nullState
-	}, 
-	// Set84
-	func(r rune) state {
-		switch { 
-		case r == '}':
-			return 157 
-		}
-		return nullState
-	}, 
-	// Set85
-	func(r rune) state {
-		switch { 
-		case r == '}':
-			return 158 
-		}
-		return nullState
-	}, 
-	// Set86
-	func(r rune) state {
-		switch { 
-		case r == '}':
 			return 159 
 		}
 		return nullState
 	}, 
-	// Set87
-	func(r rune) state {
-		switch { 
-		}
-		return nullState
-	}, 
 	// Set88
 	func(r rune) state {
 		switch { 
-		case r == 's':
+		case r == 'd':
 			return 160 
 		}
 		return nullState
@@ -2020,7 +2056,7 @@ var nextState = []func(r rune) state{
 	// Set89
 	func(r rune) state {
 		switch { 
-		case r == 'p':
+		case r == '}':
 			return 161 
 		}
 		return nullState
@@ -2028,58 +2064,56 @@ var nextState = []func(r rune) state{
 	// Set90
 	func(r rune) state {
 		switch { 
-		case r == 'a':
+		case r == '}':
 			return 162 
-		case r == 'g':
-			return 163 
 		}
 		return nullState
 	}, 
 	// Set91
 	func(r rune) state {
 		switch { 
-		case r == 't':
-			return 164 
+		case r == '}':
+			return 163 
 		}
 		return nullState
 	}, 
 	// Set92
 	func(r rune) state {
 		switch { 
-		case r == 'x':
-			return 165 
+		case r == '}':
+			return 164 
 		}
 		return nullState
 	}, 
 	// Set93
 	func(r rune) state {
 		switch { 
-		case r == 'p':
-			return 166 
 		}
 		return nullState
 	}, 
 	// Set94
 	func(r rune) state {
 		switch { 
-		case r == 'S':
-			return 167 
+		case r == 's':
+			return 165 
 		}
 		return nullState
 	}, 
 	// Set95
 	func(r rune) state {
 		switch { 
-		case r == 'e':
-			return 168 
+		case r == 'p':
+			return 166 
 		}
 		return nullState
 	}, 
 	// Set96
 	func(r rune) state {
 		switch { 
-		case r == 'i':
-			return 169 
+		case r == 'a':
+			return 167 
+		case r == 'g':
+			return 168 
 		}
 		return nullState
 	}, 
@@ -2087,65 +2121,63 @@ var nextState = []func(r rune) state{
 	func(r rune) state {
 		switch { 
 		case r == 't':
-			return 170 
+			return 169 
 		}
 		return nullState
 	}, 
 	// Set98
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 171 
+		case r == 'x':
+			return 170 
 		}
 		return nullState
 	}, 
 	// Set99
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 172 
+		case r == 'p':
+			return 171 
 		}
 		return nullState
 	}, 
 	// Set100
 	func(r rune) state {
 		switch { 
-		case r == 'g':
-			return 173 
-		case r == 'w':
-			return 174 
-		case r == '}':
-			return 175 
+		case r == 'S':
+			return 172 
 		}
 		return nullState
 	}, 
 	// Set101
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 176 
+		case r == 'e':
+			return 173 
 		}
 		return nullState
 	}, 
 	// Set102
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 177 
+		case r == 'i':
+			return 174 
 		}
 		return nullState
 	}, 
 	// Set103
 	func(r rune) state {
 		switch { 
+		case r == 't':
+			return 175 
 		}
 		return nullState
 	}, 
 	// Set104
 	func(r rune) state {
 		switch { 
-		case r == 'r':
-			return 178 
+		case r == '}':
+			return 176 
 		}
 		return nullState
 	}, 
@@ -2153,13 +2185,17 @@ var nextState = []func(r rune) state{
 	func(r rune) state {
 		switch { 
 		case r == '}':
-			return 179 
+			return 177 
 		}
 		return nullState
 	}, 
 	// Set106
 	func(r rune) state {
 		switch { 
+		case r == 'g':
+			return 178 
+		case r == 'w':
+			return 179 
 		case r == '}':
 			return 180 
 		}
@@ -2176,21 +2212,21 @@ var nextState = []func(r rune) state{
 	// Set108
 	func(r rune) state {
 		switch { 
+		case r == '}':
+			return 182 
 		}
 		return nullState
 	}, 
 	// Set109
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 182 
 		}
 		return nullState
 	}, 
 	// Set110
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'r':
 			return 183 
 		}
 		return nullState
@@ -2198,40 +2234,38 @@ var nextState = []func(r rune) state{
 	// Set111
 	func(r rune) state {
 		switch { 
-		case r == 'n':
-			return 184 
 		case r == '}':
-			return 185 
+			return 184 
 		}
 		return nullState
 	}, 
 	// Set112
 	func(r rune) state {
 		switch { 
-		case r == 'm':
-			return 186 
+		case r == '}':
+			return 185 
 		}
 		return nullState
 	}, 
 	// Set113
 	func(r rune) state {
 		switch { 
+		case r == '}':
+			return 186 
 		}
 		return nullState
 	}, 
 	// Set114
 	func(r rune) state {
 		switch { 
-		case r == 'h':
-			return 187 
 		}
 		return nullState
 	}, 
 	// Set115
 	func(r rune) state {
 		switch { 
-		case r == 't':
-			return 188 
+		case r == '}':
+			return 187 
 		}
 		return nullState
 	}, 
@@ -2239,13 +2273,15 @@ var nextState = []func(r rune) state{
 	func(r rune) state {
 		switch { 
 		case r == '}':
-			return 189 
+			return 188 
 		}
 		return nullState
 	}, 
 	// Set117
 	func(r rune) state {
 		switch { 
+		case r == 'n':
+			return 189 
 		case r == '}':
 			return 190 
 		}
@@ -2254,7 +2290,7 @@ var nextState = []func(r rune) state{
 	// Set118
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'm':
 			return 191 
 		}
 		return nullState
@@ -2262,32 +2298,30 @@ var nextState = []func(r rune) state{
 	// Set119
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 192 
 		}
 		return nullState
 	}, 
 	// Set120
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 193 
+		case r == 'h':
+			return 192 
 		}
 		return nullState
 	}, 
 	// Set121
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 194 
+		case r == 't':
+			return 193 
 		}
 		return nullState
 	}, 
 	// Set122
 	func(r rune) state {
 		switch { 
-		case r == 'e':
-			return 195 
+		case r == '}':
+			return 194 
 		}
 		return nullState
 	}, 
@@ -2295,28 +2329,30 @@ var nextState = []func(r rune) state{
 	func(r rune) state {
 		switch { 
 		case r == '}':
-			return 196 
+			return 195 
 		}
 		return nullState
 	}, 
 	// Set124
 	func(r rune) state {
 		switch { 
-		case r == 'n':
-			return 197 
+		case r == '}':
+			return 196 
 		}
 		return nullState
 	}, 
 	// Set125
 	func(r rune) state {
 		switch { 
+		case r == '}':
+			return 197 
 		}
 		return nullState
 	}, 
 	// Set126
 	func(r rune) state {
 		switch { 
-		case r == 'o':
+		case r == '}':
 			return 198 
 		}
 		return nullState
@@ -2324,7 +2360,7 @@ var nextState = []func(r rune) state{
 	// Set127
 	func(r rune) state {
 		switch { 
-		case r == 'd':
+		case r == '}':
 			return 199 
 		}
 		return nullState
@@ -2332,7 +2368,7 @@ var nextState = []func(r rune) state{
 	// Set128
 	func(r rune) state {
 		switch { 
-		case r == 'g':
+		case r == 'e':
 			return 200 
 		}
 		return nullState
@@ -2340,7 +2376,7 @@ var nextState = []func(r rune) state{
 	// Set129
 	func(r rune) state {
 		switch { 
-		case r == 'e':
+		case r == '}':
 			return 201 
 		}
 		return nullState
@@ -2348,7 +2384,7 @@ var nextState = []func(r rune) state{
 	// Set130
 	func(r rune) state {
 		switch { 
-		case r == '}':
+		case r == 'n':
 			return 202 
 		}
 		return nullState
@@ -2356,79 +2392,79 @@ var nextState = []func(r rune) state{
 	// Set131
 	func(r rune) state {
 		switch { 
-		case r == 'n':
-			return 203 
 		}
 		return nullState
 	}, 
 	// Set132
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 204 
+		case r == 'o':
+			return 203 
 		}
 		return nullState
 	}, 
 	// Set133
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 205 
+		case r == 'd':
+			return 204 
 		}
 		return nullState
 	}, 
 	// Set134
 	func(r rune) state {
 		switch { 
-		case r == 'f':
-			return 206 
-		case r == '}':
-			return 207 
+		case r == 'g':
+			return 205 
 		}
 		return nullState
 	}, 
 	// Set135
 	func(r rune) state {
 		switch { 
-		case r == 'a':
-			return 208 
+		case r == 'e':
+			return 206 
 		}
 		return nullState
 	}, 
 	// Set136
 	func(r rune) state {
 		switch { 
-		case r == 'm':
-			return 209 
+		case r == '}':
+			return 207 
 		}
 		return nullState
 	}, 
 	// Set137
 	func(r rune) state {
 		switch { 
+		case r == 'n':
+			return 208 
 		}
 		return nullState
 	}, 
 	// Set138
 	func(r rune) state {
 		switch { 
-		case r == 'r':
-			return 210 
+		case r == '}':
+			return 209 
 		}
 		return nullState
 	}, 
 	// Set139
 	func(r rune) state {
 		switch { 
-		case r == 't':
-			return 211 
+		case r == '}':
+			return 210 
 		}
 		return nullState
 	}, 
 	// Set140
 	func(r rune) state {
 		switch { 
-		case r == 'i':
+		case r == 'f':
+			return 211 
+		case r == '}':
 			return 212 
 		}
 		return nullState
@@ -2436,7 +2472,7 @@ var nextState = []func(r rune) state{
 	// Set141
 	func(r rune) state {
 		switch { 
-		case r == 'p':
+		case r == 'a':
 			return 213 
 		}
 		return nullState
@@ -2444,7 +2480,7 @@ var nextState = []func(r rune) state{
 	// Set142
 	func(r rune) state {
 		switch { 
-		case r == 'r':
+		case r == 'm':
 			return 214 
 		}
 		return nullState
@@ -2452,282 +2488,276 @@ var nextState = []func(r rune) state{
 	// Set143
 	func(r rune) state {
 		switch { 
-		case r == 'i':
-			return 215 
 		}
 		return nullState
 	}, 
 	// Set144
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 216 
+		case r == 'r':
+			return 215 
 		}
 		return nullState
 	}, 
 	// Set145
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 217 
+		case r == 't':
+			return 216 
 		}
 		return nullState
 	}, 
 	// Set146
 	func(r rune) state {
 		switch { 
-		case r == '}':
-			return 218 
+		case r == 'i':
+			return 217 
 		}
 		return nullState
 	}, 
 	// Set147
 	func(r rune) state {
 		switch { 
+		case r == 'p':
+			return 218 
 		}
 		return nullState
 	}, 
 	// Set148
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
+		case r == 'r':
+			return 219 
 		}
 		return nullState
 	}, 
 	// Set149
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'r':
-			return 219 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
+		case r == 'i':
+			return 220 
 		}
 		return nullState
 	}, 
 	// Set150
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 's':
-			return 220 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
+		case r == '}':
+			return 221 
 		}
 		return nullState
 	}, 
 	// Set151
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'r':
-			return 221 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
+		case r == '}':
+			return 222 
 		}
 		return nullState
 	}, 
 	// Set152
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'g':
-			return 222 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
+		case r == '}':
+			return 223 
 		}
 		return nullState
 	}, 
 	// Set153
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'e':
-			return 223 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
 		}
 		return nullState
 	}, 
 	// Set154
 	func(r rune) state {
 		switch { 
-		case r == 'I':
-			return 224 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
 	// Set155
 	func(r rune) state {
 		switch { 
-		case r == 'i':
-			return 225 
+		case r == 'e':
+			return 224 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
 	// Set156
 	func(r rune) state {
 		switch { 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
 	// Set157
 	func(r rune) state {
 		switch { 
+		case r == 'e':
+			return 225 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
 	// Set158
 	func(r rune) state {
 		switch { 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
 	// Set159
 	func(r rune) state {
 		switch { 
+		case r == 'I':
+			return 226 
 		}
 		return nullState
 	}, 
 	// Set160
 	func(r rune) state {
 		switch { 
-		case r == 'h':
-			return 226 
+		case r == 'i':
+			return 227 
 		}
 		return nullState
 	}, 
 	// Set161
 	func(r rune) state {
 		switch { 
-		case r == 'r':
-			return 227 
 		}
 		return nullState
 	}, 
 	// Set162
 	func(r rune) state {
 		switch { 
-		case r == 'c':
-			return 228 
 		}
 		return nullState
 	}, 
 	// Set163
 	func(r rune) state {
 		switch { 
-		case r == 'i':
-			return 229 
 		}
 		return nullState
 	}, 
 	// Set164
 	func(r rune) state {
 		switch { 
-		case r == 'e':
-			return 230 
 		}
 		return nullState
 	}, 
 	// Set165
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 231 
+		case r == 'h':
+			return 228 
 		}
 		return nullState
 	}, 
 	// Set166
 	func(r rune) state {
 		switch { 
-		case r == 'h':
-			return 232 
+		case r == 'r':
+			return 229 
 		}
 		return nullState
 	}, 
 	// Set167
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 233 
+		case r == 'c':
+			return 230 
 		}
 		return nullState
 	}, 
 	// Set168
 	func(r rune) state {
 		switch { 
-		case r == 'o':
-			return 234 
+		case r == 'i':
+			return 231 
 		}
 		return nullState
 	}, 
 	// Set169
 	func(r rune) state {
 		switch { 
-		case r == 'n':
-			return 235 
+		case r == 'e':
+			return 232 
 		}
 		return nullState
 	}, 
 	// Set170
 	func(r rune) state {
 		switch { 
-		case r == 't':
-			return 236 
+		case r == '_':
+			return 233 
 		}
 		return nullState
 	}, 
 	// Set171
 	func(r rune) state {
 		switch { 
+		case r == 'h':
+			return 234 
 		}
 		return nullState
 	}, 
 	// Set172
 	func(r rune) state {
 		switch { 
+		case r == '_':
+			return 235 
 		}
 		return nullState
 	}, 
 	// Set173
 	func(r rune) state {
 		switch { 
-		case r == 'i':
-			return 237 
+		case r == 'o':
+			return 236 
 		}
 		return nullState
 	}, 
 	// Set174
 	func(r rune) state {
 		switch { 
-		case r == 'e':
-			return 238 
+		case r == 'n':
+			return 237 
 		}
 		return nullState
 	}, 
 	// Set175
 	func(r rune) state {
 		switch { 
+		case r == 't':
+			return 238 
 		}
 		return nullState
 	}, 
@@ -2746,7 +2776,7 @@ var nextState = []func(r rune) state{
 	// Set178
 	func(r rune) state {
 		switch { 
-		case r == 'k':
+		case r == 'i':
 			return 239 
 		}
 		return nullState
@@ -2754,6 +2784,8 @@ var nextState = []func(r rune) state{
 	// Set179
 	func(r rune) state {
 		switch { 
+		case r == 'e':
+			return 240 
 		}
 		return nullState
 	}, 
@@ -2778,14 +2810,14 @@ var nextState = []func(r rune) state{
 	// Set183
 	func(r rune) state {
 		switch { 
+		case r == 'k':
+			return 241 
 		}
 		return nullState
 	}, 
 	// Set184
 	func(r rune) state {
 		switch { 
-		case r == 'c':
-			return 240 
 		}
 		return nullState
 	}, 
@@ -2798,30 +2830,26 @@ var nextState = []func(r rune) state{
 	// Set186
 	func(r rune) state {
 		switch { 
-		case r == 'b':
-			return 241 
 		}
 		return nullState
 	}, 
 	// Set187
 	func(r rune) state {
 		switch { 
-		case r == 'e':
-			return 242 
 		}
 		return nullState
 	}, 
 	// Set188
 	func(r rune) state {
 		switch { 
-		case r == 't':
-			return 243 
 		}
 		return nullState
 	}, 
 	// Set189
 	func(r rune) state {
 		switch { 
+		case r == 'c':
+			return 242 
 		}
 		return nullState
 	}, 
@@ -2834,18 +2862,24 @@ var nextState = []func(r rune) state{
 	// Set191
 	func(r rune) state {
 		switch { 
+		case r == 'b':
+			return 243 
 		}
 		return nullState
 	}, 
 	// Set192
 	func(r rune) state {
 		switch { 
+		case r == 'e':
+			return 244 
 		}
 		return nullState
 	}, 
 	// Set193
 	func(r rune) state {
 		switch { 
+		case r == 't':
+			return 245 
 		}
 		return nullState
 	}, 
@@ -2858,8 +2892,6 @@ var nextState = []func(r rune) state{
 	// Set195
 	func(r rune) state {
 		switch { 
-		case r == 'p':
-			return 244 
 		}
 		return nullState
 	}, 
@@ -2872,46 +2904,40 @@ var nextState = []func(r rune) state{
 	// Set197
 	func(r rune) state {
 		switch { 
-		case r == 'c':
-			return 245 
 		}
 		return nullState
 	}, 
 	// Set198
 	func(r rune) state {
 		switch { 
-		case r == 't':
-			return 246 
 		}
 		return nullState
 	}, 
 	// Set199
 	func(r rune) state {
 		switch { 
-		case r == 'i':
-			return 247 
 		}
 		return nullState
 	}, 
 	// Set200
 	func(r rune) state {
 		switch { 
-		case r == 'i':
-			return 248 
+		case r == 'p':
+			return 246 
 		}
 		return nullState
 	}, 
 	// Set201
 	func(r rune) state {
 		switch { 
-		case r == 'r':
-			return 249 
 		}
 		return nullState
 	}, 
 	// Set202
 	func(r rune) state {
 		switch { 
+		case r == 'c':
+			return 247 
 		}
 		return nullState
 	}, 
@@ -2919,26 +2945,30 @@ var nextState = []func(r rune) state{
 	func(r rune) state {
 		switch { 
 		case r == 't':
-			return 250 
+			return 248 
 		}
 		return nullState
 	}, 
 	// Set204
 	func(r rune) state {
 		switch { 
+		case r == 'i':
+			return 249 
 		}
 		return nullState
 	}, 
 	// Set205
 	func(r rune) state {
 		switch { 
+		case r == 'i':
+			return 250 
 		}
 		return nullState
 	}, 
 	// Set206
 	func(r rune) state {
 		switch { 
-		case r == 't':
+		case r == 'r':
 			return 251 
 		}
 		return nullState
@@ -2952,7 +2982,7 @@ var nextState = []func(r rune) state{
 	// Set208
 	func(r rune) state {
 		switch { 
-		case r == 'c':
+		case r == 't':
 			return 252 
 		}
 		return nullState
@@ -2960,142 +2990,136 @@ var nextState = []func(r rune) state{
 	// Set209
 	func(r rune) state {
 		switch { 
-		case r == 'b':
-			return 253 
 		}
 		return nullState
 	}, 
 	// Set210
 	func(r rune) state {
 		switch { 
-		case r == 'm':
-			return 254 
 		}
 		return nullState
 	}, 
 	// Set211
 	func(r rune) state {
 		switch { 
-		case r == 'l':
-			return 255 
+		case r == 't':
+			return 253 
 		}
 		return nullState
 	}, 
 	// Set212
 	func(r rune) state {
 		switch { 
-		case r == 'f':
-			return 256 
 		}
 		return nullState
 	}, 
 	// Set213
 	func(r rune) state {
 		switch { 
-		case r == 'e':
-			return 257 
+		case r == 'c':
+			return 254 
 		}
 		return nullState
 	}, 
 	// Set214
 	func(r rune) state {
 		switch { 
-		case r == 'i':
-			return 258 
+		case r == 'b':
+			return 255 
 		}
 		return nullState
 	}, 
 	// Set215
 	func(r rune) state {
 		switch { 
-		case r == 't':
-			return 259 
+		case r == 'm':
+			return 256 
 		}
 		return nullState
 	}, 
 	// Set216
 	func(r rune) state {
 		switch { 
+		case r == 'l':
+			return 257 
 		}
 		return nullState
 	}, 
 	// Set217
 	func(r rune) state {
 		switch { 
+		case r == 'f':
+			return 258 
 		}
 		return nullState
 	}, 
 	// Set218
 	func(r rune) state {
 		switch { 
+		case r == 'e':
+			return 259 
 		}
 		return nullState
 	}, 
 	// Set219
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
+		case r == 'i':
+			return 260 
 		}
 		return nullState
 	}, 
 	// Set220
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'e':
-			return 260 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
+		case r == 't':
+			return 261 
 		}
 		return nullState
 	}, 
 	// Set221
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
 		}
 		return nullState
 	}, 
 	// Set222
 	func(r rune) state {
 		switch { 
-		case r == '_':
-			return 33 
-		case r == 'e':
-			return 261 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
 		}
 		return nullState
 	}, 
 	// Set223
 	func(r rune) state {
 		switch { 
+		}
+		return nullState
+	}, 
+	// Set224
+	func(r rune) state {
+		switch { 
+		case unicode.IsLetter(r):
+			return 27 
+		case unicode.IsNumber(r):
+			return 27 
 		case r == '_':
-			return 33 
+			return 27 
+		}
+		return nullState
+	}, 
+	// Set225
+	func(r rune) state {
+		switch { 
 		case unicode.IsLetter(r):
-			return 33 
+			return 27 
 		case unicode.IsNumber(r):
-			return 33 
+			return 27 
+		case r == '_':
+			return 27 
 		}
 		return nullState
 	}, 
-	// Set224
+	// Set226
 	func(r rune) state {
 		switch { 
 		case r == 'I':
@@ -3103,7 +3127,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set225
+	// Set227
 	func(r rune) state {
 		switch { 
 		case r == '_':
@@ -3111,7 +3135,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set226
+	// Set228
 	func(r rune) state {
 		switch { 
 		case r == '}':
@@ -3119,7 +3143,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set227
+	// Set229
 	func(r rune) state {
 		switch { 
 		case r == 'e':
@@ -3127,7 +3151,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set228
+	// Set230
 	func(r rune) state {
 		switch { 
 		case r == 'r':
@@ -3135,7 +3159,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set229
+	// Set231
 	func(r rune) state {
 		switch { 
 		case r == 't':
@@ -3143,7 +3167,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set230
+	// Set232
 	func(r rune) state {
 		switch { 
 		case r == 'n':
@@ -3151,7 +3175,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set231
+	// Set233
 	func(r rune) state {
 		switch { 
 		case r == 'D':
@@ -3159,7 +3183,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set232
+	// Set234
 	func(r rune) state {
 		switch { 
 		case r == 'e':
@@ -3167,7 +3191,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set233
+	// Set235
 	func(r rune) state {
 		switch { 
 		case r == 'B':
@@ -3177,7 +3201,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set234
+	// Set236
 	func(r rune) state {
 		switch { 
 		case r == 'g':
@@ -3185,7 +3209,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set235
+	// Set237
 	func(r rune) state {
 		switch { 
 		case r == '_':
@@ -3193,7 +3217,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set236
+	// Set238
 	func(r rune) state {
 		switch { 
 		case r == 'e':
@@ -3201,7 +3225,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set237
+	// Set239
 	func(r rune) state {
 		switch { 
 		case r == 'c':
@@ -3209,7 +3233,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set238
+	// Set240
 	func(r rune) state {
 		switch { 
 		case r == 'r':
@@ -3217,7 +3241,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set239
+	// Set241
 	func(r rune) state {
 		switch { 
 		case r == '}':
@@ -3225,7 +3249,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set240
+	// Set242
 	func(r rune) state {
 		switch { 
 		case r == 'h':
@@ -3233,7 +3257,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set241
+	// Set243
 	func(r rune) state {
 		switch { 
 		case r == 'e':
@@ -3241,7 +3265,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set242
+	// Set244
 	func(r rune) state {
 		switch { 
 		case r == 'r':
@@ -3249,7 +3273,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set243
+	// Set245
 	func(r rune) state {
 		switch { 
 		case r == 'e':
@@ -3257,7 +3281,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set244
+	// Set246
 	func(r rune) state {
 		switch { 
 		case r == 'e':
@@ -3265,7 +3289,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set245
+	// Set247
 	func(r rune) state {
 		switch { 
 		case r == 't':
@@ -3273,7 +3297,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set246
+	// Set248
 	func(r rune) state {
 		switch { 
 		case r == 'a':
@@ -3281,7 +3305,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set247
+	// Set249
 	func(r rune) state {
 		switch { 
 		case r == 'c':
@@ -3289,7 +3313,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set248
+	// Set250
 	func(r rune) state {
 		switch { 
 		case r == 'o':
@@ -3297,7 +3321,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set249
+	// Set251
 	func(r rune) state {
 		switch { 
 		case r == 'm':
@@ -3305,7 +3329,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set250
+	// Set252
 	func(r rune) state {
 		switch { 
 		case r == 'e':
@@ -3313,7 +3337,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set251
+	// Set253
 	func(r rune) state {
 		switch { 
 		case r == '_':
@@ -3321,7 +3345,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set252
+	// Set254
 	func(r rune) state {
 		switch { 
 		case r == 'e':
@@ -3329,7 +3353,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set253
+	// Set255
 	func(r rune) state {
 		switch { 
 		case r == 'o':
@@ -3337,7 +3361,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set254
+	// Set256
 	func(r rune) state {
 		switch { 
 		case r == 'i':
@@ -3345,7 +3369,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set255
+	// Set257
 	func(r rune) state {
 		switch { 
 		case r == 'e':
@@ -3353,7 +3377,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set256
+	// Set258
 	func(r rune) state {
 		switch { 
 		case r == 'i':
@@ -3361,7 +3385,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set257
+	// Set259
 	func(r rune) state {
 		switch { 
 		case r == 'r':
@@ -3369,7 +3393,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set258
+	// Set260
 	func(r rune) state {
 		switch { 
 		case r == 'a':
@@ -3377,7 +3401,7 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set259
+	// Set261
 	func(r rune) state {
 		switch { 
 		case r == 'e':
@@ -3385,30 +3409,6 @@ var nextState = []func(r rune) state{
 		}
 		return nullState
 	}, 
-	// Set260
-	func(r rune) state {
-		switch { 
-		case r == '_':
-			return 33 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
-		}
-		return nullState
-	}, 
-	// Set261
-	func(r rune) state {
-		switch { 
-		case r == '_':
-			return 33 
-		case unicode.IsLetter(r):
-			return 33 
-		case unicode.IsNumber(r):
-			return 33 
-		}
-		return nullState
-	}, 
 	// Set262
 	func(r rune) state {
 		switch { 
diff --git a/parser/bsr/bsr.go b/parser/bsr/bsr.go
index 4f8dd16..45df5e8 100644
--- a/parser/bsr/bsr.go
+++ b/parser/bsr/bsr.go
@@ -34,7 +34,7 @@ Set contains the set of Binary Subtree Representations (BSR).
 type Set struct {
     slotEntries   map[BSR]bool
     ntSlotEntries map[ntSlot][]BSR
-    stringEntries map[stringKey]*stringBSR
+    stringEntries map[stringKey][]*stringBSR
     rightExtent   int
     lex           *lexer.Lexer
 
@@ -75,7 +75,7 @@ func New(startSymbol symbols.NT, l *lexer.Lexer) *Set {
     return &Set{
         slotEntries:   make(map[BSR]bool),
         ntSlotEntries: make(map[ntSlot][]BSR),
-        stringEntries: make(map[stringKey]*stringBSR),
+        stringEntries: make(map[stringKey][]*stringBSR),
         rightExtent:   0,
         lex:           l,
         startSym:      startSymbol,
@@ -175,9 +175,11 @@ func (s *Set) GetRoots() (roots []BSR) {
 // GetAllStrings returns all string elements with symbols = str,
 // left extent = lext and right extent = rext
 func (s *Set) GetAllStrings(str symbols.Symbols, lext, rext int) (strs []*stringBSR) {
-    for _, s := range s.stringEntries {
-        if s.Symbols.Equal(str) && s.leftExtent == lext && s.rightExtent == rext {
-            strs = append(strs, s)
+    for _, sbs := range s.stringEntries {
+        for _, s := range sbs {
+            if s.Symbols.Equal(str) && s.leftExtent == lext && s.rightExtent == rext {
+                strs = append(strs, s)
+            }
         }
     }
     return
@@ -196,19 +198,20 @@ func (s *Set) getNTBSRs() BSRs {
 
 func (s *Set) getStringBSRs() stringBSRs {
     bsrs := make(stringBSRs, 0, len(s.stringEntries))
-    for _, bsr := range s.stringEntries {
-        bsrs = append(bsrs, bsr)
+    for _, sbs := range s.stringEntries {
+        bsrs = append(bsrs, sbs...)
     }
     sort.Sort(bsrs)
     return bsrs
 }
 
-func (s *Set) getString(symbols symbols.Symbols, leftExtent, rightExtent int) *stringBSR {
-    // fmt.Printf("Set.getString(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
+// getStrings returns the string elements of symbols for all the pivots.
+func (s *Set) getStrings(symbols symbols.Symbols, leftExtent, rightExtent int) []*stringBSR {
+    // fmt.Printf("Set.getStrings(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
 
-    strBsr, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
+    strBsrs, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
     if exist {
-        return strBsr
+        return strBsrs
     }
 
     panic(fmt.Sprintf("Error: no string %s left extent=%d right extent=%d\n",
@@ -225,7 +228,12 @@ func (s *Set) insert(bsr bsr) {
         nt := ntSlot{b.Label.Head(), b.leftExtent, b.rightExtent}
         s.ntSlotEntries[nt] = append(s.ntSlotEntries[nt], b)
     case *stringBSR:
-        s.stringEntries[b.key()] = b
+        for _, sb := range s.stringEntries[b.key()] {
+            if sb.pivot == b.pivot {
+                return
+            }
+        }
+        s.stringEntries[b.key()] = append(s.stringEntries[b.key()], b)
     default:
         panic(fmt.Sprintf("Invalid type %T", bsr))
     }
@@ -316,19 +324,32 @@ func (b BSR) GetNTChildrenI(i int) []BSR {
         return b.set.getNTSlot(b.Label.Symbols()[i], b.pivot, b.rightExtent)
     }
 
-    // Walk to pos i from the right
+    // Walk to pos i from the right. The prefix of b up to symbol i may have
+    // more than one parse.
     symbols := b.Label.Symbols()[:b.Label.Pos()-1]
-    str := b.set.getString(symbols, b.leftExtent, b.pivot)
+    strs := b.set.getStrings(symbols, b.leftExtent, b.pivot)
     for len(symbols) > i+1 && len(symbols) > 2 {
         symbols = symbols[:len(symbols)-1]
-        str = b.set.getString(symbols, str.leftExtent, str.pivot)
+        prefixes, done := []*stringBSR{}, map[int]bool{}
+        for _, str := range strs {
+            if !done[str.pivot] {
+                done[str.pivot] = true
+                prefixes = append(prefixes, b.set.getStrings(symbols, str.leftExtent, str.pivot)...)
+            }
+        }
+        strs = prefixes
     }
 
-    bsrs := []BSR{}
-    if i == 0 {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.leftExtent, str.pivot)
-    } else {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.pivot, str.rightExtent)
+    bsrs, done := []BSR{}, map[[2]int]bool{}
+    for _, str := range strs {
+        lext, rext := str.pivot, str.rightExtent
+        if i == 0 {
+            lext, rext = str.leftExtent, str.pivot
+        }
+        if !done[[2]int{lext, rext}] {
+            done[[2]int{lext, rext}] = true
+            bsrs = append(bsrs, b.set.getNTSlot(b.Label.Symbols()[i], lext, rext)...)
+        }
     }
 
     // fmt.Println(bsrs)
@@ -360,12 +381,12 @@ func (b BSR) GetTChildI(i int) *token.Token {
     return b.set.lex.Tokens[lext]
 }
 
-// LeftExtent returns the left extent of the BSR
+// LeftExtent returns the left extent of the BSR in the stream of tokens
 func (b BSR) LeftExtent() int {
     return b.leftExtent
 }
 
-// RightExtent returns the right extent of the BSR
+// RightExtent returns the right extent of the BSR in the stream of tokens
 func (b BSR) RightExtent() int {
     return b.rightExtent
 }
@@ -452,8 +473,12 @@ func (s stringBSR) Empty() bool {
 
 // String returns a string representation of s
 func (s stringBSR) String() string {
+    srcStr := "ℇ"
+    if s.leftExtent < s.rightExtent {
+        srcStr = s.set.lex.GetString(s.LeftExtent(), s.RightExtent()-1)
+    }
     return fmt.Sprintf("%s,%d,%d,%d - %s", &s.Symbols, s.leftExtent, s.pivot,
-        s.rightExtent, s.set.lex.GetString(s.LeftExtent(), s.RightExtent()))
+        s.rightExtent, srcStr)
 }
 
 func (s *Set) getNTSlot(sym symbols.Symbol, leftExtent, rightExtent int) (bsrs []BSR) {
@@ -488,14 +513,19 @@ func (s *Set) ReportAmbiguous() {
     }
     for i, b := range s.GetRoots() {
         fmt.Println("In root", i)
-        if !s.report(b) {
+        if !s.report(b, make(map[BSR]bool)) {
             fmt.Println("No ambiguous BSRs")
         }
     }
 }
 
-// report return true iff at least one ambigous BSR was found
-func (s *Set) report(b BSR) bool {
+// report return true iff at least one ambigous BSR was found.
+// visited contains the BSRs, which have been reported already.
+func (s *Set) report(b BSR, visited map[BSR]bool) bool {
+    if visited[b] {
+        return false
+    }
+    visited[b] = true
     ambiguous := false
     for i, sym := range b.Label.Symbols() {
         ln, col := s.getLineColumn(b.LeftExtent())
@@ -510,7 +540,9 @@ func (s *Set) report(b BSR) bool {
                 }
             }
             for _, b1 := range b.GetNTChildrenI(i) {
-                s.report(b1)
+                if s.report(b1, visited) {
+                    ambiguous = true
+                }
             }
         }
     }
@@ -586,11 +618,10 @@ func (pf *Set) ToSPPF() *sppf.SymbolNode {
                     in.Lext, in.Lext, in.Rext))
             } else {
                 // for each (α,i,k, j)∈Υ { mkPN(X ::=α·δ,i,k, j,G) } } } }
-                alpha, delta := in.Body[:in.Pos], in.Body[in.Pos:]
+                alpha := in.Body[:in.Pos]
                 for _, str := range pf.GetAllStrings(alpha, in.Lext, in.Rext) {
-                    body := append(str.Symbols, delta...)
                     in.Children = append(in.Children,
-                        bld.mkPN(in.NT, body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
+                        bld.mkPN(in.NT, in.Body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
                 }
             }
         }
@@ -627,8 +658,8 @@ func (bld *bldSPPF) mkPN(nt symbols.NT, body symbols.Symbols, pos int,
 		LeftChild:  nil,
 		RightChild: nil,
 	}
-	if _, exist := bld.pNodes[pn.Label()]; exist {
-		panic("must not happen")
+	if pn1, exist := bld.pNodes[pn.Label()]; exist {
+		return pn1
 	}
 	bld.pNodes[pn.Label()] = pn
 
diff --git a/parser/parser.go b/parser/parser.go
index 676f0f3..70e58e8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -81,7 +81,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_GoGLL) {
 				p.rtn(symbols.NT_GoGLL, cU, p.cI)
 			} else {
-				p.parseError(slot.GoGLL0R0, p.cI, followSets[symbols.NT_GoGLL])
+				p.parseError(slot.GoGLL0R2, p.cI, followSets[symbols.NT_GoGLL])
 			}
 		case slot.LexAlternates0R0: // LexAlternates : ∙RegExp
 
@@ -91,7 +91,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_LexAlternates) {
 				p.rtn(symbols.NT_LexAlternates, cU, p.cI)
 			} else {
-				p.parseError(slot.LexAlternates0R0, p.cI, followSets[symbols.NT_LexAlternates])
+				p.parseError(slot.LexAlternates0R1, p.cI, followSets[symbols.NT_LexAlternates])
 			}
 		case slot.LexAlternates1R0: // LexAlternates : ∙RegExp | LexAlternates
 
@@ -116,7 +116,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_LexAlternates) {
 				p.rtn(symbols.NT_LexAlternates, cU, p.cI)
 			} else {
-				p.parseError(slot.LexAlternates1R0, p.cI, followSets[symbols.NT_LexAlternates])
+				p.parseError(slot.LexAlternates1R3, p.cI, followSets[symbols.NT_LexAlternates])
 			}
 		case slot.LexBracket0R0: // LexBracket : ∙LexGroup
 
@@ -126,7 +126,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_LexBracket) {
 				p.rtn(symbols.NT_LexBracket, cU, p.cI)
 			} else {
-				p.parseError(slot.LexBracket0R0, p.cI, followSets[symbols.NT_LexBracket])
+				p.parseError(slot.LexBracket0R1, p.cI, followSets[symbols.NT_LexBracket])
 			}
 		case slot.LexBracket1R0: // LexBracket : ∙LexOptional
 
@@ -136,7 +136,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_LexBracket) {
 				p.rtn(symbols.NT_LexBracket, cU, p.cI)
 			} else {
-				p.parseError(slot.LexBracket1R0, p.cI, followSets[symbols.NT_LexBracket])
+				p.parseError(slot.LexBracket1R1, p.cI, followSets[symbols.NT_LexBracket])
 			}
 		case slot.LexBracket2R0: // LexBracket : ∙LexZeroOrMore
 
@@ -146,7 +146,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_LexBracket) {
 				p.rtn(symbols.NT_LexBracket, cU, p.cI)
 			} else {
-				p.parseError(slot.LexBracket2R0, p.cI, followSets[symbols.NT_LexBracket])
+				p.parseError(slot.LexBracket2R1, p.cI, followSets[symbols.NT_LexBracket])
 			}
 		case slot.LexBracket3R0: // LexBracket : ∙LexOneOrMore
 
@@ -156,7 +156,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_LexBracket) {
 				p.rtn(symbols.NT_LexBracket, cU, p.cI)
 			} else {
-				p.parseError(slot.LexBracket3R0, p.cI, followSets[symbols.NT_LexBracket])
+				p.parseError(slot.LexBracket3R1, p.cI, followSets[symbols.NT_LexBracket])
 			}
 		case slot.LexGroup0R0: // LexGroup : ∙( LexAlternates )
 
@@ -180,7 +180,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_LexGroup) {
 				p.rtn(symbols.NT_LexGroup, cU, p.cI)
 			} else {
-				p.parseError(slot.LexGroup0R0, p.cI, followSets[symbols.NT_LexGroup])
+				p.parseError(slot.LexGroup0R3, p.cI, followSets[symbols.NT_LexGroup])
 			}
 		case slot.LexOneOrMore0R0: // LexOneOrMore : ∙< LexAlternates >
 
@@ -204,7 +204,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_LexOneOrMore) {
 				p.rtn(symbols.NT_LexOneOrMore, cU, p.cI)
 			} else {
-				p.parseError(slot.LexOneOrMore0R0, p.cI, followSets[symbols.NT_LexOneOrMore])
+				p.parseError(slot.LexOneOrMore0R3, p.cI, followSets[symbols.NT_LexOneOrMore])
 			}
 		case slot.LexOptional0R0: // LexOptional : ∙[ LexAlternates ]
 
@@ -228,7 +228,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_LexOptional) {
 				p.rtn(symbols.NT_LexOptional, cU, p.cI)
 			} else {
-				p.parseError(slot.LexOptional0R0, p.cI, followSets[symbols.NT_LexOptional])
+				p.parseError(slot.LexOptional0R3, p.cI, followSets[symbols.NT_LexOptional])
 			}
 		case slot.LexRule0R0: // LexRule : ∙tokid : RegExp ;
 
@@ -259,7 +259,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_LexRule) {
 				p.rtn(symbols.NT_LexRule, cU, p.cI)
 			} else {
-				p.parseError(slot.LexRule0R0, p.cI, followSets[symbols.NT_LexRule])
+				p.parseError(slot.LexRule0R4, p.cI, followSets[symbols.NT_LexRule])
 			}
 		case slot.LexRule1R0: // LexRule : ∙! tokid : RegExp ;
 
@@ -297,7 +297,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_LexRule) {
 				p.rtn(symbols.NT_LexRule, cU, p.cI)
 			} else {
-				p.parseError(slot.LexRule1R0, p.cI, followSets[symbols.NT_LexRule])
+				p.parseError(slot.LexRule1R5, p.cI, followSets[symbols.NT_LexRule])
 			}
 		case slot.LexSymbol0R0: // LexSymbol : ∙.
 
@@ -306,7 +306,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_LexSymbol) {
 				p.rtn(symbols.NT_LexSymbol, cU, p.cI)
 			} else {
-				p.parseError(slot.LexSymbol0R0, p.cI, followSets[symbols.NT_LexSymbol])
+				p.parseError(slot.LexSymbol0R1, p.cI, followSets[symbols.NT_LexSymbol])
 			}
 		case slot.LexSymbol1R0: // LexSymbol : ∙any string_lit
 
@@ -322,7 +322,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_LexSymbol) {
 				p.rtn(symbols.NT_LexSymbol, cU, p.cI)
 			} else {
-				p.parseError(slot.LexSymbol1R0, p.cI, followSets[symbols.NT_LexSymbol])
+				p.parseError(slot.LexSymbol1R2, p.cI, followSets[symbols.NT_LexSymbol])
 			}
 		case slot.LexSymbol2R0: // LexSymbol : ∙char_lit
 
@@ -331,7 +331,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_LexSymbol) {
 				p.rtn(symbols.NT_LexSymbol, cU, p.cI)
 			} else {
-				p.parseError(slot.LexSymbol2R0, p.cI, followSets[symbols.NT_LexSymbol])
+				p.parseError(slot.LexSymbol2R1, p.cI, followSets[symbols.NT_LexSymbol])
 			}
 		case slot.LexSymbol3R0: // LexSymbol : ∙LexBracket
 
@@ -341,7 +341,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_LexSymbol) {
 				p.rtn(symbols.NT_LexSymbol, cU, p.cI)
 			} else {
-				p.parseError(slot.LexSymbol3R0, p.cI, followSets[symbols.NT_LexSymbol])
+				p.parseError(slot.LexSymbol3R1, p.cI, followSets[symbols.NT_LexSymbol])
 			}
 		case slot.LexSymbol4R0: // LexSymbol : ∙not string_lit
 
@@ -357,7 +357,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_LexSymbol) {
 				p.rtn(symbols.NT_LexSymbol, cU, p.cI)
 			} else {
-				p.parseError(slot.LexSymbol4R0, p.cI, followSets[symbols.NT_LexSymbol])
+				p.parseError(slot.LexSymbol4R2, p.cI, followSets[symbols.NT_LexSymbol])
 			}
 		case slot.LexSymbol5R0: // LexSymbol : ∙UnicodeClass
 
@@ -367,7 +367,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_LexSymbol) {
 				p.rtn(symbols.NT_LexSymbol, cU, p.cI)
 			} else {
-				p.parseError(slot.LexSymbol5R0, p.cI, followSets[symbols.NT_LexSymbol])
+				p.parseError(slot.LexSymbol5R1, p.cI, followSets[symbols.NT_LexSymbol])
 			}
 		case slot.LexSymbol6R0: // LexSymbol : ∙UnicodeSet
 
@@ -377,7 +377,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_LexSymbol) {
 				p.rtn(symbols.NT_LexSymbol, cU, p.cI)
 			} else {
-				p.parseError(slot.LexSymbol6R0, p.cI, followSets[symbols.NT_LexSymbol])
+				p.parseError(slot.LexSymbol6R1, p.cI, followSets[symbols.NT_LexSymbol])
 			}
 		case slot.LexZeroOrMore0R0: // LexZeroOrMore : ∙{ LexAlternates }
 
@@ -401,7 +401,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_LexZeroOrMore) {
 				p.rtn(symbols.NT_LexZeroOrMore, cU, p.cI)
 			} else {
-				p.parseError(slot.LexZeroOrMore0R0, p.cI, followSets[symbols.NT_LexZeroOrMore])
+				p.parseError(slot.LexZeroOrMore0R3, p.cI, followSets[symbols.NT_LexZeroOrMore])
 			}
 		case slot.Package0R0: // Package : ∙package string_lit
 
@@ -417,7 +417,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_Package) {
 				p.rtn(symbols.NT_Package, cU, p.cI)
 			} else {
-				p.parseError(slot.Package0R0, p.cI, followSets[symbols.NT_Package])
+				p.parseError(slot.Package0R2, p.cI, followSets[symbols.NT_Package])
 			}
 		case slot.PlusOrMinUnicodeSet0R0: // PlusOrMinUnicodeSet : ∙UnicodeSetSpec
 
@@ -427,7 +427,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_PlusOrMinUnicodeSet) {
 				p.rtn(symbols.NT_PlusOrMinUnicodeSet, cU, p.cI)
 			} else {
-				p.parseError(slot.PlusOrMinUnicodeSet0R0, p.cI, followSets[symbols.NT_PlusOrMinUnicodeSet])
+				p.parseError(slot.PlusOrMinUnicodeSet0R1, p.cI, followSets[symbols.NT_PlusOrMinUnicodeSet])
 			}
 		case slot.PlusOrMinUnicodeSet1R0: // PlusOrMinUnicodeSet : ∙- UnicodeSetSpec
 
@@ -444,7 +444,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_PlusOrMinUnicodeSet) {
 				p.rtn(symbols.NT_PlusOrMinUnicodeSet, cU, p.cI)
 			} else {
-				p.parseError(slot.PlusOrMinUnicodeSet1R0, p.cI, followSets[symbols.NT_PlusOrMinUnicodeSet])
+				p.parseError(slot.PlusOrMinUnicodeSet1R2, p.cI, followSets[symbols.NT_PlusOrMinUnicodeSet])
 			}
 		case slot.RegExp0R0: // RegExp : ∙LexSymbol
 
@@ -454,7 +454,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_RegExp) {
 				p.rtn(symbols.NT_RegExp, cU, p.cI)
 			} else {
-				p.parseError(slot.RegExp0R0, p.cI, followSets[symbols.NT_RegExp])
+				p.parseError(slot.RegExp0R1, p.cI, followSets[symbols.NT_RegExp])
 			}
 		case slot.RegExp1R0: // RegExp : ∙tokid
 
@@ -463,7 +463,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_RegExp) {
 				p.rtn(symbols.NT_RegExp, cU, p.cI)
 			} else {
-				p.parseError(slot.RegExp1R0, p.cI, followSets[symbols.NT_RegExp])
+				p.parseError(slot.RegExp1R1, p.cI, followSets[symbols.NT_RegExp])
 			}
 		case slot.RegExp2R0: // RegExp : ∙LexSymbol RegExp
 
@@ -481,7 +481,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_RegExp) {
 				p.rtn(symbols.NT_RegExp, cU, p.cI)
 			} else {
-				p.parseError(slot.RegExp2R0, p.cI, followSets[symbols.NT_RegExp])
+				p.parseError(slot.RegExp2R2, p.cI, followSets[symbols.NT_RegExp])
 			}
 		case slot.RegExp3R0: // RegExp : ∙tokid RegExp
 
@@ -498,7 +498,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_RegExp) {
 				p.rtn(symbols.NT_RegExp, cU, p.cI)
 			} else {
-				p.parseError(slot.RegExp3R0, p.cI, followSets[symbols.NT_RegExp])
+				p.parseError(slot.RegExp3R2, p.cI, followSets[symbols.NT_RegExp])
 			}
 		case slot.Rule0R0: // Rule : ∙LexRule
 
@@ -508,7 +508,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_Rule) {
 				p.rtn(symbols.NT_Rule, cU, p.cI)
 			} else {
-				p.parseError(slot.Rule0R0, p.cI, followSets[symbols.NT_Rule])
+				p.parseError(slot.Rule0R1, p.cI, followSets[symbols.NT_Rule])
 			}
 		case slot.Rule1R0: // Rule : ∙SyntaxRule
 
@@ -518,7 +518,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_Rule) {
 				p.rtn(symbols.NT_Rule, cU, p.cI)
 			} else {
-				p.parseError(slot.Rule1R0, p.cI, followSets[symbols.NT_Rule])
+				p.parseError(slot.Rule1R1, p.cI, followSets[symbols.NT_Rule])
 			}
 		case slot.Rules0R0: // Rules : ∙Rule
 
@@ -528,7 +528,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_Rules) {
 				p.rtn(symbols.NT_Rules, cU, p.cI)
 			} else {
-				p.parseError(slot.Rules0R0, p.cI, followSets[symbols.NT_Rules])
+				p.parseError(slot.Rules0R1, p.cI, followSets[symbols.NT_Rules])
 			}
 		case slot.Rules1R0: // Rules : ∙Rule Rules
 
@@ -546,7 +546,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_Rules) {
 				p.rtn(symbols.NT_Rules, cU, p.cI)
 			} else {
-				p.parseError(slot.Rules1R0, p.cI, followSets[symbols.NT_Rules])
+				p.parseError(slot.Rules1R2, p.cI, followSets[symbols.NT_Rules])
 			}
 		case slot.SyntaxAlternate0R0: // SyntaxAlternate : ∙SyntaxSymbols
 
@@ -556,7 +556,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_SyntaxAlternate) {
 				p.rtn(symbols.NT_SyntaxAlternate, cU, p.cI)
 			} else {
-				p.parseError(slot.SyntaxAlternate0R0, p.cI, followSets[symbols.NT_SyntaxAlternate])
+				p.parseError(slot.SyntaxAlternate0R1, p.cI, followSets[symbols.NT_SyntaxAlternate])
 			}
 		case slot.SyntaxAlternate1R0: // SyntaxAlternate : ∙empty
 
@@ -565,7 +565,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_SyntaxAlternate) {
 				p.rtn(symbols.NT_SyntaxAlternate, cU, p.cI)
 			} else {
-				p.parseError(slot.SyntaxAlternate1R0, p.cI, followSets[symbols.NT_SyntaxAlternate])
+				p.parseError(slot.SyntaxAlternate1R1, p.cI, followSets[symbols.NT_SyntaxAlternate])
 			}
 		case slot.SyntaxAlternates0R0: // SyntaxAlternates : ∙SyntaxAlternate
 
@@ -575,7 +575,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_SyntaxAlternates) {
 				p.rtn(symbols.NT_SyntaxAlternates, cU, p.cI)
 			} else {
-				p.parseError(slot.SyntaxAlternates0R0, p.cI, followSets[symbols.NT_SyntaxAlternates])
+				p.parseError(slot.SyntaxAlternates0R1, p.cI, followSets[symbols.NT_SyntaxAlternates])
 			}
 		case slot.SyntaxAlternates1R0: // SyntaxAlternates : ∙SyntaxAlternate | SyntaxAlternates
 
@@ -600,7 +600,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_SyntaxAlternates) {
 				p.rtn(symbols.NT_SyntaxAlternates, cU, p.cI)
 			} else {
-				p.parseError(slot.SyntaxAlternates1R0, p.cI, followSets[symbols.NT_SyntaxAlternates])
+				p.parseError(slot.SyntaxAlternates1R3, p.cI, followSets[symbols.NT_SyntaxAlternates])
 			}
 		case slot.SyntaxRule0R0: // SyntaxRule : ∙nt : SyntaxAlternates ;
 
@@ -631,7 +631,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_SyntaxRule) {
 				p.rtn(symbols.NT_SyntaxRule, cU, p.cI)
 			} else {
-				p.parseError(slot.SyntaxRule0R0, p.cI, followSets[symbols.NT_SyntaxRule])
+				p.parseError(slot.SyntaxRule0R4, p.cI, followSets[symbols.NT_SyntaxRule])
 			}
 		case slot.SyntaxSymbol0R0: // SyntaxSymbol : ∙nt
 
@@ -640,7 +640,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_SyntaxSymbol) {
 				p.rtn(symbols.NT_SyntaxSymbol, cU, p.cI)
 			} else {
-				p.parseError(slot.SyntaxSymbol0R0, p.cI, followSets[symbols.NT_SyntaxSymbol])
+				p.parseError(slot.SyntaxSymbol0R1, p.cI, followSets[symbols.NT_SyntaxSymbol])
 			}
 		case slot.SyntaxSymbol1R0: // SyntaxSymbol : ∙tokid
 
@@ -649,7 +649,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_SyntaxSymbol) {
 				p.rtn(symbols.NT_SyntaxSymbol, cU, p.cI)
 			} else {
-				p.parseError(slot.SyntaxSymbol1R0, p.cI, followSets[symbols.NT_SyntaxSymbol])
+				p.parseError(slot.SyntaxSymbol1R1, p.cI, followSets[symbols.NT_SyntaxSymbol])
 			}
 		case slot.SyntaxSymbol2R0: // SyntaxSymbol : ∙string_lit
 
@@ -658,7 +658,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_SyntaxSymbol) {
 				p.rtn(symbols.NT_SyntaxSymbol, cU, p.cI)
 			} else {
-				p.parseError(slot.SyntaxSymbol2R0, p.cI, followSets[symbols.NT_SyntaxSymbol])
+				p.parseError(slot.SyntaxSymbol2R1, p.cI, followSets[symbols.NT_SyntaxSymbol])
 			}
 		case slot.SyntaxSymbols0R0: // SyntaxSymbols : ∙SyntaxSymbol
 
@@ -668,7 +668,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_SyntaxSymbols) {
 				p.rtn(symbols.NT_SyntaxSymbols, cU, p.cI)
 			} else {
-				p.parseError(slot.SyntaxSymbols0R0, p.cI, followSets[symbols.NT_SyntaxSymbols])
+				p.parseError(slot.SyntaxSymbols0R1, p.cI, followSets[symbols.NT_SyntaxSymbols])
 			}
 		case slot.SyntaxSymbols1R0: // SyntaxSymbols : ∙SyntaxSymbol SyntaxSymbols
 
@@ -686,7 +686,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_SyntaxSymbols) {
 				p.rtn(symbols.NT_SyntaxSymbols, cU, p.cI)
 			} else {
-				p.parseError(slot.SyntaxSymbols1R0, p.cI, followSets[symbols.NT_SyntaxSymbols])
+				p.parseError(slot.SyntaxSymbols1R2, p.cI, followSets[symbols.NT_SyntaxSymbols])
 			}
 		case slot.UnicodeCategory0R0: // UnicodeCategory : ∙\p{Cc}
 
@@ -695,7 +695,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory0R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory0R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory1R0: // UnicodeCategory : ∙\p{Cf}
 
@@ -704,7 +704,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory1R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory1R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory2R0: // UnicodeCategory : ∙\p{Co}
 
@@ -713,7 +713,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory2R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory2R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory3R0: // UnicodeCategory : ∙\p{Cs}
 
@@ -722,7 +722,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory3R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory3R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory4R0: // UnicodeCategory : ∙\p{Digit}
 
@@ -731,7 +731,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory4R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory4R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory5R0: // UnicodeCategory : ∙\p{Nd}
 
@@ -740,7 +740,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory5R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory5R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory6R0: // UnicodeCategory : ∙\p{Letter}
 
@@ -749,7 +749,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory6R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory6R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory7R0: // UnicodeCategory : ∙\p{L}
 
@@ -758,7 +758,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory7R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory7R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory8R0: // UnicodeCategory : ∙\p{Lm}
 
@@ -767,7 +767,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory8R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory8R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory9R0: // UnicodeCategory : ∙\p{Lo}
 
@@ -776,7 +776,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory9R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory9R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory10R0: // UnicodeCategory : ∙\p{Lower}
 
@@ -785,7 +785,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory10R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory10R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory11R0: // UnicodeCategory : ∙\p{Ll}
 
@@ -794,7 +794,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory11R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory11R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory12R0: // UnicodeCategory : ∙\p{Mark}
 
@@ -803,7 +803,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory12R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory12R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory13R0: // UnicodeCategory : ∙\p{M}
 
@@ -812,7 +812,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory13R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory13R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory14R0: // UnicodeCategory : ∙\p{Mc}
 
@@ -821,7 +821,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory14R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory14R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory15R0: // UnicodeCategory : ∙\p{Me}
 
@@ -830,7 +830,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory15R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory15R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory16R0: // UnicodeCategory : ∙\p{Mn}
 
@@ -839,7 +839,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory16R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory16R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory17R0: // UnicodeCategory : ∙\p{Nl}
 
@@ -848,7 +848,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory17R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory17R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory18R0: // UnicodeCategory : ∙\p{No}
 
@@ -857,7 +857,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory18R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory18R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory19R0: // UnicodeCategory : ∙\p{Number}
 
@@ -866,7 +866,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory19R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory19R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory20R0: // UnicodeCategory : ∙\p{N}
 
@@ -875,7 +875,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory20R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory20R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory21R0: // UnicodeCategory : ∙\p{Other}
 
@@ -884,7 +884,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory21R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory21R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory22R0: // UnicodeCategory : ∙\p{C}
 
@@ -893,7 +893,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory22R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory22R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory23R0: // UnicodeCategory : ∙\p{Pc}
 
@@ -902,7 +902,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory23R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory23R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory24R0: // UnicodeCategory : ∙\p{Pd}
 
@@ -911,7 +911,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory24R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory24R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory25R0: // UnicodeCategory : ∙\p{Pe}
 
@@ -920,7 +920,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory25R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory25R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory26R0: // UnicodeCategory : ∙\p{Pf}
 
@@ -929,7 +929,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory26R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory26R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory27R0: // UnicodeCategory : ∙\p{Pi}
 
@@ -938,7 +938,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory27R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory27R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory28R0: // UnicodeCategory : ∙\p{Po}
 
@@ -947,7 +947,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory28R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory28R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory29R0: // UnicodeCategory : ∙\p{Ps}
 
@@ -956,7 +956,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory29R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory29R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory30R0: // UnicodeCategory : ∙\p{Punct}
 
@@ -965,7 +965,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory30R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory30R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory31R0: // UnicodeCategory : ∙\p{P}
 
@@ -974,7 +974,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory31R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory31R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory32R0: // UnicodeCategory : ∙\p{Sc}
 
@@ -983,7 +983,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory32R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory32R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory33R0: // UnicodeCategory : ∙\p{Sk}
 
@@ -992,7 +992,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory33R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory33R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory34R0: // UnicodeCategory : ∙\p{Sm}
 
@@ -1001,7 +1001,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory34R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory34R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory35R0: // UnicodeCategory : ∙\p{So}
 
@@ -1010,7 +1010,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory35R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory35R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory36R0: // UnicodeCategory : ∙\p{Space}
 
@@ -1019,7 +1019,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory36R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory36R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory37R0: // UnicodeCategory : ∙\p{Z}
 
@@ -1028,7 +1028,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory37R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory37R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory38R0: // UnicodeCategory : ∙\p{Symbol}
 
@@ -1037,7 +1037,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory38R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory38R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory39R0: // UnicodeCategory : ∙\p{S}
 
@@ -1046,7 +1046,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory39R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory39R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory40R0: // UnicodeCategory : ∙\p{Title}
 
@@ -1055,7 +1055,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory40R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory40R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory41R0: // UnicodeCategory : ∙\p{Lt}
 
@@ -1064,7 +1064,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory41R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory41R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory42R0: // UnicodeCategory : ∙\p{Upper}
 
@@ -1073,7 +1073,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory42R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory42R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory43R0: // UnicodeCategory : ∙\p{Lu}
 
@@ -1082,7 +1082,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory43R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory43R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory44R0: // UnicodeCategory : ∙\p{Zl}
 
@@ -1091,7 +1091,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory44R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory44R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory45R0: // UnicodeCategory : ∙\p{Zp}
 
@@ -1100,7 +1100,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory45R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory45R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeCategory46R0: // UnicodeCategory : ∙\p{Zs}
 
@@ -1109,7 +1109,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeCategory) {
 				p.rtn(symbols.NT_UnicodeCategory, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeCategory46R0, p.cI, followSets[symbols.NT_UnicodeCategory])
+				p.parseError(slot.UnicodeCategory46R1, p.cI, followSets[symbols.NT_UnicodeCategory])
 			}
 		case slot.UnicodeClass0R0: // UnicodeClass : ∙letter
 
@@ -1118,7 +1118,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeClass) {
 				p.rtn(symbols.NT_UnicodeClass, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeClass0R0, p.cI, followSets[symbols.NT_UnicodeClass])
+				p.parseError(slot.UnicodeClass0R1, p.cI, followSets[symbols.NT_UnicodeClass])
 			}
 		case slot.UnicodeClass1R0: // UnicodeClass : ∙upcase
 
@@ -1127,7 +1127,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeClass) {
 				p.rtn(symbols.NT_UnicodeClass, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeClass1R0, p.cI, followSets[symbols.NT_UnicodeClass])
+				p.parseError(slot.UnicodeClass1R1, p.cI, followSets[symbols.NT_UnicodeClass])
 			}
 		case slot.UnicodeClass2R0: // UnicodeClass : ∙lowcase
 
@@ -1136,7 +1136,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeClass) {
 				p.rtn(symbols.NT_UnicodeClass, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeClass2R0, p.cI, followSets[symbols.NT_UnicodeClass])
+				p.parseError(slot.UnicodeClass2R1, p.cI, followSets[symbols.NT_UnicodeClass])
 			}
 		case slot.UnicodeClass3R0: // UnicodeClass : ∙number
 
@@ -1145,7 +1145,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeClass) {
 				p.rtn(symbols.NT_UnicodeClass, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeClass3R0, p.cI, followSets[symbols.NT_UnicodeClass])
+				p.parseError(slot.UnicodeClass3R1, p.cI, followSets[symbols.NT_UnicodeClass])
 			}
 		case slot.UnicodeProperty0R0: // UnicodeProperty : ∙\p{ASCII_Hex_Digit}
 
@@ -1154,7 +1154,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty0R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty0R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty1R0: // UnicodeProperty : ∙\p{Bidi_Control}
 
@@ -1163,7 +1163,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty1R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty1R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty2R0: // UnicodeProperty : ∙\p{Dash}
 
@@ -1172,7 +1172,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty2R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty2R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty3R0: // UnicodeProperty : ∙\p{Deprecated}
 
@@ -1181,7 +1181,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty3R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty3R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty4R0: // UnicodeProperty : ∙\p{Diacritic}
 
@@ -1190,7 +1190,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty4R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty4R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty5R0: // UnicodeProperty : ∙\p{Extender}
 
@@ -1199,7 +1199,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty5R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty5R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty6R0: // UnicodeProperty : ∙\p{Hex_Digit}
 
@@ -1208,7 +1208,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty6R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty6R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty7R0: // UnicodeProperty : ∙\p{Hyphen}
 
@@ -1217,7 +1217,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty7R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty7R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty8R0: // UnicodeProperty : ∙\p{IDS_Binary_Operator}
 
@@ -1226,7 +1226,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty8R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty8R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty9R0: // UnicodeProperty : ∙\p{IDS_Trinary_Operator}
 
@@ -1235,7 +1235,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty9R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty9R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty10R0: // UnicodeProperty : ∙\p{Ideographic}
 
@@ -1244,7 +1244,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty10R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty10R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty11R0: // UnicodeProperty : ∙\p{Join_Control}
 
@@ -1253,7 +1253,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty11R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty11R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty12R0: // UnicodeProperty : ∙\p{Logical_Order_Exception}
 
@@ -1262,7 +1262,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty12R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty12R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty13R0: // UnicodeProperty : ∙\p{Noncharacter_Code_Point}
 
@@ -1271,7 +1271,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty13R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty13R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty14R0: // UnicodeProperty : ∙\p{Other_Alphabetic}
 
@@ -1280,7 +1280,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty14R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty14R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty15R0: // UnicodeProperty : ∙\p{Other_Default_Ignorable_Code_Point}
 
@@ -1289,7 +1289,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty15R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty15R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty16R0: // UnicodeProperty : ∙\p{Other_Grapheme_Extend}
 
@@ -1298,7 +1298,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty16R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty16R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty17R0: // UnicodeProperty : ∙\p{Other_ID_Continue}
 
@@ -1307,7 +1307,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty17R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty17R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty18R0: // UnicodeProperty : ∙\p{Other_ID_Start}
 
@@ -1316,7 +1316,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty18R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty18R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty19R0: // UnicodeProperty : ∙\p{Other_Lowercase}
 
@@ -1325,7 +1325,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty19R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty19R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty20R0: // UnicodeProperty : ∙\p{Other_Math}
 
@@ -1334,7 +1334,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty20R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty20R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty21R0: // UnicodeProperty : ∙\p{Other_Uppercase}
 
@@ -1343,7 +1343,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty21R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty21R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty22R0: // UnicodeProperty : ∙\p{Pattern_Syntax}
 
@@ -1352,7 +1352,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty22R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty22R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty23R0: // UnicodeProperty : ∙\p{Pattern_White_Space}
 
@@ -1361,7 +1361,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty23R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty23R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty24R0: // UnicodeProperty : ∙\p{Prepended_Concatenation_Mark}
 
@@ -1370,7 +1370,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty24R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty24R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty25R0: // UnicodeProperty : ∙\p{Quotation_Mark}
 
@@ -1379,7 +1379,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty25R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty25R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty26R0: // UnicodeProperty : ∙\p{Radical}
 
@@ -1388,7 +1388,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty26R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty26R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty27R0: // UnicodeProperty : ∙\p{Regional_Indicator}
 
@@ -1397,7 +1397,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty27R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty27R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty28R0: // UnicodeProperty : ∙\p{STerm}
 
@@ -1406,7 +1406,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty28R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty28R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty29R0: // UnicodeProperty : ∙\p{Sentence_Terminal}
 
@@ -1415,7 +1415,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty29R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty29R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty30R0: // UnicodeProperty : ∙\p{Soft_Dotted}
 
@@ -1424,7 +1424,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty30R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty30R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty31R0: // UnicodeProperty : ∙\p{Terminal_Punctuation}
 
@@ -1433,7 +1433,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty31R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty31R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty32R0: // UnicodeProperty : ∙\p{Unified_Ideograph}
 
@@ -1442,7 +1442,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty32R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty32R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty33R0: // UnicodeProperty : ∙\p{Variation_Selector}
 
@@ -1451,7 +1451,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty33R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty33R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeProperty34R0: // UnicodeProperty : ∙\p{White_Space}
 
@@ -1460,7 +1460,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeProperty) {
 				p.rtn(symbols.NT_UnicodeProperty, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeProperty34R0, p.cI, followSets[symbols.NT_UnicodeProperty])
+				p.parseError(slot.UnicodeProperty34R1, p.cI, followSets[symbols.NT_UnicodeProperty])
 			}
 		case slot.UnicodeSet0R0: // UnicodeSet : ∙'[ UnicodeSetSpec UnicodeSetSpecs ]'
 
@@ -1492,7 +1492,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeSet) {
 				p.rtn(symbols.NT_UnicodeSet, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeSet0R0, p.cI, followSets[symbols.NT_UnicodeSet])
+				p.parseError(slot.UnicodeSet0R4, p.cI, followSets[symbols.NT_UnicodeSet])
 			}
 		case slot.UnicodeSetSpec0R0: // UnicodeSetSpec : ∙UnicodeCategory
 
@@ -1502,7 +1502,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeSetSpec) {
 				p.rtn(symbols.NT_UnicodeSetSpec, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeSetSpec0R0, p.cI, followSets[symbols.NT_UnicodeSetSpec])
+				p.parseError(slot.UnicodeSetSpec0R1, p.cI, followSets[symbols.NT_UnicodeSetSpec])
 			}
 		case slot.UnicodeSetSpec1R0: // UnicodeSetSpec : ∙UnicodeProperty
 
@@ -1512,7 +1512,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeSetSpec) {
 				p.rtn(symbols.NT_UnicodeSetSpec, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeSetSpec1R0, p.cI, followSets[symbols.NT_UnicodeSetSpec])
+				p.parseError(slot.UnicodeSetSpec1R1, p.cI, followSets[symbols.NT_UnicodeSetSpec])
 			}
 		case slot.UnicodeSetSpecs0R0: // UnicodeSetSpecs : ∙
 			p.bsrSet.AddEmpty(slot.UnicodeSetSpecs0R0, p.cI)
@@ -1530,7 +1530,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeSetSpecs) {
 				p.rtn(symbols.NT_UnicodeSetSpecs, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeSetSpecs1R0, p.cI, followSets[symbols.NT_UnicodeSetSpecs])
+				p.parseError(slot.UnicodeSetSpecs1R1, p.cI, followSets[symbols.NT_UnicodeSetSpecs])
 			}
 		case slot.UnicodeSpecList0R0: // UnicodeSpecList : ∙PlusOrMinUnicodeSet
 
@@ -1540,7 +1540,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeSpecList) {
 				p.rtn(symbols.NT_UnicodeSpecList, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeSpecList0R0, p.cI, followSets[symbols.NT_UnicodeSpecList])
+				p.parseError(slot.UnicodeSpecList0R1, p.cI, followSets[symbols.NT_UnicodeSpecList])
 			}
 		case slot.UnicodeSpecList1R0: // UnicodeSpecList : ∙PlusOrMinUnicodeSet UnicodeSpecList
 
@@ -1558,7 +1558,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 			if p.follow(symbols.NT_UnicodeSpecList) {
 				p.rtn(symbols.NT_UnicodeSpecList, cU, p.cI)
 			} else {
-				p.parseError(slot.UnicodeSpecList1R0, p.cI, followSets[symbols.NT_UnicodeSpecList])
+				p.parseError(slot.UnicodeSpecList1R2, p.cI, followSets[symbols.NT_UnicodeSpecList])
 			}
 
 		default:
@@ -1566,6 +1566,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 		}
 	}
 	if !p.bsrSet.Contain(symbols.NT_GoGLL, 0, m) {
+		p.trailingTokenErrors()
 		p.sortParseErrors()
 		return nil, p.parseErrors
 	}
@@ -1723,7 +1724,7 @@ type descriptors struct {
 
 func (ds *descriptors) contain(d *descriptor) bool {
 	for _, d1 := range ds.set {
-		if d1 == d {
+		if *d1 == *d {
 			return true
 		}
 	}
@@ -12192,6 +12193,20 @@ func (p *parser) parseError(slot slot.Label, i int, expected map[token.Type]stri
 	p.parseErrors = append(p.parseErrors, pe)
 }
 
+// trailingTokenErrors adds an error for every parse of the start symbol, which
+// ends before the end of the input at a token in the follow set of the start
+// symbol.
+func (p *parser) trailingTokenErrors() {
+	for _, b := range p.bsrSet.GetAll() {
+		if b.Label.Head() == symbols.NT_GoGLL && b.LeftExtent() == 0 {
+			p.cI = b.RightExtent()
+			if p.follow(symbols.NT_GoGLL) {
+				p.parseError(b.Label, p.cI, map[token.Type]string{token.EOF: token.EOF.ID()})
+			}
+		}
+	}
+}
+
 func (p *parser) sortParseErrors() {
 	sort.Slice(p.parseErrors,
 		func(i, j int) bool {
diff --git a/sppf/sppf.go b/sppf/sppf.go
index a303495..304a6ff 100644
--- a/sppf/sppf.go
+++ b/sppf/sppf.go
@@ -69,15 +69,15 @@ func slotString(nt symbols.NT, body symbols.Symbols, pos int) string {
 }
 
 func (n *IntermediateNode) Label() string {
-	return fmt.Sprintf("\"%s:,%d,%d\"", slotString(n.NT, n.Body, n.Pos), n.Lext, n.Rext)
+	return fmt.Sprintf("%q", fmt.Sprintf("%s:,%d,%d", slotString(n.NT, n.Body, n.Pos), n.Lext, n.Rext))
 }
 
 func (n *SymbolNode) Label() string {
-	return fmt.Sprintf("\"%s,%d,%d\"", n.Symbol, n.Lext, n.Rext)
+	return fmt.Sprintf("%q", fmt.Sprintf("%s,%d,%d", n.Symbol, n.Lext, n.Rext))
 }
 
 func (n *PackedNode) Label() string {
-	return fmt.Sprintf("\"%s,%d\"", slotString(n.NT, n.Body, n.Pos), n.Pivot)
+	return fmt.Sprintf("%q", fmt.Sprintf("%s,%d,%d,%d", slotString(n.NT, n.Body, n.Pos), n.Lext, n.Pivot, n.Rext))
 }
 
 func (n *IntermediateNode) String() string {
@@ -95,18 +95,40 @@ func (n *PackedNode) String() string {
 //---- Dot ----
 
 type dotBuilder struct {
-	iNodes map[*IntermediateNode]bool
-	pNodes map[string]bool // index PN Label
-	sNodes map[*SymbolNode]bool
-	w      *bytes.Buffer
+	nodes map[string]bool // index = node.Label()
+	w     *bytes.Buffer
 }
 
+func (bld *dotBuilder) add(n Node) {
+	// fmt.Printf("dotBuilder.add: %s\n", n.Label())
+	if bld.done(n) {
+		panic(fmt.Sprintf("duplicate %s", n.Label()))
+	}
+	// fmt.Println(" Before:")
+	// bld.dumpNodes()
+
+	bld.nodes[n.Label()] = true
+
+	// fmt.Println(" After:")
+	// bld.dumpNodes()
+	// fmt.Println()
+}
+
+func (bld *dotBuilder) done(n Node) bool {
+	return bld.nodes[n.Label()]
+}
+
+func (bld *dotBuilder) dumpNodes() {
+	for n, t := range bld.nodes {
+		fmt.Printf("  %s = %t\n", n, t)
+	}
+}
+
+// DotFile writes a graph representation of the SPPF in dot notation to file
 func (root *SymbolNode) DotFile(file string) {
 	bld := &dotBuilder{
-		iNodes: make(map[*IntermediateNode]bool),
-		pNodes: make(map[string]bool),
-		sNodes: make(map[*SymbolNode]bool),
-		w:      new(bytes.Buffer),
+		nodes: make(map[string]bool),
+		w:     new(bytes.Buffer),
 	}
 	fmt.Fprintln(bld.w, "digraph SPPF {")
 	root.dot(bld)
@@ -117,23 +139,60 @@ func (root *SymbolNode) DotFile(file string) {
 func (n *IntermediateNode) dot(bld *dotBuilder) {
 	// fmt.Println("in.dot", n.Label())
 
+	if bld.done(n) {
+		return
+	}
+	bld.add(n)
+
 	fmt.Fprintf(bld.w, "%s [shape=box]\n", n.Label())
 
 	for _, c := range n.Children {
 		fmt.Fprintf(bld.w, "%s -> %s\n", n.Label(), c.Label())
-		if !bld.pNodes[c.Label()] {
+		if !bld.done(c) {
 			c.dot(bld)
 		}
 	}
 }
 
+func (n *PackedNode) dot(bld *dotBuilder) {
+	// fmt.Println("pn.dot", n.Label(), "exist", bld.nodes[n.Label()])
+
+	if bld.done(n) {
+		return
+	}
+	bld.add(n)
+
+	fmt.Fprintf(bld.w, "%s [shape=box,style=rounded,penwidth=3]\n", n.Label())
+	if n.LeftChild != nil {
+		if !bld.done(n.LeftChild) {
+			n.LeftChild.dot(bld)
+		}
+		fmt.Fprintf(bld.w, "%s -> %s\n", n.Label(), n.LeftChild.Label())
+	}
+	if n.RightChild != nil {
+		if !bld.done(n.RightChild) {
+			n.RightChild.dot(bld)
+		}
+		fmt.Fprintf(bld.w, "%s -> %s\n", n.Label(), n.RightChild.Label())
+	}
+	if n.LeftChild != nil && n.RightChild != nil {
+		fmt.Fprintf(bld.w, "%s,%s\n", n.LeftChild.Label(), n.RightChild.Label())
+	}
+}
+
 func (n *SymbolNode) dot(bld *dotBuilder) {
-	// fmt.Println("sn.dot", n.Label())
+	// fmt.Println("sn.dot", n.Label(), "done=", bld.done(n))
+
+	if bld.done(n) {
+		return
+	}
+	bld.add(n)
 
 	fmt.Fprintln(bld.w, n.Label())
 	for _, pn := range n.Children {
+		// fmt.Printf("  child: %s\n", pn.Label())
 		fmt.Fprintf(bld.w, "%s -> %s\n", n.Label(), pn.Label())
-		if !bld.pNodes[pn.Label()] {
+		if !bld.done(pn) {
 			pn.dot(bld)
 		}
 	}
@@ -147,21 +206,3 @@ func (n *SymbolNode) dot(bld *dotBuilder) {
 
 }
 
-func (n *PackedNode) dot(bld *dotBuilder) {
-	// fmt.Println("pn.dot", n.Label(), "exist", bld.pNodes[n.Label()])
-
-	fmt.Fprintf(bld.w, "%s [shape=box,style=rounded]\n", n.Label())
-	if n.LeftChild != nil {
-		n.LeftChild.dot(bld)
-		fmt.Fprintf(bld.w, "%s -> %s\n", n.Label(), n.LeftChild.Label())
-	}
-	if n.RightChild != nil {
-		n.RightChild.dot(bld)
-		fmt.Fprintf(bld.w, "%s -> %s\n", n.Label(), n.RightChild.Label())
-	}
-	if n.LeftChild != nil && n.RightChild != nil {
-		fmt.Fprintf(bld.w, "%s,%s\n", n.LeftChild.Label(), n.RightChild.Label())
-	}
-	bld.pNodes[n.Label()] = true
-}
-
diff --git a/token/token.go b/token/token.go
index 2445015..6239bb0 100755
--- a/token/token.go
+++ b/token/token.go
@@ -49,7 +49,7 @@ func (t *Token) GetInput() []rune {
     return t.input
 }
 
-// Lext returns the left extent of t
+// Lext returns the left extent of t in the input stream of runes
 func (t *Token) Lext() int {
     return t.lext
 }
@@ -93,7 +93,7 @@ func (t *Token) LiteralStringStripEscape() string {
 	return string(t.LiteralStripEscape())
 }
 
-// Rext returns the right extent of t in the input
+// Rext returns the right extent of t in the input stream of runes
 func (t *Token) Rext() int {
     return t.rext
 }
-- 
2.43.0


From 000bc25892a7ce11ff8072bda1a6ca896b6288ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:19 +0000
Subject: [PATCH 27/43] fix: write the verbose symbols, FIRST and FOLLOW
 reports in a fixed order

---
 ast/ast.go                     | 2 +-
 gen/firstfollow/firstfollow.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 0368357..8fcf0de 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -90,7 +90,7 @@ func (g *GoGLL) GetSyntaxRule(nt string) *SyntaxRule {
 }
 
 func (g *GoGLL) GetSymbols() []string {
-	return append(g.Terminals.Elements(), g.NonTerminals.Elements()...)
+	return append(g.Terminals.ElementsSorted(), g.NonTerminals.ElementsSorted()...)
 }
 
 func (g *GoGLL) StartSymbol() string {
diff --git a/gen/firstfollow/firstfollow.go b/gen/firstfollow/firstfollow.go
index 312bdf1..4fafd98 100644
--- a/gen/firstfollow/firstfollow.go
+++ b/gen/firstfollow/firstfollow.go
@@ -49,21 +49,21 @@ func genFirstSets(w io.Writer, g *ast.GoGLL, ff *frstflw.FF) {
 
 func genFirstSet(w io.Writer, symbol string, ff *frstflw.FF) {
 	fmt.Fprintf(w, "%s: ", symbol)
-	for _, s := range ff.FirstOfSymbol(symbol).Elements() {
+	for _, s := range ff.FirstOfSymbol(symbol).ElementsSorted() {
 		fmt.Fprintf(w, `%s `, s)
 	}
 	fmt.Fprintln(w)
 }
 
 func genFollowSets(w io.Writer, g *ast.GoGLL, ff *frstflw.FF) {
-	for _, s := range g.NonTerminals.Elements() {
+	for _, s := range g.NonTerminals.ElementsSorted() {
 		genFollowSet(w, s, ff)
 	}
 }
 
 func genFollowSet(w io.Writer, nt string, ff *frstflw.FF) {
 	fmt.Fprintf(w, "Follow(%s): ", nt)
-	for _, s := range ff.Follow(nt).Elements() {
+	for _, s := range ff.Follow(nt).ElementsSorted() {
 		fmt.Fprintf(w, `%s `, s)
 	}
 	fmt.Fprintln(w)
-- 
2.43.0


From 5a84a668786528746ea1367b047718e909be073d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:05 +0000
Subject: [PATCH 28/43] fix: keep string literals apart from the symbols they
 are spelled like

A string literal with the value of a token ID, a non-terminal or one of the
names of the end of input, the error token and the empty string was taken for
that symbol. It now has its own ID, its value in quotes.
---
 ast/ast.go         | 12 ++++++++++--
 ast/build.go       | 34 ++++++++++++++++++++++++++++++++++
 ast/lex.go         | 12 ++++++++++--
 lr1/first/first.go |  2 +-
 4 files changed, 55 insertions(+), 5 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 8fcf0de..e3ef71b 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -43,6 +43,8 @@ type Package struct {
 
 type TokID struct {
 	tok *token.Token
+	// id is set if the ID is not the literal of tok
+	id string
 }
 
 type Terminal interface {
@@ -65,11 +67,11 @@ func (g *GoGLL) GetLexRule(id string) *LexRule {
 	return nil
 }
 
-// GetStringLiterals returns a sorted slice of the string literals
+// GetStringLiterals returns a sorted slice of the IDs of the string literals
 func (g *GoGLL) GetStringLiterals() []string {
 	slits := make([]string, 0, len(g.StringLiterals))
 	for _, sl := range g.StringLiterals {
-		slits = append(slits, string(sl.Value()))
+		slits = append(slits, sl.ID())
 	}
 	sort.Slice(slits, func(i, j int) bool { return slits[i] < slits[j] })
 	return slits
@@ -115,6 +117,9 @@ func (p *Package) GetString() string {
 }
 
 func (s *StringLit) String() string {
+	if s.id != "" {
+		return s.id
+	}
 	return string(s.tok.Literal()[1 : len(s.tok.Literal())-1])
 }
 
@@ -131,5 +136,8 @@ func (t *TokID) Lext() int {
 }
 
 func (t *TokID) ID() string {
+	if t.id != "" {
+		return t.id
+	}
 	return t.tok.LiteralStringStripEscape()
 }
diff --git a/ast/build.go b/ast/build.go
index 6bb676e..72ea6cd 100644
--- a/ast/build.go
+++ b/ast/build.go
@@ -53,6 +53,7 @@ func Build(root bsr.BSR, l *lexer.Lexer, file string) *GoGLL {
 		charLiterals: stringset.New(),
 	}
 	bld.goGLL(root)
+	bld.distinguishStringLits()
 	bld.gogll.NonTerminals = bld.nonTerminals()
 	bld.gogll.StringLiterals = bld.getStringLiterals()
 	bld.gogll.Terminals = bld.terminals()
@@ -97,6 +98,39 @@ func (bld *builder) rules(b bsr.BSR) {
 	bld.rule(b.GetNTChildI(0))
 }
 
+// distinguishStringLits gives the string literals that have the value of the
+// name of another symbol an ID of their own.
+func (bld *builder) distinguishStringLits() {
+	// The names of the end of input, the error token and the empty strings
+	names := stringset.New("$", "Error", "ϵ", "ℇ")
+	for _, r := range bld.gogll.LexRules {
+		names.Add(r.ID())
+	}
+	for _, r := range bld.gogll.SyntaxRules {
+		names.Add(r.ID())
+	}
+	slits, values := []*StringLit{}, stringset.New()
+	for _, r := range bld.gogll.SyntaxRules {
+		for _, a := range r.Alternates {
+			for _, s := range a.Symbols {
+				if sl, ok := s.(*StringLit); ok {
+					slits = append(slits, sl)
+					values.Add(sl.ID())
+				}
+			}
+		}
+	}
+	for _, sl := range slits {
+		if names.Contain(sl.ID()) {
+			id := fmt.Sprintf("\"%s\"", sl.ID())
+			for values.Contain(id) {
+				id = fmt.Sprintf("\"%s\"", id)
+			}
+			sl.id = id
+		}
+	}
+}
+
 func (bld *builder) nonTerminals() *stringset.StringSet {
 	nts := stringset.New()
 	for _, r := range bld.gogll.SyntaxRules {
diff --git a/ast/lex.go b/ast/lex.go
index a866a1c..2f49d8c 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -123,6 +123,8 @@ type RegExp struct {
 
 type StringLit struct {
 	tok *token.Token
+	// id is set if the value of the literal is also the name of another symbol
+	id string
 }
 
 type UnicodeClass struct {
@@ -389,7 +391,12 @@ func (sl *StringLit) ContainsWhiteSpace() bool {
 	return false
 }
 
+// ID returns the value of sl or, if that is also the name of another symbol,
+// the value in quotes
 func (sl *StringLit) ID() string {
+	if sl.id != "" {
+		return sl.id
+	}
 	return string(sl.Value())
 }
 
@@ -679,11 +686,12 @@ func (u *UnicodeSet) Subset(sup *UnicodeSet) bool {
 
 /*** Utils ***/
 
-// StringLitToTokID returns a dummy TokID with ID = id
+// StringLitToTokID returns a dummy TokID with ID = id.ID()
 func StringLitToTokID(id *StringLit) *TokID {
 	return &TokID{
-		token.New(token.StringToType["tokid"],
+		tok: token.New(token.StringToType["tokid"],
 			id.tok.Lext()+1, id.tok.Rext()-1, id.tok.GetInput()),
+		id: id.id,
 	}
 }
 
diff --git a/lr1/first/first.go b/lr1/first/first.go
index 9235402..31744ce 100644
--- a/lr1/first/first.go
+++ b/lr1/first/first.go
@@ -77,7 +77,7 @@ func (this *First) firstTerms(alt *ast.SyntaxAlternate) (first FirstSet) {
 				}
 			}
 		case *ast.StringLit:
-			first, _ = first.Add(string(term.Value()))
+			first, _ = first.Add(term.ID())
 			return
 		default:
 			panic("Invalid")
-- 
2.43.0


From 83c91aab15197c02e39953c25226bd6d023a08d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:06 +0000
Subject: [PATCH 29/43] fix: declare no parameter type for the empty alternates
 of the LR(1) AST

---
 gen/golang/lr1/ast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/golang/lr1/ast/ast.go b/gen/golang/lr1/ast/ast.go
index 71aa95c..069846a 100644
--- a/gen/golang/lr1/ast/ast.go
+++ b/gen/golang/lr1/ast/ast.go
@@ -137,7 +137,7 @@ import(
 
 {{range $bprod := .BasicProds}}{{$bp := $bprod}}
 // {{$bp.Comment}}
-func {{$bp.ID}}({{range $i, $p := $bp.Params}}{{if ne $i 0}}, {{end}}p{{$i}}{{end}} interface{})(interface{}, error){
+func {{$bp.ID}}({{range $i, $p := $bp.Params}}{{if ne $i 0}}, {{end}}p{{$i}}{{end}}{{if $bp.Params}} interface{}{{end}})(interface{}, error){
     fmt.Println("ast.{{$bprod.ID}} is unimplemented")
     return nil, nil
 }
-- 
2.43.0


From 658ae85753f7891e63507e4e7f8429c94f79e4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:06 +0000
Subject: [PATCH 30/43] fix: do not let a literal end the comment of an LR(1)
 action

---
 gen/golang/lr1/parser/actionrow.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gen/golang/lr1/parser/actionrow.go b/gen/golang/lr1/parser/actionrow.go
index f320ecc..803f55e 100644
--- a/gen/golang/lr1/parser/actionrow.go
+++ b/gen/golang/lr1/parser/actionrow.go
@@ -17,6 +17,7 @@ package parser
 import (
 	"bytes"
 	"fmt"
+	"strings"
 	"text/template"
 
 	"github.com/goccmack/gogll/v3/lr1/action"
@@ -53,13 +54,15 @@ func getActionRowData(prods []*basicprod.Production, state *states.State, action
 	for _, sym := range symbols.GetTerminals() {
 		if actions[sym.Literal()] != nil {
 			var actStr string
+			// A literal may not end the comment
+			comment := strings.ReplaceAll(fmt.Sprint(sym), "*/", "* /")
 			switch act := actions[sym.Literal()].(type) {
 			case action.Accept:
-				actStr = fmt.Sprintf("accept(true),\t\t/* %s */", sym)
+				actStr = fmt.Sprintf("accept(true),\t\t/* %s */", comment)
 			case action.Reduce:
-				actStr = fmt.Sprintf("reduce(%d),\t\t/* %s, reduce: %s */", int(act), sym, prods[int(act)].Head)
+				actStr = fmt.Sprintf("reduce(%d),\t\t/* %s, reduce: %s */", int(act), comment, prods[int(act)].Head)
 			case action.Shift:
-				actStr = fmt.Sprintf("shift(%d),\t\t/* %s */", int(act), sym)
+				actStr = fmt.Sprintf("shift(%d),\t\t/* %s */", int(act), comment)
 			default:
 				panic(fmt.Sprintf("Unknown action type: %T", act))
 			}
-- 
2.43.0


From 9deff2ace860149b26529d271c9602007e1118a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:06 +0000
Subject: [PATCH 31/43] fix: give the augmented start symbol of LR(1) an ID no
 rule has

---
 lr1/basicprod/basicprod.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lr1/basicprod/basicprod.go b/lr1/basicprod/basicprod.go
index 2c65e85..f9ad88b 100644
--- a/lr1/basicprod/basicprod.go
+++ b/lr1/basicprod/basicprod.go
@@ -16,7 +16,7 @@ type Production struct {
 func Get(rules []*ast.SyntaxRule) (prods []*Production) {
 	prods = append(prods,
 		&Production{
-			Head: "G0",
+			Head: startHead(rules),
 			Body: &ast.SyntaxAlternate{
 				Symbols: []ast.SyntaxSymbol{rules[0].Head},
 			},
@@ -34,6 +34,20 @@ func Get(rules []*ast.SyntaxRule) (prods []*Production) {
 	return prods
 }
 
+// startHead returns the ID of the augmented start symbol, which is not the ID
+// of any rule
+func startHead(rules []*ast.SyntaxRule) string {
+	ids := make(map[string]bool)
+	for _, r := range rules {
+		ids[r.ID()] = true
+	}
+	id := "G0"
+	for ids[id] {
+		id += "0"
+	}
+	return id
+}
+
 func (p *Production) String() string {
 	return fmt.Sprintf("%s : %s ;",
 		p.Head,
-- 
2.43.0


From 750e929a8c5d60114f111743801aa19b26155cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:06 +0000
Subject: [PATCH 32/43] fix: recover only on the error token of the LR(1)
 parser

States expecting a terminal called error were taken for recovery states: the
parser popped its stack to them before it reported an error, and listed the
tokens expected there.
---
 lr1/states/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lr1/states/state.go b/lr1/states/state.go
index 0b1519c..403b9a2 100644
--- a/lr1/states/state.go
+++ b/lr1/states/state.go
@@ -57,7 +57,7 @@ func (this *State) Add(cg ...*ConfigGroup) *State {
 
 func (this *State) CanRecover() bool {
 	for _, cfgrp := range this.NonNucleus.List() {
-		if cfgrp.Item.ExpectedSymbol() == "error" {
+		if cfgrp.Item.ExpectedSymbol() == "Error" {
 			return true
 		}
 	}
-- 
2.43.0


From f537da01b6b101fd089cbe9f1ab0dd7d6e745230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 33/43] fix: do not use lexer symbols as formats in lexfsa.txt

---
 lex/item/item.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/item/item.go b/lex/item/item.go
index 7313caa..5f7d9ed 100644
--- a/lex/item/item.go
+++ b/lex/item/item.go
@@ -227,7 +227,7 @@ func (i *Item) stringRegExp(regExp *ast.RegExp, pos *pos.Pos) string {
 		if i.Pos.Equal(pos) {
 			fmt.Fprintf(w, "•")
 		}
-		fmt.Fprintf(w, i.stringSymbol(symbol, pos))
+		fmt.Fprint(w, i.stringSymbol(symbol, pos))
 		pos.Inc()
 	}
 	if i.Pos.Equal(pos) {
-- 
2.43.0


From 26da158781baaea2acd75446c756f0af8be12a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 34/43] fix: generated GLL parsers took quadratic time for
 LL(1) grammars and quartic time in general

The set U of descriptors and the pivots of a string element were searched
linearly, every new call edge searched all popped nodes, and the edges of a
call return forest node were searched linearly. The documented bounds are
linear time for LL productions and cubic time in the worst case.
---
 gen/golang/gll/bsr/bsr.go | 17 +++++++++----
 gen/golang/gll/parser.go  | 52 +++++++++++++++++----------------------
 2 files changed, 34 insertions(+), 35 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index 887a269..7bde0bb 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -73,6 +73,7 @@ type Set struct {
     slotEntries   map[BSR]bool
     ntSlotEntries map[ntSlot][]BSR
     stringEntries map[stringKey][]*stringBSR
+    stringPivots  map[stringPivot]bool
     rightExtent   int
     lex           *lexer.Lexer
 
@@ -108,12 +109,18 @@ type stringBSRs []*stringBSR
 
 type stringKey string
 
+type stringPivot struct {
+    key   stringKey
+    pivot int
+}
+
 // New returns a new initialised BSR Set
 func New(startSymbol symbols.NT, l *lexer.Lexer) *Set {
     return &Set{
         slotEntries:   make(map[BSR]bool),
         ntSlotEntries: make(map[ntSlot][]BSR),
         stringEntries: make(map[stringKey][]*stringBSR),
+        stringPivots:  make(map[stringPivot]bool),
         rightExtent:   0,
         lex:           l,
         startSym:      startSymbol,
@@ -266,12 +273,12 @@ func (s *Set) insert(bsr bsr) {
         nt := ntSlot{b.Label.Head(), b.leftExtent, b.rightExtent}
         s.ntSlotEntries[nt] = append(s.ntSlotEntries[nt], b)
     case *stringBSR:
-        for _, sb := range s.stringEntries[b.key()] {
-            if sb.pivot == b.pivot {
-                return
-            }
+        key := b.key()
+        if s.stringPivots[stringPivot{key, b.pivot}] {
+            return
         }
-        s.stringEntries[b.key()] = append(s.stringEntries[b.key()], b)
+        s.stringPivots[stringPivot{key, b.pivot}] = true
+        s.stringEntries[key] = append(s.stringEntries[key], b)
     default:
         panic(fmt.Sprintf("Invalid type %T", bsr))
     }
diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index c3a7ce4..eac08c3 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -117,10 +117,12 @@ type parser struct {
 	cI int
 
 	R *descriptors
-	U *descriptors
+	U map[descriptor]bool
 
 	popped   map[poppedNode]bool
+	pops     map[clusterNode][]int
 	crf      map[clusterNode][]*crfNode
+	crfEdges map[crfEdge]bool
 	crfNodes map[crfNode]*crfNode
 
 	lex         *lexer.Lexer
@@ -134,11 +136,13 @@ func newParser(l *lexer.Lexer) *parser {
 		cI:     0,
 		lex:    l,
 		R:      &descriptors{},
-		U:      &descriptors{},
+		U:      make(map[descriptor]bool),
 		popped: make(map[poppedNode]bool),
+		pops:   make(map[clusterNode][]int),
 		crf: map[clusterNode][]*crfNode{
 			{symbols.NT_{{.StartSymbol}}, 0}: {},
 		},
+		crfEdges:    map[crfEdge]bool{},
 		crfNodes:    map[crfNode]*crfNode{},
 		bsrSet:      bsr.New(symbols.NT_{{.StartSymbol}}, l),
 		parseErrors: nil,
@@ -216,6 +220,11 @@ type crfNode struct {
 	i int
 }
 
+type crfEdge struct {
+	v clusterNode
+	u *crfNode
+}
+
 /*
 suppose that L is Y ::=αX ·β
 if there is no CRF node labelled (L,i) 
@@ -249,37 +258,29 @@ func (p *parser) call(L slot.Label, i, j int) {
 	if !exist {
 		// fmt.Println("  v !exist")
 		p.crf[ndV] = []*crfNode{u}
+		p.crfEdges[crfEdge{ndV, u}] = true
 		p.ntAdd(X, j)
 	} else {
 		// fmt.Println("  v exist")
-		if !existEdge(v, u) {
+		if !p.crfEdges[crfEdge{ndV, u}] {
 			// fmt.Printf("  !existEdge(%v)\n", u)
 			p.crf[ndV] = append(v, u)
+			p.crfEdges[crfEdge{ndV, u}] = true
 			// fmt.Printf("|popped|=%d\n", len(popped))
-			for pnd := range p.popped {
-				if pnd.X == X && pnd.k == j {
-					p.dscAdd(L, i, pnd.j)
-					p.bsrSet.Add(L, i, j, pnd.j)
-				}
+			for _, h := range p.pops[ndV] {
+				p.dscAdd(L, i, h)
+				p.bsrSet.Add(L, i, j, h)
 			}
 		}
 	}
 }
 
-func existEdge(nds []*crfNode, nd *crfNode) bool {
-	for _, nd1 := range nds {
-		if nd1 == nd {
-			return true
-		}
-	}
-	return false
-}
-
 func (p *parser) rtn(X symbols.NT, k, j int) {
 	// fmt.Printf("p.rtn(%s,%d,%d)\n", X,k,j)
 	pn := poppedNode{X, k, j}
 	if _, exist := p.popped[pn]; !exist {
 		p.popped[pn] = true
+		p.pops[clusterNode{X, k}] = append(p.pops[clusterNode{X, k}], j)
 		for _, nd := range p.crf[clusterNode{X, k}] {
 			p.dscAdd(nd.L, nd.i, j)
 			p.bsrSet.Add(nd.L, nd.i, k, j)
@@ -323,15 +324,6 @@ type descriptors struct {
 	set []*descriptor
 }
 
-func (ds *descriptors) contain(d *descriptor) bool {
-	for _, d1 := range ds.set {
-		if *d1 == *d {
-			return true
-		}
-	}
-	return false
-}
-
 func (ds *descriptors) empty() bool {
 	return len(ds.set) == 0
 }
@@ -362,9 +354,9 @@ func (d *descriptor) String() string {
 func (p *parser) dscAdd(L slot.Label, k, i int) {
 	// fmt.Printf("p.dscAdd(%s,%d,%d)\n", L, k, i)
 	d := &descriptor{L, k, i}
-	if !p.U.contain(d) {
+	if !p.U[*d] {
 		p.R.set = append(p.R.set, d)
-		p.U.set = append(p.U.set, d)
+		p.U[*d] = true
 	}
 }
 
@@ -389,8 +381,8 @@ func (p *parser) DumpR() {
 
 func (p *parser) DumpU() {
 	fmt.Println("U:")
-	for _, d := range p.U.set {
-		fmt.Printf(" %s\n", d)
+	for d := range p.U {
+		fmt.Printf(" %s\n", &d)
 	}
 }
 
-- 
2.43.0


From 192dd0625f61d257c0ec34fd328fd141a1bca816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 35/43] fix: keep a non-terminal named Error apart from the
 error token of the LR(1) parser

The LR(1) tables had shifts on the error token for a non-terminal of that name,
with which the parser recovered from errors: it accepted input that is not in
the language, or panicked on an action that is not a shift.
---
 lr1/states/state.go |  2 +-
 symbols/symbols.go  | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lr1/states/state.go b/lr1/states/state.go
index 403b9a2..cd8fa64 100644
--- a/lr1/states/state.go
+++ b/lr1/states/state.go
@@ -57,7 +57,7 @@ func (this *State) Add(cg ...*ConfigGroup) *State {
 
 func (this *State) CanRecover() bool {
 	for _, cfgrp := range this.NonNucleus.List() {
-		if cfgrp.Item.ExpectedSymbol() == "Error" {
+		if sym := cfgrp.Item.ExpectedSymbol(); sym == "Error" && !symbols.IsNonTerminal(sym) {
 			return true
 		}
 	}
diff --git a/symbols/symbols.go b/symbols/symbols.go
index 7354320..90680b7 100644
--- a/symbols/symbols.go
+++ b/symbols/symbols.go
@@ -258,7 +258,7 @@ func GetNTType(nt string) NT {
 func GetSymbols() []string {
 	symbols := make([]string, 0, len(ntToLiteral)+len(tToTypeString)+1)
 	symbols = append(symbols, ntToLiteral...)
-	symbols = append(symbols, tToLiteral...)
+	symbols = append(symbols, GetTerminalSymbols()...)
 
 	return symbols
 }
@@ -273,9 +273,13 @@ func GetTerminals() []T {
 }
 
 // GetTerminalSymbols returns the list of symbol strings used by code generation
-// modules of the terminals
+// modules of the terminals. Error is not a symbol of the grammar, in which a
+// non-terminal may have its name.
 func GetTerminalSymbols() []string {
-	return tToLiteral
+	if !initialisized {
+		return nil
+	}
+	return tToLiteral[EoF:]
 }
 
 // GetTerminalTypeStrings returns the type strings of the terminals in order of
-- 
2.43.0


From 3d11a690c311454d5051b5ef65dfab7c8e814209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 36/43] fix: give every alternate of a grammar an ID of its own

Alternate 10 of A and alternate 0 of A1 were both called A10: the generated
slots and LR(1) AST functions did not compile.
---
 gen/golang/lr1/ast/ast.go                 |  3 ++-
 gen/golang/lr1/parser/productionstable.go |  5 ++--
 gslot/gslot.go                            |  2 +-
 symbols/symbols.go                        | 32 +++++++++++++++++++++++
 4 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/gen/golang/lr1/ast/ast.go b/gen/golang/lr1/ast/ast.go
index 069846a..53eef32 100644
--- a/gen/golang/lr1/ast/ast.go
+++ b/gen/golang/lr1/ast/ast.go
@@ -27,6 +27,7 @@ import (
 	"github.com/goccmack/gogll/v3/ast"
 	"github.com/goccmack/gogll/v3/cfg"
 	"github.com/goccmack/gogll/v3/lr1/basicprod"
+	"github.com/goccmack/gogll/v3/symbols"
 	"github.com/goccmack/goutil/ioutil"
 )
 
@@ -89,7 +90,7 @@ func getBasicProd(prod *basicprod.Production) *BasicProd {
 			prod.Head,
 			strings.Join(prod.Body.GetSymbols(), " ")),
 
-		ID: fmt.Sprintf("%s%d", prod.Head, prod.Alternate),
+		ID: symbols.AlternateID(prod.Head, prod.Alternate),
 
 		Params: getParams(prod.Body),
 
diff --git a/gen/golang/lr1/parser/productionstable.go b/gen/golang/lr1/parser/productionstable.go
index 9db20db..ae2725f 100644
--- a/gen/golang/lr1/parser/productionstable.go
+++ b/gen/golang/lr1/parser/productionstable.go
@@ -51,9 +51,8 @@ func getProdsTab(pkg string, prods []*basicprod.Production, states *states.State
 		data.ProdTab[i].Id = prod.Head
 		data.ProdTab[i].NTType = int(symbols.GetNTType(prod.Head))
 		data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
-		data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s%d(%s)",
-			prod.Head,
-			prod.Alternate,
+		data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s(%s)",
+			symbols.AlternateID(prod.Head, prod.Alternate),
 			getParamIDs(len(prod.Body.Symbols)))
 	}
 
diff --git a/gslot/gslot.go b/gslot/gslot.go
index 68fb416..adcd838 100644
--- a/gslot/gslot.go
+++ b/gslot/gslot.go
@@ -71,7 +71,7 @@ func (gs *GSlot) Slots() Slots {
 }
 
 func (s Label) Label() string {
-	return fmt.Sprintf("%s%dR%d", s.Head, s.Alternate, s.Pos)
+	return fmt.Sprintf("%sR%d", symbols.AlternateID(s.Head, s.Alternate), s.Pos)
 }
 
 func (s Label) IsEoR() bool {
diff --git a/symbols/symbols.go b/symbols/symbols.go
index 90680b7..1e1b088 100644
--- a/symbols/symbols.go
+++ b/symbols/symbols.go
@@ -76,6 +76,9 @@ var (
 	tSuppress     []bool
 
 	tToID []string
+
+	// altIDs has the IDs of the alternates of every non-terminal
+	altIDs map[string][]string
 )
 
 // Init initialises the symbols
@@ -121,9 +124,38 @@ func Init(g *ast.GoGLL) {
 		tSuppress[typ] = lr.Suppress
 	}
 
+	initAlternateIDs(g)
+
 	initialisized = true
 }
 
+// initAlternateIDs gives every alternate of g an ID of its own. Alternate 10 of
+// A and alternate 0 of A1 would both be A10.
+func initAlternateIDs(g *ast.GoGLL) {
+	altIDs = make(map[string][]string)
+	ids := make(map[string]bool)
+	for _, r := range g.SyntaxRules {
+		nt := r.Head.ID()
+		for i := range r.Alternates {
+			id := fmt.Sprintf("%s%d", nt, i)
+			for sep := "_"; ids[id]; sep += "_" {
+				id = fmt.Sprintf("%s%s%d", nt, sep, i)
+			}
+			ids[id] = true
+			altIDs[nt] = append(altIDs[nt], id)
+		}
+	}
+}
+
+// AlternateID returns the ID of alternate alt of nt, which is used by code
+// generation modules
+func AlternateID(nt string, alt int) string {
+	if ids := altIDs[nt]; alt < len(ids) {
+		return ids[alt]
+	}
+	return fmt.Sprintf("%s%d", nt, alt)
+}
+
 func IsNonTerminal(sym string) bool {
 	_, exist := literalToNT[sym]
 	return exist
-- 
2.43.0


From 9eb972cc61ac177a72fdfc89bad4a1c07e78aef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 37/43] fix: do not ignore the errors of writing LR(1) files

A parser.go, LR1_conflicts.txt, CFG_items.txt or LR1_states.txt that could not
be written was left out, or cut short, without an error.
---
 gen/golang/lr1/parser/parser.go |  4 +++-
 gen/rust/lr1/parser/parser.go   |  4 +++-
 lr1/gen.go                      | 12 +++++++++---
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/gen/golang/lr1/parser/parser.go b/gen/golang/lr1/parser/parser.go
index 4fc5e30..507b9e6 100644
--- a/gen/golang/lr1/parser/parser.go
+++ b/gen/golang/lr1/parser/parser.go
@@ -35,7 +35,9 @@ func genParser(pkg string, prods []*basicprod.Production, states *states.States)
 	if err := tmpl.Execute(wr, getParserData(pkg, prods, states)); err != nil {
 		panic(err)
 	}
-	ioutil.WriteFile(path.Join(cfg.BaseDir, "parser", "parser.go"), wr.Bytes())
+	if err := ioutil.WriteFile(path.Join(cfg.BaseDir, "parser", "parser.go"), wr.Bytes()); err != nil {
+		panic(err)
+	}
 }
 
 type parserData struct {
diff --git a/gen/rust/lr1/parser/parser.go b/gen/rust/lr1/parser/parser.go
index 2f8bf2a..cbd0b6b 100644
--- a/gen/rust/lr1/parser/parser.go
+++ b/gen/rust/lr1/parser/parser.go
@@ -35,7 +35,9 @@ func genParser(pkg string, prods []*basicprod.Production, states *states.States)
 	if err := tmpl.Execute(wr, getParserData(pkg, prods, states)); err != nil {
 		panic(err)
 	}
-	ioutil.WriteFile(path.Join(cfg.BaseDir, "src", "parser", "mod.rs"), wr.Bytes())
+	if err := ioutil.WriteFile(path.Join(cfg.BaseDir, "src", "parser", "mod.rs"), wr.Bytes()); err != nil {
+		panic(err)
+	}
 }
 
 type parserData struct {
diff --git a/lr1/gen.go b/lr1/gen.go
index 092cd01..9f5d77e 100644
--- a/lr1/gen.go
+++ b/lr1/gen.go
@@ -43,8 +43,8 @@ func Gen(g *ast.GoGLL) ([]*basicprod.Production, *states.States, action.Actions)
 	handleConflicts(conflicts, states)
 
 	if cfg.Verbose {
-		ioutil.WriteFile(path.Join(cfg.BaseDir, "CFG_items.txt"), []byte(items.String()))
-		ioutil.WriteFile(path.Join(cfg.BaseDir, "LR1_states.txt"), statesString(states, actions))
+		writeFile(path.Join(cfg.BaseDir, "CFG_items.txt"), []byte(items.String()))
+		writeFile(path.Join(cfg.BaseDir, "LR1_states.txt"), statesString(states, actions))
 	}
 
 	return prods, states, actions
@@ -82,7 +82,13 @@ func writeConflicts(conflicts [][]*action.Conflict) {
 			conflictNo++
 		}
 	}
-	ioutil.WriteFile(path.Join(cfg.BaseDir, "LR1_conflicts.txt"), w.Bytes())
+	writeFile(path.Join(cfg.BaseDir, "LR1_conflicts.txt"), w.Bytes())
+}
+
+func writeFile(fname string, data []byte) {
+	if err := ioutil.WriteFile(fname, data); err != nil {
+		panic(err)
+	}
 }
 
 // func reduceLabel(state *states.State, actions map[string]action.Action, prods []*basicprod.Production) string {
-- 
2.43.0


From 2fa7e0c0bb46a006f50674be3343e954fff3a0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:26 +0000
Subject: [PATCH 38/43] fix: keep the tabs of markdown text so that columns are
 right

---
 gen/golang/lexer/lexer.go | 5 ++---
 lexer/lexer.go            | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/gen/golang/lexer/lexer.go b/gen/golang/lexer/lexer.go
index b6cbd30..23e3a14 100644
--- a/gen/golang/lexer/lexer.go
+++ b/gen/golang/lexer/lexer.go
@@ -313,9 +313,8 @@ func loadMd(input []rune) {
 		}
 		if i < len(input) {
 			if text {
-				if input[i] == '\n' {
-					input[i] = '\n'
-				} else {
+				// Tabs stay, because they count for more than one column.
+				if input[i] != '\n' && input[i] != '\t' {
 					input[i] = ' '
 				}
 			}
diff --git a/lexer/lexer.go b/lexer/lexer.go
index 5ec8009..e1628c3 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -150,9 +150,8 @@ func loadMd(input []rune) {
 		}
 		if i < len(input) {
 			if text {
-				if input[i] == '\n' {
-					input[i] = '\n'
-				} else {
+				// Tabs stay, because they count for more than one column.
+				if input[i] != '\n' && input[i] != '\t' {
 					input[i] = ' '
 				}
 			}
-- 
2.43.0


From a4cc535afdf2a18e403f93636728b68726a72741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:02 +0000
Subject: [PATCH 39/43] fix: name the AST function of empty productions in the
 Rust productions table

---
 gen/rust/lr1/parser/productionstable.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gen/rust/lr1/parser/productionstable.go b/gen/rust/lr1/parser/productionstable.go
index 869dbb0..9e37317 100644
--- a/gen/rust/lr1/parser/productionstable.go
+++ b/gen/rust/lr1/parser/productionstable.go
@@ -67,14 +67,13 @@ func getProdsTab(pkg string, prods []*basicprod.Production, states *states.State
 		data.ProdTab[i].String = fmt.Sprintf("\"%s\"", prod.String())
 		data.ProdTab[i].Id = prod.Head
 		data.ProdTab[i].NTType = int(symbols.GetNTType(prod.Head))
+		data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
+		data.ProdTab[i].ReduceFuncID = fmt.Sprintf("%s_%d",
+			strcase.ToSnake(prod.Head),
+			prod.Alternate)
 		if len(prod.Body.Symbols) == 0 {
-			data.ProdTab[i].NumSymbols = 0
 			data.ProdTab[i].ReduceFunc = fmt.Sprintf("Ok(None)")
 		} else {
-			data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
-			data.ProdTab[i].ReduceFuncID = fmt.Sprintf("%s_%d",
-				strcase.ToSnake(prod.Head),
-				prod.Alternate)
 			data.ProdTab[i].ReduceFuncParams = getParamIDs(len(prod.Body.Symbols))
 			data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s_%d(%s)",
 				strcase.ToSnake(prod.Head),
-- 
2.43.0


From 2d934f950607e006cf71fc4735b4ff47c564fee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:02 +0000
Subject: [PATCH 40/43] fix: return the children of all prefixes of a BSR in
 Rust

---
 gen/rust/gll/bsr/bsr.go | 53 ++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/gen/rust/gll/bsr/bsr.go b/gen/rust/gll/bsr/bsr.go
index 2411b49..a8ecd39 100644
--- a/gen/rust/gll/bsr/bsr.go
+++ b/gen/rust/gll/bsr/bsr.go
@@ -249,30 +249,46 @@ impl Set {
 
     // get_nt_children_i returns all the BSRs of NT symbol[i] in s
     #[allow(dead_code)]
-    pub fn get_nt_children_i(&self, b: Rc<BSR>, i: usize) -> &Vec<Rc<BSR>> {
+    pub fn get_nt_children_i(&self, b: Rc<BSR>, i: usize) -> Vec<Rc<BSR>> {
         if i >= b.label.symbols().len() {
             fail(format!("Error: cannot get NT child {} of {}", i, b))
         }
         if b.label.symbols().len() == 1 {
-            return self.get_nt_slot(&b.label.symbols()[i], b.pivot, b.rext)
+            return self.get_nt_slot(&b.label.symbols()[i], b.pivot, b.rext).clone()
         }
         if b.label.symbols().len() == 2 {
             if i == 0 {
-                return self.get_nt_slot(&b.label.symbols()[i], b.lext, b.pivot)
+                return self.get_nt_slot(&b.label.symbols()[i], b.lext, b.pivot).clone()
             }
-            return self.get_nt_slot(&b.label.symbols()[i], b.pivot, b.rext)
+            return self.get_nt_slot(&b.label.symbols()[i], b.pivot, b.rext).clone()
         }
+        // Walk to symbol i from the right. The prefix of b up to symbol i may 
+        // have more than one parse.
         let mut idx = b.label.index();
-        let mut str_bsr = Rc::new(BSR{label: b.label, lext: b.lext, pivot: b.pivot, rext: b.rext});
+        let mut strs = vec![b.clone()];
         while idx.pos > i+1 && idx.pos > 2 {
             idx.pos -= 1;
-            str_bsr = self.get_string(slot::get_label(&idx.nt, idx.alt, idx.pos), 
-                str_bsr.lext, str_bsr.pivot);
+            let label = slot::get_label(&idx.nt, idx.alt, idx.pos);
+            let mut prefixes: Vec<Rc<BSR>> = Vec::new();
+            for st in strs.iter() {
+                for prefix in self.get_strings(label, st.lext, st.pivot) {
+                    if !prefixes.contains(&prefix) {
+                        prefixes.push(prefix)
+                    }
+                }
+            }
+            strs = prefixes;
         }
-        if i == 0 {
-            return self.get_nt_slot(&b.label.symbols()[i], str_bsr.lext, str_bsr.pivot)
+        let mut extents: Vec<(usize, usize)> = Vec::new();
+        let mut bsrs: Vec<Rc<BSR>> = Vec::new();
+        for st in strs.iter() {
+            let extent = if i == 0 { (st.lext, st.pivot) } else { (st.pivot, st.rext) };
+            if !extents.contains(&extent) {
+                extents.push(extent);
+                bsrs.extend(self.get_nt_slot(&b.label.symbols()[i], extent.0, extent.1).iter().cloned())
+            }
         }
-        return self.get_nt_slot(&b.label.symbols()[i], str_bsr.pivot, str_bsr.rext)
+        bsrs
     }
 
     fn get_nt_slot(&self, sym: &Symbol, lext: usize, rext: usize) -> &Vec<Rc<BSR>> {
@@ -286,14 +302,17 @@ impl Set {
         panic!("{} is not an NT at line {} col {}", sym, line, col);
     }
     
-    fn get_string(&self, l: slot::Label, lext: usize, rext: usize) -> Rc<BSR> {
-        for st in self.string_entries.keys() {
-            if st.label == l && st.lext == lext && st.rext == rext {
-                return st.clone()
-            }
+    // get_strings returns the string BSRs of l, one for each pivot.
+    fn get_strings(&self, l: slot::Label, lext: usize, rext: usize) -> Vec<Rc<BSR>> {
+        let strs: Vec<Rc<BSR>> = self.string_entries.keys()
+            .filter(|st| st.label == l && st.lext == lext && st.rext == rext)
+            .cloned()
+            .collect();
+        if strs.len() == 0 {
+            panic!("Error: no string BSR {} left extent={} right extent={} pos={}",
+                symbols::to_string(l.symbols()), lext, rext, l.pos())
         }
-        panic!("Error: no string BSR {} left extent={} right extent={} pos={}",
-            symbols::to_string(l.symbols()), lext, rext, l.pos())
+        strs
     }
 
     /**
-- 
2.43.0


From c483814af3ea4dca7c28d4573a0bbe03253f3cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:02 +0000
Subject: [PATCH 41/43] fix: report an error in Rust if a parse ends before the
 end of the input

---
 gen/rust/gll/parser/parser.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/gen/rust/gll/parser/parser.go b/gen/rust/gll/parser/parser.go
index 57160c5..4e3d68c 100644
--- a/gen/rust/gll/parser/parser.go
+++ b/gen/rust/gll/parser/parser.go
@@ -176,7 +176,8 @@ struct ParseError {
 // Expected indicates whether to use the First or Follow set for the exported error.
 enum Expected {
     First,
-    Follow(NT)
+    Follow(NT),
+    EOF,
 }
 
 #[derive(Hash, Eq, PartialEq, Debug, Clone, Copy)]
@@ -206,6 +207,7 @@ pub fn parse(l: Rc<lexer::Lexer>) -> (Box<bsr::Set>, Vec<Box<Error>>) {
     let mut p = Parser::new(l.clone());
     p.parse();
     if !p.bsr_set.contain(&NT::{{.StartSymbol}}, 0, l.tokens.len()-1) {
+        p.trailing_token_errors();
         let errors = p.export_errors();
         (p.bsr_set, errors)
     } else {
@@ -398,6 +400,26 @@ impl Parser {
         );
     }
 
+    // Add an error for every parse of the start symbol, which ends before the end 
+    // of the input at a token in the follow set of the start symbol.
+    fn trailing_token_errors(&mut self) {
+        for b in self.bsr_set.get_all() {
+            if b.label.head() == &NT::{{.StartSymbol}} && b.lext == 0 {
+                self.c_i = b.rext;
+                if self.follow(NT::{{.StartSymbol}}) {
+                    self.errors.push(
+                        Box::new(ParseError{
+                            c_i: b.rext, 
+                            slot: b.label, 
+                            token: self.lex.tokens[b.rext].clone(), 
+                            expected: Expected::EOF,
+                        })
+                    );
+                }
+            }
+        }
+    }
+
     fn export_errors(&mut self) -> Vec<Box<Error>> {
         let mut errs: Vec<Box<Error>> = Vec::new();
         self.errors.sort_by(|a,b| a.token.lext.cmp(&b.token.lext));
@@ -410,6 +432,7 @@ impl Parser {
                 expected: match err.expected {
                     Expected::First => FIRST[&err.slot].clone(),
                     Expected::Follow(nt) => FOLLOW[&nt].clone(),
+                    Expected::EOF => Box::new([token::Type::EOF].iter().cloned().collect()),
                 },
                 line: ln,
                 column: col,
-- 
2.43.0


From 3eeab925c9295a27cfdecc70f3dc010a88c806c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:02 +0000
Subject: [PATCH 42/43] fix: the Rust lexer did not end on tokens that match
 the empty string

---
 gen/rust/lexer/lexer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gen/rust/lexer/lexer.go b/gen/rust/lexer/lexer.go
index f690f83..d045c8f 100644
--- a/gen/rust/lexer/lexer.go
+++ b/gen/rust/lexer/lexer.go
@@ -235,9 +235,11 @@ impl Lexer {
 	}
 	
 	fn scan(&mut self, i: usize) -> Rc<token::Token> {
-		let mut s: State = 0;
+		// A token has at least one character, even if its definition matches 
+		// the empty string.
+		let mut s: State = NEXT_STATE[0](self.i[i]);
 		let mut typ = token::Type::Error;
-		let mut rext = i;
+		let mut rext = i + 1;
 
 		while s != NULL_STATE {
 			if rext >= self.i.len() {
-- 
2.43.0


From bfbe612227a42e7fdf4caf854ee25f870d82b6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:02 +0000
Subject: [PATCH 43/43] fix: the Rust lexer panicked on short markdown files
 and missed adjacent fences

---
 gen/rust/lexer/lexer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gen/rust/lexer/lexer.go b/gen/rust/lexer/lexer.go
index d045c8f..f5291f1 100644
--- a/gen/rust/lexer/lexer.go
+++ b/gen/rust/lexer/lexer.go
@@ -311,7 +311,7 @@ fn load_md(input: &mut Vec<char>) -> io::Result<()> {
     let mut i = 0;
     let mut text = true;
     while i < input.len() {
-        if i <= input.len() - 3 && 
+        if i + 3 <= input.len() && 
         || -> bool { input[i] == '{{.Tick}}' && input[i+1] == '{{.Tick}}' && input[i+2] == '{{.Tick}}' }()
         {
             text = !text;
@@ -319,11 +319,13 @@ fn load_md(input: &mut Vec<char>) -> io::Result<()> {
                 input[j] = ' ';
             }
             i += 3;
+            continue;
         }
         if i < input.len() {
             if text {
                 match input[i] {
-                    '\n' => input[i] = '\n',
+                    // Tabs stay, because they count for more than one column.
+                    '\n' | '\t' => (),
                     _ => input[i] = ' ',
                 }
             }
-- 
2.43.0

