From fe60a1f106ec77b90011d2199135da102193f584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 01/83] fix: list keeps the focus on an existing item when the
 filter function changes

---
 components/list/internal/domain/model/list.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/components/list/internal/domain/model/list.go b/components/list/internal/domain/model/list.go
index 63385be..0177540 100644
--- a/components/list/internal/domain/model/list.go
+++ b/components/list/internal/domain/model/list.go
@@ -82,6 +82,7 @@ func (l *List) WithFilter(filterFunc func(*value.Item, string) bool) *List {
 	newList := l.clone()
 	newList.filterFunc = filterFunc
 	newList.applyFilter()
+	newList.resetFocus()
 	return newList
 }
 
-- 
2.43.0


From 489ece1f2d7b95096f3046eefa7fd947a18457a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 02/83] fix: list reports selected items in list order instead
 of random map order

---
 components/list/internal/domain/model/list.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/components/list/internal/domain/model/list.go b/components/list/internal/domain/model/list.go
index 0177540..b920a42 100644
--- a/components/list/internal/domain/model/list.go
+++ b/components/list/internal/domain/model/list.go
@@ -2,6 +2,8 @@
 package model
 
 import (
+	"sort"
+
 	"github.com/phoenix-tui/phoenix/components/list/internal/domain/service"
 	"github.com/phoenix-tui/phoenix/components/list/internal/domain/value"
 )
@@ -210,7 +212,7 @@ func (l *List) ClearSelection() *List {
 // SelectedItems returns the selected items.
 func (l *List) SelectedItems() []*value.Item {
 	result := make([]*value.Item, 0, len(l.selectedIndices))
-	for idx := range l.selectedIndices {
+	for _, idx := range l.SelectedIndices() {
 		if idx < len(l.filteredItems) {
 			result = append(result, l.filteredItems[idx])
 		}
@@ -270,6 +272,7 @@ func (l *List) SelectedIndices() []int {
 	for idx := range l.selectedIndices {
 		result = append(result, idx)
 	}
+	sort.Ints(result) // map order is random
 	return result
 }
 
-- 
2.43.0


From 47a56d6616db92fa87898d0436e9670f5d67eb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 03/83] fix: list treats a negative height as zero instead of
 panicking in View

---
 components/list/internal/domain/model/list.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/components/list/internal/domain/model/list.go b/components/list/internal/domain/model/list.go
index b920a42..ba4b0d0 100644
--- a/components/list/internal/domain/model/list.go
+++ b/components/list/internal/domain/model/list.go
@@ -91,6 +91,9 @@ func (l *List) WithFilter(filterFunc func(*value.Item, string) bool) *List {
 // WithHeight returns a new List with the specified visible height.
 func (l *List) WithHeight(height int) *List {
 	newList := l.clone()
+	if height < 0 {
+		height = 0 // a negative height would panic when rendering
+	}
 	newList.height = height
 	newList.updateScrollOffset()
 	return newList
-- 
2.43.0


From 700ad0d47c4074ac10a99996c2033c390a8739e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 04/83] fix: viewport in follow mode keeps the end in view when
 resized

---
 components/viewport/internal/domain/model/viewport.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/components/viewport/internal/domain/model/viewport.go b/components/viewport/internal/domain/model/viewport.go
index 91e9379..d1782b2 100644
--- a/components/viewport/internal/domain/model/viewport.go
+++ b/components/viewport/internal/domain/model/viewport.go
@@ -68,6 +68,10 @@ func (v *Viewport) WithSize(width, height int) *Viewport {
 	// Clamp scroll offset to new size bounds.
 	maxOffset := newV.scrollSvc.MaxScrollOffset(len(newV.content), height)
 	newV.scrollOffset = newV.scrollOffset.Clamp(maxOffset)
+	if newV.followMode {
+		// Keep the end in view when the viewport shrinks.
+		newV.scrollOffset = value2.NewScrollOffset(newV.scrollSvc.FollowModeOffset(len(newV.content), newV.size.Height()))
+	}
 
 	return newV
 }
-- 
2.43.0


From 83ccaf9049fe3070df61efe87f86a849f0f5299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 05/83] fix: table with no room for rows renders none instead
 of panicking

---
 components/table/internal/domain/model/table.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/components/table/internal/domain/model/table.go b/components/table/internal/domain/model/table.go
index 9e42ef7..d1873d5 100644
--- a/components/table/internal/domain/model/table.go
+++ b/components/table/internal/domain/model/table.go
@@ -271,6 +271,10 @@ func (t *Table) VisibleRows() []Row {
 		visibleRows--
 	}
 
+	if visibleRows < 0 {
+		visibleRows = 0 // no room for rows next to the header
+	}
+
 	start := t.scrollOffset
 	end := start + visibleRows
 
-- 
2.43.0


From f57daa300e61a836c682ef6dd61523d40ff8985b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 06/83] fix: table keeps the selected row in view when its
 height or header changes

---
 .../table/internal/domain/model/table.go      | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/components/table/internal/domain/model/table.go b/components/table/internal/domain/model/table.go
index d1873d5..3e7073a 100644
--- a/components/table/internal/domain/model/table.go
+++ b/components/table/internal/domain/model/table.go
@@ -68,7 +68,7 @@ func (t *Table) WithRows(rows []Row) *Table {
 
 // WithHeight returns a new table with the specified visible height.
 func (t *Table) WithHeight(height int) *Table {
-	return &Table{
+	return (&Table{
 		columns:       t.columns,
 		rows:          t.rows,
 		sortedRows:    t.sortedRows,
@@ -78,12 +78,12 @@ func (t *Table) WithHeight(height int) *Table {
 		scrollOffset:  t.scrollOffset,
 		height:        height,
 		showHeader:    t.showHeader,
-	}
+	}).ensureVisible()
 }
 
 // WithShowHeader returns a new table with header visibility set.
 func (t *Table) WithShowHeader(show bool) *Table {
-	return &Table{
+	return (&Table{
 		columns:       t.columns,
 		rows:          t.rows,
 		sortedRows:    t.sortedRows,
@@ -93,7 +93,7 @@ func (t *Table) WithShowHeader(show bool) *Table {
 		scrollOffset:  t.scrollOffset,
 		height:        t.height,
 		showHeader:    show,
-	}
+	}).ensureVisible()
 }
 
 // SortBy returns a new table sorted by the specified column and direction.
@@ -231,6 +231,22 @@ func (t *Table) MoveToEnd() *Table {
 	}
 }
 
+// ensureVisible moves the window so that it contains the selected row again.
+// It is called on a freshly made table only.
+func (t *Table) ensureVisible() *Table {
+	visibleRows := t.height
+	if t.showHeader {
+		visibleRows--
+	}
+	if visibleRows > 0 && t.selectedIndex >= t.scrollOffset+visibleRows {
+		t.scrollOffset = t.selectedIndex - visibleRows + 1
+	}
+	if t.scrollOffset > t.selectedIndex {
+		t.scrollOffset = t.selectedIndex
+	}
+	return t
+}
+
 // effectiveRows returns the rows to display (sorted if sorting is active).
 func (t *Table) effectiveRows() []Row {
 	if t.sortedRows != nil {
-- 
2.43.0


From 28c79da36ba0cdde3c8d62cd26cc87e04673faf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 07/83] fix: table measures and truncates cells by display
 width instead of bytes

---
 components/table/table.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/components/table/table.go b/components/table/table.go
index b496527..6b25d12 100644
--- a/components/table/table.go
+++ b/components/table/table.go
@@ -21,6 +21,7 @@ import (
 	"github.com/phoenix-tui/phoenix/components/table/internal/infrastructure"
 	"github.com/phoenix-tui/phoenix/style"
 	tea "github.com/phoenix-tui/phoenix/tea"
+	"github.com/rivo/uniseg"
 )
 
 // Column defines a table column.
@@ -291,7 +292,7 @@ func (t *Table) View() string {
 			// Add selection indicator.
 			if isSelected && colIdx == 0 {
 				if cell != "" {
-					cell = ">" + cell[1:]
+					cell = markCell(cell)
 				}
 			}
 
@@ -310,16 +311,16 @@ func (t *Table) View() string {
 // formatCell formats a cell with alignment and width.
 func (t *Table) formatCell(text string, width int, alignment value2.Alignment) string {
 	// Truncate if too long.
-	if len(text) > width {
+	if uniseg.StringWidth(text) > width {
 		if width > 3 {
-			text = text[:width-3] + "..."
+			text = truncateWidth(text, width-3) + "..."
 		} else {
-			text = text[:width]
+			text = truncateWidth(text, width)
 		}
 	}
 
 	// Pad based on alignment.
-	padding := width - len(text)
+	padding := width - uniseg.StringWidth(text)
 	if padding <= 0 {
 		return text
 	}
@@ -338,6 +339,28 @@ func (t *Table) formatCell(text string, width int, alignment value2.Alignment) s
 	}
 }
 
+// truncateWidth returns the longest prefix of whole characters that fits into width columns.
+func truncateWidth(text string, width int) string {
+	end, used := 0, 0
+	for gr := uniseg.NewGraphemes(text); gr.Next(); {
+		used += gr.Width()
+		if used > width {
+			break
+		}
+		_, end = gr.Positions()
+	}
+	return text[:end]
+}
+
+// markCell replaces the first character of the cell by the selection marker, keeping its width.
+func markCell(cell string) string {
+	first, rest, w, _ := uniseg.FirstGraphemeClusterInString(cell, -1)
+	if first == "" || w < 1 {
+		w = 1
+	}
+	return ">" + strings.Repeat(" ", w-1) + rest
+}
+
 // SelectedRow returns the currently selected row.
 func (t *Table) SelectedRow() Row {
 	return Row(t.domain.SelectedRow())
-- 
2.43.0


From ab092572ffcb8944b8bda3d289c3c890f4692298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 08/83] fix: backspace in the select filters removes a whole
 character

---
 components/multiselect/multiselect.go | 4 +++-
 components/select/select.go           | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/components/multiselect/multiselect.go b/components/multiselect/multiselect.go
index 70a1258..5487aaa 100644
--- a/components/multiselect/multiselect.go
+++ b/components/multiselect/multiselect.go
@@ -37,6 +37,7 @@ package multiselect
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/phoenix-tui/phoenix/components/multiselect/internal/domain/model"
 	"github.com/phoenix-tui/phoenix/components/multiselect/internal/domain/value"
@@ -270,7 +271,8 @@ func (m *MultiSelect[T]) handleFilterInput(newM *MultiSelect[T], msg tea.KeyMsg)
 	if msg.Type == tea.KeyBackspace {
 		currentQuery := m.domain.FilterQuery()
 		if currentQuery != "" {
-			newQuery := currentQuery[:len(currentQuery)-1]
+			_, size := utf8.DecodeLastRuneInString(currentQuery)
+			newQuery := currentQuery[:len(currentQuery)-size]
 			newM.domain = newM.domain.SetFilterQuery(newQuery)
 		}
 		return newM
diff --git a/components/select/select.go b/components/select/select.go
index 565732e..975b9ed 100644
--- a/components/select/select.go
+++ b/components/select/select.go
@@ -30,6 +30,7 @@ package selectcomponent
 
 import (
 	"strings"
+	"unicode/utf8"
 
 	"github.com/phoenix-tui/phoenix/components/select/internal/domain/model"
 	"github.com/phoenix-tui/phoenix/components/select/internal/domain/value"
@@ -190,7 +191,8 @@ func (s *Select[T]) handleFilterInput(newS *Select[T], msg tea.KeyMsg) *Select[T
 	if msg.Type == tea.KeyBackspace {
 		currentQuery := s.domain.FilterQuery()
 		if currentQuery != "" {
-			newQuery := currentQuery[:len(currentQuery)-1]
+			_, size := utf8.DecodeLastRuneInString(currentQuery)
+			newQuery := currentQuery[:len(currentQuery)-size]
 			newS.domain = newS.domain.SetFilterQuery(newQuery)
 		}
 		return newS
-- 
2.43.0


From f34b21b7c1129cc188465e1a5304f41b6fc4e3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 09/83] fix: a new filter function applies to the active filter
 query of the selects

---
 components/multiselect/internal/domain/model/multiselect.go | 6 +++++-
 components/select/internal/domain/model/select.go           | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/components/multiselect/internal/domain/model/multiselect.go b/components/multiselect/internal/domain/model/multiselect.go
index 0d8ef32..b119b1e 100644
--- a/components/multiselect/internal/domain/model/multiselect.go
+++ b/components/multiselect/internal/domain/model/multiselect.go
@@ -64,7 +64,7 @@ func (m *MultiSelect[T]) WithHeight(height int) *MultiSelect[T] {
 
 // WithFilterFunc returns a new MultiSelect with the specified filter function.
 func (m *MultiSelect[T]) WithFilterFunc(fn FilterFunc[T]) *MultiSelect[T] {
-	return &MultiSelect[T]{
+	filtered := &MultiSelect[T]{
 		options:      m.options,
 		cursor:       m.cursor,
 		selection:    m.selection,
@@ -75,6 +75,10 @@ func (m *MultiSelect[T]) WithFilterFunc(fn FilterFunc[T]) *MultiSelect[T] {
 		filterFunc:   fn,
 		renderFunc:   m.renderFunc,
 	}
+	if filtered.filterQuery == "" {
+		return filtered
+	}
+	return filtered.SetFilterQuery(filtered.filterQuery) // apply the new function to the active query
 }
 
 // WithRenderFunc returns a new MultiSelect with the specified render function.
diff --git a/components/select/internal/domain/model/select.go b/components/select/internal/domain/model/select.go
index e7e4800..8ecc564 100644
--- a/components/select/internal/domain/model/select.go
+++ b/components/select/internal/domain/model/select.go
@@ -64,7 +64,7 @@ func (s *Select[T]) WithHeight(height int) *Select[T] {
 
 // WithFilterFunc returns a new Select with the specified filter function.
 func (s *Select[T]) WithFilterFunc(fn FilterFunc[T]) *Select[T] {
-	return &Select[T]{
+	filtered := &Select[T]{
 		options:       s.options,
 		cursor:        s.cursor,
 		selectedIndex: s.selectedIndex,
@@ -75,6 +75,10 @@ func (s *Select[T]) WithFilterFunc(fn FilterFunc[T]) *Select[T] {
 		filterFunc:    fn,
 		renderFunc:    s.renderFunc,
 	}
+	if filtered.filterQuery == "" {
+		return filtered
+	}
+	return filtered.SetFilterQuery(filtered.filterQuery) // apply the new function to the active query
 }
 
 // WithRenderFunc returns a new Select with the specified render function.
-- 
2.43.0


From d09d43d6731bf384fdcfdbf1a2392931df828e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 10/83] fix: disabled options of the selects cannot be chosen

---
 components/multiselect/internal/domain/model/multiselect.go | 6 ++++++
 components/select/internal/domain/model/select.go           | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/components/multiselect/internal/domain/model/multiselect.go b/components/multiselect/internal/domain/model/multiselect.go
index b119b1e..dc1addc 100644
--- a/components/multiselect/internal/domain/model/multiselect.go
+++ b/components/multiselect/internal/domain/model/multiselect.go
@@ -149,6 +149,9 @@ func (m *MultiSelect[T]) Toggle() *MultiSelect[T] {
 	if m.cursor >= 0 && m.cursor < len(m.filteredOpts) {
 		// Find the original index in options array
 		focusedOpt := m.filteredOpts[m.cursor]
+		if focusedOpt.Disabled() {
+			return m
+		}
 		for i, opt := range m.options {
 			if opt == focusedOpt {
 				return m.withSelection(m.selection.Toggle(i))
@@ -163,6 +166,9 @@ func (m *MultiSelect[T]) SelectAll() *MultiSelect[T] {
 	// Build list of indices for filtered options
 	indices := make([]int, 0, len(m.filteredOpts))
 	for _, filteredOpt := range m.filteredOpts {
+		if filteredOpt.Disabled() {
+			continue
+		}
 		for i, opt := range m.options {
 			if opt == filteredOpt {
 				indices = append(indices, i)
diff --git a/components/select/internal/domain/model/select.go b/components/select/internal/domain/model/select.go
index 8ecc564..00f177a 100644
--- a/components/select/internal/domain/model/select.go
+++ b/components/select/internal/domain/model/select.go
@@ -134,6 +134,9 @@ func (s *Select[T]) Select() *Select[T] {
 	if s.cursor >= 0 && s.cursor < len(s.filteredOpts) {
 		// Find the original index in options array
 		selectedOpt := s.filteredOpts[s.cursor]
+		if selectedOpt.Disabled() {
+			return s
+		}
 		for i, opt := range s.options {
 			if opt == selectedOpt {
 				return s.withSelectedIndex(i)
-- 
2.43.0


From 38910d28ddfd4e9561cfd83de5d6881b30505c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 11/83] fix: multiselect does not count preselected indices of
 options that do not exist

---
 .../multiselect/internal/domain/model/multiselect.go       | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/components/multiselect/internal/domain/model/multiselect.go b/components/multiselect/internal/domain/model/multiselect.go
index dc1addc..c743d73 100644
--- a/components/multiselect/internal/domain/model/multiselect.go
+++ b/components/multiselect/internal/domain/model/multiselect.go
@@ -98,6 +98,13 @@ func (m *MultiSelect[T]) WithRenderFunc(fn RenderFunc[T]) *MultiSelect[T] {
 
 // WithSelected returns a new MultiSelect with the specified indices pre-selected.
 func (m *MultiSelect[T]) WithSelected(indices ...int) *MultiSelect[T] {
+	valid := make([]int, 0, len(indices))
+	for _, idx := range indices {
+		if idx < len(m.options) { // an option that does not exist cannot count as selected
+			valid = append(valid, idx)
+		}
+	}
+	indices = valid
 	return &MultiSelect[T]{
 		options:      m.options,
 		cursor:       m.cursor,
-- 
2.43.0


From c98fad4bf6bd2b1d96cd5bf6163a71135c01d65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 12/83] fix: forms derived from a common form do not share
 their field list

---
 components/form/form.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/components/form/form.go b/components/form/form.go
index f6a6752..b2566f3 100644
--- a/components/form/form.go
+++ b/components/form/form.go
@@ -73,7 +73,9 @@ func New(title string) *Form {
 func (f *Form) Field(name, label string, fieldModel value.FieldModel, validators ...value.Validator) *Form {
 	field := value.NewField(name, label, fieldModel).WithValidators(validators...)
 
-	fields := append(f.domain.Fields(), field)
+	fields := make([]*value.Field, 0, len(f.domain.Fields())+1)
+	fields = append(fields, f.domain.Fields()...)
+	fields = append(fields, field)
 
 	// Update field name mapping
 	newFieldNames := make(map[string]int, len(f.fieldNames)+1)
-- 
2.43.0


From 3a1f5ac6282287f13bc3f9ca599e55369a24472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 13/83] fix: form validators also run for a field without a
 selection

---
 components/form/form.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/components/form/form.go b/components/form/form.go
index b2566f3..414ab33 100644
--- a/components/form/form.go
+++ b/components/form/form.go
@@ -258,6 +258,8 @@ func (f *Form) extractFieldValues() map[string]interface{} {
 		case interface{ Value() string }:
 			result[field.Name()] = valuer.Value()
 		case interface{ SelectedValue() (interface{}, bool) }:
+			// No selection validates as nil, so that Required can reject it.
+			result[field.Name()] = nil
 			if val, ok := valuer.SelectedValue(); ok {
 				result[field.Name()] = val
 			}
-- 
2.43.0


From 089f1436bf7fe18aad05cdc2aab4e53f3b63876b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 14/83] fix: form length validators count characters, not bytes

---
 components/form/internal/domain/value/validator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/components/form/internal/domain/value/validator.go b/components/form/internal/domain/value/validator.go
index f77dc63..8329e27 100644
--- a/components/form/internal/domain/value/validator.go
+++ b/components/form/internal/domain/value/validator.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"regexp"
 	"strings"
+	"unicode/utf8"
 )
 
 // Validator is a function that validates a value and returns an error if invalid.
@@ -36,7 +37,7 @@ func MinLength(n int) Validator {
 			return fmt.Errorf("invalid type (expected string)")
 		}
 
-		if len(str) < n {
+		if utf8.RuneCountInString(str) < n {
 			return fmt.Errorf("must be at least %d characters", n)
 		}
 
@@ -52,7 +53,7 @@ func MaxLength(n int) Validator {
 			return fmt.Errorf("invalid type (expected string)")
 		}
 
-		if len(str) > n {
+		if utf8.RuneCountInString(str) > n {
 			return fmt.Errorf("must be at most %d characters", n)
 		}
 
-- 
2.43.0


From 0a6fcc4b3433ee4fc6112403aa0366f4096bd860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 15/83] fix: form shows each error of a field on its own line

---
 components/form/form.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/components/form/form.go b/components/form/form.go
index 414ab33..5537329 100644
--- a/components/form/form.go
+++ b/components/form/form.go
@@ -332,7 +332,10 @@ func (f *Form) renderField(b *strings.Builder, field *value.Field, focused bool)
 	// Render errors
 	if len(field.Errors()) > 0 {
 		_ = b.WriteByte('\n')
-		for _, err := range field.Errors() {
+		for i, err := range field.Errors() {
+			if i > 0 {
+				_ = b.WriteByte('\n')
+			}
 			b.WriteString("✗ ")
 			b.WriteString(err.Error())
 		}
-- 
2.43.0


From 576ffe5170de27732ebe1ca394762c359a8a60cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 16/83] fix: modal box fills exactly its size and keeps content
 off the button row

---
 components/modal/modal.go | 88 +++++++++++++++++++++++----------------
 1 file changed, 52 insertions(+), 36 deletions(-)

diff --git a/components/modal/modal.go b/components/modal/modal.go
index 2824674..a038e9f 100644
--- a/components/modal/modal.go
+++ b/components/modal/modal.go
@@ -23,6 +23,7 @@ import (
 	"github.com/phoenix-tui/phoenix/components/modal/internal/infrastructure"
 	"github.com/phoenix-tui/phoenix/style"
 	tea "github.com/phoenix-tui/phoenix/tea"
+	"github.com/rivo/uniseg"
 )
 
 // Button defines a modal action button.
@@ -315,6 +316,10 @@ func (m *Modal) renderDimmedBackground(modalX, modalY, modalWidth, modalHeight i
 	var b strings.Builder
 
 	for row := 0; row < m.terminalHeight; row++ {
+		if row > 0 {
+			b.WriteString("\n") // Not after the last row, which would scroll the screen
+		}
+		b.WriteString(fmt.Sprintf("\x1b[%d;1H", row+1))
 		for col := 0; col < m.terminalWidth; col++ {
 			// Check if this cell is inside the modal area.
 			isInsideModal := col >= modalX && col < modalX+modalWidth &&
@@ -326,63 +331,60 @@ func (m *Modal) renderDimmedBackground(modalX, modalY, modalWidth, modalHeight i
 				b.WriteString("░") // Dim character for background
 			}
 		}
-		b.WriteString("\n")
 	}
 
 	return b.String()
 }
 
 // renderModalBox renders the modal box at the specified position.
+// The box occupies exactly width x height cells; every row is positioned absolutely.
 func (m *Modal) renderModalBox(x, y, width, height int) string {
 	var b strings.Builder
 
-	// Position cursor at modal location.
-	b.WriteString(fmt.Sprintf("\x1b[%d;%dH", y+1, x+1)) // ANSI cursor positioning (1-indexed)
+	width = max(width, 4)
+	height = max(height, 2)
+	row := func(i int, line string) {
+		if i > 0 {
+			b.WriteString("\n")
+		}
+		b.WriteString(fmt.Sprintf("\x1b[%d;%dH", y+i+1, x+1)) // ANSI cursor positioning (1-indexed)
+		b.WriteString(line)
+	}
+	separator := "├" + strings.Repeat("─", width-2) + "┤"
 
 	// Top border.
-	b.WriteString("┌" + strings.Repeat("─", width-2) + "┐\n")
+	row(0, "┌"+strings.Repeat("─", width-2)+"┐")
+	contentStart := 1
 
 	// Title row (if title exists)
 	if m.domain.Title() != "" {
-		b.WriteString(fmt.Sprintf("\x1b[%d;%dH", y+2, x+1))
-		b.WriteString("│ " + m.padOrTruncate(m.domain.Title(), width-4) + " │\n")
-
-		// Title separator.
-		b.WriteString(fmt.Sprintf("\x1b[%d;%dH", y+3, x+1))
-		b.WriteString("├" + strings.Repeat("─", width-2) + "┤\n")
+		row(1, "│ "+m.padOrTruncate(m.domain.Title(), width-4)+" │")
+		row(2, separator)
+		contentStart = 3
 	}
 
-	// Content area.
-	contentStartY := y + 2
-	if m.domain.Title() != "" {
-		contentStartY = y + 4
+	// Content area, up to the buttons or the bottom border.
+	contentEnd := height - 1
+	if len(m.domain.Buttons()) > 0 {
+		contentEnd -= 2 // Reserve space for separator and buttons
 	}
-
 	contentLines := strings.Split(m.domain.Content(), "\n")
-	contentHeight := height - 4 // Reserve space for borders and buttons
-	if m.domain.Title() != "" {
-		contentHeight -= 2 // Reserve space for title and separator
-	}
-
-	for i := 0; i < contentHeight && i < len(contentLines); i++ {
-		b.WriteString(fmt.Sprintf("\x1b[%d;%dH", contentStartY+i, x+1))
-		b.WriteString("│ " + m.padOrTruncate(contentLines[i], width-4) + " │\n")
+	for i := 0; contentStart+i < contentEnd; i++ {
+		line := ""
+		if i < len(contentLines) {
+			line = contentLines[i]
+		}
+		row(contentStart+i, "│ "+m.padOrTruncate(line, width-4)+" │")
 	}
 
 	// Buttons (if any)
 	if len(m.domain.Buttons()) > 0 {
-		buttonY := y + height - 3
-		b.WriteString(fmt.Sprintf("\x1b[%d;%dH", buttonY, x+1))
-		b.WriteString("├" + strings.Repeat("─", width-2) + "┤\n")
-
-		buttonY++
-		b.WriteString(fmt.Sprintf("\x1b[%d;%dH", buttonY, x+1))
-		b.WriteString("│ " + m.renderButtons(width-4) + " │\n")
+		row(height-3, separator)
+		row(height-2, "│ "+m.renderButtons(width-4)+" │")
 	}
 
 	// Bottom border.
-	b.WriteString(fmt.Sprintf("\x1b[%d;%dH", y+height-1, x+1))
-	b.WriteString("└" + strings.Repeat("─", width-2) + "┘\n")
+	row(height-1, "└"+strings.Repeat("─", width-2)+"┘")
 
 	return b.String()
 }
@@ -414,13 +416,27 @@ func (m *Modal) renderButtons(availableWidth int) string {
 
 // padOrTruncate pads or truncates a string to the specified width.
 func (m *Modal) padOrTruncate(text string, width int) string {
-	if len(text) > width {
+	if uniseg.StringWidth(text) > width {
 		if width > 3 {
-			return text[:width-3] + "..."
+			text = truncateWidth(text, width-3) + "..."
+		} else {
+			text = truncateWidth(text, width)
+		}
+	}
+	return text + strings.Repeat(" ", max(0, width-uniseg.StringWidth(text)))
+}
+
+// truncateWidth returns the longest prefix of whole characters that fits into width columns.
+func truncateWidth(text string, width int) string {
+	end, used := 0, 0
+	for gr := uniseg.NewGraphemes(text); gr.Next(); {
+		used += gr.Width()
+		if used > width {
+			break
 		}
-		return text[:width]
+		_, end = gr.Positions()
 	}
-	return text + strings.Repeat(" ", width-len(text))
+	return text[:end]
 }
 
 // IsVisible returns true if the modal is currently visible.
-- 
2.43.0


From bc925d9986de5b8e6eed6a36b7bf84498867953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 17/83] fix: confirm shortcut is the first character of the
 label, not its first byte

---
 components/confirm/internal/domain/value/button.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/components/confirm/internal/domain/value/button.go b/components/confirm/internal/domain/value/button.go
index 3bd5084..030be8e 100644
--- a/components/confirm/internal/domain/value/button.go
+++ b/components/confirm/internal/domain/value/button.go
@@ -1,6 +1,11 @@
 // Package value provides value objects for the confirm component.
 package value
 
+import (
+	"unicode"
+	"unicode/utf8"
+)
+
 // Button represents a button option in the confirm dialog.
 // This is a value object - immutable and defined by its attributes.
 type Button struct {
@@ -13,7 +18,7 @@ type Button struct {
 func NewButton(label string) *Button {
 	var key rune
 	if label != "" {
-		key = rune(label[0])
+		key, _ = utf8.DecodeRuneInString(label)
 	}
 	return &Button{
 		label: label,
@@ -39,10 +44,7 @@ func (b *Button) MatchesKey(r rune) bool {
 	return keyLower == rLower
 }
 
-// toLower converts a rune to lowercase (simple ASCII conversion).
+// toLower converts a rune to lowercase.
 func toLower(r rune) rune {
-	if r >= 'A' && r <= 'Z' {
-		return r + 32
-	}
-	return r
+	return unicode.ToLower(r)
 }
-- 
2.43.0


From 052ac24c30a6c8b737f3772ee9a7ad8d7204917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 18/83] fix: modal follows the terminal size also while hidden

---
 components/modal/modal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/components/modal/modal.go b/components/modal/modal.go
index a038e9f..323dd05 100644
--- a/components/modal/modal.go
+++ b/components/modal/modal.go
@@ -200,8 +200,8 @@ func (m *Modal) Init() tea.Cmd {
 
 // Update implements tea.Model.
 func (m *Modal) Update(msg tea.Msg) (*Modal, tea.Cmd) {
-	// If modal is not visible, don't process any input.
-	if !m.domain.IsVisible() {
+	// If modal is not visible, don't process any input (but follow the terminal size).
+	if _, resized := msg.(tea.WindowSizeMsg); !resized && !m.domain.IsVisible() {
 		return m, nil
 	}
 
-- 
2.43.0


From f13f728f85b46fbaf3340e1f765b9746b64e480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 19/83] fix: custom spinner uses the frames and rate it is
 given

---
 components/progress/spinner.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/components/progress/spinner.go b/components/progress/spinner.go
index 7233184..abf88ba 100644
--- a/components/progress/spinner.go
+++ b/components/progress/spinner.go
@@ -5,6 +5,7 @@ import (
 	"time"
 
 	"github.com/phoenix-tui/phoenix/components/progress/internal/domain/model"
+	"github.com/phoenix-tui/phoenix/components/progress/internal/domain/value"
 	"github.com/phoenix-tui/phoenix/components/progress/internal/infrastructure"
 	"github.com/phoenix-tui/phoenix/style"
 	"github.com/phoenix-tui/phoenix/tea"
@@ -37,11 +38,9 @@ func NewSpinner(style string) *Spinner {
 
 // NewSpinnerCustom creates a new spinner with custom frames and FPS.
 // Returns pointer for initialization, but store as value in Model.
-//
-//nolint:revive // frames parameter will be used when custom spinner support is added
-func NewSpinnerCustom(_ []string, fps int) *Spinner {
+func NewSpinnerCustom(frames []string, fps int) *Spinner {
 	return &Spinner{
-		domain: *model.NewSpinner(infrastructure.GetSpinnerStyle("dots")), // Dereference!
+		domain: *model.NewSpinner(value.NewSpinnerStyle(frames, fps)), // Dereference!
 	}
 }
 
-- 
2.43.0


From df2c470ac9906f67790e98073454f20e9acaad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 20/83] fix: progress increments of extreme size do not
 overflow

---
 components/progress/internal/domain/value/percentage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/components/progress/internal/domain/value/percentage.go b/components/progress/internal/domain/value/percentage.go
index 20a1cd8..effda60 100644
--- a/components/progress/internal/domain/value/percentage.go
+++ b/components/progress/internal/domain/value/percentage.go
@@ -23,13 +23,13 @@ func (p *Percentage) Value() int {
 // Add returns a new Percentage with the delta added.
 // The result is clamped to [0, 100].
 func (p *Percentage) Add(delta int) *Percentage {
-	return NewPercentage(p.value + delta)
+	return NewPercentage(p.value + clamp(delta, -100, 100))
 }
 
 // Subtract returns a new Percentage with the delta subtracted.
 // The result is clamped to [0, 100].
 func (p *Percentage) Subtract(delta int) *Percentage {
-	return NewPercentage(p.value - delta)
+	return NewPercentage(p.value - clamp(delta, -100, 100))
 }
 
 // IsComplete returns true if the percentage is 100%.
-- 
2.43.0


From 2ace08f69bc6fc20ff2ecd66df373892188fae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 21/83] fix: text input scrolls by characters and display width
 instead of bytes

---
 components/input/input.go | 80 +++++++++++++--------------------------
 1 file changed, 26 insertions(+), 54 deletions(-)

diff --git a/components/input/input.go b/components/input/input.go
index 1eef6a5..e8af495 100644
--- a/components/input/input.go
+++ b/components/input/input.go
@@ -7,6 +7,7 @@ import (
 	"github.com/phoenix-tui/phoenix/components/input/internal/input/infrastructure"
 	"github.com/phoenix-tui/phoenix/style"
 	"github.com/phoenix-tui/phoenix/tea"
+	"github.com/rivo/uniseg"
 )
 
 // Input is the public API for the TextInput component.
@@ -196,70 +197,41 @@ func (i Input) renderPlaceholder() string {
 	return style.Render(placeholderStyle, i.domain.Placeholder())
 }
 
-// renderContent renders the input content with cursor.
-//
-//nolint:gocognit // rendering logic requires multiple conditions
+// renderContent renders the part of the content around the cursor that fits into the width.
 func (i Input) renderContent() string {
 	before, at, after := i.domain.ContentParts()
-
-	// Calculate visible portion based on width.
-	content := before + at + after
-
-	if len(content) <= i.domain.Width() {
-		// Content fits, render cursor.
-		if i.domain.Focused() {
-			return before + i.renderCursor(at) + after
-		}
-		return content
-	}
-
-	// Content too long, needs scrolling.
-	// Simple approach: keep cursor in view.
-	cursorPos := i.domain.CursorPosition()
 	width := i.domain.Width()
 
-	// Calculate scroll offset to keep cursor visible.
-	scrollOffset := i.domain.ScrollOffset()
-
-	// Adjust scroll if cursor is out of view.
-	if cursorPos < scrollOffset {
-		scrollOffset = cursorPos
-	}
-	if cursorPos >= scrollOffset+width {
-		scrollOffset = cursorPos - width + 1
-	}
-
-	// Extract visible portion.
-	// Note: Uses byte offsets for simplicity - works for ASCII and most Unicode.
-	// For complex grapheme clusters (emoji with modifiers), phoenix/core UnicodeService
-	// should be used, but that's a future optimization.
-	visibleStart := scrollOffset
-	visibleEnd := scrollOffset + width
-	if visibleEnd > len(content) {
-		visibleEnd = len(content)
+	// The cursor occupies a cell of its own behind the last character.
+	cursorWidth := uniseg.StringWidth(at)
+	if at == "" && i.domain.Focused() && i.domain.ShowCursor() {
+		cursorWidth = 1
 	}
 
-	visibleContent := content[visibleStart:visibleEnd]
-
-	// Render cursor if in visible range.
-	//nolint:nestif // rendering logic requires nested conditions for cursor positioning
-	if i.domain.Focused() && cursorPos >= scrollOffset && cursorPos < scrollOffset+width {
-		cursorInVisible := cursorPos - scrollOffset
-		if cursorInVisible <= len(visibleContent) {
-			visibleBefore := visibleContent[:cursorInVisible]
-			visibleAt := ""
-			if cursorInVisible < len(visibleContent) {
-				visibleAt = string(visibleContent[cursorInVisible])
-			}
-			visibleAfter := ""
-			if cursorInVisible+1 < len(visibleContent) {
-				visibleAfter = visibleContent[cursorInVisible+1:]
+	// If content fits within width, no scrolling needed.
+	if uniseg.StringWidth(before)+cursorWidth+uniseg.StringWidth(after) > width {
+		// Drop whole characters from the start until the cursor is visible,
+		// then those at the end that do not fit.
+		room := width - max(cursorWidth, 1)
+		for before != "" && uniseg.StringWidth(before) > room {
+			_, before, _, _ = uniseg.FirstGraphemeClusterInString(before, -1)
+		}
+		room -= uniseg.StringWidth(before)
+		end := 0
+		for gr := uniseg.NewGraphemes(after); gr.Next(); {
+			room -= gr.Width()
+			if room < 0 {
+				break
 			}
-			return visibleBefore + i.renderCursor(visibleAt) + visibleAfter
+			_, end = gr.Positions()
 		}
+		after = after[:end]
 	}
 
-	return visibleContent
+	if i.domain.Focused() {
+		return before + i.renderCursor(at) + after
+	}
+	return before + at + after
 }
 
 // renderCursor renders the cursor at the current position using theme colors.
-- 
2.43.0


From cf3d1b73157290a6227994d55991ed61ee5d3f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 22/83] fix: text input keeps the cursor behind a typed
 combining mark, ignores unbound Ctrl keys

---
 components/input/internal/input/domain/model/input.go         | 4 ++--
 components/input/internal/input/infrastructure/keybindings.go | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/components/input/internal/input/domain/model/input.go b/components/input/internal/input/domain/model/input.go
index 7c48090..873ff44 100644
--- a/components/input/internal/input/domain/model/input.go
+++ b/components/input/internal/input/domain/model/input.go
@@ -234,8 +234,8 @@ func (t TextInput) InsertRune(r rune) TextInput {
 	before, at, after := t.cursorMovement.SplitAtCursor(t.content, t.cursor.Offset())
 	t.content = before + string(r) + at + after
 
-	// Move cursor right.
-	t.cursor = t.cursor.MoveBy(1, t.cursorMovement.GraphemeCount(t.content))
+	// Move cursor behind the rune; it may have joined the character before it.
+	t.cursor = value2.NewCursor(t.cursorMovement.GraphemeCount(before + string(r)))
 
 	return t
 }
diff --git a/components/input/internal/input/infrastructure/keybindings.go b/components/input/internal/input/infrastructure/keybindings.go
index c6ea532..423dd8b 100644
--- a/components/input/internal/input/infrastructure/keybindings.go
+++ b/components/input/internal/input/infrastructure/keybindings.go
@@ -37,6 +37,9 @@ func (kb *DefaultKeyBindings) Handle(input model.TextInput, msg tea.KeyMsg) mode
 			// Ctrl-E moves to end.
 			return input.MoveEnd()
 		}
+		if msg.Type == tea.KeyRune {
+			return input // An unbound Ctrl combination is not text.
+		}
 	}
 
 	switch msg.Type {
-- 
2.43.0


From 26ee7c0e245fc10c15853ff10d806e683837db50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 23/83] fix: text area kill commands leave the cursor where
 text was killed

---
 .../input/internal/textarea/domain/service/editing.go       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/components/input/internal/textarea/domain/service/editing.go b/components/input/internal/textarea/domain/service/editing.go
index 9f3e3c5..1ca69d6 100644
--- a/components/input/internal/textarea/domain/service/editing.go
+++ b/components/input/internal/textarea/domain/service/editing.go
@@ -172,7 +172,7 @@ func (s *EditingService) KillLine(ta *model.TextArea) *model.TextArea {
 			newBuffer := buffer.SetLine(row, currentLine+nextLineContent)
 			newBuffer, _ = newBuffer.DeleteLine(row + 1)
 
-			return ta.WithBuffer(newBuffer).WithKillRing(killRing)
+			return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, col)).WithKillRing(killRing)
 		}
 		return ta
 	}
@@ -184,7 +184,7 @@ func (s *EditingService) KillLine(ta *model.TextArea) *model.TextArea {
 	// Delete from cursor to end.
 	newBuffer, _ := buffer.DeleteToLineEnd(row, col)
 
-	return ta.WithBuffer(newBuffer).WithKillRing(killRing)
+	return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, col)).WithKillRing(killRing)
 }
 
 // KillWord deletes word after cursor (Alt+D).
@@ -217,7 +217,7 @@ func (s *EditingService) KillWord(ta *model.TextArea) *model.TextArea {
 		newBuffer = newBuffer.DeleteChar(row, startCol)
 	}
 
-	return ta.WithBuffer(newBuffer).WithKillRing(killRing)
+	return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, startCol)).WithKillRing(killRing)
 }
 
 // KillWordBackward deletes word before cursor (Ctrl+W, Alt+Backspace).
-- 
2.43.0


From 1ed24c610b90b394e640434b2429177cd799f88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 24/83] fix: text area Ctrl+U deletes up to the cursor, not the
 whole line

---
 .../internal/textarea/domain/service/editing.go     | 13 +++++++++++++
 .../textarea/infrastructure/keybindings/emacs.go    |  3 ++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/components/input/internal/textarea/domain/service/editing.go b/components/input/internal/textarea/domain/service/editing.go
index 1ca69d6..d589676 100644
--- a/components/input/internal/textarea/domain/service/editing.go
+++ b/components/input/internal/textarea/domain/service/editing.go
@@ -187,6 +187,19 @@ func (s *EditingService) KillLine(ta *model.TextArea) *model.TextArea {
 	return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, col)).WithKillRing(killRing)
 }
 
+// KillTo deletes from the cursor to the given column of its line and adds to kill ring.
+func (s *EditingService) KillTo(ta *model.TextArea, endCol int) *model.TextArea {
+	row, col := ta.CursorPosition()
+	if ta.IsReadOnly() || endCol <= col {
+		return ta
+	}
+
+	runes := []rune(ta.CurrentLine())
+	killRing := ta.GetKillRing().Kill(string(runes[col:endCol]))
+	newBuffer := ta.GetBuffer().SetLine(row, string(runes[:col])+string(runes[endCol:]))
+	return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, col)).WithKillRing(killRing)
+}
+
 // KillWord deletes word after cursor (Alt+D).
 func (s *EditingService) KillWord(ta *model.TextArea) *model.TextArea {
 	if ta.IsReadOnly() {
diff --git a/components/input/internal/textarea/infrastructure/keybindings/emacs.go b/components/input/internal/textarea/infrastructure/keybindings/emacs.go
index ec43e57..3f0add6 100644
--- a/components/input/internal/textarea/infrastructure/keybindings/emacs.go
+++ b/components/input/internal/textarea/infrastructure/keybindings/emacs.go
@@ -57,8 +57,9 @@ func (e *EmacsKeybindings) Handle(msg tea.KeyMsg, ta *model.TextArea) (*model.Te
 
 			case 'u', 'U':
 				// Kill from start of line to cursor.
+				_, col := ta.CursorPosition()
 				ta = e.navigation.MoveToLineStart(ta)
-				return e.editing.KillLine(ta), nil
+				return e.editing.KillTo(ta, col), nil
 
 			case 'w', 'W':
 				return e.editing.KillWordBackward(ta), nil
-- 
2.43.0


From 7d313968bb01baacb793b903b526d071cd8ef764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 25/83] fix: text area keeps the cursor line visible when the
 text, cursor position or size is set

---
 .../internal/textarea/domain/model/textarea.go  | 17 +++++++----------
 components/input/textarea.go                    |  2 +-
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/components/input/internal/textarea/domain/model/textarea.go b/components/input/internal/textarea/domain/model/textarea.go
index c895a3a..50e2325 100644
--- a/components/input/internal/textarea/domain/model/textarea.go
+++ b/components/input/internal/textarea/domain/model/textarea.go
@@ -65,8 +65,9 @@ func NewTextArea() *TextArea {
 // WithSize sets display dimensions (returns new instance).
 func (t *TextArea) WithSize(width, height int) *TextArea {
 	updated := t.copy()
-	updated.width = width
-	updated.height = height
+	updated.width = max(width, 0)
+	updated.height = max(height, 0)
+	updated.ensureCursorVisible()
 	return updated
 }
 
@@ -274,9 +275,7 @@ func (t *TextArea) MoveCursorToEnd() *TextArea {
 	lastLine := t.buffer.Line(lastRow)
 	lastCol := len([]rune(lastLine))
 
-	updated := t.copy()
-	updated.cursor = NewCursor(lastRow, lastCol)
-	return updated
+	return t.withCursor(NewCursor(lastRow, lastCol))
 }
 
 // SetCursorPosition sets cursor to specific position with bounds checking.
@@ -305,9 +304,7 @@ func (t *TextArea) SetCursorPosition(row, col int) *TextArea {
 		col = maxCol
 	}
 
-	updated := t.copy()
-	updated.cursor = NewCursor(row, col)
-	return updated
+	return t.withCursor(NewCursor(row, col))
 }
 
 // Public Methods for Services (used by domain services)
@@ -397,7 +394,7 @@ func (t *TextArea) ensureCursorVisible() {
 	if row < t.scrollRow {
 		t.scrollRow = row
 	}
-	if row >= t.scrollRow+t.height {
+	if t.height > 0 && row >= t.scrollRow+t.height {
 		t.scrollRow = row - t.height + 1
 	}
 
@@ -407,7 +404,7 @@ func (t *TextArea) ensureCursorVisible() {
 		if col < t.scrollCol {
 			t.scrollCol = col
 		}
-		if col >= t.scrollCol+t.width {
+		if t.width > 0 && col >= t.scrollCol+t.width {
 			t.scrollCol = col - t.width + 1
 		}
 	}
diff --git a/components/input/textarea.go b/components/input/textarea.go
index 2439cea..f2a1b90 100644
--- a/components/input/textarea.go
+++ b/components/input/textarea.go
@@ -145,7 +145,7 @@ func (t TextArea) Value() string {
 
 // SetValue replaces all text.
 func (t TextArea) SetValue(text string) TextArea {
-	t.model = t.model.WithBuffer(model.NewBufferFromString(text))
+	t.model = t.model.WithBuffer(model.NewBufferFromString(text)).WithCursor(model.NewCursor(0, 0))
 	return t
 }
 
-- 
2.43.0


From b963de043d146d90f2f9a995aa2ce607fcd4054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 26/83] fix: text area enforces its character limit, and both
 limits when pasting

---
 .../textarea/domain/model/textarea.go         |  9 +++++++++
 .../textarea/domain/service/editing.go        | 20 ++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/components/input/internal/textarea/domain/model/textarea.go b/components/input/internal/textarea/domain/model/textarea.go
index 50e2325..e99818f 100644
--- a/components/input/internal/textarea/domain/model/textarea.go
+++ b/components/input/internal/textarea/domain/model/textarea.go
@@ -3,6 +3,7 @@ package model
 
 import (
 	"fmt"
+	"unicode/utf8"
 )
 
 // TextArea is the rich domain model for multiline text editing.
@@ -309,6 +310,14 @@ func (t *TextArea) SetCursorPosition(row, col int) *TextArea {
 
 // Public Methods for Services (used by domain services)
 
+// RoomForChars returns how many more characters the limit allows (line breaks count), or -1 if unlimited.
+func (t *TextArea) RoomForChars() int {
+	if t.maxChars <= 0 {
+		return -1
+	}
+	return max(0, t.maxChars-utf8.RuneCountInString(t.buffer.String()))
+}
+
 // GetBuffer returns buffer (for services).
 func (t *TextArea) GetBuffer() *Buffer {
 	return t.buffer
diff --git a/components/input/internal/textarea/domain/service/editing.go b/components/input/internal/textarea/domain/service/editing.go
index d589676..c9fe65e 100644
--- a/components/input/internal/textarea/domain/service/editing.go
+++ b/components/input/internal/textarea/domain/service/editing.go
@@ -18,6 +18,11 @@ func (s *EditingService) InsertChar(ta *model.TextArea, ch rune) *model.TextArea
 		return ta // Read-only
 	}
 
+	// Check max characters (if limit is set)
+	if ta.RoomForChars() == 0 {
+		return ta
+	}
+
 	row, col := ta.CursorPosition()
 	buffer := ta.GetBuffer()
 
@@ -137,6 +142,11 @@ func (s *EditingService) InsertNewline(ta *model.TextArea) *model.TextArea {
 		return ta
 	}
 
+	// Check max characters (if limit is set)
+	if ta.RoomForChars() == 0 {
+		return ta
+	}
+
 	row, col := ta.CursorPosition()
 	buffer := ta.GetBuffer()
 
@@ -301,9 +311,17 @@ func (s *EditingService) Yank(ta *model.TextArea) *model.TextArea {
 	row, col := ta.CursorPosition()
 	buffer := ta.GetBuffer()
 
-	// Insert each character.
+	// Insert each character, up to the limits.
+	room := ta.RoomForChars()
 	for _, ch := range text {
+		if room == 0 {
+			break
+		}
+		room--
 		if ch == '\n' {
+			if ta.MaxLines() > 0 && buffer.LineCount() >= ta.MaxLines() {
+				break
+			}
 			// Insert newline.
 			buffer = buffer.InsertNewline(row, col)
 			row++
-- 
2.43.0


From a3f5c0ba90b67abdda35f9e16d2fd6442c6fed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 27/83] fix: text area word deletion respects the movement
 validator like backspace does

---
 .../input/internal/textarea/domain/service/editing.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/components/input/internal/textarea/domain/service/editing.go b/components/input/internal/textarea/domain/service/editing.go
index c9fe65e..b2b75c8 100644
--- a/components/input/internal/textarea/domain/service/editing.go
+++ b/components/input/internal/textarea/domain/service/editing.go
@@ -278,6 +278,17 @@ func (s *EditingService) KillWordBackward(ta *model.TextArea) *model.TextArea {
 		return ta // No word to kill
 	}
 
+	// The cursor would move there; a movement validator can block that.
+	if validator := ta.GetMovementValidator(); validator != nil {
+		to := model.NewCursorPos(row, newCol)
+		if !validator(model.NewCursorPos(row, endCol), to) {
+			if handler := ta.GetBoundaryHitHandler(); handler != nil {
+				handler(to, "kill blocked by validator")
+			}
+			return ta
+		}
+	}
+
 	// Kill from newCol to endCol.
 	killed := string(line[newCol:endCol])
 	killRing := ta.GetKillRing().Kill(killed)
-- 
2.43.0


From 50e020d9164518212bedd00b6666abe6f9b0e759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 28/83] fix: a quit request ends the run it was made for,
 exactly once, and is never lost

---
 tea/internal/application/program/program.go | 69 ++++++++++++++-------
 1 file changed, 47 insertions(+), 22 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 34e1a5b..7552173 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -66,8 +66,10 @@ type Program[T any] struct {
 	cmdCh  chan model2.Cmd // Commands to execute
 	viewCh chan string     // View updates for rendering
 
-	// Quit channel
-	quitCh chan struct{}
+	// Quit channel of the current run. Closed (once) to end the event loop and
+	// to release everything that waits to deliver a message to it.
+	quitCh   chan struct{}
+	quitting bool // True once quitCh is closed
 
 	// Inline renderer for non-alt-screen mode.
 	// Initialized lazily in renderView() on the first render call.
@@ -147,7 +149,7 @@ func (p *Program[T]) Run() error {
 		p.mu.Unlock()
 		return fmt.Errorf("program already running")
 	}
-	p.running = true
+	p.beginRun()
 
 	// Initialize terminal if not set (auto-detect best implementation)
 	if p.terminal == nil {
@@ -169,6 +171,7 @@ func (p *Program[T]) Run() error {
 			_ = p.terminal.ExitAltScreen() // Best effort cleanup
 		}
 
+		p.signalQuit() // Release command and input goroutines
 		p.running = false
 		p.mu.Unlock()
 	}()
@@ -274,7 +277,7 @@ func (p *Program[T]) Start() error {
 		p.mu.Unlock()
 		return fmt.Errorf("program already running")
 	}
-	p.running = true
+	p.beginRun()
 
 	// Initialize terminal if not set (auto-detect best implementation)
 	if p.terminal == nil {
@@ -296,6 +299,7 @@ func (p *Program[T]) Start() error {
 				_ = p.terminal.ExitAltScreen() // Best effort cleanup
 			}
 
+			p.signalQuit() // Release command and input goroutines
 			p.running = false
 			p.mu.Unlock()
 		}()
@@ -390,11 +394,7 @@ func (p *Program[T]) Stop() {
 	p.mu.Unlock()
 
 	// Signal quit
-	select {
-	case p.quitCh <- struct{}{}:
-	default:
-		// Already quitting
-	}
+	p.Quit()
 
 	// Wait for running to become false (with timeout)
 	timeout := time.After(1 * time.Second)
@@ -404,10 +404,9 @@ func (p *Program[T]) Stop() {
 	for {
 		select {
 		case <-timeout:
-			// Timeout - force stop
-			p.mu.Lock()
-			p.running = false
-			p.mu.Unlock()
+			// Timeout - the event loop is busy (e.g. in Update). It ends as
+			// soon as it gets to the quit request; until then the program
+			// still counts as running, so that no second loop can start.
 			return
 		case <-ticker.C:
 			p.mu.Lock()
@@ -437,10 +436,29 @@ func (p *Program[T]) Stop() {
 //
 // Internal use - will be called from event loop in Day 4.
 func (p *Program[T]) Quit() {
-	select {
-	case p.quitCh <- struct{}{}:
-	default:
-		// Already quitting
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	if p.running {
+		p.signalQuit()
+	}
+}
+
+// beginRun marks the program as running, with fresh channels: neither a quit
+// request nor a message of an earlier run may reach this one.
+// Must be called with p.mu held.
+func (p *Program[T]) beginRun() {
+	p.running = true
+	p.quitting = false
+	p.quitCh = make(chan struct{})
+	p.msgCh = make(chan model2.Msg, cap(p.msgCh))
+}
+
+// signalQuit ends the current run. The request stays pending until the event
+// loop sees it, whatever the loop is doing now. Must be called with p.mu held.
+func (p *Program[T]) signalQuit() {
+	if !p.quitting {
+		p.quitting = true
+		close(p.quitCh)
 	}
 }
 
@@ -466,6 +484,7 @@ func (p *Program[T]) IsRunning() bool {
 func (p *Program[T]) Send(msg model2.Msg) error {
 	p.mu.Lock()
 	running := p.running
+	msgCh := p.msgCh
 	p.mu.Unlock()
 
 	if !running {
@@ -473,7 +492,7 @@ func (p *Program[T]) Send(msg model2.Msg) error {
 	}
 
 	select {
-	case p.msgCh <- msg:
+	case msgCh <- msg:
 		return nil
 	case <-time.After(100 * time.Millisecond):
 		return fmt.Errorf("timeout sending message")
@@ -482,13 +501,18 @@ func (p *Program[T]) Send(msg model2.Msg) error {
 
 // executeCommand runs a command in a goroutine and sends result to msgCh.
 func (p *Program[T]) executeCommand(cmd model2.Cmd) {
+	// Deliver to the run that started the command, never to a later one.
+	p.mu.Lock()
+	msgCh, quitCh := p.msgCh, p.quitCh
+	p.mu.Unlock()
+
 	go func() {
 		msg := cmd() // Execute command (may block)
 
 		// Send result back to event loop
 		select {
-		case p.msgCh <- msg:
-		case <-p.quitCh:
+		case msgCh <- msg:
+		case <-quitCh:
 			// Program quitting, don't send
 		}
 	}()
@@ -541,6 +565,7 @@ func (p *Program[T]) startInputReader() {
 	p.inputReaderRunning = true
 	p.inputReaderGeneration++             // Increment generation for new goroutine
 	generation := p.inputReaderGeneration // Capture for this goroutine
+	msgCh, quitCh := p.msgCh, p.quitCh    // Deliver to the current run only
 	p.mu.Unlock()
 
 	go func() {
@@ -582,10 +607,10 @@ func (p *Program[T]) startInputReader() {
 
 			// Send to event loop (with cancellation check)
 			select {
-			case p.msgCh <- msg:
+			case msgCh <- msg:
 			case <-ctx.Done():
 				return
-			case <-p.quitCh:
+			case <-quitCh:
 				return
 			}
 		}
-- 
2.43.0


From 697730cf476e037ce5a7b5ab942ad3a4675806f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:14 +0000
Subject: [PATCH 29/83] fix: expanding a batch or sequence cannot block the
 event loop, nil results deliver nothing

---
 tea/internal/application/program/program.go | 146 ++++++++++----------
 1 file changed, 73 insertions(+), 73 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 7552173..084b085 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -205,51 +205,71 @@ func (p *Program[T]) Run() error {
 	p.renderView()
 
 	// STEP 3: EVENT LOOP - THE HEART OF ELM ARCHITECTURE
+	var pending []model2.Msg // Expanded from BatchMsg/SequenceMsg, not yet handled
 	for {
-		select {
-		case msg := <-p.msgCh:
-			// Check for quit
-			if _, isQuit := msg.(model2.QuitMsg); isQuit {
-				return nil // Exit loop
-			}
+		msg, ok := p.nextMsg(&pending)
+		if !ok {
+			return nil // QuitMsg or external quit signal
+		}
 
-			// Handle BatchMsg - expand to individual messages
-			if batchMsg, ok := msg.(model2.BatchMsg); ok {
-				for _, m := range batchMsg.Messages {
-					p.msgCh <- m
-				}
-				continue
+		// Intercept WindowSizeMsg to keep inline renderer dimensions current.
+		if sizeMsg, ok := msg.(model2.WindowSizeMsg); ok && !p.altScreen {
+			if p.inlineRenderer != nil {
+				p.inlineRenderer.Resize(sizeMsg.Width, sizeMsg.Height)
 			}
+		}
 
-			// Handle SequenceMsg - expand to individual messages (in order)
-			if seqMsg, ok := msg.(model2.SequenceMsg); ok {
-				for _, m := range seqMsg.Messages {
-					p.msgCh <- m
-				}
-				continue
-			}
+		// Update model
+		newModel, cmd := p.model.Update(msg)
+		p.model = newModel
 
-			// Intercept WindowSizeMsg to keep inline renderer dimensions current.
-			if sizeMsg, ok := msg.(model2.WindowSizeMsg); ok && !p.altScreen {
-				if p.inlineRenderer != nil {
-					p.inlineRenderer.Resize(sizeMsg.Width, sizeMsg.Height)
-				}
-			}
+		// Execute command (if any)
+		if cmd != nil {
+			p.executeCommand(cmd)
+		}
 
-			// Update model
-			newModel, cmd := p.model.Update(msg)
-			p.model = newModel
+		// Render view
+		p.renderView()
+	}
+}
 
-			// Execute command (if any)
-			if cmd != nil {
-				p.executeCommand(cmd)
-			}
+// nextMsg returns the next message for Update, or false when the program has
+// to quit. A BatchMsg or SequenceMsg is replaced in place by the messages it
+// holds (nested ones too). They wait in pending, which only the event loop
+// uses: putting them back into msgCh would block the loop, the only receiver,
+// for good once the channel is full. A nil message (the result of a command
+// that has nothing to report) is not delivered.
+func (p *Program[T]) nextMsg(pending *[]model2.Msg) (model2.Msg, bool) {
+	for {
+		// An external quit request has priority over queued messages.
+		select {
+		case <-p.quitCh:
+			return nil, false
+		default:
+		}
 
-			// Render view
-			p.renderView()
+		var msg model2.Msg
+		if len(*pending) > 0 {
+			msg, *pending = (*pending)[0], (*pending)[1:]
+		} else {
+			select {
+			case msg = <-p.msgCh:
+			case <-p.quitCh:
+				return nil, false // External quit signal
+			}
+		}
 
-		case <-p.quitCh:
-			return nil // External quit signal
+		switch m := msg.(type) {
+		case nil:
+			// Nothing to deliver
+		case model2.QuitMsg:
+			return nil, false
+		case model2.BatchMsg:
+			*pending = append(append([]model2.Msg{}, m.Messages...), *pending...)
+		case model2.SequenceMsg:
+			*pending = append(append([]model2.Msg{}, m.Messages...), *pending...)
+		default:
+			return msg, true
 		}
 	}
 }
@@ -332,49 +352,29 @@ func (p *Program[T]) Start() error {
 
 		p.renderView()
 
+		var pending []model2.Msg // Expanded from BatchMsg/SequenceMsg, not yet handled
 		for {
-			select {
-			case msg := <-p.msgCh:
-				if _, isQuit := msg.(model2.QuitMsg); isQuit {
-					return
-				}
-
-				// Handle BatchMsg
-				if batchMsg, ok := msg.(model2.BatchMsg); ok {
-					for _, m := range batchMsg.Messages {
-						p.msgCh <- m
-					}
-					continue
-				}
-
-				// Handle SequenceMsg
-				if seqMsg, ok := msg.(model2.SequenceMsg); ok {
-					for _, m := range seqMsg.Messages {
-						p.msgCh <- m
-					}
-					continue
-				}
-
-				// Intercept WindowSizeMsg to keep inline renderer dimensions current.
-				if sizeMsg, ok := msg.(model2.WindowSizeMsg); ok && !p.altScreen {
-					if p.inlineRenderer != nil {
-						p.inlineRenderer.Resize(sizeMsg.Width, sizeMsg.Height)
-					}
-				}
-
-				// Update
-				newModel, cmd := p.model.Update(msg)
-				p.model = newModel
+			msg, ok := p.nextMsg(&pending)
+			if !ok {
+				return // QuitMsg or external quit signal
+			}
 
-				if cmd != nil {
-					p.executeCommand(cmd)
+			// Intercept WindowSizeMsg to keep inline renderer dimensions current.
+			if sizeMsg, ok := msg.(model2.WindowSizeMsg); ok && !p.altScreen {
+				if p.inlineRenderer != nil {
+					p.inlineRenderer.Resize(sizeMsg.Width, sizeMsg.Height)
 				}
+			}
 
-				p.renderView()
+			// Update
+			newModel, cmd := p.model.Update(msg)
+			p.model = newModel
 
-			case <-p.quitCh:
-				return
+			if cmd != nil {
+				p.executeCommand(cmd)
 			}
+
+			p.renderView()
 		}
 	}()
 
-- 
2.43.0


From 72b74b5bf71d1737e20af7eef42c796e6fc97c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 30/83] fix: the input goroutine uses its own reader and done
 channel, not those of its successor

---
 tea/internal/application/program/program.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 084b085..a0ad335 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -553,15 +553,17 @@ func (p *Program[T]) renderView() {
 func (p *Program[T]) startInputReader() {
 	// Always create a new Reader (CancelableReader cannot be reused after Cancel)
 	// This ensures fresh state after ExecProcess
-	p.inputReader = input.NewReader(p.input)
+	reader := input.NewReader(p.input)
+	done := make(chan struct{})
 
 	// Create cancellation context for this inputReader goroutine
 	ctx, cancel := context.WithCancel(context.Background())
 
 	// Set state under mutex protection
 	p.mu.Lock()
+	p.inputReader = reader
 	p.inputReaderCancel = cancel
-	p.inputReaderDone = make(chan struct{})
+	p.inputReaderDone = done
 	p.inputReaderRunning = true
 	p.inputReaderGeneration++             // Increment generation for new goroutine
 	generation := p.inputReaderGeneration // Capture for this goroutine
@@ -571,7 +573,7 @@ func (p *Program[T]) startInputReader() {
 	go func() {
 		defer func() {
 			// Signal that goroutine has exited
-			close(p.inputReaderDone)
+			close(done)
 
 			// Only clear state if we're still the current generation
 			// (prevents race with restart after stop timeout)
@@ -594,7 +596,7 @@ func (p *Program[T]) startInputReader() {
 
 			// Read input (blocks until input available)
 			// Note: Read() itself is blocking, but we check ctx.Done() on each iteration
-			msg, err := p.inputReader.Read()
+			msg, err := reader.Read()
 			if err != nil {
 				// EOF or error - stop reading
 				return
-- 
2.43.0


From 9f1ca3d368b86800c8123bed8f07fc862187d5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 31/83] fix: Suspend, Resume, start-up, cleanup and rendering
 exclude each other; nothing is drawn or left behind while suspended or after
 the end

---
 tea/internal/application/program/program.go | 165 ++++++++++++++------
 1 file changed, 120 insertions(+), 45 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index a0ad335..0f3e12e 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -77,9 +77,18 @@ type Program[T any] struct {
 	// instead of appending below it.
 	inlineRenderer *renderer.InlineRenderer
 
+	// ttyMu is held by whoever uses or changes the terminal: start-up, cleanup,
+	// Suspend, Resume and the writing of a frame. It makes each of them one step
+	// for the others. Lock order: ttyMu before mu.
+	ttyMu sync.Mutex
+
+	// redrawCh asks the event loop, which owns the model, for a full redraw.
+	redrawCh chan struct{}
+
 	// Suspend/Resume state (for ExecProcess and public API)
 	suspended    bool            // True if TUI is suspended
 	suspendState *suspendedState // Saved state when suspended
+	cursorHidden bool            // True if Resume has hidden the cursor
 }
 
 // suspendedState holds terminal state saved during Suspend().
@@ -109,6 +118,8 @@ func New[T any](m model2.Model[T], opts ...Option[T]) *Program[T] {
 		msgCh:  make(chan model2.Msg, 100), // Buffered for performance
 		cmdCh:  make(chan model2.Cmd, 10),
 		viewCh: make(chan string, 10),
+
+		redrawCh: make(chan struct{}, 1),
 	}
 
 	// Apply options
@@ -158,26 +169,13 @@ func (p *Program[T]) Run() error {
 	p.mu.Unlock()
 
 	// Cleanup on exit
-	defer func() {
-		p.mu.Lock()
-
-		// Exit raw mode if we're in it
-		if p.terminal != nil && p.terminal.IsInRawMode() {
-			_ = p.terminal.ExitRawMode() // Best effort cleanup
-		}
-
-		// Exit alt screen if we're in it
-		if p.terminal != nil && p.altScreen && p.terminal.IsInAltScreen() {
-			_ = p.terminal.ExitAltScreen() // Best effort cleanup
-		}
-
-		p.signalQuit() // Release command and input goroutines
-		p.running = false
-		p.mu.Unlock()
-	}()
+	defer p.cleanup()
 
 	// Enter raw mode for TUI (best effort - may fail in test environments)
+	p.ttyMu.Lock()
+	p.stopInputReader() // Of a Resume before Run
 	p.mu.Lock()
+	p.suspended, p.suspendState = false, nil
 	rawModeErr := p.terminal.EnterRawMode()
 	// Note: We continue even if raw mode fails (for tests without actual terminal)
 
@@ -188,10 +186,12 @@ func (p *Program[T]) Run() error {
 				_ = p.terminal.ExitRawMode() // Cleanup raw mode if we entered it
 			}
 			p.mu.Unlock()
+			p.ttyMu.Unlock()
 			return fmt.Errorf("failed to enter alt screen: %w", err)
 		}
 	}
 	p.mu.Unlock()
+	p.ttyMu.Unlock()
 
 	// STEP 1: Call Init() to get initial command
 	initCmd := p.model.Init()
@@ -199,7 +199,7 @@ func (p *Program[T]) Run() error {
 		p.executeCommand(initCmd)
 	}
 	// Start input reader
-	p.startInputReader()
+	p.attachInput()
 
 	// STEP 2: Render initial view
 	p.renderView()
@@ -233,6 +233,50 @@ func (p *Program[T]) Run() error {
 	}
 }
 
+// attachInput starts the input reader, unless the program has been suspended
+// already (by a command of Init): then Resume starts it.
+func (p *Program[T]) attachInput() {
+	p.ttyMu.Lock()
+	defer p.ttyMu.Unlock()
+	if !p.IsSuspended() {
+		p.restartInputReader()
+	}
+}
+
+// cleanup releases input and terminal when the event loop has ended.
+func (p *Program[T]) cleanup() {
+	p.ttyMu.Lock()
+	defer p.ttyMu.Unlock()
+
+	// Stop reading: what is typed from now on belongs to others
+	p.stopInputReader()
+
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	// Exit raw mode if we're in it
+	if p.terminal != nil && p.terminal.IsInRawMode() {
+		_ = p.terminal.ExitRawMode() // Best effort cleanup
+	}
+
+	// Exit alt screen if we're in it
+	if p.terminal != nil && p.altScreen && p.terminal.IsInAltScreen() {
+		_ = p.terminal.ExitAltScreen() // Best effort cleanup
+	}
+
+	// Show cursor if Resume has hidden it
+	if p.terminal != nil && p.cursorHidden {
+		_ = p.terminal.ShowCursor() // Best effort cleanup
+		p.cursorHidden = false
+	}
+
+	// A suspended program that has ended has nothing to resume
+	p.suspended, p.suspendState = false, nil
+
+	p.signalQuit() // Release command and input goroutines
+	p.running = false
+}
+
 // nextMsg returns the next message for Update, or false when the program has
 // to quit. A BatchMsg or SequenceMsg is replaced in place by the messages it
 // holds (nested ones too). They wait in pending, which only the event loop
@@ -254,6 +298,8 @@ func (p *Program[T]) nextMsg(pending *[]model2.Msg) (model2.Msg, bool) {
 		} else {
 			select {
 			case msg = <-p.msgCh:
+			case <-p.redrawCh:
+				p.renderView()
 			case <-p.quitCh:
 				return nil, false // External quit signal
 			}
@@ -305,27 +351,17 @@ func (p *Program[T]) Start() error {
 	}
 	p.mu.Unlock()
 
-	go func() {
-		defer func() {
-			p.mu.Lock()
-
-			// Exit raw mode if we're in it
-			if p.terminal != nil && p.terminal.IsInRawMode() {
-				_ = p.terminal.ExitRawMode() // Best effort cleanup
-			}
-
-			// Exit alt screen if we're in it
-			if p.terminal != nil && p.altScreen && p.terminal.IsInAltScreen() {
-				_ = p.terminal.ExitAltScreen() // Best effort cleanup
-			}
+	// Held until the goroutine has set up the terminal: a Suspend that follows
+	// Start must find the modes to leave.
+	p.ttyMu.Lock()
 
-			p.signalQuit() // Release command and input goroutines
-			p.running = false
-			p.mu.Unlock()
-		}()
+	go func() {
+		defer p.cleanup()
 
 		// Enter raw mode for TUI
+		p.stopInputReader() // Of a Resume before Start
 		p.mu.Lock()
+		p.suspended, p.suspendState = false, nil
 		rawModeErr := p.terminal.EnterRawMode()
 		if rawModeErr != nil {
 			// Can't return error from goroutine - just don't enter raw mode
@@ -336,11 +372,13 @@ func (p *Program[T]) Start() error {
 				if altScreenErr := p.terminal.EnterAltScreen(); altScreenErr != nil {
 					_ = p.terminal.ExitRawMode() // Cleanup raw mode
 					p.mu.Unlock()
+					p.ttyMu.Unlock()
 					return
 				}
 			}
 		}
 		p.mu.Unlock()
+		p.ttyMu.Unlock()
 
 		// Same event loop as Run(), but in goroutine
 		initCmd := p.model.Init()
@@ -348,7 +386,7 @@ func (p *Program[T]) Start() error {
 			p.executeCommand(initCmd)
 		}
 		// Start input reader
-		p.startInputReader()
+		p.attachInput()
 
 		p.renderView()
 
@@ -529,6 +567,14 @@ func (p *Program[T]) executeCommand(cmd model2.Cmd) {
 func (p *Program[T]) renderView() {
 	view := p.model.View()
 
+	p.ttyMu.Lock()
+	defer p.ttyMu.Unlock()
+
+	// The terminal is not ours while suspended; Resume has it redrawn.
+	if p.IsSuspended() {
+		return
+	}
+
 	if !p.altScreen {
 		// Lazily initialize the inline renderer on the first call.
 		// Width/height start at 0 (disables truncation/clipping) until
@@ -734,6 +780,9 @@ func (p *Program[T]) restartInputReader() {
 // Returns error if suspension fails (e.g., terminal operation error).
 // Safe to call multiple times - subsequent calls are no-ops.
 func (p *Program[T]) Suspend() error {
+	p.ttyMu.Lock()
+	defer p.ttyMu.Unlock()
+
 	p.mu.Lock()
 	if p.suspended {
 		p.mu.Unlock()
@@ -790,6 +839,7 @@ func (p *Program[T]) Suspend() error {
 		// Non-fatal - continue anyway
 		// Some terminals may not support cursor control
 	}
+	p.cursorHidden = false
 
 	// Mark as suspended and save state
 	p.suspended = true
@@ -822,10 +872,36 @@ func (p *Program[T]) Suspend() error {
 // Safe to call multiple times - subsequent calls are no-ops.
 // If Resume fails partway, terminal may be in inconsistent state.
 func (p *Program[T]) Resume() error {
+	running := p.IsRunning()
+
+	if resumed, err := p.takeTerminalBack(); !resumed {
+		return err
+	}
+
+	// STEP 5: Force full redraw. While the program runs, the model belongs to
+	// the event loop.
+	if !running {
+		p.renderView()
+		return nil
+	}
+	select {
+	case p.redrawCh <- struct{}{}:
+	default:
+		// Already requested
+	}
+	return nil
+}
+
+// takeTerminalBack does all of Resume but the redraw. It reports whether the
+// program was suspended and now is no longer.
+func (p *Program[T]) takeTerminalBack() (bool, error) {
+	p.ttyMu.Lock()
+	defer p.ttyMu.Unlock()
+
 	p.mu.Lock()
 	if !p.suspended {
 		p.mu.Unlock()
-		return nil // Not suspended
+		return false, nil // Not suspended
 	}
 
 	state := p.suspendState
@@ -833,7 +909,7 @@ func (p *Program[T]) Resume() error {
 		// Should not happen, but be defensive
 		p.suspended = false
 		p.mu.Unlock()
-		return nil
+		return false, nil
 	}
 	p.mu.Unlock()
 
@@ -842,24 +918,25 @@ func (p *Program[T]) Resume() error {
 	if err := p.terminal.HideCursor(); err != nil {
 		// Non-fatal - continue anyway
 	}
+	p.cursorHidden = true
 	p.mu.Unlock()
 
 	// STEP 2: Re-enter alternate screen (if was active before)
 	p.mu.Lock()
-	if state.wasInAltScreen {
+	if state.wasInAltScreen && !p.terminal.IsInAltScreen() {
 		if err := p.terminal.EnterAltScreen(); err != nil {
 			p.mu.Unlock()
-			return fmt.Errorf("resume: failed to restore alt screen: %w", err)
+			return false, fmt.Errorf("resume: failed to restore alt screen: %w", err)
 		}
 	}
 	p.mu.Unlock()
 
 	// STEP 3: Re-enter raw mode (if was active before)
 	p.mu.Lock()
-	if state.wasInRawMode {
+	if state.wasInRawMode && !p.terminal.IsInRawMode() {
 		if err := p.terminal.EnterRawMode(); err != nil {
 			p.mu.Unlock()
-			return fmt.Errorf("resume: failed to restore raw mode: %w", err)
+			return false, fmt.Errorf("resume: failed to restore raw mode: %w", err)
 		}
 	}
 
@@ -871,16 +948,14 @@ func (p *Program[T]) Resume() error {
 	// STEP 4: Restart inputReader goroutine
 	p.restartInputReader()
 
-	// STEP 5: Force full redraw.
 	// Clear the inline renderer diff cache so all lines are repainted.
 	// The external command may have written arbitrary content to the terminal,
 	// invalidating our previous frame tracking.
 	if p.inlineRenderer != nil {
 		p.inlineRenderer.Repaint()
 	}
-	p.renderView()
 
-	return nil
+	return true, nil
 }
 
 // IsSuspended returns true if the TUI is currently suspended.
-- 
2.43.0


From 23394d404026aa2aeec2027fcfcbda042ef896a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 32/83] fix: cancelable reader keeps what did not fit the
 caller's buffer, and its final error

---
 .../infrastructure/input/cancelable_reader.go | 32 +++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/tea/internal/infrastructure/input/cancelable_reader.go b/tea/internal/infrastructure/input/cancelable_reader.go
index 1f3ff8b..5b3b9de 100644
--- a/tea/internal/infrastructure/input/cancelable_reader.go
+++ b/tea/internal/infrastructure/input/cancelable_reader.go
@@ -39,6 +39,11 @@ type CancelableReader struct {
 	// Read result channel - buffered to allow background reader to continue
 	readCh chan readResult
 
+	// Result taken from readCh that did not fit the buffer of the last Read, or
+	// the final error.
+	rest   readResult
+	restMu sync.Mutex
+
 	// Cleanup synchronization
 	readerDone chan struct{}
 
@@ -248,18 +253,27 @@ func (cr *CancelableReader) Read(p []byte) (int, error) {
 		return 0, io.EOF
 	}
 
-	select {
-	case result := <-cr.readCh:
-		if result.n > 0 {
-			n := copy(p, result.data)
-			return n, result.err
+	cr.restMu.Lock()
+	defer cr.restMu.Unlock()
+
+	if cr.rest.n == 0 && cr.rest.err == nil {
+		select {
+		case cr.rest = <-cr.readCh:
+		case <-cr.done:
+			// Canceled while waiting
+			return 0, io.EOF
 		}
-		return 0, result.err
+	}
 
-	case <-cr.done:
-		// Canceled while waiting
-		return 0, io.EOF
+	// Keep what does not fit for the next Read; an error comes after all data,
+	// and stays: nothing follows it on readCh.
+	if cr.rest.n > 0 {
+		n := copy(p, cr.rest.data)
+		cr.rest.data = cr.rest.data[n:]
+		cr.rest.n -= n
+		return n, nil
 	}
+	return 0, cr.rest.err
 }
 
 // Cancel stops the reader immediately.
-- 
2.43.0


From 015753faa19800e6670b1afd2b5f9405214ab824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 33/83] fix: each alt-screen frame starts on a clear screen and
 its lines at column 0

---
 tea/internal/application/program/program.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 0f3e12e..e4a998a 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"os"
 	"os/exec"
+	"strings"
 	"sync"
 	"time"
 
@@ -562,8 +563,8 @@ func (p *Program[T]) executeCommand(cmd model2.Cmd) {
 // the previous frame using ANSI cursor-up sequences, preventing the
 // stacked-output bug where each update appends below the last.
 //
-// In alt-screen mode a plain write is used; the alt-screen renderer will be
-// integrated in a future release.
+// In alt-screen mode the whole screen is rewritten; the alt-screen renderer
+// will be integrated in a future release.
 func (p *Program[T]) renderView() {
 	view := p.model.View()
 
@@ -587,8 +588,10 @@ func (p *Program[T]) renderView() {
 		return
 	}
 
-	// Alt-screen mode: plain write (cursor is at absolute position after \x1b[H).
-	_, _ = p.output.Write([]byte(view))
+	// Alt-screen mode: clear the screen and write the view from its top left
+	// corner. In raw mode a line feed alone does not return to column 0.
+	frame := "\x1b[H\x1b[2J" + strings.ReplaceAll(view, "\n", "\r\n")
+	_, _ = p.output.Write([]byte(frame))
 }
 
 // startInputReader starts reading input in a goroutine.
-- 
2.43.0


From 753fdf19c04c1a7c2de5e585f233b1a448bdc1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 34/83] fix: a command that suspends after the program has
 ended does not take the terminal back

---
 tea/internal/application/program/program.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index e4a998a..cd93110 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -791,6 +791,10 @@ func (p *Program[T]) Suspend() error {
 		p.mu.Unlock()
 		return nil // Already suspended
 	}
+	if p.quitting && !p.running {
+		p.mu.Unlock()
+		return nil // Program has ended: the terminal is not ours to take back
+	}
 
 	// Validate terminal exists
 	if p.terminal == nil {
-- 
2.43.0


From a56c729f37e480f0cf9c022ecb52b5516142052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 35/83] fix: the input reader is always shut down when the
 program ends

---
 tea/internal/application/program/program.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index cd93110..d983e78 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -616,7 +616,7 @@ func (p *Program[T]) startInputReader() {
 	p.inputReaderRunning = true
 	p.inputReaderGeneration++             // Increment generation for new goroutine
 	generation := p.inputReaderGeneration // Capture for this goroutine
-	msgCh, quitCh := p.msgCh, p.quitCh    // Deliver to the current run only
+	msgCh := p.msgCh                      // Deliver to the current run only
 	p.mu.Unlock()
 
 	go func() {
@@ -660,8 +660,7 @@ func (p *Program[T]) startInputReader() {
 			select {
 			case msgCh <- msg:
 			case <-ctx.Done():
-				return
-			case <-quitCh:
+				// Also when the program ends: cleanup stops the reader
 				return
 			}
 		}
-- 
2.43.0


From 1c14fd8abea5df59817b4b3b89c15b361acadfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 36/83] fix: external processes take turns with the terminal

---
 tea/internal/application/program/program.go            | 7 +++++++
 tea/internal/application/program/tty_control_darwin.go | 5 +++++
 tea/internal/application/program/tty_control_linux.go  | 5 +++++
 3 files changed, 17 insertions(+)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index d983e78..c05d1c8 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -83,6 +83,10 @@ type Program[T any] struct {
 	// for the others. Lock order: ttyMu before mu.
 	ttyMu sync.Mutex
 
+	// execMu makes external processes take turns: each needs the terminal for
+	// itself, from Suspend to Resume.
+	execMu sync.Mutex
+
 	// redrawCh asks the event loop, which owns the model, for a full redraw.
 	redrawCh chan struct{}
 
@@ -1020,6 +1024,9 @@ func (p *Program[T]) ExecProcess(cmd *exec.Cmd) error {
 		return fmt.Errorf("exec: cmd is nil")
 	}
 
+	p.execMu.Lock()
+	defer p.execMu.Unlock()
+
 	// STEP 1: Suspend TUI (stop input, exit raw mode, exit alt screen, show cursor)
 	if err := p.Suspend(); err != nil {
 		return fmt.Errorf("exec: %w", err)
diff --git a/tea/internal/application/program/tty_control_darwin.go b/tea/internal/application/program/tty_control_darwin.go
index 1c74ba8..9ce3f6b 100644
--- a/tea/internal/application/program/tty_control_darwin.go
+++ b/tea/internal/application/program/tty_control_darwin.go
@@ -69,13 +69,18 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 	// Get TTY file descriptor (stdin)
 	ttyFD := int(os.Stdin.Fd())
 
+	// One external process at a time has the terminal
+	p.execMu.Lock()
+
 	// Get current foreground process group (to restore later)
 	parentPgid, err := tcgetpgrp(ttyFD)
 	if err != nil {
+		p.execMu.Unlock()
 		// Not a TTY - fall back to simple ExecProcess
 		log.Printf("WARNING: tcgetpgrp failed (not a TTY?): %v - falling back to simple exec", err)
 		return p.ExecProcess(cmd)
 	}
+	defer p.execMu.Unlock()
 
 	// Temporarily ignore SIGTTOU to prevent being stopped
 	// when we call tcsetpgrp() from a background process group
diff --git a/tea/internal/application/program/tty_control_linux.go b/tea/internal/application/program/tty_control_linux.go
index 316915c..1eac191 100644
--- a/tea/internal/application/program/tty_control_linux.go
+++ b/tea/internal/application/program/tty_control_linux.go
@@ -69,13 +69,18 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 	// Get TTY file descriptor (stdin)
 	ttyFD := int(os.Stdin.Fd())
 
+	// One external process at a time has the terminal
+	p.execMu.Lock()
+
 	// Get current foreground process group (to restore later)
 	parentPgid, err := tcgetpgrp(ttyFD)
 	if err != nil {
+		p.execMu.Unlock()
 		// Not a TTY - fall back to simple ExecProcess
 		log.Printf("WARNING: tcgetpgrp failed (not a TTY?): %v - falling back to simple exec", err)
 		return p.ExecProcess(cmd)
 	}
+	defer p.execMu.Unlock()
 
 	// Temporarily ignore SIGTTOU to prevent being stopped
 	// when we call tcsetpgrp() from a background process group
-- 
2.43.0


From 0716ac0fddb088629edb6af1e3a7ddfcdd0a43eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 37/83] fix: a failed Resume leaves the terminal in normal mode

---
 tea/internal/application/program/program.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index c05d1c8..043140d 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -945,6 +945,10 @@ func (p *Program[T]) takeTerminalBack() (bool, error) {
 	p.mu.Lock()
 	if state.wasInRawMode && !p.terminal.IsInRawMode() {
 		if err := p.terminal.EnterRawMode(); err != nil {
+			// Still suspended: leave the alternate screen again
+			if state.wasInAltScreen {
+				_ = p.terminal.ExitAltScreen() // Best effort
+			}
 			p.mu.Unlock()
 			return false, fmt.Errorf("resume: failed to restore raw mode: %w", err)
 		}
-- 
2.43.0


From 49847de138725318a9cacd5a98e317c51bee545e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 38/83] fix: a child that cannot get the terminal is gone
 before the program takes it back

---
 tea/internal/application/program/tty_control_darwin.go | 1 +
 tea/internal/application/program/tty_control_linux.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/tea/internal/application/program/tty_control_darwin.go b/tea/internal/application/program/tty_control_darwin.go
index 9ce3f6b..a1da2be 100644
--- a/tea/internal/application/program/tty_control_darwin.go
+++ b/tea/internal/application/program/tty_control_darwin.go
@@ -123,6 +123,7 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 		if err := tcsetpgrp(ttyFD, int32(childPid)); err != nil {
 			// Failed to transfer - kill child and restore TUI
 			_ = cmd.Process.Kill()
+			_ = cmd.Wait() // The child has the terminal until it is gone
 			if resumeErr := p.Resume(); resumeErr != nil {
 				return fmt.Errorf("exec: failed to transfer foreground (%v) and %w", err, resumeErr)
 			}
diff --git a/tea/internal/application/program/tty_control_linux.go b/tea/internal/application/program/tty_control_linux.go
index 1eac191..c0d45ee 100644
--- a/tea/internal/application/program/tty_control_linux.go
+++ b/tea/internal/application/program/tty_control_linux.go
@@ -123,6 +123,7 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 		if err := tcsetpgrp(ttyFD, int32(childPid)); err != nil {
 			// Failed to transfer - kill child and restore TUI
 			_ = cmd.Process.Kill()
+			_ = cmd.Wait() // The child has the terminal until it is gone
 			if resumeErr := p.Resume(); resumeErr != nil {
 				return fmt.Errorf("exec: failed to transfer foreground (%v) and %w", err, resumeErr)
 			}
-- 
2.43.0


From 87281c4135b002acdf83eeac18eedf28754d75b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 39/83] fix: a Resume while an external process runs does not
 take the terminal from it

---
 tea/internal/application/program/program.go    | 18 ++++++++++++++++--
 .../application/program/tty_control_darwin.go  |  5 +++++
 .../application/program/tty_control_linux.go   |  5 +++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 043140d..4ae14c8 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -87,6 +87,10 @@ type Program[T any] struct {
 	// itself, from Suspend to Resume.
 	execMu sync.Mutex
 
+	// execing tells that an external process has the terminal (protected by mu).
+	// Only its end gives the terminal back, Resume does not.
+	execing bool
+
 	// redrawCh asks the event loop, which owns the model, for a full redraw.
 	redrawCh chan struct{}
 
@@ -902,6 +906,13 @@ func (p *Program[T]) Resume() error {
 	return nil
 }
 
+// setExecing notes whether an external process has the terminal.
+func (p *Program[T]) setExecing(on bool) {
+	p.mu.Lock()
+	p.execing = on
+	p.mu.Unlock()
+}
+
 // takeTerminalBack does all of Resume but the redraw. It reports whether the
 // program was suspended and now is no longer.
 func (p *Program[T]) takeTerminalBack() (bool, error) {
@@ -909,9 +920,9 @@ func (p *Program[T]) takeTerminalBack() (bool, error) {
 	defer p.ttyMu.Unlock()
 
 	p.mu.Lock()
-	if !p.suspended {
+	if !p.suspended || p.execing {
 		p.mu.Unlock()
-		return false, nil // Not suspended
+		return false, nil // Not suspended, or for an external process
 	}
 
 	state := p.suspendState
@@ -1030,6 +1041,8 @@ func (p *Program[T]) ExecProcess(cmd *exec.Cmd) error {
 
 	p.execMu.Lock()
 	defer p.execMu.Unlock()
+	p.setExecing(true)
+	defer p.setExecing(false)
 
 	// STEP 1: Suspend TUI (stop input, exit raw mode, exit alt screen, show cursor)
 	if err := p.Suspend(); err != nil {
@@ -1046,6 +1059,7 @@ func (p *Program[T]) ExecProcess(cmd *exec.Cmd) error {
 
 	// STEP 4: Resume TUI (restore raw mode, alt screen, restart input, redraw)
 	// ALWAYS resume, even if command failed
+	p.setExecing(false)
 	if err := p.Resume(); err != nil {
 		if cmdErr != nil {
 			return fmt.Errorf("exec: command failed (%v) and %w", cmdErr, err)
diff --git a/tea/internal/application/program/tty_control_darwin.go b/tea/internal/application/program/tty_control_darwin.go
index a1da2be..5f89536 100644
--- a/tea/internal/application/program/tty_control_darwin.go
+++ b/tea/internal/application/program/tty_control_darwin.go
@@ -81,6 +81,8 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 		return p.ExecProcess(cmd)
 	}
 	defer p.execMu.Unlock()
+	p.setExecing(true)
+	defer p.setExecing(false)
 
 	// Temporarily ignore SIGTTOU to prevent being stopped
 	// when we call tcsetpgrp() from a background process group
@@ -109,6 +111,7 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 	// STEP 4: Start child process
 	if err := cmd.Start(); err != nil {
 		// Restore TUI before returning error
+		p.setExecing(false)
 		if resumeErr := p.Resume(); resumeErr != nil {
 			return fmt.Errorf("exec: failed to start command (%v) and %w", err, resumeErr)
 		}
@@ -124,6 +127,7 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 			// Failed to transfer - kill child and restore TUI
 			_ = cmd.Process.Kill()
 			_ = cmd.Wait() // The child has the terminal until it is gone
+			p.setExecing(false)
 			if resumeErr := p.Resume(); resumeErr != nil {
 				return fmt.Errorf("exec: failed to transfer foreground (%v) and %w", err, resumeErr)
 			}
@@ -145,6 +149,7 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 
 	// STEP 8: Resume TUI (restore raw mode, alt screen, restart input, redraw)
 	// ALWAYS resume, even if command failed
+	p.setExecing(false)
 	if err := p.Resume(); err != nil {
 		if cmdErr != nil {
 			return fmt.Errorf("exec: command failed (%v) and %w", cmdErr, err)
diff --git a/tea/internal/application/program/tty_control_linux.go b/tea/internal/application/program/tty_control_linux.go
index c0d45ee..2e4205b 100644
--- a/tea/internal/application/program/tty_control_linux.go
+++ b/tea/internal/application/program/tty_control_linux.go
@@ -81,6 +81,8 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 		return p.ExecProcess(cmd)
 	}
 	defer p.execMu.Unlock()
+	p.setExecing(true)
+	defer p.setExecing(false)
 
 	// Temporarily ignore SIGTTOU to prevent being stopped
 	// when we call tcsetpgrp() from a background process group
@@ -109,6 +111,7 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 	// STEP 4: Start child process
 	if err := cmd.Start(); err != nil {
 		// Restore TUI before returning error
+		p.setExecing(false)
 		if resumeErr := p.Resume(); resumeErr != nil {
 			return fmt.Errorf("exec: failed to start command (%v) and %w", err, resumeErr)
 		}
@@ -124,6 +127,7 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 			// Failed to transfer - kill child and restore TUI
 			_ = cmd.Process.Kill()
 			_ = cmd.Wait() // The child has the terminal until it is gone
+			p.setExecing(false)
 			if resumeErr := p.Resume(); resumeErr != nil {
 				return fmt.Errorf("exec: failed to transfer foreground (%v) and %w", err, resumeErr)
 			}
@@ -145,6 +149,7 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 
 	// STEP 8: Resume TUI (restore raw mode, alt screen, restart input, redraw)
 	// ALWAYS resume, even if command failed
+	p.setExecing(false)
 	if err := p.Resume(); err != nil {
 		if cmdErr != nil {
 			return fmt.Errorf("exec: command failed (%v) and %w", cmdErr, err)
-- 
2.43.0


From 5e199daee1ad876c9c5c19d10c2aa28915c2d17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:54 +0000
Subject: [PATCH 40/83] fix: keys are decoded whole: F1-F4, Alt+key, Escape
 followed by a key and sequences split between reads

---
 .../infrastructure/input/cancelable_reader.go | 19 ++++
 tea/internal/infrastructure/input/reader.go   | 91 +++++++++++++------
 2 files changed, 84 insertions(+), 26 deletions(-)

diff --git a/tea/internal/infrastructure/input/cancelable_reader.go b/tea/internal/infrastructure/input/cancelable_reader.go
index 5b3b9de..937b3b0 100644
--- a/tea/internal/infrastructure/input/cancelable_reader.go
+++ b/tea/internal/infrastructure/input/cancelable_reader.go
@@ -276,6 +276,25 @@ func (cr *CancelableReader) Read(p []byte) (int, error) {
 	return 0, cr.rest.err
 }
 
+// waitData waits up to d for data and reports whether Read would return some
+// without blocking.
+func (cr *CancelableReader) waitData(d time.Duration) bool {
+	cr.restMu.Lock()
+	defer cr.restMu.Unlock()
+
+	if cr.rest.n == 0 && cr.rest.err == nil {
+		timeout := time.NewTimer(d)
+		defer timeout.Stop()
+		select {
+		case cr.rest = <-cr.readCh:
+		case <-timeout.C:
+		case <-cr.done:
+			return false
+		}
+	}
+	return cr.rest.n > 0
+}
+
 // Cancel stops the reader immediately.
 // Any blocked Read() calls will return io.EOF.
 // Safe to call multiple times.
diff --git a/tea/internal/infrastructure/input/reader.go b/tea/internal/infrastructure/input/reader.go
index fc192f5..617faeb 100644
--- a/tea/internal/infrastructure/input/reader.go
+++ b/tea/internal/infrastructure/input/reader.go
@@ -4,6 +4,7 @@ package input
 import (
 	"bufio"
 	"io"
+	"time"
 
 	"github.com/phoenix-tui/phoenix/tea/internal/domain/model"
 	"github.com/phoenix-tui/phoenix/tea/internal/infrastructure/ansi"
@@ -74,8 +75,6 @@ func (ir *Reader) IsCanceled() bool {
 //   - nil, error if read fails
 //
 // Properly handles UTF-8 multi-byte sequences (Russian, Chinese, emoji, etc.).
-//
-//nolint:gocognit,gocyclo,cyclop,nestif // Input parsing requires sequential byte analysis
 func (ir *Reader) Read() (model.Msg, error) {
 	// Read one byte to detect input type
 	b, err := ir.reader.ReadByte()
@@ -83,38 +82,78 @@ func (ir *Reader) Read() (model.Msg, error) {
 		return nil, err
 	}
 
-	// Build sequence
-	seq := []byte{b}
-
-	// If ESC, try to read more bytes for ANSI sequence
 	if b == 0x1B {
-		// Peek ahead to see if more bytes available
-		// (with simple buffered check to avoid blocking forever)
-
-		// Try to read up to 10 more bytes (enough for most sequences)
-		for i := 0; i < 10; i++ {
-			// Check if byte available (non-blocking peek)
-			if ir.reader.Buffered() > 0 {
-				nextByte, err := ir.reader.ReadByte()
-				if err != nil {
-					break
-				}
-				seq = append(seq, nextByte)
+		return ir.readEscape()
+	}
+	return ir.decode(b)
+}
+
+// escTimeout is how long to wait for the rest of an escape sequence. The
+// terminal sends a sequence at once, but it may arrive in several reads.
+const escTimeout = 25 * time.Millisecond
+
+// more reports whether another byte can be read without waiting for the user.
+func (ir *Reader) more() bool {
+	return ir.reader.Buffered() > 0 || ir.cancelableReader.waitData(escTimeout)
+}
+
+// readEscape decodes what follows an ESC byte.
+func (ir *Reader) readEscape() (model.Msg, error) {
+	esc := model.KeyMsg{Type: model.KeyEsc}
+	if !ir.more() {
+		return esc, nil
+	}
+	b, err := ir.reader.ReadByte()
+	if err != nil {
+		return esc, nil //nolint:nilerr // The next Read reports it
+	}
 
-				// Stop if we hit a letter or tilde (end of most sequences)
-				if (nextByte >= 'A' && nextByte <= 'Z') ||
-					(nextByte >= 'a' && nextByte <= 'z') ||
-					nextByte == '~' {
-					break
+	seq := []byte{0x1B, b}
+	switch b {
+	case 0x1B:
+		// Another key
+		return esc, ir.reader.UnreadByte()
+	case '[', 'O':
+		for len(seq) < 32 && ir.more() {
+			c, err := ir.reader.ReadByte()
+			if err != nil {
+				break
+			}
+			if c < 0x20 || c >= 0x7F {
+				// Not part of a sequence
+				if err := ir.reader.UnreadByte(); err != nil {
+					return nil, err
 				}
-			} else {
+				break
+			}
+			seq = append(seq, c)
+			// ESC O is followed by one byte, ESC [ ends at a final byte
+			// (ESC [ [ comes from the Linux console)
+			if b == 'O' || c >= 0x40 && (c != '[' || len(seq) > 3) {
 				break
 			}
 		}
+		if len(seq) > 2 {
+			if keyMsg, ok := ir.parser.ParseKey(seq); ok {
+				return keyMsg, nil
+			}
+			return nil, nil // Unknown sequence
+		}
 	}
 
-	// Parse sequence (handles special keys, ANSI sequences, ASCII)
-	keyMsg, ok := ir.parser.ParseKey(seq)
+	// ESC and a key: the key with Alt held
+	msg, err := ir.decode(b)
+	if keyMsg, ok := msg.(model.KeyMsg); ok {
+		keyMsg.Alt = true
+		msg = keyMsg
+	}
+	return msg, err
+}
+
+// decode decodes a key that starts with b, the byte read last, other than ESC.
+func (ir *Reader) decode(b byte) (model.Msg, error) {
+	// Parse special keys and ASCII
+	keyMsg, ok := ir.parser.ParseKey([]byte{b})
 	if ok {
 		return keyMsg, nil
 	}
-- 
2.43.0


From aeca985be24c0a4fe1bb0f0cfb8aa49d8a181a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 41/83] fix: inline renderer erases neither the last line when
 the view shrinks nor the last column of a full line, and shows an empty view

---
 tea/internal/infrastructure/renderer/inline.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tea/internal/infrastructure/renderer/inline.go b/tea/internal/infrastructure/renderer/inline.go
index 6c633e7..827b851 100644
--- a/tea/internal/infrastructure/renderer/inline.go
+++ b/tea/internal/infrastructure/renderer/inline.go
@@ -79,7 +79,7 @@ func (r *InlineRenderer) Render(view string) error { //nolint:gocognit,gocyclo,c
 	defer r.mu.Unlock()
 
 	// No-op if the view is identical to the previous render.
-	if view == r.lastView && r.linesRendered > 0 {
+	if r.lastLines != nil && view == r.lastView {
 		return nil
 	}
 
@@ -121,8 +121,12 @@ func (r *InlineRenderer) Render(view string) error { //nolint:gocognit,gocyclo,c
 
 		// Write the (possibly truncated) line content followed by erase-to-EOL.
 		// The erase sequence clears any leftover characters from a longer previous line.
+		// A line as wide as the terminal leaves none, but leaves the cursor on its
+		// last character.
 		buf.WriteString(line)
-		buf.WriteString(eraseLineRight)
+		if r.width <= 0 || visualWidth(line) < r.width {
+			buf.WriteString(eraseLineRight)
+		}
 
 		if i < len(newLines)-1 {
 			buf.WriteString("\r\n")
@@ -130,8 +134,11 @@ func (r *InlineRenderer) Render(view string) error { //nolint:gocognit,gocyclo,c
 	}
 
 	// Erase any extra lines from the previous render that are no longer present.
+	// They start on the next row; the last line itself must stay.
 	if r.linesRendered > len(newLines) {
+		buf.WriteString("\r\n")
 		buf.WriteString(eraseScreenBelow)
+		buf.WriteString(cursorUp(1))
 	}
 
 	// Leave cursor at column 0 of the last rendered line for consistent positioning.
-- 
2.43.0


From 03e1399d8f4ab37878534564affc6a8ff554ce3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 42/83] fix: a line truncated by the inline renderer keeps the
 sequences that end its styles

---
 tea/internal/infrastructure/renderer/inline.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tea/internal/infrastructure/renderer/inline.go b/tea/internal/infrastructure/renderer/inline.go
index 827b851..4300186 100644
--- a/tea/internal/infrastructure/renderer/inline.go
+++ b/tea/internal/infrastructure/renderer/inline.go
@@ -331,6 +331,7 @@ func truncateLine(s string, maxWidth int) string { //nolint:gocognit,gocyclo,cyc
 	var b strings.Builder
 	b.Grow(len(s))
 	width := 0
+	full := false
 	i := 0
 
 	for i < len(s) {
@@ -380,12 +381,14 @@ func truncateLine(s string, maxWidth int) string { //nolint:gocognit,gocyclo,cyc
 		// Decode rune and check remaining width budget.
 		r, size := decodeRune(s, i)
 		rw := runeDisplayWidth(r)
-		if width+rw > maxWidth {
-			break
+		i += size
+		if full || width+rw > maxWidth {
+			// Nothing more is shown, but styles must still be ended.
+			full = true
+			continue
 		}
 		b.WriteRune(r)
 		width += rw
-		i += size
 	}
 
 	return b.String()
-- 
2.43.0


From eba47294e13567d6b9625a99279c598a1584de3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 43/83] fix: inline renderer measures emoji of the basic plane
 and the extended pictographs as wide

---
 tea/internal/infrastructure/renderer/inline.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tea/internal/infrastructure/renderer/inline.go b/tea/internal/infrastructure/renderer/inline.go
index 4300186..6e15667 100644
--- a/tea/internal/infrastructure/renderer/inline.go
+++ b/tea/internal/infrastructure/renderer/inline.go
@@ -254,6 +254,19 @@ func stripANSI(s string) string { //nolint:gocognit,gocyclo,cyclop // byte-level
 	return b.String()
 }
 
+// wideSymbols are the symbols of the basic plane that terminals show as emoji.
+var wideSymbols = &unicode.RangeTable{R16: []unicode.Range16{
+	{0x231A, 0x231B, 1}, {0x23E9, 0x23EC, 1}, {0x23F0, 0x23F0, 1}, {0x23F3, 0x23F3, 1},
+	{0x25FD, 0x25FE, 1}, {0x2614, 0x2615, 1}, {0x2648, 0x2653, 1}, {0x267F, 0x267F, 1},
+	{0x2693, 0x2693, 1}, {0x26A1, 0x26A1, 1}, {0x26AA, 0x26AB, 1}, {0x26BD, 0x26BE, 1},
+	{0x26C4, 0x26C5, 1}, {0x26CE, 0x26CE, 1}, {0x26D4, 0x26D4, 1}, {0x26EA, 0x26EA, 1},
+	{0x26F2, 0x26F3, 1}, {0x26F5, 0x26F5, 1}, {0x26FA, 0x26FA, 1}, {0x26FD, 0x26FD, 1},
+	{0x2705, 0x2705, 1}, {0x270A, 0x270B, 1}, {0x2728, 0x2728, 1}, {0x274C, 0x274C, 1},
+	{0x274E, 0x274E, 1}, {0x2753, 0x2755, 1}, {0x2757, 0x2757, 1}, {0x2795, 0x2797, 1},
+	{0x27B0, 0x27B0, 1}, {0x27BF, 0x27BF, 1}, {0x2B1B, 0x2B1C, 1}, {0x2B50, 0x2B50, 1},
+	{0x2B55, 0x2B55, 1},
+}}
+
 // runeDisplayWidth returns the display width of a single rune.
 // Wide characters (CJK, fullwidth) count as 2 columns; most others count as 1.
 // Control characters and combining marks count as 0.
@@ -294,6 +307,10 @@ func runeDisplayWidth(r rune) int { //nolint:gocognit,gocyclo,cyclop,funlen // U
 		return 2
 	case r >= 0x1F004 && r <= 0x1F0CF: // Playing cards, Mahjong
 		return 2
+	case r >= 0x231A && r <= 0x2B55 && unicode.Is(wideSymbols, r):
+		return 2
+	case r >= 0x1FA70 && r <= 0x1FAFF: // Symbols and Pictographs Extended-A
+		return 2
 	case r >= 0x1F300 && r <= 0x1F9FF: // Miscellaneous Symbols + Emoji
 		return 2
 	case r >= 0x20000 && r <= 0x2FFFD: // CJK Extension B-F
-- 
2.43.0


From 740fd9d8cff1603e070bee06ba421f0bc033c4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:31 +0000
Subject: [PATCH 44/83] fix: inline renderer measures enclosed ideographs,
 squared letters, Tangut and kana extensions as wide

---
 tea/internal/infrastructure/renderer/inline.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tea/internal/infrastructure/renderer/inline.go b/tea/internal/infrastructure/renderer/inline.go
index 6e15667..7bb1e8f 100644
--- a/tea/internal/infrastructure/renderer/inline.go
+++ b/tea/internal/infrastructure/renderer/inline.go
@@ -303,10 +303,16 @@ func runeDisplayWidth(r rune) int { //nolint:gocognit,gocyclo,cyclop,funlen // U
 		return 2
 	case r >= 0xFFE0 && r <= 0xFFE6: // Fullwidth Signs
 		return 2
-	case r >= 0x1B000 && r <= 0x1B0FF: // Kana Supplement
+	case r >= 0x16FE0 && r <= 0x18D08: // Ideographic symbols, Tangut, Khitan
+		return 2
+	case r >= 0x1AFF0 && r <= 0x1B2FB: // Kana Extended and Supplement, Nushu
 		return 2
 	case r >= 0x1F004 && r <= 0x1F0CF: // Playing cards, Mahjong
 		return 2
+	case r == 0x1F18E || (r >= 0x1F191 && r <= 0x1F19A): // Squared letters (CL, COOL, OK...)
+		return 2
+	case r >= 0x1F200 && r <= 0x1F265: // Enclosed Ideographic Supplement
+		return 2
 	case r >= 0x231A && r <= 0x2B55 && unicode.Is(wideSymbols, r):
 		return 2
 	case r >= 0x1FA70 && r <= 0x1FAFF: // Symbols and Pictographs Extended-A
-- 
2.43.0


From bf136b5eb38663208bd0ac7efd8d0aee4fabe350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:57 +0000
Subject: [PATCH 45/83] fix: inline renderer clears the row before a line that
 may fill it

---
 tea/internal/infrastructure/renderer/inline.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/tea/internal/infrastructure/renderer/inline.go b/tea/internal/infrastructure/renderer/inline.go
index 7bb1e8f..bf879e2 100644
--- a/tea/internal/infrastructure/renderer/inline.go
+++ b/tea/internal/infrastructure/renderer/inline.go
@@ -119,13 +119,16 @@ func (r *InlineRenderer) Render(view string) error { //nolint:gocognit,gocyclo,c
 			continue
 		}
 
-		// Write the (possibly truncated) line content followed by erase-to-EOL.
-		// The erase sequence clears any leftover characters from a longer previous line.
-		// A line as wide as the terminal leaves none, but leaves the cursor on its
-		// last character.
-		buf.WriteString(line)
-		if r.width <= 0 || visualWidth(line) < r.width {
+		// Write the (possibly truncated) line content and clear any leftover
+		// characters from a longer previous line. After a line as wide as the
+		// terminal the cursor is still on the last character, so there the row is
+		// cleared first.
+		if r.width > 0 && visualWidth(line) < r.width {
+			buf.WriteString(line)
 			buf.WriteString(eraseLineRight)
+		} else {
+			buf.WriteString(eraseLineRight)
+			buf.WriteString(line)
 		}
 
 		if i < len(newLines)-1 {
-- 
2.43.0


From 2f9d3c74eaa0ae70a636cba92ebac6d08b7f4fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 46/83] fix: mouse parsers decode motion, releases and extra
 buttons, and reject malformed reports

---
 mouse/internal/application/mouse_handler.go   | 14 +++++-----
 .../infrastructure/parser/button_code.go      | 25 +++++++++++++++++
 .../infrastructure/parser/sgr_parser.go       | 27 +++++++++----------
 .../infrastructure/parser/urxvt_parser.go     | 22 +++++++--------
 .../infrastructure/parser/x10_parser.go       | 18 +++++++++----
 5 files changed, 67 insertions(+), 39 deletions(-)
 create mode 100644 mouse/internal/infrastructure/parser/button_code.go

diff --git a/mouse/internal/application/mouse_handler.go b/mouse/internal/application/mouse_handler.go
index 83bf18c..9826790 100644
--- a/mouse/internal/application/mouse_handler.go
+++ b/mouse/internal/application/mouse_handler.go
@@ -83,13 +83,13 @@ func (h *MouseHandler) parseRawEvent(sequence string) (*model.MouseEvent, error)
 // parseSGR parses an SGR mouse sequence.
 func (h *MouseHandler) parseSGR(sequence string) (*model.MouseEvent, error) {
 	// Extract press/release indicator
-	isPress := strings.HasSuffix(sequence, "M")
-
-	// Remove suffix
-	sequence = strings.TrimSuffix(sequence, "M")
-	sequence = strings.TrimSuffix(sequence, "m")
-
-	return h.sgrParser.Parse(sequence, isPress)
+	if fields, ok := strings.CutSuffix(sequence, "M"); ok {
+		return h.sgrParser.Parse(fields, true)
+	}
+	if fields, ok := strings.CutSuffix(sequence, "m"); ok {
+		return h.sgrParser.Parse(fields, false)
+	}
+	return nil, fmt.Errorf("unterminated SGR sequence: %q", sequence)
 }
 
 // parseX10 parses an X10 mouse sequence.
diff --git a/mouse/internal/infrastructure/parser/button_code.go b/mouse/internal/infrastructure/parser/button_code.go
new file mode 100644
index 0000000..5cabaab
--- /dev/null
+++ b/mouse/internal/infrastructure/parser/button_code.go
@@ -0,0 +1,25 @@
+package parser
+
+import (
+	"fmt"
+	"strconv"
+)
+
+// Layout of the button code, which all protocols share.
+const (
+	buttonMask  = 0xE3 // the button and the motion bit: all but the modifiers (bits 2-4)
+	motionBit   = 0x20 // the report is about a movement
+	releaseCode = 3    // some button was released (X10 and URxvt)
+)
+
+// parseField parses one decimal field of a report.
+func parseField(s string, minimum int) (int, error) {
+	n, err := strconv.Atoi(s)
+	if err != nil {
+		return 0, err
+	}
+	if n < minimum || s[0] < '0' || s[0] > '9' {
+		return 0, fmt.Errorf("value out of range: %q", s)
+	}
+	return n, nil
+}
diff --git a/mouse/internal/infrastructure/parser/sgr_parser.go b/mouse/internal/infrastructure/parser/sgr_parser.go
index b33cbe6..0447927 100644
--- a/mouse/internal/infrastructure/parser/sgr_parser.go
+++ b/mouse/internal/infrastructure/parser/sgr_parser.go
@@ -4,7 +4,6 @@ package parser
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/phoenix-tui/phoenix/mouse/internal/domain/model"
@@ -34,21 +33,17 @@ func (p *SGRParser) Parse(sequence string, isPress bool) (*model.MouseEvent, err
 		return nil, fmt.Errorf("invalid SGR sequence: expected 3 parts, got %d", len(parts))
 	}
 
-	// Parse button
-	buttonCode, err := strconv.Atoi(parts[0])
+	// Parse the fields (coordinates are 1-based in the protocol)
+	buttonCode, err := parseField(parts[0], 0)
 	if err != nil {
 		return nil, fmt.Errorf("invalid button code: %w", err)
 	}
-
-	// Parse X (1-based in protocol, convert to 0-based)
-	x, err := strconv.Atoi(parts[1])
+	x, err := parseField(parts[1], 1)
 	if err != nil {
 		return nil, fmt.Errorf("invalid X coordinate: %w", err)
 	}
 	x-- // Convert to 0-based
-
-	// Parse Y (1-based in protocol, convert to 0-based)
-	y, err := strconv.Atoi(parts[2])
+	y, err := parseField(parts[2], 1)
 	if err != nil {
 		return nil, fmt.Errorf("invalid Y coordinate: %w", err)
 	}
@@ -60,11 +55,14 @@ func (p *SGRParser) Parse(sequence string, isPress bool) (*model.MouseEvent, err
 
 	// Determine event type
 	var eventType value2.EventType
-	if button.IsWheel() { //nolint:gocritic // ifElseChain: Event type determination requires conditional checks
+	switch {
+	case button.IsWheel():
 		eventType = value2.EventScroll
-	} else if isPress {
+	case buttonCode&motionBit != 0:
+		eventType = value2.EventMotion
+	case isPress:
 		eventType = value2.EventPress
-	} else {
+	default:
 		eventType = value2.EventRelease
 	}
 
@@ -81,8 +79,7 @@ func (p *SGRParser) decodeButton(code int) (value2.Button, value2.Modifiers) {
 	modifiers := value2.NewModifiers(shift, ctrl, alt)
 
 	// Extract base button (remove modifier bits)
-	// Mask: keep bits 0,1,5,6 (0x63 = 0b01100011)
-	baseButton := code & 0x63 // bits 0-1 and 5-6
+	baseButton := code & buttonMask
 
 	var button value2.Button
 	switch baseButton {
@@ -107,7 +104,7 @@ func (p *SGRParser) decodeButton(code int) (value2.Button, value2.Modifiers) {
 
 // IsMotion checks if the button code represents a motion event.
 func (p *SGRParser) IsMotion(buttonCode int) bool {
-	baseButton := buttonCode & 0x63 // same mask as decodeButton
+	baseButton := buttonCode & buttonMask
 	return baseButton == 32 || baseButton == 35
 }
 
diff --git a/mouse/internal/infrastructure/parser/urxvt_parser.go b/mouse/internal/infrastructure/parser/urxvt_parser.go
index 0481361..5ec32ea 100644
--- a/mouse/internal/infrastructure/parser/urxvt_parser.go
+++ b/mouse/internal/infrastructure/parser/urxvt_parser.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/phoenix-tui/phoenix/mouse/internal/domain/model"
@@ -28,21 +27,17 @@ func (p *URxvtParser) Parse(sequence string) (*model.MouseEvent, error) {
 		return nil, fmt.Errorf("invalid URxvt sequence: expected 3 parts, got %d", len(parts))
 	}
 
-	// Parse button
-	buttonCode, err := strconv.Atoi(parts[0])
+	// Parse the fields (coordinates are 1-based in the protocol)
+	buttonCode, err := parseField(parts[0], 0)
 	if err != nil {
 		return nil, fmt.Errorf("invalid button code: %w", err)
 	}
-
-	// Parse X (1-based in protocol, convert to 0-based)
-	x, err := strconv.Atoi(parts[1])
+	x, err := parseField(parts[1], 1)
 	if err != nil {
 		return nil, fmt.Errorf("invalid X coordinate: %w", err)
 	}
 	x-- // Convert to 0-based
-
-	// Parse Y (1-based in protocol, convert to 0-based)
-	y, err := strconv.Atoi(parts[2])
+	y, err := parseField(parts[2], 1)
 	if err != nil {
 		return nil, fmt.Errorf("invalid Y coordinate: %w", err)
 	}
@@ -54,9 +49,12 @@ func (p *URxvtParser) Parse(sequence string) (*model.MouseEvent, error) {
 
 	// URxvt doesn't distinguish press/release
 	var eventType value2.EventType
-	if button.IsWheel() {
+	switch {
+	case button.IsWheel():
 		eventType = value2.EventScroll
-	} else {
+	case buttonCode&buttonMask == releaseCode:
+		eventType = value2.EventRelease
+	default:
 		eventType = value2.EventPress
 	}
 
@@ -73,7 +71,7 @@ func (p *URxvtParser) decodeButton(code int) (value2.Button, value2.Modifiers) {
 	modifiers := value2.NewModifiers(shift, ctrl, alt)
 
 	// Extract base button (remove modifier bits)
-	baseButton := code & 0x63 // bits 0-1 and 5-6
+	baseButton := code & buttonMask
 
 	var button value2.Button
 	switch baseButton {
diff --git a/mouse/internal/infrastructure/parser/x10_parser.go b/mouse/internal/infrastructure/parser/x10_parser.go
index 915d2ec..b5b4d92 100644
--- a/mouse/internal/infrastructure/parser/x10_parser.go
+++ b/mouse/internal/infrastructure/parser/x10_parser.go
@@ -30,16 +30,24 @@ func (p *X10Parser) Parse(data []byte) (*model.MouseEvent, error) {
 	x := int(data[1]) - 32 - 1 // -1 to convert to 0-based
 	y := int(data[2]) - 32 - 1 // -1 to convert to 0-based
 
+	if buttonCode < 0 || x < 0 || y < 0 {
+		return nil, fmt.Errorf("invalid X10 sequence: %q", data)
+	}
+
 	// Extract button and modifiers
 	button, modifiers := p.decodeButton(buttonCode)
 	position := value2.NewPosition(x, y)
 
-	// X10 doesn't distinguish press/release for normal buttons
-	// We'll treat it as a press event
+	// X10 doesn't say which button was released
 	var eventType value2.EventType
-	if button.IsWheel() {
+	switch {
+	case button.IsWheel():
 		eventType = value2.EventScroll
-	} else {
+	case buttonCode&motionBit != 0:
+		eventType = value2.EventMotion
+	case buttonCode&buttonMask == releaseCode:
+		eventType = value2.EventRelease
+	default:
 		eventType = value2.EventPress
 	}
 
@@ -56,7 +64,7 @@ func (p *X10Parser) decodeButton(code int) (value2.Button, value2.Modifiers) {
 	modifiers := value2.NewModifiers(shift, ctrl, alt)
 
 	// Extract base button (remove modifier bits)
-	baseButton := code & 0x63 // bits 0-1 and 5-6
+	baseButton := code & buttonMask
 
 	var button value2.Button
 	switch baseButton {
-- 
2.43.0


From 2736d0e623615d0380c650244ceb9cdf3b576e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:29 +0000
Subject: [PATCH 47/83] fix: a drag ends where the button is released, and only
 a button starts one

---
 mouse/internal/domain/service/drag_tracker.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mouse/internal/domain/service/drag_tracker.go b/mouse/internal/domain/service/drag_tracker.go
index b1ba9c3..e147984 100644
--- a/mouse/internal/domain/service/drag_tracker.go
+++ b/mouse/internal/domain/service/drag_tracker.go
@@ -20,7 +20,7 @@ func NewDragTracker(threshold int) *DragTracker {
 
 // ProcessPress handles a press event, potentially starting a drag.
 func (d *DragTracker) ProcessPress(pressEvent model2.MouseEvent) {
-	if pressEvent.Type() == value2.EventPress {
+	if pressEvent.Type() == value2.EventPress && pressEvent.Button().IsButton() {
 		d.state.Start(
 			pressEvent.Position(),
 			pressEvent.Button(),
@@ -55,11 +55,12 @@ func (d *DragTracker) ProcessMotion(motionEvent model2.MouseEvent) *model2.Mouse
 
 // ProcessRelease handles a release event, ending the drag.
 // Returns the final drag state information.
-func (d *DragTracker) ProcessRelease(_ model2.MouseEvent) (wasDrag bool, start, end value2.Position) {
+func (d *DragTracker) ProcessRelease(releaseEvent model2.MouseEvent) (wasDrag bool, start, end value2.Position) {
 	if !d.state.IsActive() {
 		return false, value2.NewPosition(0, 0), value2.NewPosition(0, 0)
 	}
 
+	d.state.Update(releaseEvent.Position())
 	wasDrag = d.state.IsDrag()
 	start = d.state.StartPosition()
 	end = d.state.Current()
-- 
2.43.0


From 294d6a45b73ec500f2acbd687a0c7e823d82b40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 48/83] fix: a popup menu stays on the screen for a cursor left
 of or above it

---
 mouse/internal/domain/service/menu_positioner.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mouse/internal/domain/service/menu_positioner.go b/mouse/internal/domain/service/menu_positioner.go
index 6864a8a..c08aaf9 100644
--- a/mouse/internal/domain/service/menu_positioner.go
+++ b/mouse/internal/domain/service/menu_positioner.go
@@ -88,6 +88,14 @@ func (p *MenuPositioner) CalculatePosition(
 		}
 	}
 
+	// A cursor left of or above the screen
+	if x < 0 {
+		x = 0
+	}
+	if y < 0 {
+		y = 0
+	}
+
 	return value.NewPosition(x, y)
 }
 
-- 
2.43.0


From bbe965fb2aebd74e0a42d59f162dbdce5f0549fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 49/83] fix: RTF text with special characters survives encoding
 and decoding

---
 .../internal/domain/service/richtext_codec.go | 114 +++++++++++-------
 1 file changed, 68 insertions(+), 46 deletions(-)

diff --git a/clipboard/internal/domain/service/richtext_codec.go b/clipboard/internal/domain/service/richtext_codec.go
index 9acbecb..f92001d 100644
--- a/clipboard/internal/domain/service/richtext_codec.go
+++ b/clipboard/internal/domain/service/richtext_codec.go
@@ -5,7 +5,9 @@ import (
 	"fmt"
 	"html"
 	"regexp"
+	"strconv"
 	"strings"
+	"unicode/utf16"
 
 	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/value"
 )
@@ -188,19 +190,19 @@ func (c *RichTextCodec) DecodeRTF(rtfContent string) (string, value.TextStyles,
 
 	styles := value.NewTextStyles()
 
-	// Detect bold
-	if strings.Contains(rtfContent, "\\b ") {
-		styles = styles.WithBold(true)
-	}
-
-	// Detect italic
-	if strings.Contains(rtfContent, "\\i ") {
-		styles = styles.WithItalic(true)
-	}
-
-	// Detect underline
-	if strings.Contains(rtfContent, "\\ul ") {
-		styles = styles.WithUnderline(true)
+	// Detect bold, italic and underline
+	for _, token := range rtfToken.FindAllStringSubmatch(rtfContent, -1) {
+		if token[rtfParam] != "" {
+			continue // e.g. \b0 ends bold
+		}
+		switch token[rtfWord] {
+		case "b":
+			styles = styles.WithBold(true)
+		case "i":
+			styles = styles.WithItalic(true)
+		case "ul":
+			styles = styles.WithUnderline(true)
+		}
 	}
 
 	// Detect color from color table
@@ -236,40 +238,58 @@ func (c *RichTextCodec) StripRTFFormatting(rtfContent string) (string, error) {
 		return "", nil
 	}
 
-	// Remove RTF control words and groups
-	text := rtfContent
-
 	// Remove color table
-	colorTableRegex := regexp.MustCompile(`\{\\colortbl[^}]*\}`)
-	text = colorTableRegex.ReplaceAllString(text, "")
-
-	// Remove RTF header
-	text = strings.TrimPrefix(text, "{\\rtf1\\ansi\\deff0")
-	text = strings.TrimPrefix(text, "\n")
-
-	// Remove formatting codes
-	text = strings.ReplaceAll(text, "\\b ", "")
-	text = strings.ReplaceAll(text, "\\b0 ", "")
-	text = strings.ReplaceAll(text, "\\i ", "")
-	text = strings.ReplaceAll(text, "\\i0 ", "")
-	text = strings.ReplaceAll(text, "\\ul ", "")
-	text = strings.ReplaceAll(text, "\\ul0 ", "")
-	text = regexp.MustCompile(`\\cf\d+ `).ReplaceAllString(text, "")
-
-	// Remove remaining control sequences
-	controlRegex := regexp.MustCompile(`\\[a-z]+\d*\s*`)
-	text = controlRegex.ReplaceAllString(text, "")
-
-	// Remove braces
-	text = strings.ReplaceAll(text, "{", "")
-	text = strings.ReplaceAll(text, "}", "")
-
-	// Trim whitespace
-	text = strings.TrimSpace(text)
-
-	return text, nil
+	text := rtfColorTable.ReplaceAllString(rtfContent, "")
+
+	var buf strings.Builder
+	var high rune // First half of a character outside the basic plane
+	for _, token := range rtfToken.FindAllStringSubmatch(text, -1) {
+		switch {
+		case token[rtfUnicode] != "":
+			n, err := strconv.Atoi(token[rtfUnicode])
+			if err != nil {
+				return "", fmt.Errorf("invalid character in RTF: %w", err)
+			}
+			r := rune(n)
+			if n < 0 {
+				r += 0x10000 // RTF numbers are signed 16-bit
+			}
+			switch {
+			case high != 0:
+				buf.WriteRune(utf16.DecodeRune(high, r))
+				high = 0
+			case utf16.IsSurrogate(r):
+				high = r
+			default:
+				buf.WriteRune(r)
+			}
+		case token[rtfWord] == "line":
+			buf.WriteByte('\n')
+		case token[rtfEscaped] != "":
+			buf.WriteString(token[rtfEscaped])
+		case token[rtfText] != "":
+			buf.WriteString(token[rtfText])
+		}
+	}
+
+	return buf.String(), nil
 }
 
+// rtfToken matches one control word or symbol of RTF, or a run of text. Line ends
+// and braces of the source are no text.
+var rtfToken = regexp.MustCompile(`\\u(-?\d+) ?[^\\{}\r\n]?|\\([a-z]+)(-?\d+)? ?|\\([\\{}])|([^\\{}\r\n]+)`)
+
+// Submatches of rtfToken.
+const (
+	rtfUnicode = iota + 1
+	rtfWord
+	rtfParam
+	rtfEscaped
+	rtfText
+)
+
+var rtfColorTable = regexp.MustCompile(`\{\\colortbl[^}]*\}`)
+
 // HTMLToRTF converts HTML content to RTF format.
 func (c *RichTextCodec) HTMLToRTF(htmlContent string) (string, error) {
 	if htmlContent == "" {
@@ -330,9 +350,11 @@ func (c *RichTextCodec) escapeRTF(text string) string {
 			// Skip carriage returns
 			continue
 		default:
-			// For non-ASCII characters, use Unicode escape
+			// For non-ASCII characters, use Unicode escapes (signed 16-bit numbers)
 			if r > 127 {
-				buf.WriteString(fmt.Sprintf("\\u%d?", r))
+				for _, u := range utf16.Encode([]rune{r}) {
+					buf.WriteString(fmt.Sprintf("\\u%d?", int16(u)))
+				}
 			} else {
 				buf.WriteRune(r)
 			}
-- 
2.43.0


From c62bd41f76a73d4e000d916ed47dd5d3cffea87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:21 +0000
Subject: [PATCH 50/83] fix: clipboard history lists entries of the same moment
 newest first

---
 .../internal/domain/service/clipboard_history.go      | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/clipboard/internal/domain/service/clipboard_history.go b/clipboard/internal/domain/service/clipboard_history.go
index 0fce74f..392b20e 100644
--- a/clipboard/internal/domain/service/clipboard_history.go
+++ b/clipboard/internal/domain/service/clipboard_history.go
@@ -3,6 +3,7 @@ package service
 
 import (
 	"fmt"
+	"slices"
 	"sort"
 	"sync"
 	"time"
@@ -86,9 +87,10 @@ func (h *ClipboardHistory) GetAll() []*model.HistoryEntry {
 	// Create a copy to avoid external modification
 	result := make([]*model.HistoryEntry, len(h.entries))
 	copy(result, h.entries)
+	slices.Reverse(result) // Entries of the same moment: the last added is the newest
 
 	// Sort by timestamp (newest first)
-	sort.Slice(result, func(i, j int) bool {
+	sort.SliceStable(result, func(i, j int) bool {
 		return result[i].Timestamp().After(result[j].Timestamp())
 	})
 
@@ -109,8 +111,9 @@ func (h *ClipboardHistory) GetRecent(count int) []*model.HistoryEntry {
 	// Get all entries sorted by timestamp
 	result := make([]*model.HistoryEntry, len(h.entries))
 	copy(result, h.entries)
+	slices.Reverse(result) // Entries of the same moment: the last added is the newest
 
-	sort.Slice(result, func(i, j int) bool {
+	sort.SliceStable(result, func(i, j int) bool {
 		return result[i].Timestamp().After(result[j].Timestamp())
 	})
 
@@ -136,8 +139,10 @@ func (h *ClipboardHistory) GetByMIMEType(mimeType value.MIMEType) []*model.Histo
 		}
 	}
 
+	slices.Reverse(result) // Entries of the same moment: the last added is the newest
+
 	// Sort by timestamp (newest first)
-	sort.Slice(result, func(i, j int) bool {
+	sort.SliceStable(result, func(i, j int) bool {
 		return result[i].Timestamp().After(result[j].Timestamp())
 	})
 
-- 
2.43.0


From c8188960bf0644f5ae5e1aa5dfe7d11a88682986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 51/83] fix: clipboard history accepts any limit

---
 clipboard/internal/domain/service/clipboard_history.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clipboard/internal/domain/service/clipboard_history.go b/clipboard/internal/domain/service/clipboard_history.go
index 392b20e..ed650e6 100644
--- a/clipboard/internal/domain/service/clipboard_history.go
+++ b/clipboard/internal/domain/service/clipboard_history.go
@@ -33,7 +33,7 @@ func NewClipboardHistory(maxSize int, maxAge time.Duration) *ClipboardHistory {
 	}
 
 	return &ClipboardHistory{
-		entries: make([]*model.HistoryEntry, 0, maxSize),
+		entries: make([]*model.HistoryEntry, 0),
 		maxSize: maxSize,
 		maxAge:  maxAge,
 	}
@@ -154,7 +154,7 @@ func (h *ClipboardHistory) Clear() {
 	h.mu.Lock()
 	defer h.mu.Unlock()
 
-	h.entries = make([]*model.HistoryEntry, 0, h.maxSize)
+	h.entries = make([]*model.HistoryEntry, 0)
 }
 
 // RemoveExpired removes all entries older than maxAge.
-- 
2.43.0


From 2bc02cf22e6138c9ab6e8c1da6d0c65d68dca87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 52/83] fix: OSC 52 writes to a terminal are reported as
 successful

---
 clipboard/internal/infrastructure/osc52/osc52_provider.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clipboard/internal/infrastructure/osc52/osc52_provider.go b/clipboard/internal/infrastructure/osc52/osc52_provider.go
index 3d3611b..46b4023 100644
--- a/clipboard/internal/infrastructure/osc52/osc52_provider.go
+++ b/clipboard/internal/infrastructure/osc52/osc52_provider.go
@@ -58,8 +58,10 @@ func (p *Provider) Write(content *model.ClipboardContent) error {
 			done <- err
 			return
 		}
-		// Flush is important to ensure the escape sequence is sent immediately
-		done <- p.output.Sync()
+		// Flush what can be flushed. Terminals and pipes keep nothing back and
+		// refuse to sync, which does not make the write a failure.
+		_ = p.output.Sync()
+		done <- nil
 	}()
 
 	// Wait for write to complete or timeout
-- 
2.43.0


From b2c0a04445d79b1965481ffe95d87e6058da2705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:37 +0000
Subject: [PATCH 53/83] fix: a layout box is measured and drawn in columns, not
 bytes

---
 layout/internal/domain/model/box.go              | 3 ++-
 layout/internal/domain/service/render_service.go | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/layout/internal/domain/model/box.go b/layout/internal/domain/model/box.go
index cc249be..dd1b2d1 100644
--- a/layout/internal/domain/model/box.go
+++ b/layout/internal/domain/model/box.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"strings"
 
+	"github.com/phoenix-tui/phoenix/core"
 	value2 "github.com/phoenix-tui/phoenix/layout/internal/domain/value"
 )
 
@@ -201,7 +202,7 @@ func (b *Box) ContentSize() value2.Size {
 	maxWidth := 0
 	for _, line := range lines {
 		// TODO(Day 3): Use phoenix/core.UnicodeService.Width(line)
-		width := len(line)
+		width := core.StringWidth(line)
 		if width > maxWidth {
 			maxWidth = width
 		}
diff --git a/layout/internal/domain/service/render_service.go b/layout/internal/domain/service/render_service.go
index b41a621..ea40137 100644
--- a/layout/internal/domain/service/render_service.go
+++ b/layout/internal/domain/service/render_service.go
@@ -4,6 +4,7 @@ package service
 import (
 	"strings"
 
+	"github.com/phoenix-tui/phoenix/core"
 	model2 "github.com/phoenix-tui/phoenix/layout/internal/domain/model"
 )
 
@@ -144,7 +145,7 @@ func (rs *RenderService) Render(box *model2.Box) string {
 		line += contentLine
 
 		// Add right padding to align right border
-		lineWidth := len(contentLine)
+		lineWidth := core.StringWidth(contentLine)
 		spacesNeeded := contentWidth - lineWidth
 
 		// Only pad to contentWidth if we have a border (to align it)
@@ -211,7 +212,7 @@ func (rs *RenderService) RenderNode(node *model2.Node) string {
 func (rs *RenderService) calculateContentWidth(lines []string) int {
 	maxWidth := 0
 	for _, line := range lines {
-		width := len(line)
+		width := core.StringWidth(line)
 		if width > maxWidth {
 			maxWidth = width
 		}
-- 
2.43.0


From 812189f8f01bc08bbca40d4e5682c94f3f0a6a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:38 +0000
Subject: [PATCH 54/83] fix: rendering a layout box does not change its size
 constraints

---
 layout/layout.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/layout/layout.go b/layout/layout.go
index 07e45cb..ee5f584 100644
--- a/layout/layout.go
+++ b/layout/layout.go
@@ -399,18 +399,8 @@ func (b *Box) Align(horizontal value2.HorizontalAlignment, vertical value2.Verti
 //		Render()
 //	fmt.Println(output)
 func (b *Box) Render() string {
-	// Create services (these are lightweight)
-	measureService := service2.NewMeasureService()
-	renderService := service2.NewRenderService()
-
-	// Measure box to get natural size
-	size := measureService.Measure(b.domain)
-
-	// Update domain box with measured size (for rendering)
-	b.domain = b.domain.WithSize(value2.NewSizeExact(size.Width(), size.Height()))
-
-	// Render the box
-	return renderService.Render(b.domain)
+	// Rendering must not change the box: its size constraints stay as set.
+	return service2.NewRenderService().Render(b.domain)
 }
 
 // String implements fmt.Stringer for convenient printing.
-- 
2.43.0


From 07eb8209465a67cf890d7165289760be27e7b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:38 +0000
Subject: [PATCH 55/83] fix: a flex container keeps columns aligned with wide
 and combining characters

---
 layout/layout.go | 50 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/layout/layout.go b/layout/layout.go
index ee5f584..148a171 100644
--- a/layout/layout.go
+++ b/layout/layout.go
@@ -82,7 +82,9 @@ package layout
 
 import (
 	"strings"
+	"unicode/utf8"
 
+	"github.com/phoenix-tui/phoenix/core"
 	model2 "github.com/phoenix-tui/phoenix/layout/internal/domain/model"
 	service2 "github.com/phoenix-tui/phoenix/layout/internal/domain/service"
 	value2 "github.com/phoenix-tui/phoenix/layout/internal/domain/value"
@@ -756,12 +758,13 @@ func (f *Flex) Render(containerWidth, containerHeight int) string {
 	// Render each item
 	var result strings.Builder
 
-	// Create a grid to track occupied positions
-	grid := make([][]rune, containerHeight)
+	// Create a grid of cells (a wide character is followed by an empty cell)
+	containerWidth, containerHeight = max(containerWidth, 0), max(containerHeight, 0)
+	grid := make([][]string, containerHeight)
 	for i := range grid {
-		grid[i] = make([]rune, containerWidth)
+		grid[i] = make([]string, containerWidth)
 		for j := range grid[i] {
-			grid[i][j] = ' '
+			grid[i][j] = " "
 		}
 	}
 
@@ -777,20 +780,13 @@ func (f *Flex) Render(containerWidth, containerHeight int) string {
 				break
 			}
 
-			x := pos.X()
-			for _, ch := range line {
-				if x >= containerWidth {
-					break
-				}
-				grid[y][x] = ch
-				x++
-			}
+			drawLine(grid[y], pos.X(), line)
 		}
 	}
 
 	// Convert grid to string
 	for i, row := range grid {
-		result.WriteString(string(row))
+		result.WriteString(strings.Join(row, ""))
 		if i < len(grid)-1 {
 			result.WriteRune('\n')
 		}
@@ -799,6 +795,34 @@ func (f *Flex) Render(containerWidth, containerHeight int) string {
 	return result.String()
 }
 
+// drawLine draws a line into a row of cells, starting at column x. A wide
+// character takes two cells, a zero-width one joins the character before it,
+// and whatever does not fit the row completely is cut off.
+func drawLine(row []string, x int, line string) {
+	start, last := x, -1
+	for i := 0; i < len(line); {
+		_, size := utf8.DecodeRuneInString(line[i:])
+		ch := line[i : i+size]
+		i += size
+		width := core.StringWidth(line[:i]) - (x - start)
+		if width <= 0 {
+			if last >= 0 {
+				row[last] += ch
+			}
+			continue
+		}
+		if x+width > len(row) {
+			return
+		}
+		row[x] = ch
+		for k := 1; k < width; k++ {
+			row[x+k] = ""
+		}
+		last = x
+		x += width
+	}
+}
+
 // String implements fmt.Stringer.
 // Renders the flexbox with default terminal size (80x24).
 func (f *Flex) String() string {
-- 
2.43.0


From cdf9ea98a114ae37f043cd5dfdcfcb453c7355aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 56/83] fix: a styled box is aligned, cut and filled line by
 line, in columns

---
 .../application/command/border_renderer.go    |  6 +-
 style/internal/application/command/render.go  | 58 +++++++++++--------
 .../domain/service/spacing_calculator.go      | 22 +++++--
 style/internal/domain/service/text_aligner.go | 30 ++++++++--
 .../internal/domain/service/visible_width.go  | 39 +++++++++++++
 5 files changed, 120 insertions(+), 35 deletions(-)
 create mode 100644 style/internal/domain/service/visible_width.go

diff --git a/style/internal/application/command/border_renderer.go b/style/internal/application/command/border_renderer.go
index 4147202..f33d9e8 100644
--- a/style/internal/application/command/border_renderer.go
+++ b/style/internal/application/command/border_renderer.go
@@ -4,8 +4,8 @@ package command
 import (
 	"strings"
 
-	"github.com/phoenix-tui/phoenix/core"
 	"github.com/phoenix-tui/phoenix/style/internal/domain/model"
+	service2 "github.com/phoenix-tui/phoenix/style/internal/domain/service"
 	value2 "github.com/phoenix-tui/phoenix/style/internal/domain/value"
 	"github.com/phoenix-tui/phoenix/style/internal/infrastructure/ansi"
 )
@@ -84,7 +84,7 @@ func (br *BorderRenderer) Render(content string, style model.Style) string {
 func (br *BorderRenderer) calculateMaxWidth(lines []string) int {
 	maxWidth := 0
 	for _, line := range lines {
-		width := core.StringWidth(line)
+		width := service2.VisibleWidth(line)
 		if width > maxWidth {
 			maxWidth = width
 		}
@@ -135,7 +135,7 @@ func (br *BorderRenderer) buildBottomBorder(border value2.Border, width int, has
 // buildContentLine builds a content line with left/right borders.
 func (br *BorderRenderer) buildContentLine(line string, border value2.Border, targetWidth int, hasLeft, hasRight bool) string {
 	// Calculate padding needed to reach target width.
-	currentWidth := core.StringWidth(line)
+	currentWidth := service2.VisibleWidth(line)
 	paddingWidth := targetWidth - currentWidth
 	if paddingWidth < 0 {
 		paddingWidth = 0
diff --git a/style/internal/application/command/render.go b/style/internal/application/command/render.go
index aa92847..8d51340 100644
--- a/style/internal/application/command/render.go
+++ b/style/internal/application/command/render.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"strings"
 
-	"github.com/phoenix-tui/phoenix/core"
 	"github.com/phoenix-tui/phoenix/style/internal/domain/model"
 	service2 "github.com/phoenix-tui/phoenix/style/internal/domain/service"
 	"github.com/phoenix-tui/phoenix/style/internal/domain/value"
@@ -72,6 +71,20 @@ func (rc *RenderCommand) Execute(style model.Style, content string) (string, err
 		// Calculate effective dimensions accounting for spacing.
 		contentWidth, contentHeight := rc.calculateContentDimensions(content)
 
+		// Use size constraints as target dimensions.
+		if width, hasWidth := size.Width(); hasWidth {
+			targetWidth = width
+		}
+		if height, hasHeight := size.Height(); hasHeight {
+			targetHeight = height
+		}
+		if targetWidth > 0 {
+			contentWidth = targetWidth
+		}
+		if targetHeight > 0 {
+			contentHeight = targetHeight
+		}
+
 		// Add padding dimensions.
 		if padding, hasPadding := style.GetPadding(); hasPadding {
 			contentWidth += padding.Left() + padding.Right()
@@ -79,11 +92,17 @@ func (rc *RenderCommand) Execute(style model.Style, content string) (string, err
 		}
 
 		// Add border dimensions.
-		if style.GetBorderLeft() || style.GetBorderRight() {
-			contentWidth += 2 // Left + right border
+		if style.GetBorderLeft() {
+			contentWidth++
+		}
+		if style.GetBorderRight() {
+			contentWidth++
 		}
-		if style.GetBorderTop() || style.GetBorderBottom() {
-			contentHeight += 2 // Top + bottom border
+		if style.GetBorderTop() {
+			contentHeight++
+		}
+		if style.GetBorderBottom() {
+			contentHeight++
 		}
 
 		// Add margin dimensions.
@@ -96,26 +115,19 @@ func (rc *RenderCommand) Execute(style model.Style, content string) (string, err
 		if err := rc.validateSizeConstraints(size, contentWidth, contentHeight); err != nil {
 			return "", err
 		}
-
-		// Use size constraints as target dimensions.
-		if width, hasWidth := size.Width(); hasWidth {
-			targetWidth = width
-		}
-		if height, hasHeight := size.Height(); hasHeight {
-			targetHeight = height
-		}
 	}
 
-	// 3. Text alignment (before padding/border).
-	//nolint:gocritic,nestif // ifElseChain: Sequential checks are clearer; nestif: Optional properties require nested checks
-	if alignment, ok := style.GetAlignment(); ok {
-		if targetWidth > 0 && targetHeight > 0 {
-			content = rc.textAligner.AlignBoth(content, targetWidth, targetHeight, alignment)
-		} else if targetWidth > 0 {
-			content = rc.textAligner.AlignHorizontal(content, targetWidth, alignment.Horizontal())
-		} else if targetHeight > 0 {
-			content = rc.textAligner.AlignVertical(content, targetHeight, alignment.Vertical())
+	// 3. Text alignment (before padding/border), left and top by default.
+	// Without a target dimension the text is aligned within its own.
+	if alignment, ok := style.GetAlignment(); ok || targetWidth > 0 || targetHeight > 0 {
+		width, height := rc.calculateContentDimensions(content)
+		if targetWidth > 0 {
+			width = targetWidth
+		}
+		if targetHeight > 0 {
+			height = targetHeight
 		}
+		content = rc.textAligner.AlignBoth(content, width, height, alignment)
 	}
 
 	// 4. Apply padding.
@@ -149,7 +161,7 @@ func (rc *RenderCommand) calculateContentDimensions(content string) (int, int) {
 
 	maxWidth := 0
 	for _, line := range lines {
-		width := core.StringWidth(line)
+		width := service2.VisibleWidth(line)
 		if width > maxWidth {
 			maxWidth = width
 		}
diff --git a/style/internal/domain/service/spacing_calculator.go b/style/internal/domain/service/spacing_calculator.go
index 4154279..76bc658 100644
--- a/style/internal/domain/service/spacing_calculator.go
+++ b/style/internal/domain/service/spacing_calculator.go
@@ -3,7 +3,6 @@ package service
 import (
 	"strings"
 
-	"github.com/phoenix-tui/phoenix/core"
 	value2 "github.com/phoenix-tui/phoenix/style/internal/domain/value"
 )
 
@@ -60,7 +59,7 @@ func (sc *DefaultSpacingCalculator) ApplyPadding(content string, padding value2.
 		return ""
 	}
 
-	lines := strings.Split(content, "\n")
+	lines := equalWidth(strings.Split(content, "\n"))
 
 	// Apply horizontal padding (left and right spaces).
 	paddedLines := make([]string, 0, len(lines))
@@ -80,7 +79,7 @@ func (sc *DefaultSpacingCalculator) ApplyPadding(content string, padding value2.
 	// Use the first line's width if available.
 	emptyLineWidth := padding.Left() + padding.Right()
 	if len(paddedLines) > 0 {
-		emptyLineWidth = core.StringWidth(paddedLines[0])
+		emptyLineWidth = VisibleWidth(paddedLines[0])
 	}
 	emptyLine := strings.Repeat(" ", emptyLineWidth)
 
@@ -109,7 +108,7 @@ func (sc *DefaultSpacingCalculator) ApplyMargin(content string, margin value2.Ma
 		return ""
 	}
 
-	lines := strings.Split(content, "\n")
+	lines := equalWidth(strings.Split(content, "\n"))
 
 	// Apply horizontal margin (left and right spaces).
 	marginedLines := make([]string, 0, len(lines))
@@ -128,7 +127,7 @@ func (sc *DefaultSpacingCalculator) ApplyMargin(content string, margin value2.Ma
 	// Calculate width of margined lines for empty margin lines.
 	emptyLineWidth := margin.Left() + margin.Right()
 	if len(marginedLines) > 0 {
-		emptyLineWidth = core.StringWidth(marginedLines[0])
+		emptyLineWidth = VisibleWidth(marginedLines[0])
 	}
 	emptyLine := strings.Repeat(" ", emptyLineWidth)
 
@@ -153,3 +152,16 @@ func (sc *DefaultSpacingCalculator) ApplyBoth(content string, padding value2.Pad
 	padded := sc.ApplyPadding(content, padding)
 	return sc.ApplyMargin(padded, margin)
 }
+
+// equalWidth fills up all lines with spaces to the width of the widest one.
+func equalWidth(lines []string) []string {
+	width := 0
+	for _, line := range lines {
+		width = max(width, VisibleWidth(line))
+	}
+	filled := make([]string, len(lines))
+	for i, line := range lines {
+		filled[i] = line + strings.Repeat(" ", width-VisibleWidth(line))
+	}
+	return filled
+}
diff --git a/style/internal/domain/service/text_aligner.go b/style/internal/domain/service/text_aligner.go
index a2ff647..cb79f23 100644
--- a/style/internal/domain/service/text_aligner.go
+++ b/style/internal/domain/service/text_aligner.go
@@ -2,8 +2,8 @@ package service
 
 import (
 	"strings"
+	"unicode/utf8"
 
-	"github.com/phoenix-tui/phoenix/core"
 	"github.com/phoenix-tui/phoenix/style/internal/domain/value"
 )
 
@@ -37,11 +37,12 @@ func NewTextAligner() TextAligner {
 // Handles Unicode correctly by using visual width, not string length.
 func (ta *DefaultTextAligner) AlignHorizontal(text string, width int, alignment value.HorizontalAlignment) string {
 	// Calculate actual visual width of text.
-	textWidth := core.StringWidth(text)
+	textWidth := VisibleWidth(text)
 
 	// If text is wider than target width, truncate (future: could add ellipsis).
 	if textWidth > width {
-		return text[:width] // Simple truncation for now
+		text = truncate(text, width)
+		textWidth = VisibleWidth(text)
 	}
 
 	// If text fits exactly, return as-is.
@@ -97,7 +98,7 @@ func (ta *DefaultTextAligner) AlignVertical(text string, height int, alignment v
 	// Determine width for empty lines (use max line width).
 	emptyLineWidth := 0
 	for _, line := range lines {
-		lineWidth := core.StringWidth(line)
+		lineWidth := VisibleWidth(line)
 		if lineWidth > emptyLineWidth {
 			emptyLineWidth = lineWidth
 		}
@@ -171,3 +172,24 @@ func (ta *DefaultTextAligner) AlignBoth(text string, width, height int, alignmen
 	horizontallyAligned := strings.Join(alignedLines, "\n")
 	return ta.AlignVertical(horizontallyAligned, height, alignment.Vertical())
 }
+
+// truncate returns the longest prefix of text that fits into width columns.
+// ANSI escape sequences are all kept, so that styled text stays terminated.
+func truncate(text string, width int) string {
+	var kept strings.Builder
+	full := false
+	for i := 0; i < len(text); {
+		if n := escapeLen(text[i:]); n > 0 {
+			kept.WriteString(text[i : i+n])
+			i += n
+			continue
+		}
+		_, n := utf8.DecodeRuneInString(text[i:])
+		full = full || VisibleWidth(text[:i+n]) > width
+		if !full {
+			kept.WriteString(text[i : i+n])
+		}
+		i += n
+	}
+	return kept.String()
+}
diff --git a/style/internal/domain/service/visible_width.go b/style/internal/domain/service/visible_width.go
new file mode 100644
index 0000000..9c32679
--- /dev/null
+++ b/style/internal/domain/service/visible_width.go
@@ -0,0 +1,39 @@
+package service
+
+import (
+	"strings"
+
+	"github.com/phoenix-tui/phoenix/core"
+)
+
+// VisibleWidth returns the number of columns text takes on the screen.
+// ANSI escape sequences in it (from text that is already styled) take none.
+func VisibleWidth(text string) int {
+	if !strings.Contains(text, "\x1b[") {
+		return core.StringWidth(text)
+	}
+	var visible strings.Builder
+	for text != "" {
+		if n := escapeLen(text); n > 0 {
+			text = text[n:]
+			continue
+		}
+		visible.WriteByte(text[0])
+		text = text[1:]
+	}
+	return core.StringWidth(visible.String())
+}
+
+// escapeLen returns the length of the ANSI escape sequence (ESC [ parameters
+// final byte) that text starts with, 0 if it does not start with one.
+func escapeLen(text string) int {
+	if !strings.HasPrefix(text, "\x1b[") {
+		return 0
+	}
+	for i := 2; i < len(text); i++ {
+		if text[i] >= 0x40 && text[i] <= 0x7e {
+			return i + 1
+		}
+	}
+	return len(text)
+}
-- 
2.43.0


From 49b9fdb5f009397647b1b5c3ac5c1131a28b6f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 57/83] fix: a style covers every line and continues after
 styled parts of its text

---
 style/internal/application/command/render.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/style/internal/application/command/render.go b/style/internal/application/command/render.go
index 8d51340..06d7419 100644
--- a/style/internal/application/command/render.go
+++ b/style/internal/application/command/render.go
@@ -231,10 +231,19 @@ func (rc *RenderCommand) applyColors(content string, style model.Style) string {
 	}
 
 	// Apply colors to entire content.
-	prefix := strings.Join(codes, "")
-	suffix := rc.ansiGenerator.Reset()
+	return rc.wrapLines(content, strings.Join(codes, ""))
+}
 
-	return prefix + content + suffix
+// wrapLines applies ANSI codes to every line. Where the line resets its own
+// styling (a colored border, text that is already styled) they apply again.
+func (rc *RenderCommand) wrapLines(content, prefix string) string {
+	suffix := rc.ansiGenerator.Reset()
+	lines := strings.Split(content, "\n")
+	for i, line := range lines {
+		line = strings.ReplaceAll(strings.TrimSuffix(line, suffix), suffix, suffix+prefix)
+		lines[i] = prefix + line + suffix
+	}
+	return strings.Join(lines, "\n")
 }
 
 // applyDecorations applies text decorations (bold, italic, underline, strikethrough).
@@ -260,8 +269,5 @@ func (rc *RenderCommand) applyDecorations(content string, style model.Style) str
 	}
 
 	// Apply decorations to entire content.
-	prefix := strings.Join(codes, "")
-	suffix := rc.ansiGenerator.Reset()
-
-	return prefix + content + suffix
+	return rc.wrapLines(content, strings.Join(codes, ""))
 }
-- 
2.43.0


From 9a0470954d37cc86a59a6c05bb37e6bd579b5d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 58/83] fix: a border colour covers exactly the border and is
 the nearest one

---
 .../application/command/border_renderer.go    | 155 +-----------------
 1 file changed, 8 insertions(+), 147 deletions(-)

diff --git a/style/internal/application/command/border_renderer.go b/style/internal/application/command/border_renderer.go
index f33d9e8..0b391a0 100644
--- a/style/internal/application/command/border_renderer.go
+++ b/style/internal/application/command/border_renderer.go
@@ -65,8 +65,7 @@ func (br *BorderRenderer) Render(content string, style model.Style) string {
 
 	// Content lines with left/right borders.
 	for _, line := range lines {
-		borderedLine := br.buildContentLine(line, border, maxWidth, hasLeft, hasRight)
-		borderedLine = br.applyBorderColorToSides(borderedLine, border, style, hasLeft, hasRight)
+		borderedLine := br.buildContentLine(line, border, style, maxWidth, hasLeft, hasRight)
 		result = append(result, borderedLine)
 	}
 
@@ -133,7 +132,7 @@ func (br *BorderRenderer) buildBottomBorder(border value2.Border, width int, has
 }
 
 // buildContentLine builds a content line with left/right borders.
-func (br *BorderRenderer) buildContentLine(line string, border value2.Border, targetWidth int, hasLeft, hasRight bool) string {
+func (br *BorderRenderer) buildContentLine(line string, border value2.Border, style model.Style, targetWidth int, hasLeft, hasRight bool) string {
 	// Calculate padding needed to reach target width.
 	currentWidth := service2.VisibleWidth(line)
 	paddingWidth := targetWidth - currentWidth
@@ -148,7 +147,7 @@ func (br *BorderRenderer) buildContentLine(line string, border value2.Border, ta
 
 	// Left border.
 	if hasLeft {
-		parts = append(parts, border.Left)
+		parts = append(parts, br.applyBorderColor(border.Left, style))
 	}
 
 	// Content.
@@ -156,7 +155,7 @@ func (br *BorderRenderer) buildContentLine(line string, border value2.Border, ta
 
 	// Right border.
 	if hasRight {
-		parts = append(parts, border.Right)
+		parts = append(parts, br.applyBorderColor(border.Right, style))
 	}
 
 	return strings.Join(parts, "")
@@ -165,153 +164,15 @@ func (br *BorderRenderer) buildContentLine(line string, border value2.Border, ta
 // applyBorderColor applies border color to entire line.
 func (br *BorderRenderer) applyBorderColor(line string, style model.Style) string {
 	borderColor, hasBorderColor := style.GetBorderColor()
-	if !hasBorderColor {
+	if !hasBorderColor || line == "" {
 		return line
 	}
 
 	// Adapt color to terminal capability.
-	termCap := style.GetTerminalCapability()
-	ansiCode := br.colorToANSI(borderColor, termCap, true)
-
-	return ansiCode + line + br.ansiGenerator.Reset()
-}
-
-// applyBorderColorToSides applies border color only to left/right border characters.
-// This is more complex because we need to color only the border chars, not the content.
-func (br *BorderRenderer) applyBorderColorToSides(line string, _ value2.Border, style model.Style, hasLeft, hasRight bool) string {
-	borderColor, hasBorderColor := style.GetBorderColor()
-	if !hasBorderColor {
+	ansiCode := service2.NewColorAdapter().ToANSIForeground(borderColor, style.GetTerminalCapability())
+	if ansiCode == "" {
 		return line
 	}
 
-	// If neither side has border, return as-is.
-	if !hasLeft && !hasRight {
-		return line
-	}
-
-	termCap := style.GetTerminalCapability()
-	ansiCode := br.colorToANSI(borderColor, termCap, true)
-	reset := br.ansiGenerator.Reset()
-
-	// Split line to color only border characters.
-	runes := []rune(line)
-	var result strings.Builder
-
-	// Left border (first character).
-	if hasLeft && len(runes) > 0 {
-		result.WriteString(ansiCode)
-		result.WriteRune(runes[0])
-		result.WriteString(reset)
-		runes = runes[1:]
-	}
-
-	// Middle content (no color).
-	if hasRight && len(runes) > 0 {
-		// All but last character.
-		result.WriteString(string(runes[:len(runes)-1]))
-
-		// Right border (last character).
-		result.WriteString(ansiCode)
-		result.WriteRune(runes[len(runes)-1])
-		result.WriteString(reset)
-	} else {
-		// No right border, write remaining content.
-		result.WriteString(string(runes))
-	}
-
-	return result.String()
-}
-
-// colorToANSI converts a Color to ANSI code based on terminal capability.
-func (br *BorderRenderer) colorToANSI(color value2.Color, termCap value2.TerminalCapability, isForeground bool) string {
-	r, g, b := color.RGB()
-
-	switch termCap {
-	case value2.TrueColor:
-		if isForeground {
-			return br.ansiGenerator.Foreground(r, g, b)
-		}
-		return br.ansiGenerator.Background(r, g, b)
-
-	case value2.ANSI256:
-		// Convert RGB to 256-color palette.
-		code := br.rgbTo256(r, g, b)
-		if isForeground {
-			return br.ansiGenerator.Foreground256(code)
-		}
-		return br.ansiGenerator.Background256(code)
-
-	case value2.ANSI16:
-		// Convert RGB to 16-color palette.
-		code := br.rgbTo16(r, g, b)
-		if isForeground {
-			return br.ansiGenerator.Foreground16(code)
-		}
-		return br.ansiGenerator.Background16(code)
-
-	default:
-		return ""
-	}
-}
-
-// rgbTo256 converts RGB to 256-color palette index.
-// Uses 6x6x6 color cube + grayscale ramp.
-func (br *BorderRenderer) rgbTo256(r, g, b uint8) uint8 {
-	// Grayscale detection.
-	if r == g && g == b {
-		// Use grayscale ramp (232-255).
-		if r < 8 {
-			return 16 // black
-		}
-		if r > 247 {
-			return 231 // white
-		}
-		//nolint:gosec // G115: Overflow impossible - result range 0-24 from (r-8)/10 where r ∈ [8,247]
-		return 232 + uint8((int(r)-8)/10)
-	}
-
-	// Color cube (16-231): 16 + 36*R + 6*G + B.
-	// Where R, G, B are in range 0-5.
-	//nolint:gosec // G115: Overflow impossible - result range 0-5 from (r*6)/256 where r ∈ [0,255]
-	r6 := uint8((int(r) * 6) / 256)
-	//nolint:gosec // G115: Overflow impossible - result range 0-5 from (g*6)/256
-	g6 := uint8((int(g) * 6) / 256)
-	//nolint:gosec // G115: Overflow impossible - result range 0-5 from (b*6)/256
-	b6 := uint8((int(b) * 6) / 256)
-
-	return 16 + 36*r6 + 6*g6 + b6
-}
-
-// rgbTo16 converts RGB to 16-color palette index.
-// Maps to basic ANSI colors (0-15).
-func (br *BorderRenderer) rgbTo16(r, g, b uint8) uint8 {
-	// Calculate brightness.
-	brightness := (int(r) + int(g) + int(b)) / 3
-
-	// Determine if color is bright (8-15) or normal (0-7).
-	bright := brightness > 128
-
-	// Determine dominant color.
-	red := r > 128
-	green := g > 128
-	blue := b > 128
-
-	// Build color code.
-	var code uint8
-	if red {
-		code |= 1
-	}
-	if green {
-		code |= 2
-	}
-	if blue {
-		code |= 4
-	}
-
-	// Add bright bit.
-	if bright {
-		code |= 8
-	}
-
-	return code
+	return ansiCode + line + br.ansiGenerator.Reset()
 }
-- 
2.43.0


From 775409cfa49254f600d14bb12b1935b941a2ff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 59/83] fix: colours become the nearest of 256 colours

---
 .../internal/domain/service/color_adapter.go  | 34 +++++++++++--------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/style/internal/domain/service/color_adapter.go b/style/internal/domain/service/color_adapter.go
index 48ff5e0..7868005 100644
--- a/style/internal/domain/service/color_adapter.go
+++ b/style/internal/domain/service/color_adapter.go
@@ -88,31 +88,35 @@ func (a *DefaultColorAdapter) toANSI256Background(color value2.Color) string {
 func (a *DefaultColorAdapter) rgbToANSI256(color value2.Color) uint8 {
 	r, g, b := color.RGB()
 
-	// Check if it's close to a grayscale value (232-255).
+	// Map RGB (0-255) to the closest color of the 6x6x6 cube (16-231).
+	// Calculate ANSI 256 code: 16 + 36*r + 6*g + b.
+	cube := 16 + 36*rgbToCubeIndex(r) + 6*rgbToCubeIndex(g) + rgbToCubeIndex(b)
+
+	// Map to the closest of the 24 gray shades (232-255).
+	// gray = 8 + (code-232)*10, so code = (gray-8)/10 + 232.
+	gray := (uint16(r) + uint16(g) + uint16(b)) / 3
 	if isGrayish(r, g, b) {
-		// Map to grayscale range (232-255): 24 shades from near-black to near-white.
-		// gray = 8 + (code-232)*10, so code = (gray-8)/10 + 232.
-		gray := (uint16(r) + uint16(g) + uint16(b)) / 3
 		if gray < 8 {
 			return 16 // Use black from color cube
 		}
 		if gray > 238 {
 			return 231 // Use white from color cube
 		}
-		code := (gray-8)/10 + 232
-		//nolint:gosec // G115: Overflow impossible - result range 232-255
-		return uint8(code)
 	}
+	//nolint:gosec // G115: Overflow impossible - result range 232-255
+	shade := uint8((min(max(gray, 8), 238)-8+5)/10) + 232
 
-	// Use 6x6x6 RGB color cube (16-231).
-	// Map RGB (0-255) to cube index (0-5).
-	rCube := rgbToCubeIndex(r)
-	gCube := rgbToCubeIndex(g)
-	bCube := rgbToCubeIndex(b)
+	if distanceTo(color, shade) < distanceTo(color, cube) {
+		return shade
+	}
+	return cube
+}
 
-	// Calculate ANSI 256 code: 16 + 36*r + 6*g + b.
-	code := 16 + 36*rCube + 6*gCube + bCube
-	return code
+// distanceTo returns the distance of a color from an ANSI 256-color code.
+func distanceTo(color value2.Color, code uint8) float64 {
+	r, g, b := color.RGB()
+	codeR, codeG, codeB := value2.FromANSI256(code).RGB()
+	return colorDistance(r, g, b, codeR, codeG, codeB)
 }
 
 // isGrayish returns true if the color is close to grayscale (low color variance).
-- 
2.43.0


From 14e32773cf8cafa41983ef49d94f7d85e905de58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 60/83] fix: merging no theme keeps the current theme

---
 style/internal/application/theme_manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/style/internal/application/theme_manager.go b/style/internal/application/theme_manager.go
index 4b144d8..ebabc74 100644
--- a/style/internal/application/theme_manager.go
+++ b/style/internal/application/theme_manager.go
@@ -69,7 +69,12 @@ func (tm *ThemeManager) SetPreset(name string) bool {
 // MergeTheme merges the given theme with the current theme.
 // The given theme takes precedence for non-zero values.
 // This enables runtime theme customization without replacing the entire theme.
+// If override is nil, the current theme stays.
 func (tm *ThemeManager) MergeTheme(override *model.Theme) {
+	if override == nil {
+		return
+	}
+
 	tm.mu.Lock()
 	defer tm.mu.Unlock()
 
-- 
2.43.0


From 8cb012e3c56e2cc58c783cb1b6cb2b279eeae0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:24 +0000
Subject: [PATCH 61/83] fix: a rendered style keeps nothing of the style before
 it

---
 render/internal/infrastructure/ansi/writer.go | 49 ++++++++++++-------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/render/internal/infrastructure/ansi/writer.go b/render/internal/infrastructure/ansi/writer.go
index dacd7b7..b5dfa4a 100644
--- a/render/internal/infrastructure/ansi/writer.go
+++ b/render/internal/infrastructure/ansi/writer.go
@@ -76,13 +76,18 @@ func (w *Writer) SetStyle(style value2.Style) error {
 		return nil // Style already set
 	}
 
-	// Write style sequence.
-	ansi := style.ToANSI()
-	if ansi != "" {
-		_, err := w.buf.WriteString(ansi)
-		if err != nil {
-			return err
-		}
+	return w.applyStyle(style)
+}
+
+// applyStyle switches the terminal to style. A style sequence only adds to what
+// is active, so whatever the previous style left on is reset first.
+func (w *Writer) applyStyle(style value2.Style) error {
+	seq := style.ToANSI()
+	if !w.currentStyle.IsEmpty() {
+		seq = Reset + seq
+	}
+	if _, err := w.buf.WriteString(seq); err != nil {
+		return err
 	}
 
 	w.currentStyle = style
@@ -96,13 +101,9 @@ func (w *Writer) WriteCell(cell model.Cell) error {
 
 	// Set style if different.
 	if !cell.Style().Equals(w.currentStyle) {
-		ansi := cell.Style().ToANSI()
-		if ansi != "" {
-			if _, err := w.buf.WriteString(ansi); err != nil {
-				return err
-			}
+		if err := w.applyStyle(cell.Style()); err != nil {
+			return err
 		}
-		w.currentStyle = cell.Style()
 	}
 
 	// Write character.
@@ -130,13 +131,9 @@ func (w *Writer) WriteString(text string, style value2.Style) error {
 
 	// Set style.
 	if !style.Equals(w.currentStyle) {
-		ansi := style.ToANSI()
-		if ansi != "" {
-			if _, err := w.buf.WriteString(ansi); err != nil {
-				return err
-			}
+		if err := w.applyStyle(style); err != nil {
+			return err
 		}
-		w.currentStyle = style
 	}
 
 	// Write text.
@@ -163,6 +160,13 @@ func (w *Writer) Clear() error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
 
+	// Erased cells take the active background colour.
+	if !w.currentStyle.IsEmpty() {
+		if err := w.applyStyle(value2.NewStyle()); err != nil {
+			return err
+		}
+	}
+
 	_, err := w.buf.WriteString(ClearScreen)
 	return err
 }
@@ -172,6 +176,13 @@ func (w *Writer) ClearLine() error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
 
+	// Erased cells take the active background colour.
+	if !w.currentStyle.IsEmpty() {
+		if err := w.applyStyle(value2.NewStyle()); err != nil {
+			return err
+		}
+	}
+
 	_, err := w.buf.WriteString(ClearLine)
 	return err
 }
-- 
2.43.0


From f68b5309274a27860cf55ebdc1c647ea53326a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 62/83] fix: the first frame and Clear place the cursor
 themselves

---
 render/internal/infrastructure/ansi/writer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/render/internal/infrastructure/ansi/writer.go b/render/internal/infrastructure/ansi/writer.go
index b5dfa4a..aec3391 100644
--- a/render/internal/infrastructure/ansi/writer.go
+++ b/render/internal/infrastructure/ansi/writer.go
@@ -17,6 +17,7 @@ type Writer struct {
 	buf          *bufio.Writer
 	currentX     int
 	currentY     int
+	positionLost bool // the terminal's cursor may be anywhere
 	currentStyle value2.Style
 	mu           sync.Mutex
 }
@@ -28,6 +29,7 @@ func NewWriter(output io.Writer) *Writer {
 		buf:          bufio.NewWriter(output),
 		currentX:     0,
 		currentY:     0,
+		positionLost: true, // Nothing says where the cursor is yet
 		currentStyle: value2.NewStyle(),
 	}
 }
@@ -39,6 +41,7 @@ func NewWriterWithBuffer(output io.Writer, bufferSize int) *Writer {
 		buf:          bufio.NewWriterSize(output, bufferSize),
 		currentX:     0,
 		currentY:     0,
+		positionLost: true, // Nothing says where the cursor is yet
 		currentStyle: value2.NewStyle(),
 	}
 }
@@ -48,7 +51,7 @@ func (w *Writer) MoveCursor(x, y int) error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
 
-	if x == w.currentX && y == w.currentY {
+	if !w.positionLost && x == w.currentX && y == w.currentY {
 		return nil // Already at position
 	}
 
@@ -59,6 +62,7 @@ func (w *Writer) MoveCursor(x, y int) error {
 
 	w.currentX = x
 	w.currentY = y
+	w.positionLost = false
 	return nil
 }
 
@@ -167,6 +171,9 @@ func (w *Writer) Clear() error {
 		}
 	}
 
+	// Clearing does not say where it leaves the cursor.
+	w.positionLost = true
+
 	_, err := w.buf.WriteString(ClearScreen)
 	return err
 }
@@ -276,6 +283,7 @@ func (w *Writer) SetPosition(x, y int) {
 
 	w.currentX = x
 	w.currentY = y
+	w.positionLost = false
 }
 
 // Close flushes and closes the writer.
-- 
2.43.0


From 623c1d91a070bba63835598eaff044a67b69abba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:19 +0000
Subject: [PATCH 63/83] fix: a wide character owns both of its cells

---
 render/internal/application/renderer.go |  2 +-
 render/internal/domain/model/buffer.go  | 57 +++++++++++++++++++++++--
 render/internal/domain/model/cell.go    | 14 ++++++
 render/internal/domain/service/diff.go  | 11 ++---
 4 files changed, 74 insertions(+), 10 deletions(-)

diff --git a/render/internal/application/renderer.go b/render/internal/application/renderer.go
index db22005..2397e9e 100644
--- a/render/internal/application/renderer.go
+++ b/render/internal/application/renderer.go
@@ -136,7 +136,7 @@ func (r *Renderer) renderFullScreen(buffer *model.Buffer) error {
 	for y := 0; y < buffer.Height(); y++ {
 		for x := 0; x < buffer.Width(); x++ {
 			cell := buffer.Get(value.NewPosition(x, y))
-			if !cell.IsEmpty() {
+			if !cell.IsEmpty() && !cell.IsContinuation() {
 				if err := r.writer.MoveCursor(x, y); err != nil {
 					return err
 				}
diff --git a/render/internal/domain/model/buffer.go b/render/internal/domain/model/buffer.go
index 9d63dde..9764c66 100644
--- a/render/internal/domain/model/buffer.go
+++ b/render/internal/domain/model/buffer.go
@@ -66,12 +66,44 @@ func (b *Buffer) Get(pos value2.Position) Cell {
 }
 
 // Set sets the cell at position. Does nothing if out of bounds.
+// A wide character takes the cells it covers as well, and a wide character that
+// loses one of its cells is blanked, as on a terminal. A character that has no
+// width or does not fit on the line leaves a blank.
 func (b *Buffer) Set(pos value2.Position, cell Cell) {
 	x, y := pos.X(), pos.Y()
 	if x < 0 || x >= b.width || y < 0 || y >= b.height {
 		return
 	}
-	b.cells[y][x] = cell
+	if cell.Width() < 1 || x+cell.Width() > b.width {
+		cell = NewCellWithWidth(' ', cell.Style(), 1)
+	}
+
+	line := b.cells[y]
+	end := x + cell.Width()
+	breakWide(line, x)
+	breakWide(line, end)
+
+	line[x] = cell
+	for i := x + 1; i < end; i++ {
+		line[i] = newContinuationCell(cell.Style())
+	}
+}
+
+// breakWide blanks the wide character that covers both x and the cell before it.
+func breakWide(line []Cell, x int) {
+	if x >= len(line) || !line[x].IsContinuation() {
+		return
+	}
+
+	start := x
+	for line[start].IsContinuation() {
+		start--
+	}
+
+	blank := NewCellWithWidth(' ', line[start].Style(), 1)
+	for end := start + line[start].Width(); start < end; start++ {
+		line[start] = blank
+	}
 }
 
 // Clear resets all cells to empty.
@@ -87,8 +119,8 @@ func (b *Buffer) Clear() {
 func (b *Buffer) Fill(char rune, style value2.Style) {
 	cell := NewCell(char, style)
 	for y := 0; y < b.height; y++ {
-		for x := 0; x < b.width; x++ {
-			b.cells[y][x] = cell
+		for x := 0; x < b.width; x += maxInt(1, cell.Width()) {
+			b.Set(value2.NewPosition(x, y), cell)
 		}
 	}
 }
@@ -122,6 +154,12 @@ func (b *Buffer) SetString(pos value2.Position, text string, style value2.Style)
 
 		char := runes[0]
 		width := uniseg.StringWidth(cluster)
+		if width < 1 {
+			continue // Takes no cell
+		}
+		if x+width > b.width {
+			break
+		}
 
 		// Create and set cell.
 		cell := NewCellWithWidth(char, style, width)
@@ -172,8 +210,11 @@ func (b *Buffer) Resize(width, height int) *Buffer {
 	minWidth := minInt(b.width, width)
 
 	for y := 0; y < minHeight; y++ {
+		// Copying cell by cell blanks a wide character cut by the new edge.
 		for x := 0; x < minWidth; x++ {
-			newBuffer.cells[y][x] = b.cells[y][x]
+			if cell := b.cells[y][x]; !cell.IsContinuation() {
+				newBuffer.Set(value2.NewPosition(x, y), cell)
+			}
 		}
 	}
 
@@ -228,6 +269,14 @@ func (b *Buffer) String() string {
 	return sb.String()
 }
 
+// maxInt returns the maximum of two integers.
+func maxInt(a, b int) int {
+	if a > b {
+		return a
+	}
+	return b
+}
+
 // min returns the minimum of two integers.
 func minInt(a, b int) int {
 	if a < b {
diff --git a/render/internal/domain/model/cell.go b/render/internal/domain/model/cell.go
index 69ce995..ed70873 100644
--- a/render/internal/domain/model/cell.go
+++ b/render/internal/domain/model/cell.go
@@ -42,6 +42,17 @@ func NewCellWithWidth(char rune, style value.Style, width int) Cell {
 	}
 }
 
+// newContinuationCell creates the cell that belongs to the wide character
+// before it. Nothing is drawn for it.
+func newContinuationCell(style value.Style) Cell {
+	return Cell{style: style}
+}
+
+// IsContinuation returns true if the cell belongs to the wide character before it.
+func (c Cell) IsContinuation() bool {
+	return c.width == 0 && c.char == 0
+}
+
 // Char returns the character.
 func (c Cell) Char() rune {
 	return c.char
@@ -88,6 +99,9 @@ func (c Cell) String() string {
 	if c.IsEmpty() {
 		return " "
 	}
+	if c.IsContinuation() {
+		return ""
+	}
 	return string(c.char)
 }
 
diff --git a/render/internal/domain/service/diff.go b/render/internal/domain/service/diff.go
index 78005f3..07875f8 100644
--- a/render/internal/domain/service/diff.go
+++ b/render/internal/domain/service/diff.go
@@ -54,8 +54,9 @@ func (s *DiffService) Diff(oldBuf, newBuf *model2.Buffer) []DiffOp {
 			oldCell := oldBuf.Get(pos)
 			newCell := newBuf.Get(pos)
 
-			// Only emit operation if cells differ.
-			if !oldCell.Equals(newCell) {
+			// Only emit operation if cells differ. The second cell of a wide
+			// character is written together with the character.
+			if !oldCell.Equals(newCell) && !newCell.IsContinuation() {
 				ops = append(ops, DiffOp{
 					Type:     OpTypeSet,
 					Position: pos,
@@ -77,8 +78,8 @@ func (s *DiffService) diffFullBuffer(buf *model2.Buffer) []DiffOp {
 			pos := value.NewPosition(x, y)
 			cell := buf.Get(pos)
 
-			// Skip empty cells to optimize.
-			if !cell.IsEmpty() {
+			// Skip empty cells to optimize, and cells covered by a wide character.
+			if !cell.IsEmpty() && !cell.IsContinuation() {
 				ops = append(ops, DiffOp{
 					Type:     OpTypeSet,
 					Position: pos,
@@ -120,7 +121,7 @@ func (s *DiffService) DiffLine(oldLine, newLine []model2.Cell, y int) []DiffOp {
 	var ops []DiffOp
 
 	for x := 0; x < len(newLine); x++ {
-		if !oldLine[x].Equals(newLine[x]) {
+		if !oldLine[x].Equals(newLine[x]) && !newLine[x].IsContinuation() {
 			ops = append(ops, DiffOp{
 				Type:     OpTypeSet,
 				Position: value.NewPosition(x, y),
-- 
2.43.0


From 4fdfa64eba6c1d8ce67d67dc70c746f1ad0f7752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:39 +0000
Subject: [PATCH 64/83] fix: a cell shows its whole grapheme cluster

---
 render/internal/domain/model/buffer.go        | 10 ++----
 render/internal/domain/model/cell.go          | 32 +++++++++++++++----
 render/internal/infrastructure/ansi/writer.go |  3 ++
 3 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/render/internal/domain/model/buffer.go b/render/internal/domain/model/buffer.go
index 9764c66..a481d75 100644
--- a/render/internal/domain/model/buffer.go
+++ b/render/internal/domain/model/buffer.go
@@ -146,13 +146,7 @@ func (b *Buffer) SetString(pos value2.Position, text string, style value2.Style)
 		var cluster string
 		cluster, text, _, state = uniseg.FirstGraphemeClusterInString(text, state)
 
-		// Get rune and calculate width.
-		runes := []rune(cluster)
-		if len(runes) == 0 {
-			continue
-		}
-
-		char := runes[0]
+		// Calculate width.
 		width := uniseg.StringWidth(cluster)
 		if width < 1 {
 			continue // Takes no cell
@@ -162,7 +156,7 @@ func (b *Buffer) SetString(pos value2.Position, text string, style value2.Style)
 		}
 
 		// Create and set cell.
-		cell := NewCellWithWidth(char, style, width)
+		cell := newClusterCell(cluster, style, width)
 		b.Set(value2.NewPosition(x, y), cell)
 
 		x += width
diff --git a/render/internal/domain/model/cell.go b/render/internal/domain/model/cell.go
index ed70873..54b52b4 100644
--- a/render/internal/domain/model/cell.go
+++ b/render/internal/domain/model/cell.go
@@ -1,6 +1,8 @@
 package model
 
 import (
+	"unicode/utf8"
+
 	"github.com/phoenix-tui/phoenix/render/internal/domain/value"
 	"github.com/rivo/uniseg"
 )
@@ -9,6 +11,7 @@ import (
 // Cell is immutable and uses value semantics.
 type Cell struct {
 	char  rune
+	rest  string // what follows char in its grapheme cluster
 	style value.Style
 	width int
 }
@@ -42,6 +45,17 @@ func NewCellWithWidth(char rune, style value.Style, width int) Cell {
 	}
 }
 
+// newClusterCell creates a cell that shows a whole grapheme cluster.
+func newClusterCell(cluster string, style value.Style, width int) Cell {
+	char, size := utf8.DecodeRuneInString(cluster)
+	return Cell{
+		char:  char,
+		rest:  cluster[size:],
+		style: style,
+		width: width,
+	}
+}
+
 // newContinuationCell creates the cell that belongs to the wide character
 // before it. Nothing is drawn for it.
 func newContinuationCell(style value.Style) Cell {
@@ -58,6 +72,12 @@ func (c Cell) Char() rune {
 	return c.char
 }
 
+// Rest returns what follows the character in its grapheme cluster, such as
+// combining marks.
+func (c Cell) Rest() string {
+	return c.rest
+}
+
 // Style returns the style.
 func (c Cell) Style() value.Style {
 	return c.style
@@ -70,12 +90,13 @@ func (c Cell) Width() int {
 
 // IsEmpty returns true if cell is empty (space with no style).
 func (c Cell) IsEmpty() bool {
-	return c.char == ' ' && c.style.IsEmpty()
+	return c.char == ' ' && c.rest == "" && c.style.IsEmpty()
 }
 
 // Equals checks if two cells are equal (for diff optimization).
 func (c Cell) Equals(other Cell) bool {
 	return c.char == other.char &&
+		c.rest == other.rest &&
 		c.width == other.width &&
 		c.style.Equals(other.style)
 }
@@ -87,11 +108,8 @@ func (c Cell) WithChar(char rune) Cell {
 
 // WithStyle returns a new cell with different style.
 func (c Cell) WithStyle(style value.Style) Cell {
-	return Cell{
-		char:  c.char,
-		style: style,
-		width: c.width,
-	}
+	c.style = style
+	return c
 }
 
 // String returns a string representation for debugging.
@@ -102,7 +120,7 @@ func (c Cell) String() string {
 	if c.IsContinuation() {
 		return ""
 	}
-	return string(c.char)
+	return string(c.char) + c.rest
 }
 
 // calculateWidth calculates display width for a rune using uniseg.
diff --git a/render/internal/infrastructure/ansi/writer.go b/render/internal/infrastructure/ansi/writer.go
index aec3391..fe40268 100644
--- a/render/internal/infrastructure/ansi/writer.go
+++ b/render/internal/infrastructure/ansi/writer.go
@@ -114,6 +114,9 @@ func (w *Writer) WriteCell(cell model.Cell) error {
 	if _, err := w.buf.WriteRune(cell.Char()); err != nil {
 		return err
 	}
+	if _, err := w.buf.WriteString(cell.Rest()); err != nil {
+		return err
+	}
 
 	// Update position.
 	w.currentX += cell.Width()
-- 
2.43.0


From ebea77473ceab8ba2b290abd4b2524f62b826f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 65/83] fix: a pooled buffer has the renderer's current size
 and one owner

---
 render/internal/application/renderer.go | 7 +++++++
 render/renderer.go                      | 1 +
 2 files changed, 8 insertions(+)

diff --git a/render/internal/application/renderer.go b/render/internal/application/renderer.go
index 2397e9e..3a6f743 100644
--- a/render/internal/application/renderer.go
+++ b/render/internal/application/renderer.go
@@ -294,7 +294,14 @@ func (r *Renderer) Height() int {
 
 // GetBuffer returns a buffer from the pool (for zero-allocation).
 func (r *Renderer) GetBuffer() *model.Buffer {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
 	buf := r.bufferPool.Get().(*model.Buffer)
+	if buf.Width() != r.width || buf.Height() != r.height {
+		// From before a resize.
+		return model.NewBuffer(r.width, r.height)
+	}
 	buf.Clear()
 	return buf
 }
diff --git a/render/renderer.go b/render/renderer.go
index 11c96c9..6d2c93c 100644
--- a/render/renderer.go
+++ b/render/renderer.go
@@ -314,6 +314,7 @@ func (b *Buffer) Fill(char rune, style Style) {
 func (b *Buffer) Release() {
 	if b.renderer != nil {
 		b.renderer.app.PutBuffer(b.internal)
+		b.renderer = nil // The pool owns it now
 	}
 }
 
-- 
2.43.0


From b6994a4eb8cfcb01713d310aedd024cba48f3ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:15 +0000
Subject: [PATCH 66/83] fix: a failed write does not spoil later frames

---
 render/internal/application/renderer.go       | 33 +++++++++++++++----
 render/internal/infrastructure/ansi/writer.go | 28 ++++++++++++----
 2 files changed, 48 insertions(+), 13 deletions(-)

diff --git a/render/internal/application/renderer.go b/render/internal/application/renderer.go
index 3a6f743..881338c 100644
--- a/render/internal/application/renderer.go
+++ b/render/internal/application/renderer.go
@@ -27,6 +27,8 @@ type Renderer struct {
 	width  int
 	height int
 
+	screenLost bool // a write failed: the screen may show anything
+
 	bufferPool sync.Pool // For zero-allocation rendering
 	mu         sync.Mutex
 }
@@ -76,12 +78,27 @@ func (r *Renderer) Render(buffer *model.Buffer) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
+	return r.checkWrite(r.render(buffer))
+}
+
+// checkWrite passes on the result of writing to the terminal. After a failed
+// write the screen is unknown, and the next frame is drawn in full.
+func (r *Renderer) checkWrite(err error) error {
+	if err != nil {
+		r.writer.Discard()
+		r.screenLost = true
+	}
+	return err
+}
+
+// render renders without locking (internal use).
+func (r *Renderer) render(buffer *model.Buffer) error {
 	if buffer == nil {
 		return nil
 	}
 
 	// Check if dimensions changed.
-	if buffer.Width() != r.width || buffer.Height() != r.height {
+	if r.screenLost || buffer.Width() != r.width || buffer.Height() != r.height {
 		return r.renderFullScreen(buffer)
 	}
 
@@ -153,6 +170,7 @@ func (r *Renderer) renderFullScreen(buffer *model.Buffer) error {
 	}
 
 	// Update state.
+	r.screenLost = false
 	r.width = buffer.Width()
 	r.height = buffer.Height()
 	r.previousBuffer = buffer.Clone()
@@ -197,7 +215,7 @@ func (r *Renderer) Clear() error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
-	return r.clearUnlocked()
+	return r.checkWrite(r.clearUnlocked())
 }
 
 // clearUnlocked clears without locking (internal use).
@@ -215,6 +233,7 @@ func (r *Renderer) clearUnlocked() error {
 	}
 
 	// Reset buffers.
+	r.screenLost = false
 	r.currentBuffer.Clear()
 	r.previousBuffer.Clear()
 
@@ -238,7 +257,7 @@ func (r *Renderer) Resize(width, height int) error {
 		return model.NewBuffer(width, height)
 	}
 
-	return r.clearUnlocked() // Use unlocked version to avoid deadlock
+	return r.checkWrite(r.clearUnlocked()) // Use unlocked version to avoid deadlock
 }
 
 // HideCursor hides the terminal cursor.
@@ -247,10 +266,10 @@ func (r *Renderer) HideCursor() error {
 	defer r.mu.Unlock()
 
 	if err := r.writer.HideCursor(); err != nil {
-		return err
+		return r.checkWrite(err)
 	}
 
-	return r.writer.Flush()
+	return r.checkWrite(r.writer.Flush())
 }
 
 // ShowCursor shows the terminal cursor.
@@ -259,10 +278,10 @@ func (r *Renderer) ShowCursor() error {
 	defer r.mu.Unlock()
 
 	if err := r.writer.ShowCursor(); err != nil {
-		return err
+		return r.checkWrite(err)
 	}
 
-	return r.writer.Flush()
+	return r.checkWrite(r.writer.Flush())
 }
 
 // Close flushes and closes the renderer.
diff --git a/render/internal/infrastructure/ansi/writer.go b/render/internal/infrastructure/ansi/writer.go
index fe40268..e49c34d 100644
--- a/render/internal/infrastructure/ansi/writer.go
+++ b/render/internal/infrastructure/ansi/writer.go
@@ -19,6 +19,7 @@ type Writer struct {
 	currentY     int
 	positionLost bool // the terminal's cursor may be anywhere
 	currentStyle value2.Style
+	styleLost    bool // the terminal's style may be any
 	mu           sync.Mutex
 }
 
@@ -76,7 +77,7 @@ func (w *Writer) SetStyle(style value2.Style) error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
 
-	if style.Equals(w.currentStyle) {
+	if !w.styleLost && style.Equals(w.currentStyle) {
 		return nil // Style already set
 	}
 
@@ -87,13 +88,14 @@ func (w *Writer) SetStyle(style value2.Style) error {
 // is active, so whatever the previous style left on is reset first.
 func (w *Writer) applyStyle(style value2.Style) error {
 	seq := style.ToANSI()
-	if !w.currentStyle.IsEmpty() {
+	if w.styleLost || !w.currentStyle.IsEmpty() {
 		seq = Reset + seq
 	}
 	if _, err := w.buf.WriteString(seq); err != nil {
 		return err
 	}
 
+	w.styleLost = false
 	w.currentStyle = style
 	return nil
 }
@@ -104,7 +106,7 @@ func (w *Writer) WriteCell(cell model.Cell) error {
 	defer w.mu.Unlock()
 
 	// Set style if different.
-	if !cell.Style().Equals(w.currentStyle) {
+	if w.styleLost || !cell.Style().Equals(w.currentStyle) {
 		if err := w.applyStyle(cell.Style()); err != nil {
 			return err
 		}
@@ -137,7 +139,7 @@ func (w *Writer) WriteString(text string, style value2.Style) error {
 	defer w.mu.Unlock()
 
 	// Set style.
-	if !style.Equals(w.currentStyle) {
+	if w.styleLost || !style.Equals(w.currentStyle) {
 		if err := w.applyStyle(style); err != nil {
 			return err
 		}
@@ -168,7 +170,7 @@ func (w *Writer) Clear() error {
 	defer w.mu.Unlock()
 
 	// Erased cells take the active background colour.
-	if !w.currentStyle.IsEmpty() {
+	if w.styleLost || !w.currentStyle.IsEmpty() {
 		if err := w.applyStyle(value2.NewStyle()); err != nil {
 			return err
 		}
@@ -187,7 +189,7 @@ func (w *Writer) ClearLine() error {
 	defer w.mu.Unlock()
 
 	// Erased cells take the active background colour.
-	if !w.currentStyle.IsEmpty() {
+	if w.styleLost || !w.currentStyle.IsEmpty() {
 		if err := w.applyStyle(value2.NewStyle()); err != nil {
 			return err
 		}
@@ -208,6 +210,7 @@ func (w *Writer) Reset() error {
 	}
 
 	w.currentStyle = value2.NewStyle()
+	w.styleLost = false
 	return nil
 }
 
@@ -255,6 +258,19 @@ func (w *Writer) Flush() error {
 	return w.buf.Flush()
 }
 
+// Discard drops what is buffered, together with any write error, and forgets
+// where the cursor is and which style is active: after a failed write nothing
+// says how much of it arrived.
+func (w *Writer) Discard() {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+
+	w.buf.Reset(w.output)
+	w.currentStyle = value2.NewStyle()
+	w.styleLost = true
+	w.positionLost = true
+}
+
 // BufferedSize returns the number of bytes currently buffered.
 func (w *Writer) BufferedSize() int {
 	w.mu.Lock()
-- 
2.43.0


From 28f249c72180737bc49e7f658383c359ce59ce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 67/83] fix: Close reports a failed write and leaves no style
 behind

---
 render/internal/application/renderer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/render/internal/application/renderer.go b/render/internal/application/renderer.go
index 881338c..6a96d43 100644
--- a/render/internal/application/renderer.go
+++ b/render/internal/application/renderer.go
@@ -289,10 +289,17 @@ func (r *Renderer) Close() error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
+	// Leave no style behind.
+	if err := r.writer.SetStyle(value.NewStyle()); err != nil {
+		return r.checkWrite(err)
+	}
+
 	// Show cursor on exit.
-	_ = r.writer.ShowCursor()
+	if err := r.writer.ShowCursor(); err != nil {
+		return r.checkWrite(err)
+	}
 
-	return r.writer.Close()
+	return r.checkWrite(r.writer.Close())
 }
 
 // Width returns current width.
-- 
2.43.0


From 8155b3cc29fa6ba66f62c271bf82d074cd64c7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:30 +0000
Subject: [PATCH 68/83] fix: rendering no buffer does nothing

---
 render/renderer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/render/renderer.go b/render/renderer.go
index 6d2c93c..7a62625 100644
--- a/render/renderer.go
+++ b/render/renderer.go
@@ -186,6 +186,9 @@ func WithBufferSize(width, height int, output io.Writer, bufferSize int) *Render
 // Render renders a buffer to the terminal using differential rendering.
 // Only changed cells are rendered for optimal performance.
 func (r *Renderer) Render(buf *Buffer) error {
+	if buf == nil {
+		return nil
+	}
 	return r.app.Render(buf.internal)
 }
 
-- 
2.43.0


From 56d547fb25d544019927d4418bf378fd6f4043b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:27 +0000
Subject: [PATCH 69/83] fix: a negative cursor position is an error, not a
 malformed sequence

---
 terminal/internal/infrastructure/unix/ansi.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/terminal/internal/infrastructure/unix/ansi.go b/terminal/internal/infrastructure/unix/ansi.go
index da36f82..718d65b 100644
--- a/terminal/internal/infrastructure/unix/ansi.go
+++ b/terminal/internal/infrastructure/unix/ansi.go
@@ -65,7 +65,14 @@ func NewANSIWithOutput(output *os.File) *ANSITerminal {
 
 // SetCursorPosition moves cursor to absolute position (x, y).
 // ANSI: "\033[{row};{col}H" (1-based indexing!).
+//
+// Negative coordinates are out of bounds: no sequence expresses them, so
+// nothing is written and an error is returned.
 func (a *ANSITerminal) SetCursorPosition(x, y int) error {
+	if x < 0 || y < 0 {
+		return fmt.Errorf("terminal: cursor position (%d, %d) out of bounds", x, y)
+	}
+
 	// ANSI uses 1-based indexing, API uses 0-based.
 	_, err := fmt.Fprintf(a.output, "\033[%d;%dH", y+1, x+1)
 	return err
-- 
2.43.0


From bdc37cfae40fd4b503b0c0e788a2d6fc309901fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:28 +0000
Subject: [PATCH 70/83] fix: Size falls back when the terminal does not report
 its size

---
 terminal/internal/infrastructure/unix/ansi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terminal/internal/infrastructure/unix/ansi.go b/terminal/internal/infrastructure/unix/ansi.go
index 718d65b..eee937e 100644
--- a/terminal/internal/infrastructure/unix/ansi.go
+++ b/terminal/internal/infrastructure/unix/ansi.go
@@ -300,6 +300,10 @@ func (a *ANSITerminal) Size() (width, height int, err error) {
 		// Fallback to common default.
 		return 80, 24, err
 	}
+	if w <= 0 || h <= 0 {
+		// The terminal does not know its size (e.g. serial lines, fresh ptys).
+		return 80, 24, errors.New("terminal: size not reported")
+	}
 	return w, h, nil
 }
 
-- 
2.43.0


From cc27b2cba333a6270b27f7dec0ffdefd00ab9ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:34 +0000
Subject: [PATCH 71/83] fix: a menu stays on the screen wherever the cursor is

---
 mouse/internal/domain/service/menu_positioner.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mouse/internal/domain/service/menu_positioner.go b/mouse/internal/domain/service/menu_positioner.go
index c08aaf9..62ccf9e 100644
--- a/mouse/internal/domain/service/menu_positioner.go
+++ b/mouse/internal/domain/service/menu_positioner.go
@@ -69,7 +69,7 @@ func (p *MenuPositioner) CalculatePosition(
 	y := cursorPos.Y()
 
 	// Check right edge overflow
-	if x+menuWidth > screenWidth {
+	if x > screenWidth-menuWidth {
 		// Shift left to fit
 		x = screenWidth - menuWidth
 		// Ensure non-negative
@@ -79,7 +79,7 @@ func (p *MenuPositioner) CalculatePosition(
 	}
 
 	// Check bottom edge overflow
-	if y+menuHeight > screenHeight {
+	if y > screenHeight-menuHeight {
 		// Shift up to fit
 		y = screenHeight - menuHeight
 		// Ensure non-negative
@@ -109,8 +109,8 @@ func (p *MenuPositioner) WouldOverflow(
 	x := position.X()
 	y := position.Y()
 
-	overflowsRight = x+menuWidth > screenWidth
-	overflowsBottom = y+menuHeight > screenHeight
+	overflowsRight = x > screenWidth-menuWidth
+	overflowsBottom = y > screenHeight-menuHeight
 
 	return overflowsRight, overflowsBottom
 }
-- 
2.43.0


From 095f8fc44f54261e1fa6c94854ca30dd1e48ccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:34 +0000
Subject: [PATCH 72/83] fix: the distance of positions far apart is not
 negative

---
 mouse/internal/domain/value/position.go | 27 ++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/mouse/internal/domain/value/position.go b/mouse/internal/domain/value/position.go
index 817db48..e478e9b 100644
--- a/mouse/internal/domain/value/position.go
+++ b/mouse/internal/domain/value/position.go
@@ -1,6 +1,9 @@
 package value
 
-import "fmt"
+import (
+	"fmt"
+	"math"
+)
 
 // Position represents a mouse position in terminal coordinates.
 // Coordinates are 0-based (top-left is 0,0).
@@ -34,17 +37,23 @@ func (p Position) Equals(other Position) bool {
 	return p.x == other.x && p.y == other.y
 }
 
-// DistanceTo calculates the Manhattan distance to another position.
+// DistanceTo calculates the Manhattan distance to another position
+// (math.MaxInt if it is larger than that).
 func (p Position) DistanceTo(other Position) int {
-	dx := p.x - other.x
-	dy := p.y - other.y
-	if dx < 0 {
-		dx = -dx
+	dx := distance(p.x, other.x)
+	dy := distance(p.y, other.y)
+	if dx > math.MaxInt || dy > math.MaxInt-dx {
+		return math.MaxInt
 	}
-	if dy < 0 {
-		dy = -dy
+	return int(dx + dy)
+}
+
+// distance is how far apart two coordinates are.
+func distance(a, b int) uint {
+	if a < b {
+		a, b = b, a
 	}
-	return dx + dy
+	return uint(a) - uint(b)
 }
 
 // IsWithinTolerance checks if two positions are within a tolerance distance.
-- 
2.43.0


From baa14b68b571ef98d6f1b419022b202e4bee2a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:58 +0000
Subject: [PATCH 73/83] fix: boxes that reach far out contain their cells, and
 empty ones overlap nothing

---
 mouse/internal/domain/value/bounding_box.go | 27 +++++++++++++++------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/mouse/internal/domain/value/bounding_box.go b/mouse/internal/domain/value/bounding_box.go
index 4919417..80a5f7e 100644
--- a/mouse/internal/domain/value/bounding_box.go
+++ b/mouse/internal/domain/value/bounding_box.go
@@ -50,16 +50,29 @@ func (b BoundingBox) Height() int {
 func (b BoundingBox) Contains(pos Position) bool {
 	x := pos.X()
 	y := pos.Y()
-	return x >= b.x && x < b.x+b.width &&
-		y >= b.y && y < b.y+b.height
+	return covers(b.x, b.width, x) && covers(b.y, b.height, y)
 }
 
-// Overlaps returns true if this bounding box overlaps with another.
+// Overlaps returns true if this bounding box overlaps with another
+// (an empty one overlaps nothing).
 func (b BoundingBox) Overlaps(other BoundingBox) bool {
-	return b.x < other.x+other.width &&
-		b.x+b.width > other.x &&
-		b.y < other.y+other.height &&
-		b.y+b.height > other.y
+	return !b.IsEmpty() && !other.IsEmpty() &&
+		meets(b.x, b.width, other.x, other.width) &&
+		meets(b.y, b.height, other.y, other.height)
+}
+
+// covers checks if the length cells from start on include pos.
+// The end of the range is not computed: it may lie beyond the largest int.
+func covers(start, length, pos int) bool {
+	return pos >= start && uint(pos)-uint(start) < uint(length)
+}
+
+// meets checks if two ranges of cells (neither empty) overlap.
+func meets(start, length, otherStart, otherLength int) bool {
+	if start < otherStart {
+		return uint(otherStart)-uint(start) < uint(length)
+	}
+	return uint(start)-uint(otherStart) < uint(otherLength)
 }
 
 // Equals returns true if this bounding box is equal to another.
-- 
2.43.0


From 2df01042c03806f2d2ac19e89e4bad6544cbd679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:57 +0000
Subject: [PATCH 74/83] fix: every TERM that contains 256color announces 256
 colors

---
 terminal/internal/infrastructure/unix/ansi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terminal/internal/infrastructure/unix/ansi.go b/terminal/internal/infrastructure/unix/ansi.go
index eee937e..dfc7419 100644
--- a/terminal/internal/infrastructure/unix/ansi.go
+++ b/terminal/internal/infrastructure/unix/ansi.go
@@ -14,6 +14,7 @@ import (
 	"errors"
 	"fmt"
 	"os"
+	"strings"
 	"sync"
 
 	"golang.org/x/term"
@@ -322,8 +323,7 @@ func (a *ANSITerminal) ColorDepth() int {
 	}
 
 	// Check for 256 color support.
-	termEnv := os.Getenv("TERM")
-	if termEnv == "xterm-256color" || termEnv == "screen-256color" || termEnv == "tmux-256color" {
+	if strings.Contains(os.Getenv("TERM"), "256color") {
 		return 256 // 8-bit
 	}
 
-- 
2.43.0


From 8b28a88d2ce7de9c453f70491da292d15f15ad1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:56 +0000
Subject: [PATCH 75/83] fix: Ctrl+C as terminals report it quits the selects,
 other Ctrl and Alt keys are not letters

---
 components/multiselect/internal/infrastructure/keyboard.go | 6 ++++++
 components/multiselect/multiselect.go                      | 3 +++
 components/select/internal/infrastructure/keyboard.go      | 6 ++++++
 components/select/select.go                                | 3 +++
 4 files changed, 18 insertions(+)

diff --git a/components/multiselect/internal/infrastructure/keyboard.go b/components/multiselect/internal/infrastructure/keyboard.go
index 73b537b..cd8a760 100644
--- a/components/multiselect/internal/infrastructure/keyboard.go
+++ b/components/multiselect/internal/infrastructure/keyboard.go
@@ -62,6 +62,12 @@ func (k *KeyBindingMap) GetAction(msg tea.KeyMsg) Action {
 
 	// Check rune-based bindings
 	if msg.Type == tea.KeyRune {
+		if msg.Ctrl && msg.Rune == 'c' {
+			return ActionQuit // Ctrl+C as the terminal reports it
+		}
+		if msg.Ctrl || msg.Alt {
+			return ActionNone
+		}
 		if action, ok := k.runeMap[msg.Rune]; ok {
 			return action
 		}
diff --git a/components/multiselect/multiselect.go b/components/multiselect/multiselect.go
index 5487aaa..dccbc43 100644
--- a/components/multiselect/multiselect.go
+++ b/components/multiselect/multiselect.go
@@ -256,6 +256,9 @@ func (m *MultiSelect[T]) handleFilterInput(newM *MultiSelect[T], msg tea.KeyMsg)
 	}
 
 	if msg.Type == tea.KeyRune {
+		if msg.Ctrl || msg.Alt {
+			return newM // not text
+		}
 		// Skip if it's a bound rune (a, n, j, k, g, G)
 		action := m.keymap.GetAction(msg)
 		if action != infrastructure.ActionNone {
diff --git a/components/select/internal/infrastructure/keyboard.go b/components/select/internal/infrastructure/keyboard.go
index eb4e94f..ff5154b 100644
--- a/components/select/internal/infrastructure/keyboard.go
+++ b/components/select/internal/infrastructure/keyboard.go
@@ -56,6 +56,12 @@ func (k *KeyBindingMap) GetAction(msg tea.KeyMsg) Action {
 
 	// Check rune-based bindings
 	if msg.Type == tea.KeyRune {
+		if msg.Ctrl && msg.Rune == 'c' {
+			return ActionQuit // Ctrl+C as the terminal reports it
+		}
+		if msg.Ctrl || msg.Alt {
+			return ActionNone
+		}
 		if action, ok := k.runeMap[msg.Rune]; ok {
 			return action
 		}
diff --git a/components/select/select.go b/components/select/select.go
index 975b9ed..237f0cf 100644
--- a/components/select/select.go
+++ b/components/select/select.go
@@ -182,6 +182,9 @@ func (s *Select[T]) handleFilterInput(newS *Select[T], msg tea.KeyMsg) *Select[T
 	}
 
 	if msg.Type == tea.KeyRune {
+		if msg.Ctrl || msg.Alt {
+			return newS // not text
+		}
 		currentQuery := s.domain.FilterQuery()
 		newQuery := currentQuery + string(msg.Rune)
 		newS.domain = newS.domain.SetFilterQuery(newQuery)
-- 
2.43.0


From bcd9ce488f38ea4f7bb77ba77acb25d48ce24569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:56 +0000
Subject: [PATCH 76/83] fix: Ctrl+C as terminals report it cancels a
 confirmation, other Ctrl and Alt keys choose nothing

---
 components/confirm/internal/infrastructure/keyboard.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/components/confirm/internal/infrastructure/keyboard.go b/components/confirm/internal/infrastructure/keyboard.go
index 79915f8..d4a6555 100644
--- a/components/confirm/internal/infrastructure/keyboard.go
+++ b/components/confirm/internal/infrastructure/keyboard.go
@@ -51,6 +51,12 @@ func (k *KeyBindingMap) GetAction(msg tea.KeyMsg) Action {
 	case tea.KeyEsc, tea.KeyCtrlC:
 		return ActionCancel
 	case tea.KeyRune:
+		if msg.Ctrl && msg.Rune == 'c' {
+			return ActionCancel // Ctrl+C as the terminal reports it
+		}
+		if msg.Ctrl || msg.Alt {
+			return ActionNone
+		}
 		// Any rune is a potential shortcut key
 		return ActionShortcut
 	}
-- 
2.43.0


From 3ccea8e2e818d2bec69fa360543f57211b6e469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:56 +0000
Subject: [PATCH 77/83] fix: Ctrl+C as terminals report it quits a form

---
 components/form/internal/infrastructure/keyboard.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/components/form/internal/infrastructure/keyboard.go b/components/form/internal/infrastructure/keyboard.go
index 0c49d84..8b60abd 100644
--- a/components/form/internal/infrastructure/keyboard.go
+++ b/components/form/internal/infrastructure/keyboard.go
@@ -56,6 +56,9 @@ func (k *KeyBindingMap) GetAction(msg tea.KeyMsg) Action {
 
 	// Check rune bindings
 	if msg.Type == tea.KeyRune {
+		if msg.Ctrl && msg.Rune == 'c' {
+			return ActionQuit // Ctrl+C as the terminal reports it
+		}
 		if action, ok := k.runes[msg.Rune]; ok {
 			return action
 		}
-- 
2.43.0


From e034cf803810b6d4316b1a16c3a204a22398cbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:56 +0000
Subject: [PATCH 78/83] fix: Ctrl and Alt combinations are not filter text of
 the list

---
 components/list/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/components/list/list.go b/components/list/list.go
index 401896b..aebabf7 100644
--- a/components/list/list.go
+++ b/components/list/list.go
@@ -235,7 +235,7 @@ func (l *List) handleKey(msg tea.KeyMsg) (*List, tea.Cmd) {
 		return newList, tea.Quit()
 	default:
 		// If no action matched, check if it's a printable character for filtering.
-		if newList.showFilter && msg.Type == tea.KeyRune {
+		if newList.showFilter && msg.Type == tea.KeyRune && !msg.Ctrl && !msg.Alt {
 			// Add character to filter query.
 			currentQuery := string(msg.Rune)
 			newList.domain = newList.domain.SetFilterQuery(currentQuery)
-- 
2.43.0


From b270c4e86add12813479c586408b763f1b48ece9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:48 +0000
Subject: [PATCH 79/83] fix: Shift+Tab typed on a terminal is decoded

---
 tea/internal/infrastructure/ansi/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tea/internal/infrastructure/ansi/parser.go b/tea/internal/infrastructure/ansi/parser.go
index 9121a8c..23f41e9 100644
--- a/tea/internal/infrastructure/ansi/parser.go
+++ b/tea/internal/infrastructure/ansi/parser.go
@@ -85,6 +85,8 @@ func (p *Parser) ParseKey(data []byte) (model.KeyMsg, bool) {
 				return model.KeyMsg{Type: model.KeyRight}, true
 			case 'D':
 				return model.KeyMsg{Type: model.KeyLeft}, true
+			case 'Z': // Shift+Tab
+				return model.KeyMsg{Type: model.KeyTab, Shift: true}, true
 			}
 		}
 
-- 
2.43.0


From e972aee72abe777b6f474b788ce00b9abab94d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:48 +0000
Subject: [PATCH 80/83] fix: Alt combinations are not text of the single-line
 input

---
 components/input/internal/input/infrastructure/keybindings.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/components/input/internal/input/infrastructure/keybindings.go b/components/input/internal/input/infrastructure/keybindings.go
index 423dd8b..0e1435e 100644
--- a/components/input/internal/input/infrastructure/keybindings.go
+++ b/components/input/internal/input/infrastructure/keybindings.go
@@ -41,6 +41,9 @@ func (kb *DefaultKeyBindings) Handle(input model.TextInput, msg tea.KeyMsg) mode
 			return input // An unbound Ctrl combination is not text.
 		}
 	}
+	if msg.Alt && msg.Type == tea.KeyRune {
+		return input // Nor is an Alt combination.
+	}
 
 	switch msg.Type {
 	// Navigation.
-- 
2.43.0


From 33d89e9cab2cce5a03c8093197d08ab1c9a0c3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:01 +0000
Subject: [PATCH 81/83] fix: options set after the height or a function keep
 them

---
 .../multiselect/internal/domain/model/multiselect.go   | 10 ++++++++++
 components/multiselect/multiselect.go                  |  2 +-
 components/select/internal/domain/model/select.go      | 10 ++++++++++
 components/select/select.go                            |  2 +-
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/components/multiselect/internal/domain/model/multiselect.go b/components/multiselect/internal/domain/model/multiselect.go
index c743d73..1f93ba5 100644
--- a/components/multiselect/internal/domain/model/multiselect.go
+++ b/components/multiselect/internal/domain/model/multiselect.go
@@ -44,6 +44,16 @@ func New[T any](options []*value.Option[T], minCount, maxCount int) *MultiSelect
 	}
 }
 
+// WithOptions returns a new MultiSelect with the specified options: nothing is
+// selected or filtered, the height and the functions set before stay.
+func (m *MultiSelect[T]) WithOptions(options []*value.Option[T], minCount, maxCount int) *MultiSelect[T] {
+	updated := New(options, minCount, maxCount)
+	updated.height = m.height
+	updated.filterFunc = m.filterFunc
+	updated.renderFunc = m.renderFunc
+	return updated
+}
+
 // WithHeight returns a new MultiSelect with the specified visible height.
 func (m *MultiSelect[T]) WithHeight(height int) *MultiSelect[T] {
 	if height < 1 {
diff --git a/components/multiselect/multiselect.go b/components/multiselect/multiselect.go
index dccbc43..eeeea21 100644
--- a/components/multiselect/multiselect.go
+++ b/components/multiselect/multiselect.go
@@ -76,7 +76,7 @@ func New[T any](title string) *MultiSelect[T] {
 func (m *MultiSelect[T]) Options(options ...*value.Option[T]) *MultiSelect[T] {
 	return &MultiSelect[T]{
 		title:      m.title,
-		domain:     model.New(options, m.min, m.max),
+		domain:     m.domain.WithOptions(options, m.min, m.max),
 		keymap:     m.keymap,
 		filterable: m.filterable,
 		min:        m.min,
diff --git a/components/select/internal/domain/model/select.go b/components/select/internal/domain/model/select.go
index 00f177a..801c8d8 100644
--- a/components/select/internal/domain/model/select.go
+++ b/components/select/internal/domain/model/select.go
@@ -44,6 +44,16 @@ func New[T any](options []*value.Option[T]) *Select[T] {
 	}
 }
 
+// WithOptions returns a new Select with the specified options: nothing is
+// selected or filtered, the height and the functions set before stay.
+func (s *Select[T]) WithOptions(options []*value.Option[T]) *Select[T] {
+	updated := New(options)
+	updated.height = s.height
+	updated.filterFunc = s.filterFunc
+	updated.renderFunc = s.renderFunc
+	return updated
+}
+
 // WithHeight returns a new Select with the specified visible height.
 func (s *Select[T]) WithHeight(height int) *Select[T] {
 	if height < 1 {
diff --git a/components/select/select.go b/components/select/select.go
index 237f0cf..ee6d2ad 100644
--- a/components/select/select.go
+++ b/components/select/select.go
@@ -65,7 +65,7 @@ func New[T any](title string) *Select[T] {
 func (s *Select[T]) Options(options ...*value.Option[T]) *Select[T] {
 	return &Select[T]{
 		title:      s.title,
-		domain:     model.New(options),
+		domain:     s.domain.WithOptions(options),
 		keymap:     s.keymap,
 		filterable: s.filterable,
 	}
-- 
2.43.0


From 6dc7933197ec5512be2c6163d4f8ed39950163f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:04 +0000
Subject: [PATCH 82/83] fix: select: WithDefault selects the default value

---
 .../select/internal/domain/model/select.go    | 20 +++++++++++++++++++
 components/select/select.go                   | 14 ++++++++-----
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/components/select/internal/domain/model/select.go b/components/select/internal/domain/model/select.go
index 801c8d8..41a13b6 100644
--- a/components/select/internal/domain/model/select.go
+++ b/components/select/internal/domain/model/select.go
@@ -2,6 +2,8 @@
 package model
 
 import (
+	"reflect"
+
 	"github.com/phoenix-tui/phoenix/components/select/internal/domain/value"
 )
 
@@ -54,6 +56,24 @@ func (s *Select[T]) WithOptions(options []*value.Option[T]) *Select[T] {
 	return updated
 }
 
+// WithDefault returns a new Select with the first option of this value that can
+// be selected selected and focused, or the same Select if there is none.
+func (s *Select[T]) WithDefault(val T) *Select[T] {
+	for i, opt := range s.options {
+		if opt.Disabled() || !reflect.DeepEqual(opt.Value(), val) {
+			continue
+		}
+		updated := s.withSelectedIndex(i)
+		for pos, visible := range s.filteredOpts {
+			if visible == opt {
+				return updated.withCursor(pos)
+			}
+		}
+		return updated
+	}
+	return s
+}
+
 // WithHeight returns a new Select with the specified visible height.
 func (s *Select[T]) WithHeight(height int) *Select[T] {
 	if height < 1 {
diff --git a/components/select/select.go b/components/select/select.go
index ee6d2ad..b10465e 100644
--- a/components/select/select.go
+++ b/components/select/select.go
@@ -111,11 +111,15 @@ func (s *Select[T]) WithRenderFunc(fn func(opt *value.Option[T], index int, focu
 	}
 }
 
-// WithDefault sets the default selected value.
-func (s *Select[T]) WithDefault(_ T) *Select[T] {
-	// TODO: Find matching option and select it
-	// This is a simplified implementation for now
-	return s
+// WithDefault sets the default selected value: the option that has it is
+// selected and focused. It has no effect when no option can be selected with it.
+func (s *Select[T]) WithDefault(val T) *Select[T] {
+	return &Select[T]{
+		title:      s.title,
+		domain:     s.domain.WithDefault(val),
+		keymap:     s.keymap,
+		filterable: s.filterable,
+	}
 }
 
 // SelectedValue returns the currently selected value, or zero value if nothing selected.
-- 
2.43.0


From 613de7951bc8f86910ea3c5b28cbd5999375c7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:11 +0000
Subject: [PATCH 83/83] fix: a program run again draws its view anew, below
 what was written meanwhile

---
 tea/internal/application/program/program.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 4ae14c8..b914da5 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -498,6 +498,12 @@ func (p *Program[T]) beginRun() {
 	p.quitting = false
 	p.quitCh = make(chan struct{})
 	p.msgCh = make(chan model2.Msg, cap(p.msgCh))
+
+	// The screen has belonged to others since the last run: draw anew, below
+	// what they wrote.
+	if p.inlineRenderer != nil {
+		p.inlineRenderer.SetOutput(p.output)
+	}
 }
 
 // signalQuit ends the current run. The request stays pending until the event
-- 
2.43.0

