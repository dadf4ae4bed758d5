From b5633eb9c0cd3d1df8b2a75f4c6456e9f249761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 01/48] fix: SwapCols and SwapColsByColIndex swap the cells
 along with the columns

---
 sort.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sort.go b/sort.go
index 4f107b4..7c229b1 100644
--- a/sort.go
+++ b/sort.go
@@ -952,6 +952,10 @@ func (table *Table) SwapColsByColIndex(colIndex1 int, colIndex2 int) error {
 
 	table.colNamesMap[colName1], table.colNamesMap[colName2] = table.colNamesMap[colName2], table.colNamesMap[colName1]
 
+	for _, row := range table.rows {
+		row[colIndex1], row[colIndex2] = row[colIndex2], row[colIndex1]
+	}
+
 	return nil
 }
 
@@ -987,6 +991,10 @@ func (table *Table) SwapCols(colName1 string, colName2 string) error {
 
 	table.colNamesMap[colName1], table.colNamesMap[colName2] = table.colNamesMap[colName2], table.colNamesMap[colName1]
 
+	for _, row := range table.rows {
+		row[col1], row[col2] = row[col2], row[col1]
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 0ee04876b5310a151dee58b9965f4f7fdcfbad6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 02/48] fix: DeleteCol and RenameCol keep the sort keys in step
 with the columns

---
 gotables.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/gotables.go b/gotables.go
index a47e0fe..070b1da 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1866,6 +1866,15 @@ func (table *Table) DeleteColByColIndex(colIndex int) error {
 	// From Ivo Balbaert p182 for deleting a single element from a slice.
 	table.colTypes = append(table.colTypes[:colIndex], table.colTypes[colIndex+1:]...)
 
+	// A sort key whose column is deleted goes with it.
+	sortKeys := newSortKeys()
+	for _, key := range table.sortKeys {
+		if key.colName != colName {
+			sortKeys = append(sortKeys, key)
+		}
+	}
+	table.sortKeys = sortKeys
+
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
 		//		if isValidRow, err := table.IsValidRow(rowIndex); !isValidRow { where(fmt.Sprintf("%s\n", err)) }
 		var row []interface{} = table.rows[rowIndex]
@@ -2655,6 +2664,13 @@ func (table *Table) RenameCol(oldName string, newName string) error {
 	delete(table.colNamesMap, oldName)    // Delete the old one.
 	table.colNamesMap[newName] = colIndex // Add the new one.
 
+	// A sort key follows its column.
+	for keyIndex := range table.sortKeys {
+		if table.sortKeys[keyIndex].colName == oldName {
+			table.sortKeys[keyIndex].colName = newName
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From aa1b1f44617b9dd7e9532808854ea429271f0238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 03/48] fix: Equals finds nested tables by column name, as it
 does other cells

---
 gotables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index 070b1da..8c680b4 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3409,7 +3409,7 @@ func (table1 *Table) Equals(table2 *Table) (equals bool, err error) {
 				if err != nil {
 					return false, err
 				}
-				nestedTable2, err := table2.GetTableByColIndex(colIndex, rowIndex)
+				nestedTable2, err := table2.GetTable(colName, rowIndex)
 				if err != nil {
 					return false, err
 				}
-- 
2.43.0


From 701ed99bf02b82e961e120e5f29b31586cde2a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 04/48] fix: Merge handles disjoint keys, empty tables and
 every column type, and leaves its inputs alone

---
 merge.go | 137 ++++++++++++++++++++++++++-----------------------------
 1 file changed, 65 insertions(+), 72 deletions(-)

diff --git a/merge.go b/merge.go
index 2131936..c9a0458 100644
--- a/merge.go
+++ b/merge.go
@@ -26,6 +26,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"time"
 )
 
 /*
@@ -57,45 +58,6 @@ import (
 */
 func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 
-	// Local function.
-	// Make sort keys of both input tables the same.
-	setSortKeysBetweenTables := func() error {
-		if table1.SortKeyCount() > 0 {
-			// Note: table1 is dominant.
-			err = table2.SetSortKeysFromTable(table1)
-			if err != nil {
-				return err
-			}
-		} else if table2.SortKeyCount() > 0 {
-			err = table1.SetSortKeysFromTable(table2)
-			if err != nil {
-				return err
-			}
-		} else {
-			err = fmt.Errorf("[%s].Merge([%s]) needs at least table [%s] or table [%s] to have sort keys",
-				table1.Name(), table2.Name(), table1.Name(), table2.Name())
-			return err
-		}
-		return nil
-	}
-
-	// Local function.
-	sortMerged := func(localMerged *Table) (*Table, error) {
-		if localMerged.SortKeyCount() == 0 {
-			err = setSortKeysBetweenTables()
-			if err != nil {
-				return nil, err
-			}
-		}
-
-		err = localMerged.Sort()
-		if err != nil {
-			return nil, err
-		}
-
-		return localMerged, nil
-	}
-
 	if table1 == nil {
 		err = fmt.Errorf("func (table1 *Table) %s(table2 *Table): table1 is <nil>", UtilFuncName())
 		return merged, err
@@ -106,28 +68,25 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return merged, err
 	}
 
-	// TODO: this value of merged is never used (SA4006)
-	if table1.RowCount() == 0 {
-		merged, err = sortMerged(table2)
-		if err != nil {
-			return nil, err
-		}
-		return table2, nil
+	// Note: table1 is dominant.
+	keysTable := table1
+	if table1.SortKeyCount() == 0 {
+		keysTable = table2
 	}
-
-	// TODO: this value of merged is never used (SA4006)
-	if table2.RowCount() == 0 {
-		merged, err = sortMerged(table1)
-		if err != nil {
-			return nil, err
-		}
-		return table1, nil
+	if keysTable.SortKeyCount() == 0 {
+		err = fmt.Errorf("[%s].Merge([%s]) needs at least table [%s] or table [%s] to have sort keys",
+			table1.Name(), table2.Name(), table1.Name(), table2.Name())
+		return nil, err
 	}
 
-	// Check that table1 and table2 have the same sort columns.
-	err = setSortKeysBetweenTables()
-	if err != nil {
-		return nil, err
+	// Check that table1 and table2 both have the sort key columns.
+	for _, key := range keysTable.sortKeys {
+		for _, table := range []*Table{table1, table2} {
+			_, err = table.ColType(key.colName)
+			if err != nil {
+				return nil, err
+			}
+		}
 	}
 
 	// Okay. They're compatible, now set up for merging.
@@ -151,7 +110,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 	}
 	//	fmt.Println(merged)
 
-	err = merged.SetSortKeysFromTable(table1)
+	err = merged.SetSortKeysFromTable(keysTable)
 	if err != nil {
 		return nil, err
 	}
@@ -313,7 +272,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
-				case "int8", "int16", "int32", "int64", "int":
+				case "int8", "int16", "int32", "int64", "int", "rune":
 					var tmp1 interface{}
 					var tmp2 interface{}
 					var val1 int64
@@ -341,7 +300,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
-				case "uint8", "uint16", "uint32", "uint64", "uint":
+				case "uint8", "uint16", "uint32", "uint64", "uint", "byte":
 					var tmp1 interface{}
 					var tmp2 interface{}
 					var val1 uint64
@@ -411,6 +370,29 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
+				case "[]byte", "[]uint8", "time.Time", "*Table":
+					var val1 interface{}
+					var val2 interface{}
+					val1, err = merged.GetValByColIndex(colIndex, rowIndex1)
+					if err != nil {
+						return nil, err
+					}
+					val2, err = merged.GetValByColIndex(colIndex, rowIndex2)
+					if err != nil {
+						return nil, err
+					}
+					if !isMissingVal(val1) { // Covers combinations (c) and (d)
+						err = merged.SetValByColIndex(colIndex, rowIndex2, val1) // Use val1
+						if err != nil {
+							return nil, err
+						}
+					} else if !isMissingVal(val2) { // Covers combination (b)
+						err = merged.SetValByColIndex(colIndex, rowIndex1, val2) // Use val2
+						if err != nil {
+							return nil, err
+						}
+					}
+					// Otherwise both vals must be zero. Do nothing.
 				default:
 					// Should never reach here.
 					var isValid bool
@@ -448,16 +430,14 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return nil, err
 	}
 
-	// Find the block of rows to delete.
-	first, last, err := merged.SearchRange(true)
-	if err != nil {
-		return nil, err
-	}
-
-	// Delete the block of rows.
-	err = merged.DeleteRows(first, last)
-	if err != nil {
-		return nil, err
+	// Find the block of rows to delete. There is none if no rows have matching keys.
+	first, last, errNotFound := merged.SearchRange(true)
+	if errNotFound == nil {
+		// Delete the block of rows.
+		err = merged.DeleteRows(first, last)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	// Delete the temporary tag columns.
@@ -470,7 +450,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return nil, err
 	}
 
-	err = merged.SetSortKeysFromTable(table1)
+	err = merged.SetSortKeysFromTable(keysTable)
 	if err != nil {
 		return nil, err
 	}
@@ -482,6 +462,19 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 	return merged, nil
 }
 
+// True for the zero value of a type that has no operator to compare it with zero.
+func isMissingVal(val interface{}) bool {
+	switch v := val.(type) {
+	case []byte:
+		return len(v) == 0
+	case time.Time:
+		return v.IsZero()
+	case *Table:
+		return v.isNilTable
+	}
+	return false
+}
+
 // This copies from left (srcTable) to right (targTable) beginning at beginRow in targTable.
 func (srcTable *Table) copyTableCells(beginRow int, targTable *Table) error {
 	for srcCol := 0; srcCol < srcTable.ColCount(); srcCol++ {
-- 
2.43.0


From f7dc42ba1cdf8011b59512bb45f45f44cbf13053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 05/48] fix: ShufflePseudorandom shuffles the same way on each
 call

---
 gotables.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gotables.go b/gotables.go
index 8c680b4..87e93e3 100644
--- a/gotables.go
+++ b/gotables.go
@@ -4314,9 +4314,10 @@ func (table *Table) ShufflePseudorandom() error {
 
 	// This forces rand.Shuffle() to start from scratch on each call.
 	// Otherwise there is a surprise side effect if a rand function is called elsewhere.
-	rand.Seed(0)
+	// It has its own generator, so it neither depends on the global one nor disturbs it.
+	generator := rand.New(rand.NewSource(0))
 
-	rand.Shuffle(len(table.rows), func(i, j int) {
+	generator.Shuffle(len(table.rows), func(i, j int) {
 		table.rows[i], table.rows[j] = table.rows[j], table.rows[i]
 	})
 
-- 
2.43.0


From b4a748865df3f7b0330bb1c7791fdd0cb7780123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 06/48] fix: SearchLast reports a value below every row as
 missing instead of panicking

---
 sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sort.go b/sort.go
index 7c229b1..08c7e47 100644
--- a/sort.go
+++ b/sort.go
@@ -1060,7 +1060,7 @@ func (table *Table) searchByKeysLast(searchValues []interface{}) (int, error) {
 
 	// See logic at: https://golang.org/pkg/sort/#Search
 	// See Search() source code at: https://golang.org/src/sort/search.go?s=2247:2287#L49
-	if searchIndex < table.RowCount() && searchValuesMatchRowValues(table, searchValues, searchIndex) {
+	if searchIndex >= 0 && searchIndex < table.RowCount() && searchValuesMatchRowValues(table, searchValues, searchIndex) {
 		return searchIndex, nil
 	} else {
 		return -1, fmt.Errorf("[%s].Search(%v) search values not in table: %v",
-- 
2.43.0


From 7e2d92dbd3862e19d18508dc653eaed97313b088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 07/48] fix: CopyDeep returns a copy, instead of the table
 itself, and leaves the table alone

---
 tree.go | 64 ++++++++++++++++++++++-----------------------------------
 1 file changed, 24 insertions(+), 40 deletions(-)

diff --git a/tree.go b/tree.go
index 480072e..57d4bed 100644
--- a/tree.go
+++ b/tree.go
@@ -400,70 +400,54 @@ func (parentTable *Table) isCircularReference(candidateChildTable *Table) (isCir
 	return false, -1
 }
 
+/*
+	Create a copy of table, with copies of any nested tables (at every depth).
+
+	The copy shares nothing with table.
+*/
 func (table *Table) CopyDeep() (tableCopy *Table, err error) {
 	// where(UtilFuncName())
 	if table == nil {
 		return nil, fmt.Errorf("table.%s: table is nil", UtilFuncName())
 	}
 
-	// This may seem odd, but this is the point in CopyDeep() where it's possible
-	// to set tableCopy before all the recursive calls have occurred.
-	tableCopy = table
-
-	var visitTable = func(t *Table) (err error) {
-		// where(fmt.Sprintf("[%s]", t.Name()))
-		return
+	// Note: Copy() returns an error if table has a circular reference.
+	tableCopy, err = table.Copy()
+	if err != nil {
+		return nil, err
 	}
 
-	var visitCell = func(walkDeep bool, cell CellInfo) (err error) {
-		if IsTableColType(cell.ColType) {
-			// where(fmt.Sprintf("[%s] IsTableColType", cell.Table.Name()))
+	// Replace the nested tables in the copy. So far they are the nested tables in table.
+	for colIndex := 0; colIndex < tableCopy.ColCount(); colIndex++ {
+		if !IsTableColType(tableCopy.colTypes[colIndex]) {
+			continue
+		}
 
+		for rowIndex := 0; rowIndex < tableCopy.RowCount(); rowIndex++ {
 			var nestedTable *Table
-			nestedTable, err = cell.Table.GetTableByColIndex(cell.ColIndex, cell.RowIndex)
+			nestedTable, err = tableCopy.GetTableByColIndex(colIndex, rowIndex)
 			if err != nil {
-				return
-			}
-			// where(fmt.Sprintf("nestedTable = %p", nestedTable))
-
-			var isNilTable bool
-			isNilTable, err = nestedTable.IsNilTable()
-			if err != nil {
-				return
+				return nil, err
 			}
 
 			var nestedTableCopy *Table
-			if isNilTable {
-				nestedTableCopy = NewNilTable()	// New reference just to be on the safe side.
+			if nestedTable.isNilTable {
+				nestedTableCopy = NewNilTable() // New reference just to be on the safe side.
 			} else {
-				nestedTableCopy, err = nestedTable.Copy()
+				nestedTableCopy, err = nestedTable.CopyDeep()
 				if err != nil {
-					return
+					return nil, err
 				}
 			}
 
-			err = cell.Table.SetTableByColIndex(cell.ColIndex, cell.RowIndex, nestedTableCopy)
+			err = tableCopy.SetTableByColIndex(colIndex, rowIndex, nestedTableCopy)
 			if err != nil {
-			// where(fmt.Sprintf("nestedTableCopy = %p", nestedTableCopy))
-				return
+				return nil, err
 			}
 		}
-		tableCopy = cell.Table
-
-		return
 	}
 
-	const walkDeep = true
-	var walkSafe WalkSafe = make(WalkSafe)
-	// where(fmt.Sprintf("declaring walkSafe = %p", walkSafe))
-	// where("BEGIN Walk()")
-	err = table.Walk(walkDeep, walkSafe, visitTable, nil, visitCell)
-	// where("END Walk()")
-	if err != nil {
-		return nil, err
-	}
-
-	return
+	return tableCopy, nil
 }
 
 /*
-- 
2.43.0


From ccd1968ac1b392ef237440a34157182f4f1b45dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 08/48] fix: copies of tables and rows have their own byte
 slices

---
 gotables.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gotables.go b/gotables.go
index 87e93e3..c34b226 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3584,7 +3584,7 @@ where("\n" + cellVal.(*Table).StringNested())
 }
 */
 
-			err = toTable.SetVal(colName, toRow, cellVal)
+			err = toTable.SetVal(colName, toRow, copyOfVal(cellVal))
 			if err != nil {
 				return err
 			}
@@ -3608,6 +3608,14 @@ where("\n" + cellVal.(*Table).StringNested())
 	return nil
 }
 
+// A byte slice refers to its bytes, so it needs its own bytes in a copy of a cell.
+func copyOfVal(val interface{}) interface{} {
+	if byteSlice, ok := val.([]byte); ok && byteSlice != nil {
+		return append([]byte{}, byteSlice...)
+	}
+	return val
+}
+
 /*
 	Create a new table from a range of rows in this table.
 */
@@ -4162,7 +4170,7 @@ func (table *Table) NewTableReorderColsByColIndex(orderIndices ...int) (reordere
 		}
 
 		for rowIndex := 0; rowIndex < rowCount; rowIndex++ {
-			reorderedTable.rows[rowIndex][oldIndex] = table.rows[rowIndex][newIndex]
+			reorderedTable.rows[rowIndex][oldIndex] = copyOfVal(table.rows[rowIndex][newIndex])
 		}
 	}
 
-- 
2.43.0


From eb736a1763045e5fef8f7a6b9631537235ab5b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 09/48] fix: IsValidTableNesting checks the nested tables it
 visits, at every depth

---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index 57d4bed..1c09d4d 100644
--- a/tree.go
+++ b/tree.go
@@ -337,7 +337,7 @@ func (rootTable *Table) IsValidTableNesting() (valid bool, err error) {
 	visitCell = func(walkNestedTables bool, cellInfo CellInfo) (err error) {
 		if IsTableColType(cellInfo.ColType) {
 			var nestedTable *Table
-			nestedTable, err = rootTable.GetTableByColIndex(cellInfo.ColIndex, cellInfo.RowIndex)
+			nestedTable, err = cellInfo.Table.GetTableByColIndex(cellInfo.ColIndex, cellInfo.RowIndex)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From ccea3aa0a8bbdb3163eb7354d899c8a54734fef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 10/48] fix: the YAML encoder reports circular references and
 its own errors

---
 yaml.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/yaml.go b/yaml.go
index 09d961b..b222943 100644
--- a/yaml.go
+++ b/yaml.go
@@ -377,13 +377,13 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 	var yamlMap map[string]interface{}
 	yamlMap, err = tableSet.GetTableSetAsMap()
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 
 	var yamlBytes []byte
 	yamlBytes, err = yaml.Marshal(yamlMap)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 
 	yamlString = string(yamlBytes)
@@ -410,7 +410,7 @@ func (tableSet *TableSet) GetTableSetAsMap() (yamlMap map[string]interface{}, er
 		}
 
 		var yamlTable map[string]interface{}
-		yamlTable, err = table.getTableAsMap()
+		yamlTable, err = table.getTableAsMap(circRefMap{})
 		if err != nil {
 			return
 		}
@@ -424,7 +424,10 @@ func (tableSet *TableSet) GetTableSetAsMap() (yamlMap map[string]interface{}, er
 	return
 }
 
-func (table *Table) getTableAsMap() (yamlTable map[string]interface{}, err error) {
+func (table *Table) getTableAsMap(refMap circRefMap) (yamlTable map[string]interface{}, err error) {
+
+	// Add this table to the circular reference map.
+	refMap[table] = EmptyStruct
 
 	var yamlObject map[string]interface{} // Cell name and value pair.
 	var yamlTableData [][]interface{}
@@ -525,7 +528,12 @@ func (table *Table) getTableAsMap() (yamlTable map[string]interface{}, err error
 				return err
 			}
 
-			anyVal, err = nestedTable.getTableAsMap()
+			_, exists := refMap[nestedTable]
+			if exists { // Invalid table with circular reference!
+				return NewCircRefError(table, nestedTable, "")
+			}
+
+			anyVal, err = nestedTable.getTableAsMap(refMap)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 6bf22bd828e78ec0275a73b4c2c4a994f2f3fa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 11/48] fix: Nest takes the keys of whichever table has them,
 and nests an empty table where nothing matches

---
 nest.go | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/nest.go b/nest.go
index 38bb58a..5a3980c 100644
--- a/nest.go
+++ b/nest.go
@@ -55,13 +55,39 @@ func (table *Table) Nest(nestable *Table, nestColName string) error {
 	}
 
 	// Use whichever table has sort keys for the shared keys. table is dominant over nestable.
+	var keyed, unkeyed *Table = table, nestable
 	if table.SortKeyCount() == 0 {
-		err = nestable.SetSortKeysFromTable(table)
+		keyed, unkeyed = nestable, table
+	}
+
+	// Check everything before anything is changed.
+	if keyed.SortKeyCount() == 0 {
+		return fmt.Errorf("[%s].%s(nestable, %q): neither table has sort keys - use SetSortKeys()",
+			table.Name(), UtilFuncName(), nestColName)
+	}
+
+	for _, key := range keyed.sortKeys {
+		colType, err := unkeyed.ColType(key.colName)
 		if err != nil {
 			return err
 		}
+		if colType != key.colType {
+			return fmt.Errorf("[%s].%s(nestable, %q): key %q is type %s in [%s] but type %s in [%s]",
+				table.Name(), UtilFuncName(), nestColName, key.colName, key.colType, keyed.Name(), colType, unkeyed.Name())
+		}
 	}
-	err = nestable.SetSortKeysFromTable(table)
+
+	_, err = IsValidColName(nestColName)
+	if err != nil {
+		return err
+	}
+
+	_, exists := table.colNamesMap[nestColName]
+	if exists {
+		return fmt.Errorf("[%s].%s(nestable, %q): col %q already exists", table.Name(), UtilFuncName(), nestColName, nestColName)
+	}
+
+	err = unkeyed.SetSortKeysFromTable(keyed)
 	if err != nil {
 		return err
 	}
@@ -110,13 +136,15 @@ func (table *Table) Nest(nestable *Table, nestColName string) error {
 			}
 		}
 
+		nestTableName := nestColName
+		var newTable *Table
 		firstRow, lastRow, err := nestable.SearchRange(keys...)
-		if err != nil {
-			return err
+		if err == nil {
+			newTable, err = nestable.NewTableFromRows(nestTableName, firstRow, lastRow)
+		} else {
+			// No rows of nestable match this row. Nest an empty table.
+			newTable, err = NewTableFromMetadata(nestTableName, nestable.colNames, nestable.colTypes)
 		}
-
-		nestTableName := nestColName
-		newTable, err := nestable.NewTableFromRows(nestTableName, firstRow, lastRow)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 1ce1a54b5b41c1ded6da76684eda43cdb1609a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 12/48] fix: Walk reports a nil walkSafe, and no longer writes
 to the tables it visits

---
 tree.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/tree.go b/tree.go
index 1c09d4d..f33d29c 100644
--- a/tree.go
+++ b/tree.go
@@ -84,7 +84,7 @@ func (table *Table) Walk(
 		return
 	}
 
-	if table == nil {
+	if walkNestedTables && walkSafe == nil {
 		err = fmt.Errorf("table.%s(): walkSafe is nil", UtilFuncNameNoParens())
 		return
 	}
@@ -172,9 +172,6 @@ func (table *Table) Walk(
 						}
 					}
 
-					// Down into nested table.
-					nestedTable.depth++
-
 					// Recursive call to visit nested tables.
 // where(fmt.Sprintf("walkSafe %p = %v", walkSafe, walkSafe))
 // where("calling nestedTable.Walk()")
@@ -182,9 +179,6 @@ func (table *Table) Walk(
 					if err != nil {
 						return
 					}
-
-					// Back up from nested table.
-					nestedTable.depth--
 				}
 			}
 		}
-- 
2.43.0


From d2b406a290f548d58d3b996fa9dc60168b7a955e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 13/48] fix: setting a cell checks the column and row index
 before anything else

---
 gotables.go |  21 ++++++++-
 helpers.go  | 127 +++++++++++++++++++++++++++++++++++++++++-----------
 tree.go     |   6 ++-
 3 files changed, 125 insertions(+), 29 deletions(-)

diff --git a/gotables.go b/gotables.go
index c34b226..49c8fbc 100644
--- a/gotables.go
+++ b/gotables.go
@@ -773,7 +773,11 @@ func (table *Table) SetRowFloatCellsToNaN(rowIndex int) error {
 		return fmt.Errorf("%s table.%s table is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
-	var err error
+	hasRow, err := table.HasRow(rowIndex)
+	if !hasRow {
+		return err
+	}
+
 	var colType string
 	for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
 		colType, err = table.ColTypeByColIndex(colIndex)
@@ -844,6 +848,11 @@ func (table *Table) SetColCellsToZeroValueByColIndex(colIndex int) error {
 		return fmt.Errorf("%s table.%s table is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
+	_, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
+
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
 		err := table.SetCellToZeroValueByColIndex(colIndex, rowIndex)
 		if err != nil {
@@ -884,6 +893,16 @@ func (table *Table) SetColFloatCellsToNaNByColIndex(colIndex int) error {
 		return fmt.Errorf("%s table.%s table is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
+
+	if colType != "float32" && colType != "float64" {
+		return fmt.Errorf("%s: [%s] colIndex=%d colName=%s expecting colType float32 or float64 but found: %s",
+			UtilFuncName(), table.Name(), colIndex, table.colNames[colIndex], colType)
+	}
+
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
 		err := table.SetFloatCellToNaNByColIndex(colIndex, rowIndex)
 		if err != nil {
diff --git a/helpers.go b/helpers.go
index 83fc552..5133a1f 100644
--- a/helpers.go
+++ b/helpers.go
@@ -868,9 +868,6 @@ func (table *Table) SetTable(colName string, rowIndex int, newVal *Table) error
 			UtilFuncNameNoParens(), colName, rowIndex, table.Name(), colName)
 	}
 
-	// This may help with reporting errors.
-	newVal.parentTable = table
-
 	colType, err := table.ColType(colName)
 	if err != nil {
 		return err
@@ -898,6 +895,9 @@ func (table *Table) SetTable(colName string, rowIndex int, newVal *Table) error
 	// Note: This essentially inlines SetValByColIndex(): an average 30% speedup.
 	table.rows[rowIndex][colIndex] = newVal
 
+	// This may help with reporting errors.
+	newVal.parentTable = table
+
 	return nil
 }
 
@@ -969,7 +969,10 @@ func (table *Table) SetByteSliceByColIndex(colIndex int, rowIndex int, newVal []
 			UtilFuncName(), table.Name(), colIndex)
 	}
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1010,7 +1013,10 @@ func (table *Table) SetUint8SliceByColIndex(colIndex int, rowIndex int, newVal [
 			UtilFuncName(), table.Name(), colIndex)
 	}
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1045,7 +1051,10 @@ func (table *Table) SetBoolByColIndex(colIndex int, rowIndex int, newVal bool) e
 
 	const valType string = "bool"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1080,7 +1089,10 @@ func (table *Table) SetByteByColIndex(colIndex int, rowIndex int, newVal byte) e
 
 	const valType string = "byte"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1115,7 +1127,10 @@ func (table *Table) SetFloat32ByColIndex(colIndex int, rowIndex int, newVal floa
 
 	const valType string = "float32"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1150,7 +1165,10 @@ func (table *Table) SetFloat64ByColIndex(colIndex int, rowIndex int, newVal floa
 
 	const valType string = "float64"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1185,7 +1203,10 @@ func (table *Table) SetIntByColIndex(colIndex int, rowIndex int, newVal int) err
 
 	const valType string = "int"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1220,7 +1241,10 @@ func (table *Table) SetInt16ByColIndex(colIndex int, rowIndex int, newVal int16)
 
 	const valType string = "int16"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1255,7 +1279,10 @@ func (table *Table) SetInt32ByColIndex(colIndex int, rowIndex int, newVal int32)
 
 	const valType string = "int32"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1290,7 +1317,10 @@ func (table *Table) SetInt64ByColIndex(colIndex int, rowIndex int, newVal int64)
 
 	const valType string = "int64"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1325,7 +1355,10 @@ func (table *Table) SetInt8ByColIndex(colIndex int, rowIndex int, newVal int8) e
 
 	const valType string = "int8"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1360,7 +1393,10 @@ func (table *Table) SetRuneByColIndex(colIndex int, rowIndex int, newVal rune) e
 
 	const valType string = "rune"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1395,7 +1431,10 @@ func (table *Table) SetStringByColIndex(colIndex int, rowIndex int, newVal strin
 
 	const valType string = "string"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1430,7 +1469,10 @@ func (table *Table) SetUintByColIndex(colIndex int, rowIndex int, newVal uint) e
 
 	const valType string = "uint"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1465,7 +1507,10 @@ func (table *Table) SetUint16ByColIndex(colIndex int, rowIndex int, newVal uint1
 
 	const valType string = "uint16"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1500,7 +1545,10 @@ func (table *Table) SetUint32ByColIndex(colIndex int, rowIndex int, newVal uint3
 
 	const valType string = "uint32"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1535,7 +1583,10 @@ func (table *Table) SetUint64ByColIndex(colIndex int, rowIndex int, newVal uint6
 
 	const valType string = "uint64"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1570,7 +1621,10 @@ func (table *Table) SetUint8ByColIndex(colIndex int, rowIndex int, newVal uint8)
 
 	const valType string = "uint8"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1611,10 +1665,10 @@ func (table *Table) SetTableByColIndex(colIndex int, rowIndex int, newVal *Table
 			UtilFuncNameNoParens(), colIndex, rowIndex, table.Name(), colIndex)
 	}
 
-	// This may help with reporting errors.
-	newVal.parentTable = table
-
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1633,6 +1687,9 @@ func (table *Table) SetTableByColIndex(colIndex int, rowIndex int, newVal *Table
 	// Note: This essentially inlines SetValByColIndex(): an average 5 times speedup.
 	table.rows[rowIndex][colIndex] = newVal
 
+	// This may help with reporting errors.
+	newVal.parentTable = table
+
 	return nil
 }
 
@@ -1649,7 +1706,10 @@ func (table *Table) SetTimeByColIndex(colIndex int, rowIndex int, newVal time.Ti
 
 	const valType string = "time.Time"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -4855,7 +4915,15 @@ func (table *Table) SetCellToZeroValueByColIndex(colIndex int, rowIndex int) err
 		return fmt.Errorf("table.%s: table is <nil>", UtilFuncName())
 	}
 
-	var colType = table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
+
+	hasRow, err := table.HasRow(rowIndex)
+	if !hasRow {
+		return err
+	}
 
 	switch colType {
 	case "[]byte":
@@ -4937,6 +5005,11 @@ func (table *Table) SetRowCellsToZeroValue(rowIndex int) error {
 		return fmt.Errorf("table.%s: table is an unnamed NilTable. Call table.SetName() to un-Nil it", UtilFuncName())
 	}
 
+	hasRow, err := table.HasRow(rowIndex)
+	if !hasRow {
+		return err
+	}
+
 	for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
 		var colType string = table.colTypes[colIndex]
 		switch colType {
diff --git a/tree.go b/tree.go
index f33d29c..b0ba7e3 100644
--- a/tree.go
+++ b/tree.go
@@ -216,7 +216,11 @@ func (table *Table) GetCellInfoByColIndex(colIndex int, rowIndex int) (cellInfo
 	cellInfo.Table = table
 	cellInfo.ColIndex = colIndex
 	cellInfo.RowIndex = rowIndex
-	cellInfo.ColType = table.colTypes[colIndex]
+
+	cellInfo.ColType, err = table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return cellInfo, err
+	}
 
 	cellInfo.ColName, err = table.ColName(colIndex)
 	if err != nil {
-- 
2.43.0


From f96b1c82212ba4cff1c0ad076e81c267e65c7388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 14/48] fix: appending columns or rows from a table checks all
 of them before changing anything

---
 gotables.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/gotables.go b/gotables.go
index 49c8fbc..5c117df 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3497,6 +3497,20 @@ func (table *Table) AppendColsFromTable(fromTable *Table) error {
 		return err
 	}
 
+	// Check every column before appending any.
+	for colIndex, colName := range fromTable.colNames {
+		colInfo, err := table.getColInfo(colName)
+		if err != nil {
+			continue // A new column.
+		}
+		// Skip duplicate column name, but only if it has same type.
+		if colType := fromTable.colTypes[colIndex]; colType != colInfo.colType {
+			// Not the same type!
+			return fmt.Errorf("[%s].%s([%s]): skipping duplicate colName %q (is okay), but expecting type %q, not %q",
+				table.Name(), UtilFuncName(), fromTable.Name(), colName, colInfo.colType, colType)
+		}
+	}
+
 	for rowIndex := 0; rowIndex < colsTable.RowCount(); rowIndex++ {
 		colName, err := colsTable.GetString("colName", rowIndex)
 		if err != nil {
@@ -3566,6 +3580,29 @@ func (toTable *Table) AppendRowsFromTable(fromTable *Table, firstRow int, lastRo
 		}
 	}
 
+	// Check everything that can fail before changing toTable.
+	if firstRow <= lastRow {
+		for _, row := range []int{firstRow, lastRow} {
+			var hasRow bool
+			hasRow, err = fromTable.HasRow(row)
+			if !hasRow {
+				return err
+			}
+		}
+
+		for fromCol, colName := range fromTable.colNames {
+			var colType string
+			colType, err = toTable.ColType(colName)
+			if err != nil {
+				return err
+			}
+			if colType != fromTable.colTypes[fromCol] && !isAlias(colType, fromTable.colTypes[fromCol]) {
+				return fmt.Errorf("%s: table [%s] col %s expecting type %s, not type %s in table [%s]",
+					UtilFuncName(), toTable.Name(), colName, colType, fromTable.colTypes[fromCol], fromTable.Name())
+			}
+		}
+	}
+
 	// Note: multiple assignment syntax in for loop.
 	for fromRow, toRow := firstRow, toTable.RowCount(); fromRow <= lastRow; fromRow, toRow = fromRow+1, toRow+1 {
 
-- 
2.43.0


From 4728c5913e98bd6f0ebb494342c50739aecd4e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 15/48] fix: setting sort keys leaves them alone when one is
 refused

---
 sort.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sort.go b/sort.go
index 08c7e47..ecd47ad 100644
--- a/sort.go
+++ b/sort.go
@@ -171,11 +171,13 @@ func (table *Table) SetSortKeys(sortColNames ...string) error {
 		return fmt.Errorf("table.%s table is <nil>", UtilFuncName())
 	}
 
+	existingSortKeys := table.sortKeys
 	table.sortKeys = newSortKeys() // Replace any existing sort keys.
 
 	for _, colName := range sortColNames {
 		err := table.AppendSortKey(colName)
 		if err != nil {
+			table.sortKeys = existingSortKeys
 			//			errSortKey := errors.New(fmt.Sprintf("SetSortKeys(%v): %v\n", sortColNames, err))
 			errSortKey := fmt.Errorf("SetSortKeys(%v): %v", sortColNames, err)
 			return errSortKey
@@ -197,9 +199,12 @@ func (table *Table) SetSortKeysReverse(reverseSortColNames ...string) error {
 		return fmt.Errorf("table.%s table is <nil>", UtilFuncName())
 	}
 
+	existingSortKeys := append(SortKeys{}, table.sortKeys...)
+
 	for _, colName := range reverseSortColNames {
 		err := table.setSortKeyReverse(colName)
 		if err != nil {
+			table.sortKeys = existingSortKeys
 			errSortKey := fmt.Errorf("SetSortKeysReverse(%v): %v", reverseSortColNames, err)
 			return errSortKey
 		}
-- 
2.43.0


From cad98e6de77b6104034f33bf0e16a21b3d58f5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 16/48] fix: AppendTable and GobEncode refuse nil, and
 GetColValsAsStrings an unknown column

---
 gob.go      | 4 ++++
 gotables.go | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/gob.go b/gob.go
index 978b96b..52a5ffe 100644
--- a/gob.go
+++ b/gob.go
@@ -191,6 +191,10 @@ func (tableSet *TableSet) GobEncode() ([]bytes.Buffer, error) {
 	var encodedTableSet []bytes.Buffer
 	var err error
 
+	if tableSet == nil {
+		return emptyBuffer, fmt.Errorf("%s tableSet.%s tableSet is <nil>", UtilFuncSource(), UtilFuncName())
+	}
+
 	for tableIndex := 0; tableIndex < len(tableSet.tables); tableIndex++ {
 		var table *Table = tableSet.tables[tableIndex]
 		var encodedTable *bytes.Buffer
diff --git a/gotables.go b/gotables.go
index 5c117df..ef72969 100644
--- a/gotables.go
+++ b/gotables.go
@@ -423,6 +423,10 @@ func (tableSet *TableSet) AppendTable(newTable *Table) error {
 		return fmt.Errorf("%s tableSet.%s tableSet is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
+	if newTable == nil {
+		return fmt.Errorf("%s tableSet.%s newTable is <nil>", UtilFuncSource(), UtilFuncName())
+	}
+
 	// Note: Could maintain a map in parallel for rapid lookup of table names.
 	for _, existingTable := range tableSet.tables {
 		if existingTable.Name() == newTable.Name() {
@@ -3138,6 +3142,11 @@ func (table *Table) GetColValsAsStrings(colName string) ([]string, error) {
 		return nil, fmt.Errorf("table.%s: table is an unnamed NilTable. Call table.SetName() to un-Nil it", UtilFuncName())
 	}
 
+	_, err := table.ColIndex(colName)
+	if err != nil {
+		return nil, err
+	}
+
 	rowCount := table.RowCount()
 	sVals := make([]string, rowCount)
 	for rowIndex := 0; rowIndex < rowCount; rowIndex++ {
-- 
2.43.0


From 05c8a9d0d6744b4f7e0feb33a8c9d9f8592da2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 17/48] fix: String writes integers exactly instead of through
 a float64

---
 gotables.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/gotables.go b/gotables.go
index ef72969..b33f3ac 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1352,17 +1352,13 @@ func printMatrix(tableName string, matrix [][]string, width []int, precis []int,
 			if alignRight[col] {
 				// TODO: Move this functionality to where printMatrix is called.
 				var toWrite string
-				if row <= 1 { // It's a colName or typeName
+				isFloat := colTypes[col] == "float32" || colTypes[col] == "float64"
+				if row <= 1 || !isFloat { // It's a colName or typeName, or an integer (which a float cannot always hold)
 					toWrite = matrix[col][row]
-				} else { // It's numeric. Note: float conversion handles int conversion.
-					var bits int
-					switch colTypes[col] {
-					case "float32":
+				} else { // It's a float.
+					var bits int = 64
+					if colTypes[col] == "float32" {
 						bits = 32
-					case "float64":
-						bits = 64
-					default:
-						bits = 64 // For int and other non-float integrals.
 					}
 					// Convert back to float so we can format it again in light of the maximum precision in the column.
 					float64Val, err := strconv.ParseFloat(matrix[col][row], bits)
-- 
2.43.0


From 072c8ddd9e906ef933833c36c27d9656b8830d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 18/48] fix: StringUnpadded writes every column type, and the
 name of the table set

---
 gotables.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index b33f3ac..b798f9e 100644
--- a/gotables.go
+++ b/gotables.go
@@ -342,6 +342,9 @@ func (tableSet *TableSet) _String(horizontalSeparator byte) string {
 
 	var buf bytes.Buffer
 	//	buf.WriteString("# From file: \"" + tableSet.name + "\"\n\n")
+	if tableSet.Name() != "" {
+		buf.WriteString(fmt.Sprintf("[[%s]]\n\n", tableSet.Name()))
+	}
 	var tableSep = ""
 	var table *Table
 	for i := 0; i < len(tableSet.tables); i++ {
@@ -1226,6 +1229,7 @@ func (table *Table) _String(horizontalSeparator byte) string {
 				var runeVal rune
 				var tVal bool
 				var ui8Val uint8
+				var ui8SliceVal []uint8
 				var ui16Val uint16
 				var ui32Val uint32
 				var ui64Val uint64
@@ -1238,6 +1242,7 @@ func (table *Table) _String(horizontalSeparator byte) string {
 				var f32Val float32
 				var f64Val float64
 				var tableVal *Table
+				var timeVal time.Time
 				buf.WriteString(horizontalSep)
 				switch table.colTypes[colIndex] {
 				case "string":
@@ -1251,9 +1256,12 @@ func (table *Table) _String(horizontalSeparator byte) string {
 				case "bool":
 					tVal = row[colIndex].(bool)
 					buf.WriteString(fmt.Sprintf("%t", tVal))
-				case "uint8":
+				case "uint8", "byte":
 					ui8Val = row[colIndex].(uint8)
 					buf.WriteString(fmt.Sprintf("%d", ui8Val))
+				case "[]uint8", "[]byte":
+					ui8SliceVal = row[colIndex].([]uint8)
+					buf.WriteString(fmt.Sprintf("%v", ui8SliceVal))
 				case "uint16":
 					ui16Val = row[colIndex].(uint16)
 					buf.WriteString(fmt.Sprintf("%d", ui16Val))
@@ -1295,6 +1303,13 @@ func (table *Table) _String(horizontalSeparator byte) string {
 					buf.WriteByte(91) // Opening square bracket.
 					buf.WriteString(tableName)
 					buf.WriteByte(93) // Closing square bracket.
+				case "time.Time":
+					timeVal = row[colIndex].(time.Time)
+					if timeVal.Nanosecond() > 0 {
+						buf.WriteString(timeVal.Format(time.RFC3339Nano))
+					} else {
+						buf.WriteString(timeVal.Format(time.RFC3339))
+					}
 				default:
 					log.Printf("%s #1 ERROR IN %s: unknown type: %s\n",
 						UtilFuncSource(), UtilFuncName(), table.colTypes[colIndex])
-- 
2.43.0


From 47d3a0229ba1d809a85c2e35450e61566cc02800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 19/48] fix: a struct shaped table is written with its strings
 and runes quoted

---
 gotables.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gotables.go b/gotables.go
index b798f9e..29822c0 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1665,12 +1665,11 @@ func printStruct(table *Table) string {
 
 			switch table.colTypes[colIndex] {
 			case "string":
-				// Note 1: GetValAsStringByColIndex() doesn't include delimiters around strings.
-				// Note 2: Don't use %q. Use \"%s\" instead. Because %q replicates escape slashes.
-				s += " = " + fmt.Sprintf("\"%s\"", asString)
+				// Note: GetValAsStringByColIndex() doesn't include delimiters around strings, or escapes within them.
+				s += " = " + strconv.Quote(asString)
 			case "rune":
-				// Note: GetValAsStringByColIndex() doesn't include delimiters around runes.
-				s += " = " + fmt.Sprintf("'%s'", asString)
+				// Note: GetValAsStringByColIndex() doesn't include delimiters around runes, or escapes within them.
+				s += " = " + strconv.QuoteRune(table.rows[RowIndexZero][colIndex].(rune))
 			default:
 				// All other types don't have delimiters.
 				s += " = " + asString
-- 
2.43.0


From 6e24d95bf76a9a2b333bc66f7636f8b43c73f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 20/48] fix: the parser accepts every time and float it writes,
 and skips no text before a time, float or rune

---
 parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 48847af..05a2a6a 100644
--- a/parser.go
+++ b/parser.go
@@ -123,7 +123,7 @@ var boolRegexp *regexp.Regexp = regexp.MustCompile(`^\b(true|false)\b`)
 //             This may not be terribly efficient, awaiting a more specific regular expresssion.
 const runeRegexpString string = `'((\\n)|(\\')|([^']\\[xuU].*)|([^']*))'`
 
-var runeRegexp *regexp.Regexp = regexp.MustCompile(runeRegexpString)
+var runeRegexp *regexp.Regexp = regexp.MustCompile(`^` + runeRegexpString)
 
 // Covers all unsigned integrals, including byte.
 // See init()
@@ -139,7 +139,7 @@ var intRegexp *regexp.Regexp
 // Allow negative float numbers! 15/03/2017 Amazed that this was missed during initial testing!
 // var floatRegexp		*regexp.Regexp = regexp.MustCompile(`(^[-+]?(\b[0-9]+\.([0-9]+\b)?|\b\.[0-9]+\b))|([Nn][Aa][Nn])|(\b[-+]?\d+\b)`)
 // From Regular Expressions Cookbook.
-var floatRegexp *regexp.Regexp = regexp.MustCompile(`^([-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?)|([Nn][Aa][Nn])`)
+var floatRegexp *regexp.Regexp = regexp.MustCompile(`^(([-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?)|([Nn][Aa][Nn])|([-+]?Inf))`)
 
 const tableSetNamePattern string = `^\[\[[a-zA-Z_][a-zA-Z0-9_]*\]\]$`
 const namePattern string = `^[a-zA-Z_][a-zA-Z0-9_]*$`
@@ -151,7 +151,7 @@ const tableNameNilPattern string = `^(\[\])`                  // Don't add $ at
 // const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(Z|([+-]\d{2}:\d{2}))`
 // RFC3339Nano = "2006-01-02T15:04:05.999999999Z07:00"
 // const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d+)?(Z|([+-]\d{2}:\d{2}))`
-const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{9})?(Z|([+-]\d{2}:\d{2}))`
+const rfc3339TimePattern string = `^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d+)?(Z|([+-]\d{2}:\d{2}))`
 
 var tableSetNameRegexp *regexp.Regexp = regexp.MustCompile(tableSetNamePattern)
 var tableNameRegexp *regexp.Regexp = regexp.MustCompile(tableNamePattern)
-- 
2.43.0


From b36b288b29e21c5c3e7425748ffb7a275256261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 21/48] fix: the parser keeps its line number to itself, not in
 a variable every parser shares

---
 parser.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index 05a2a6a..b4317c3 100644
--- a/parser.go
+++ b/parser.go
@@ -91,8 +91,6 @@ func init() {
 	uintSliceRegexp = regexp.MustCompile(uintSliceRegexpString)
 }
 
-var globalLineNum int
-
 const globalErrorLimit int = 10
 
 var globalErrorCount int
@@ -284,8 +282,8 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 	var readError error
 	var stringReader *strings.Reader = strings.NewReader(s)
 	var inputReader *bufio.Reader = bufio.NewReader(stringReader)
-	globalLineNum = 1
-	for ; ; globalLineNum++ {
+	p.lineNum = 1
+	for ; ; p.lineNum++ {
 		line, readError = inputReader.ReadString('\n')
 		line = strings.TrimSpace(line)
 
@@ -651,7 +649,7 @@ func (p *parser) parseFile(inputFileName string) (*TableSet, error) {
 }
 
 func (p *parser) gotFilePos() string {
-	return fmt.Sprintf("%s:%d:", p.fileName, globalLineNum)
+	return fmt.Sprintf("%s:%d:", p.fileName, p.lineNum)
 }
 
 func file_line() string {
@@ -1286,6 +1284,7 @@ func rangeForIntegerType(min int64, max uint64) string {
 // parser definition: fields and methods.
 type parser struct {
 	fileName string // Needed for printing file and line diagnostics.
+	lineNum  int    // The line of the input being parsed.
 }
 
 // Needed for printing file and line diagnostics.
-- 
2.43.0


From 501a61211c2f4bf16a376238a411f75e8f6b3bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 22/48] fix: the parser reports a repeated column name where it
 stands

---
 parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.go b/parser.go
index b4317c3..db05925 100644
--- a/parser.go
+++ b/parser.go
@@ -722,6 +722,11 @@ func (p *parser) getColNames(colNames []string) ([]string, error) {
 				return nil, fmt.Errorf("%s %s", p.gotFilePos(), err) // Default error.
 			}
 		}
+		for j := 0; j < i; j++ {
+			if colNames[j] == colNames[i] {
+				return nil, fmt.Errorf("%s col name %s appears more than once", p.gotFilePos(), colNames[i])
+			}
+		}
 	}
 
 	return colNames, nil
-- 
2.43.0


From cc7f1e6cecbc2fe270e03d962c79f1698f8694b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 23/48] fix: the parser refuses struct lines with data where
 the first had none, and text before the equals sign

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index db05925..048b770 100644
--- a/parser.go
+++ b/parser.go
@@ -373,6 +373,9 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 				if len(lineSplit) < 2 {
 					return nil, fmt.Errorf("#2 %s looks like struct but found: %s", p.gotFilePos(), line)
 				}
+				if !structHasRowData && len(lineSplit) > 2 {
+					return nil, fmt.Errorf("#6 %s looks like struct without data but found: %s", p.gotFilePos(), line)
+				}
 				var colName string = lineSplit[structNameIndex] // 0
 				var colType string = lineSplit[structTypeIndex] // 1
 
@@ -407,7 +410,7 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 						return nil, fmt.Errorf("%s expecting <name> <type> = <value> but found: %s", p.gotFilePos(), line)
 					}
 					// Just because the first line is isStructShape with data doesn't mean subsequent lines are.
-					if len(lineSplit) < 4 {
+					if len(lineSplit) < 4 || lineSplit[structEqualsIndex] != "=" {
 						return nil, fmt.Errorf("#5 %s looks like struct with data but found: %s", p.gotFilePos(), line)
 					}
 					var valueData string = line[rangeFound[1]:]        // Just after = equals sign.
-- 
2.43.0


From 735805a604c921d2252e8a11cb078e8b4cd8e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 24/48] fix: the parser refuses col names at the end of the
 text without col types

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 048b770..51be73d 100644
--- a/parser.go
+++ b/parser.go
@@ -525,6 +525,9 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 		}
 
 		if readError == io.EOF {
+			if expecting == _COL_TYPES {
+				return nil, fmt.Errorf("%s expecting row of col names to be followed by a row of col types", p.gotFilePos())
+			}
 			return tables, nil // It's not an error to reach EOF. It just means end of document.
 		}
 	}
-- 
2.43.0


From f7954dad67bc9d0a0a529afcf3dd04e8b5d0d95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 25/48] fix: JSON strings and runes are quoted as JSON, not as
 Go, and refused if not valid Unicode

---
 json.go | 63 +++++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 55 insertions(+), 8 deletions(-)

diff --git a/json.go b/json.go
index 376de3a..f088aba 100644
--- a/json.go
+++ b/json.go
@@ -12,6 +12,7 @@ import (
 	_ "strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 )
 
 type circRefMap map[*Table]struct{}
@@ -100,7 +101,11 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 	// Add this table to the circular reference map.
 	refMap[table] = EmptyStruct
 
-	buf.WriteString(fmt.Sprintf(`"tableName":%q,`, table.Name()))
+	quoted, err := quoteJSON(table.Name())
+	if err != nil {
+		return err
+	}
+	buf.WriteString(fmt.Sprintf(`"tableName":%s,`, quoted))
 
 	isStructShape, err := table.IsStructShape()
 	if err != nil {
@@ -113,9 +118,12 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 	buf.WriteString(`"metadata":[`)
 	for colIndex := 0; colIndex < len(table.colNames); colIndex++ {
 		buf.WriteByte(123) // Opening brace around heading element (name: type)
-		buf.WriteByte('"')
-		buf.WriteString(table.colNames[colIndex])
-		buf.WriteString(`":"`)
+		quoted, err = quoteJSON(table.colNames[colIndex])
+		if err != nil {
+			return err
+		}
+		buf.WriteString(quoted)
+		buf.WriteString(`:"`)
 		buf.WriteString(table.colTypes[colIndex])
 		buf.WriteByte('"')
 		buf.WriteByte(125) // Closing brace around heading element (name: type)
@@ -133,7 +141,12 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 		buf.WriteByte('[') // Begin array of column cells.
 		for colIndex := 0; colIndex < len(table.colNames); colIndex++ {
 			buf.WriteByte(123) // Opening brace
-			buf.WriteString(fmt.Sprintf("%q:", table.colNames[colIndex]))
+			quoted, err = quoteJSON(table.colNames[colIndex])
+			if err != nil {
+				return err
+			}
+			buf.WriteString(quoted)
+			buf.WriteByte(':')
 			var val interface{}
 			val, err = table.GetValByColIndex(colIndex, rowIndex)
 			if err != nil {
@@ -143,7 +156,11 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 			switch val.(type) {
 
 			case string:
-				buf.WriteString(fmt.Sprintf("%q", val.(string)))
+				quoted, err = quoteJSON(val.(string))
+				if err != nil {
+					return err
+				}
+				buf.WriteString(quoted)
 
 			case bool, int, uint, int8, int16, int64, uint8, uint16, uint32, uint64, float32, float64:
 				var valStr string
@@ -164,7 +181,15 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 				case "int32":
 					buf.WriteString(valStr)
 				case "rune":
-					buf.WriteString(fmt.Sprintf("%q", valStr))
+					if !utf8.ValidRune(val.(int32)) {
+						return fmt.Errorf("%s: table [%s] col %s row %d: JSON cannot represent rune (not a valid code point): %d",
+							UtilFuncName(), table.Name(), table.colNames[colIndex], rowIndex, val.(int32))
+					}
+					quoted, err = quoteJSON(string(val.(int32)))
+					if err != nil {
+						return err
+					}
+					buf.WriteString(quoted)
 				default:
 					msg := invalidColTypeMsg(table.Name(), fmt.Sprintf("%s: %s", UtilFuncName(), table.colTypes[colIndex]))
 					buf.WriteString(msg)
@@ -241,6 +266,24 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 	return
 }
 
+// Quote a string as JSON does, which differs from the way Go does for some control characters.
+// JSON is Unicode text: it has no way to represent a string which is not valid UTF-8.
+func quoteJSON(s string) (quoted string, err error) {
+	if !utf8.ValidString(s) {
+		return "", fmt.Errorf("%s %s: JSON cannot represent string (not valid UTF-8): %q", UtilFuncSource(), UtilFuncName(), s)
+	}
+
+	var buf bytes.Buffer
+	var encoder *json.Encoder = json.NewEncoder(&buf)
+	encoder.SetEscapeHTML(false)
+	err = encoder.Encode(s)
+	if err != nil {
+		return "", err
+	}
+
+	return strings.TrimSuffix(buf.String(), "\n"), nil
+}
+
 func (table *Table) GetTableAsJSONIndent() (jsonStringIndented string, err error) {
 	//where(fmt.Sprintf("***INSIDE*** %s", UtilFuncName()))
 
@@ -531,7 +574,11 @@ func (tableSet *TableSet) GetTableSetAsJSON() (jsonTableSetString string, err er
 	var buf bytes.Buffer
 
 	buf.WriteByte(123) // Opening brace outermost
-	buf.WriteString(fmt.Sprintf(`"tableSetName":%q,`, tableSet.Name()))
+	quoted, err := quoteJSON(tableSet.Name())
+	if err != nil {
+		return "", err
+	}
+	buf.WriteString(fmt.Sprintf(`"tableSetName":%s,`, quoted))
 	buf.WriteString(`"tables":[`) // Opening array of tables
 
 	var tableCount int = tableSet.TableCount()
-- 
2.43.0


From 8408f9a877e5a77c60bad58716e1f312e4b91836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:23 +0000
Subject: [PATCH 26/48] fix: JSON encoding reports values it cannot represent

---
 json.go | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/json.go b/json.go
index f088aba..997ed92 100644
--- a/json.go
+++ b/json.go
@@ -5,7 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
-	_ "math"
+	"math"
 	_ "os"
 	"reflect"
 	"regexp"
@@ -163,6 +163,17 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 				buf.WriteString(quoted)
 
 			case bool, int, uint, int8, int16, int64, uint8, uint16, uint32, uint64, float32, float64:
+				var float64Val float64
+				switch val.(type) {
+				case float32:
+					float64Val = float64(val.(float32))
+				case float64:
+					float64Val = val.(float64)
+				}
+				if math.IsNaN(float64Val) || math.IsInf(float64Val, 0) {
+					return fmt.Errorf("%s: table [%s] col %s row %d: JSON cannot represent number: %v",
+						UtilFuncName(), table.Name(), table.colNames[colIndex], rowIndex, val)
+				}
 				var valStr string
 				valStr, err = table.GetValAsStringByColIndex(colIndex, rowIndex)
 				if err != nil {
@@ -192,7 +203,7 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 					buf.WriteString(quoted)
 				default:
 					msg := invalidColTypeMsg(table.Name(), fmt.Sprintf("%s: %s", UtilFuncName(), table.colTypes[colIndex]))
-					buf.WriteString(msg)
+					return fmt.Errorf("%s", msg)
 				}
 
 			case []byte:
@@ -237,6 +248,10 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 
 			case time.Time:
 				var timeVal time.Time = val.(time.Time)
+				if !isTimeRFC3339(timeVal) {
+					return fmt.Errorf("%s: table [%s] col %s row %d: JSON cannot represent time as RFC 3339: %v",
+						UtilFuncName(), table.Name(), table.colNames[colIndex], rowIndex, timeVal)
+				}
 				if timeVal.Nanosecond() > 0 {
 					buf.WriteByte('"')
 					buf.WriteString(timeVal.Format(time.RFC3339Nano))
@@ -248,7 +263,8 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 				}
 
 			default:
-				buf.WriteString(`"TYPE UNKNOWN"`)
+				return fmt.Errorf("%s: table [%s] col %s row %d: unexpected value of type: %T",
+					UtilFuncName(), table.Name(), table.colNames[colIndex], rowIndex, val)
 			}
 
 			buf.WriteByte(125) // Closing brace
@@ -284,6 +300,18 @@ func quoteJSON(s string) (quoted string, err error) {
 	return strings.TrimSuffix(buf.String(), "\n"), nil
 }
 
+// Can this time be formatted as RFC 3339 and parsed back to the same instant and the same offset from UTC?
+// RFC 3339 is limited to 4-digit years and whole-minute offsets.
+func isTimeRFC3339(timeVal time.Time) bool {
+	parsed, err := time.Parse(time.RFC3339Nano, timeVal.Format(time.RFC3339Nano))
+	if err != nil {
+		return false
+	}
+	_, offset := timeVal.Zone()
+	_, parsedOffset := parsed.Zone()
+	return parsed.Equal(timeVal) && parsedOffset == offset
+}
+
 func (table *Table) GetTableAsJSONIndent() (jsonStringIndented string, err error) {
 	//where(fmt.Sprintf("***INSIDE*** %s", UtilFuncName()))
 
-- 
2.43.0


From fd9c242c8b0c57c7594ea853c41d892617051e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 27/48] fix: JSON numbers are decoded exactly or refused

---
 json.go | 128 +++++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 99 insertions(+), 29 deletions(-)

diff --git a/json.go b/json.go
index 997ed92..4490992 100644
--- a/json.go
+++ b/json.go
@@ -9,7 +9,7 @@ import (
 	_ "os"
 	"reflect"
 	"regexp"
-	_ "strconv"
+	"strconv"
 	"strings"
 	"time"
 	"unicode/utf8"
@@ -340,6 +340,34 @@ func checkJsonDecodeError(checkErr error) (err error) {
 	return nil
 }
 
+// All integers up to this one can be represented exactly by a float64
+const maxExactFloat64 = 1 << 53
+
+// Convert a JSON number to an integer of this many bits, exactly or not at all.
+// JSON does not distinguish 1 from 1.0 or 1e0
+func jsonNumberToInt64(number json.Number, bitSize int) (int64Val int64, err error) {
+	int64Val, err = strconv.ParseInt(number.String(), 10, bitSize)
+	if err != nil && strings.ContainsAny(number.String(), ".eE") {
+		float64Val, floatErr := strconv.ParseFloat(number.String(), 64)
+		if floatErr == nil && float64Val == math.Trunc(float64Val) && math.Abs(float64Val) <= maxExactFloat64 {
+			int64Val, err = strconv.ParseInt(strconv.FormatFloat(float64Val, 'f', 0, 64), 10, bitSize)
+		}
+	}
+	return
+}
+
+// Convert a JSON number to an unsigned integer of this many bits, exactly or not at all.
+func jsonNumberToUint64(number json.Number, bitSize int) (uint64Val uint64, err error) {
+	uint64Val, err = strconv.ParseUint(number.String(), 10, bitSize)
+	if err != nil && strings.ContainsAny(number.String(), ".eE") {
+		float64Val, floatErr := strconv.ParseFloat(number.String(), 64)
+		if floatErr == nil && float64Val == math.Trunc(float64Val) && math.Abs(float64Val) <= maxExactFloat64 {
+			uint64Val, err = strconv.ParseUint(strconv.FormatFloat(float64Val, 'f', 0, 64), 10, bitSize)
+		}
+	}
+	return
+}
+
 func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, err error) {
 	//where(fmt.Sprintf("***INSIDE*** %s", UtilFuncName()))
 
@@ -465,47 +493,85 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 
 				// Deal with conversions to larger ints: int64 uint64
 				case json.Number: // We set to json.Number with: decoder.UseNumber()
+					var number json.Number = cell.(json.Number)
+					var int64Val int64
+					var uint64Val uint64
 					var float64Val float64
-					float64Val, err = cell.(json.Number).Float64()
-					if err != nil {
-						err := fmt.Errorf("could not convert json.Number to float64")
-						return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
-					}
 
+					// Convert exactly: not every int64 or uint64 survives a detour via float64.
 					switch colType { // We need to convert them back to gotables numeric types
 					case "int64":
-						err = table.SetInt64ByColIndex(colIndex, rowIndex, int64(float64Val))
-					case "uint64":
-						err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64(float64Val))
-					case "float32":
-						err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(float64Val))
-					case "float64":
-						err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64Val)
+						int64Val, err = jsonNumberToInt64(number, 64)
+						if err == nil {
+							err = table.SetInt64ByColIndex(colIndex, rowIndex, int64Val)
+						}
 					case "int":
-						err = table.SetIntByColIndex(colIndex, rowIndex, int(float64Val))
-					case "uint":
-						err = table.SetUintByColIndex(colIndex, rowIndex, uint(float64Val))
-					case "byte":
-						err = table.SetByteByColIndex(colIndex, rowIndex, byte(float64Val))
+						int64Val, err = jsonNumberToInt64(number, strconv.IntSize)
+						if err == nil {
+							err = table.SetIntByColIndex(colIndex, rowIndex, int(int64Val))
+						}
 					case "int8":
-						err = table.SetInt8ByColIndex(colIndex, rowIndex, int8(float64Val))
+						int64Val, err = jsonNumberToInt64(number, 8)
+						if err == nil {
+							err = table.SetInt8ByColIndex(colIndex, rowIndex, int8(int64Val))
+						}
 					case "int16":
-						err = table.SetInt16ByColIndex(colIndex, rowIndex, int16(float64Val))
+						int64Val, err = jsonNumberToInt64(number, 16)
+						if err == nil {
+							err = table.SetInt16ByColIndex(colIndex, rowIndex, int16(int64Val))
+						}
 					case "int32":
-						err = table.SetInt32ByColIndex(colIndex, rowIndex, int32(float64Val))
+						int64Val, err = jsonNumberToInt64(number, 32)
+						if err == nil {
+							err = table.SetInt32ByColIndex(colIndex, rowIndex, int32(int64Val))
+						}
+					case "uint64":
+						uint64Val, err = jsonNumberToUint64(number, 64)
+						if err == nil {
+							err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64Val)
+						}
+					case "uint":
+						uint64Val, err = jsonNumberToUint64(number, strconv.IntSize)
+						if err == nil {
+							err = table.SetUintByColIndex(colIndex, rowIndex, uint(uint64Val))
+						}
+					case "byte":
+						uint64Val, err = jsonNumberToUint64(number, 8)
+						if err == nil {
+							err = table.SetByteByColIndex(colIndex, rowIndex, byte(uint64Val))
+						}
 					case "uint8":
-						err = table.SetUint8ByColIndex(colIndex, rowIndex, uint8(float64Val))
+						uint64Val, err = jsonNumberToUint64(number, 8)
+						if err == nil {
+							err = table.SetUint8ByColIndex(colIndex, rowIndex, uint8(uint64Val))
+						}
 					case "uint16":
-						err = table.SetUint16ByColIndex(colIndex, rowIndex, uint16(float64Val))
+						uint64Val, err = jsonNumberToUint64(number, 16)
+						if err == nil {
+							err = table.SetUint16ByColIndex(colIndex, rowIndex, uint16(uint64Val))
+						}
 					case "uint32":
-						err = table.SetUint32ByColIndex(colIndex, rowIndex, uint32(float64Val))
+						uint64Val, err = jsonNumberToUint64(number, 32)
+						if err == nil {
+							err = table.SetUint32ByColIndex(colIndex, rowIndex, uint32(uint64Val))
+						}
+					case "float32":
+						float64Val, err = strconv.ParseFloat(number.String(), 32)
+						if err == nil {
+							err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(float64Val))
+						}
+					case "float64":
+						float64Val, err = strconv.ParseFloat(number.String(), 64)
+						if err == nil {
+							err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64Val)
+						}
 					default:
 						return nil, fmt.Errorf("%s %s: unexpected value of type: %s",
 							UtilFuncSource(), UtilFuncName(), colType)
 					}
 					// Single error handler for all the calls in this switch statement.
 					if err != nil {
-						err := fmt.Errorf("could not convert JSON float64 to gotables %s", colType)
+						err := fmt.Errorf("could not convert JSON number %s to gotables %s", number, colType)
 						return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
 					}
 				case bool:
@@ -514,14 +580,18 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 				case []interface{}: // This cell is a slice (probably either byte or uint8)
 					var interfaceSlice []interface{} = cell.([]interface{})
 					var byteSlice []byte = []byte{} // Ready to append to.
-					var float64Val float64
 					for _, sliceVal := range interfaceSlice {
-						float64Val, err = sliceVal.(json.Number).Float64()
+						number, ok := sliceVal.(json.Number)
+						if !ok {
+							return nil, fmt.Errorf("%s %s: expecting a JSON number in a byte slice but got type %T: %v",
+								UtilFuncSource(), UtilFuncName(), sliceVal, sliceVal)
+						}
+						uint64Val, err := jsonNumberToUint64(number, 8)
 						if err != nil {
-							err := fmt.Errorf("could not convert json.Number to float64")
+							err := fmt.Errorf("could not convert JSON number %s to byte", number)
 							return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
 						}
-						byteSlice = append(byteSlice, byte(float64Val))
+						byteSlice = append(byteSlice, byte(uint64Val))
 					}
 					err = table.SetByteSliceByColIndex(colIndex, rowIndex, byteSlice)
 					if err != nil {
-- 
2.43.0


From 1250e2957eccef6dfeafde323f0b3d510b0ad7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 28/48] fix: YAML integers are decoded in float64 columns, and
 refused where they do not fit

---
 yaml.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/yaml.go b/yaml.go
index b222943..cf522fd 100644
--- a/yaml.go
+++ b/yaml.go
@@ -202,43 +202,56 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 				err = table.SetUintByColIndex(colIndex, rowIndex, row[colIndex].(uint))
 			case int:
 				var intVal = row[colIndex].(int)
+				var fits bool = true // Does this number fit in a column of this type?
 				switch table.colTypes[colIndex] {
 				case "int":
-					err = table.SetIntByColIndex(colIndex, rowIndex, row[colIndex].(int))
+					err = table.SetIntByColIndex(colIndex, rowIndex, intVal)
 				case "uint":
-					var intVal int = row[colIndex].(int)
-					var uintVal uint = uint(intVal)
-					err = table.SetUintByColIndex(colIndex, rowIndex, uintVal)
+					fits = intVal >= 0
+					err = table.SetUintByColIndex(colIndex, rowIndex, uint(intVal))
 				case "int8":
+					fits = int(int8(intVal)) == intVal
 					err = table.SetInt8ByColIndex(colIndex, rowIndex, int8(intVal))
 				case "int16":
+					fits = int(int16(intVal)) == intVal
 					err = table.SetInt16ByColIndex(colIndex, rowIndex, int16(intVal))
 				case "int32":
+					fits = int(int32(intVal)) == intVal
 					err = table.SetInt32ByColIndex(colIndex, rowIndex, int32(intVal))
 				case "int64":
 					err = table.SetInt64ByColIndex(colIndex, rowIndex, int64(intVal))
 				case "uint8":
+					fits = int(uint8(intVal)) == intVal
 					err = table.SetUint8ByColIndex(colIndex, rowIndex, uint8(intVal))
 				case "byte":
-					err = table.SetByteByColIndex(colIndex, rowIndex, uint8(intVal))
+					fits = int(byte(intVal)) == intVal
+					err = table.SetByteByColIndex(colIndex, rowIndex, byte(intVal))
 				case "uint16":
+					fits = int(uint16(intVal)) == intVal
 					err = table.SetUint16ByColIndex(colIndex, rowIndex, uint16(intVal))
 				case "uint32":
+					fits = intVal >= 0 && int64(uint32(intVal)) == int64(intVal)
 					err = table.SetUint32ByColIndex(colIndex, rowIndex, uint32(intVal))
 				case "uint64":
+					fits = intVal >= 0
 					err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64(intVal))
-				case "float32":
-					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(intVal))
-				case "time.Time":
-					err = table.SetTimeByColIndex(colIndex, rowIndex, row[colIndex].(time.Time))
 				case "rune":
+					fits = int(rune(intVal)) == intVal
 					err = table.SetRuneByColIndex(colIndex, rowIndex, rune(intVal))
+				case "float32":
+					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(intVal))
+				case "float64":
+					err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64(intVal))
 				default:
 					msg := invalidColTypeMsg(table.Name(), table.colTypes[colIndex])
 					err = fmt.Errorf("%s %s: %s", UtilFuncSource(), UtilFuncName(), msg)
 					table = nil
 					return
 				}
+				if err == nil && !fits {
+					err = fmt.Errorf("%s %s: table [%s] col %s row %d: number %d does not fit in type %s",
+						UtilFuncSource(), UtilFuncName(), table.Name(), table.colNames[colIndex], rowIndex, intVal, table.colTypes[colIndex])
+				}
 				// Error handler for all cases.
 				if err != nil {
 					table = nil
-- 
2.43.0


From e2dadee2c094fae08d1a122fd0afe19a86b40406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 29/48] fix: YAML strings, numbers and times which yaml.v3
 reads back differently are written exactly or refused

---
 yaml.go | 94 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 93 insertions(+), 1 deletion(-)

diff --git a/yaml.go b/yaml.go
index cf522fd..57fe508 100644
--- a/yaml.go
+++ b/yaml.go
@@ -3,9 +3,13 @@ package gotables
 import (
 	_ "encoding/json"
 	"fmt"
+	"math"
 	_ "os"
+	"strconv"
 	_ "strings"
 	"time"
+	"unicode"
+	"unicode/utf8"
 
 	yaml "gopkg.in/yaml.v3"
 )
@@ -393,8 +397,14 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 		return "", err
 	}
 
+	var yamlVal interface{}
+	yamlVal, err = exactYAML(yamlMap)
+	if err != nil {
+		return "", err
+	}
+
 	var yamlBytes []byte
-	yamlBytes, err = yaml.Marshal(yamlMap)
+	yamlBytes, err = yaml.Marshal(yamlVal)
 	if err != nil {
 		return "", err
 	}
@@ -404,6 +414,88 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 	return
 }
 
+/*
+	Replace the few values which yaml.Marshal() writes such that yaml.Unmarshal() reads back something else.
+
+	Return an error if there is a value which cannot be represented in YAML.
+*/
+func exactYAML(anyVal interface{}) (yamlVal interface{}, err error) {
+	switch val := anyVal.(type) {
+
+	case map[string]interface{}:
+		var exact = make(map[string]interface{}, len(val))
+		for key, element := range val {
+			exact[key], err = exactYAML(element)
+			if err != nil {
+				return nil, err
+			}
+		}
+		return exact, nil
+
+	case []map[string]interface{}:
+		var exact = make([]interface{}, len(val))
+		for i, element := range val {
+			exact[i], err = exactYAML(element)
+			if err != nil {
+				return nil, err
+			}
+		}
+		return exact, nil
+
+	case [][]interface{}:
+		var exact = make([]interface{}, len(val))
+		for i, element := range val {
+			exact[i], err = exactYAML(element)
+			if err != nil {
+				return nil, err
+			}
+		}
+		return exact, nil
+
+	case []interface{}:
+		var exact = make([]interface{}, len(val))
+		for i, element := range val {
+			exact[i], err = exactYAML(element)
+			if err != nil {
+				return nil, err
+			}
+		}
+		return exact, nil
+
+	case string:
+		// In block style not all leading line breaks and white space survive, but double quoted they do.
+		// (A string which is not valid UTF-8 is written as !!binary)
+		for _, runeVal := range val {
+			if !unicode.IsPrint(runeVal) && utf8.ValidString(val) {
+				return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: val, Style: yaml.DoubleQuotedStyle}, nil
+			}
+		}
+
+	case float32:
+		// The shortest decimal of a float32 is read back via float64, where (rarely) it rounds differently.
+		float64Val, parseErr := strconv.ParseFloat(strconv.FormatFloat(float64(val), 'g', -1, 32), 64)
+		if parseErr == nil && float32(float64Val) != val && val == val {
+			return float64(val), nil
+		}
+		if val == 0 && math.Signbit(float64(val)) {
+			return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!float", Value: "-0.0"}, nil
+		}
+
+	case float64:
+		if val == 0 && math.Signbit(val) {
+			// A simple -0 would be read back as an integer, which has no negative zero.
+			return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!float", Value: "-0.0"}, nil
+		}
+
+	case time.Time:
+		if !isTimeRFC3339(val) {
+			return nil, fmt.Errorf("%s %s: YAML cannot represent time as RFC 3339: %v", UtilFuncSource(), UtilFuncName(), val)
+		}
+	}
+
+	return anyVal, nil
+}
+
 func (tableSet *TableSet) GetTableSetAsMap() (yamlMap map[string]interface{}, err error) {
 
 	if tableSet == nil {
-- 
2.43.0


From d3ddbadc59bd26adf2e8d716578abfa5a77ee835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 30/48] fix: gob carries sort keys instead of panicking

---
 gob.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/gob.go b/gob.go
index 52a5ffe..572f097 100644
--- a/gob.go
+++ b/gob.go
@@ -68,7 +68,7 @@ func (table *Table) exportTable() (*TableExported, error) {
 		return nil, err
 	}
 
-	tableExported.SortKeys = []SortKeyExported{}
+	tableExported.SortKeys = make([]SortKeyExported, len(table.sortKeys))
 	for keyIndex, _ := range table.sortKeys {
 		tableExported.SortKeys[keyIndex] = SortKeyExported{}
 		tableExported.SortKeys[keyIndex].ColName = table.sortKeys[keyIndex].colName
@@ -131,13 +131,14 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 		return nil, err
 	}
 
-	table.sortKeys = []sortKey{}
-	for keyIndex, _ := range table.sortKeys {
-		table.sortKeys[keyIndex] = sortKey{}
-		table.sortKeys[keyIndex].colName = tableExported.SortKeys[keyIndex].ColName
-		table.sortKeys[keyIndex].colType = tableExported.SortKeys[keyIndex].ColType
+	// GOB does not encode functions, so SortFunc (and ColType) come from the table's own cols.
+	table.sortKeys = newSortKeys()
+	for keyIndex, _ := range tableExported.SortKeys {
+		err = table.AppendSortKey(tableExported.SortKeys[keyIndex].ColName)
+		if err != nil {
+			return nil, err
+		}
 		table.sortKeys[keyIndex].reverse = tableExported.SortKeys[keyIndex].Reverse
-		table.sortKeys[keyIndex].sortFunc = tableExported.SortKeys[keyIndex].SortFunc
 	}
 
 	table.isStructShape = tableExported.StructShape
-- 
2.43.0


From 35cdf3c38eed9285b85133b3bfe63680967fe034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 31/48] fix: a nil table in a table set survives JSON

---
 json.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/json.go b/json.go
index 4490992..127d60c 100644
--- a/json.go
+++ b/json.go
@@ -73,6 +73,14 @@ func (table *Table) getTableAsJSON_private() (jsonString string, err error) {
 		return "", fmt.Errorf("%s table.%s: table is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
+	isNilTable, err := table.IsNilTable()
+	if err != nil {
+		return "", err
+	}
+	if isNilTable {
+		return "null", nil // As with a nested nil table.
+	}
+
 	var refMap circRefMap = map[*Table]struct{}{}
 	var buf bytes.Buffer
 
@@ -760,12 +768,16 @@ func NewTableSetFromJSON(jsonTableSetString string) (tableSet *TableSet, err err
 	// (3) Loop through the array of tables.
 	for _, tableMapInterface = range tablesMap {
 
-		tableMap = tableMapInterface.(map[string]interface{})
-
 		var table *Table
-		table, err = newTableFromJSON_recursive(tableMap)
-		if err != nil {
-			return nil, err
+		if tableMapInterface == nil {
+			table = NewNilTable()
+		} else {
+			tableMap = tableMapInterface.(map[string]interface{})
+
+			table, err = newTableFromJSON_recursive(tableMap)
+			if err != nil {
+				return nil, err
+			}
 		}
 
 		err = tableSet.Append(table)
-- 
2.43.0


From be823b7b9fe88180a0e6eaf5ba10d4b3349cba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 32/48] fix: the JSON decoder refuses malformed tables instead
 of panicking

---
 json.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/json.go b/json.go
index 127d60c..f286c60 100644
--- a/json.go
+++ b/json.go
@@ -422,7 +422,12 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 		var colName string
 		var colType string
 		var val interface{}
-		for colName, val = range colNameAndType.(map[string]interface{}) {
+		colMap, isMap := colNameAndType.(map[string]interface{})
+		if !isMap || len(colMap) != 1 {
+			return nil, fmt.Errorf("%s %s: table [%s] expecting metadata to be a list of {col name: col type} but found: %v",
+				UtilFuncSource(), UtilFuncName(), tableName, colNameAndType)
+		}
+		for colName, val = range colMap {
 			// There's only one map element here: colName and colType.
 		}
 		var ok bool
@@ -453,11 +458,20 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 			return nil, err
 		}
 
-		var row []interface{} = val.([]interface{})
+		row, isSlice := val.([]interface{})
+		if !isSlice || len(row) > len(table.colNames) {
+			return nil, fmt.Errorf("%s %s: table [%s] row %d: expecting a list of %d cells but found: %v",
+				UtilFuncSource(), UtilFuncName(), tableName, rowIndex, len(table.colNames), val)
+		}
 		for colIndex, val := range row {
 			// where(fmt.Sprintf("\t\tcol [%d] %v", colIndex, val))
+			cellMap, isMap := val.(map[string]interface{})
+			if !isMap || len(cellMap) != 1 {
+				return nil, fmt.Errorf("%s %s: table [%s] row %d col %d: expecting {col name: value} but found: %v",
+					UtilFuncSource(), UtilFuncName(), tableName, rowIndex, colIndex, val)
+			}
 			var cell interface{}
-			for _, cell = range val.(map[string]interface{}) {
+			for _, cell = range cellMap {
 				// There's only one map element here: colName and colType.
 				// where(fmt.Sprintf("\t\t\tcol=%d row=%d celltype=%T cell=%v", colIndex, rowIndex, cell, cell))
 
@@ -468,6 +482,10 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 					case "rune":
 						var stringVal = cell.(string)
 						var runeSlice []rune = []rune(stringVal)
+						if len(runeSlice) != 1 {
+							return nil, fmt.Errorf("%s %s: expecting a rune to be a JSON string of 1 character but found: %q",
+								UtilFuncSource(), UtilFuncName(), stringVal)
+						}
 						var runeVal rune = runeSlice[0]
 						err = table.SetRuneByColIndex(colIndex, rowIndex, runeVal)
 					case "time.Time":
@@ -772,7 +790,11 @@ func NewTableSetFromJSON(jsonTableSetString string) (tableSet *TableSet, err err
 		if tableMapInterface == nil {
 			table = NewNilTable()
 		} else {
-			tableMap = tableMapInterface.(map[string]interface{})
+			tableMap, exists = tableMapInterface.(map[string]interface{})
+			if !exists {
+				return nil, fmt.Errorf("%s: JSON expecting a table but got type %T: %v",
+					UtilFuncName(), tableMapInterface, tableMapInterface)
+			}
 
 			table, err = newTableFromJSON_recursive(tableMap)
 			if err != nil {
-- 
2.43.0


From 3ba26b47e566a75370b3086ff6e2573ee4a3d7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 33/48] fix: the YAML decoder refuses malformed tables instead
 of panicking

---
 yaml.go | 116 +++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 93 insertions(+), 23 deletions(-)

diff --git a/yaml.go b/yaml.go
index 57fe508..ca5ac55 100644
--- a/yaml.go
+++ b/yaml.go
@@ -60,28 +60,33 @@ func NewTableSetFromYAML(yamlTableSetString string) (tableSet *TableSet, err err
 	var tablesMap []interface{}
 	var anyVal interface{}
 	anyVal, exists = tableSetMap["tables"]
-	tablesMap = anyVal.([]interface{})
-
 	if !exists {
 		return nil, fmt.Errorf("%s %s: in YAML doc: 'tables' is missing", UtilFuncSource(), UtilFuncName())
 	}
+	tablesMap, exists = anyVal.([]interface{})
+	if !exists {
+		return nil, fmt.Errorf("%s %s: in YAML doc: 'tables' is not a list of tables but type %T", UtilFuncSource(), UtilFuncName(), anyVal)
+	}
 
 	var tableMap map[string]interface{}
 
 	// (3) Loop through the array of tables.
 	for _, anyVal = range tablesMap {
 
-		tableMap = anyVal.(map[string]interface{})
+		tableMap, exists = anyVal.(map[string]interface{})
+		if !exists {
+			return nil, fmt.Errorf("%s %s: in YAML doc: expecting a table but found type %T", UtilFuncSource(), UtilFuncName(), anyVal)
+		}
 
 		var table *Table
 		table, err = newTableFromYAML_recursive(tableMap)
 		if err != nil {
-			return
+			return nil, err
 		}
 
 		err = tableSet.Append(table)
 		if err != nil {
-			return
+			return nil, err
 		}
 	}
 
@@ -140,7 +145,14 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 		var colName string
 		var colType string
 		var typeVal interface{}
-		for colName, typeVal = range colNameAndType.(map[string]interface{}) {
+		colMap, isMap := colNameAndType.(map[string]interface{})
+		if !isMap || len(colMap) != 1 {
+			err = fmt.Errorf("%s %s: table [%s] expecting metadata to be a list of 'colName: colType' but found: %v",
+				UtilFuncSource(), UtilFuncName(), tableName, colNameAndType)
+			table = nil
+			return
+		}
+		for colName, typeVal = range colMap {
 			// There's only one map element here: colName and colType.
 		}
 		colType, ok := typeVal.(string)
@@ -177,7 +189,14 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 		dataMapSlice = whatever.([]interface{})
 		data = make([][]interface{}, len(dataMapSlice))
 		for i, el1 := range dataMapSlice {
-			for _, el2 := range el1.([]interface{}) {
+			rowSlice, isSlice := el1.([]interface{})
+			if !isSlice {
+				err = fmt.Errorf("%s %s: table [%s] row %d: expecting a list of cells but found: %v",
+					UtilFuncSource(), UtilFuncName(), tableName, i, el1)
+				table = nil
+				return
+			}
+			for _, el2 := range rowSlice {
 				data[i] = append(data[i], el2)
 			}
 		}
@@ -200,6 +219,12 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 			return
 		}
 		row = data[rowIndex]
+		if len(row) > len(table.colNames) {
+			err = fmt.Errorf("%s %s: table [%s] row %d: expecting a list of %d cells but found %d",
+				UtilFuncSource(), UtilFuncName(), tableName, rowIndex, len(table.colNames), len(row))
+			table = nil
+			return
+		}
 		for colIndex := 0; colIndex < len(row); colIndex++ {
 			switch row[colIndex].(type) {
 			case uint:
@@ -291,39 +316,79 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 			case time.Time:
 				err = table.SetTimeByColIndex(colIndex, rowIndex, row[colIndex].(time.Time))
 			case interface{}:
+				var ok bool = true // Is this value of the type of its column?
 				switch table.colTypes[colIndex] {
 				case "byte":
-					err = table.SetByteByColIndex(colIndex, rowIndex, row[colIndex].(byte))
+					var byteVal byte
+					if byteVal, ok = row[colIndex].(byte); ok {
+						err = table.SetByteByColIndex(colIndex, rowIndex, byteVal)
+					}
 
 				case "uint":
-					var uint64Val uint64 = row[colIndex].(uint64)
-					err = table.SetUintByColIndex(colIndex, rowIndex, uint(uint64Val))
+					var uint64Val uint64
+					if uint64Val, ok = row[colIndex].(uint64); ok && uint64(uint(uint64Val)) == uint64Val {
+						err = table.SetUintByColIndex(colIndex, rowIndex, uint(uint64Val))
+					} else {
+						ok = false
+					}
 
 				case "uint16":
-					err = table.SetUint16ByColIndex(colIndex, rowIndex, row[colIndex].(uint16))
+					var uint16Val uint16
+					if uint16Val, ok = row[colIndex].(uint16); ok {
+						err = table.SetUint16ByColIndex(colIndex, rowIndex, uint16Val)
+					}
 
 				case "uint32":
-					err = table.SetUint32ByColIndex(colIndex, rowIndex, row[colIndex].(uint32))
+					var uint32Val uint32
+					if uint32Val, ok = row[colIndex].(uint32); ok {
+						err = table.SetUint32ByColIndex(colIndex, rowIndex, uint32Val)
+					}
 
 				case "uint64":
-					err = table.SetUint64ByColIndex(colIndex, rowIndex, row[colIndex].(uint64))
+					var uint64Val uint64
+					if uint64Val, ok = row[colIndex].(uint64); ok {
+						err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64Val)
+					}
 
 				case "int8":
-					err = table.SetInt8ByColIndex(colIndex, rowIndex, row[colIndex].(int8))
+					var int8Val int8
+					if int8Val, ok = row[colIndex].(int8); ok {
+						err = table.SetInt8ByColIndex(colIndex, rowIndex, int8Val)
+					}
 
 				case "int16":
-					err = table.SetInt16ByColIndex(colIndex, rowIndex, row[colIndex].(int16))
+					var int16Val int16
+					if int16Val, ok = row[colIndex].(int16); ok {
+						err = table.SetInt16ByColIndex(colIndex, rowIndex, int16Val)
+					}
 
 				case "int64":
-					err = table.SetInt64ByColIndex(colIndex, rowIndex, row[colIndex].(int64))
+					var int64Val int64
+					if int64Val, ok = row[colIndex].(int64); ok {
+						err = table.SetInt64ByColIndex(colIndex, rowIndex, int64Val)
+					}
+
+				case "float32", "float64":
+					var uint64Val uint64 // An integer too big for int64
+					if uint64Val, ok = row[colIndex].(uint64); ok {
+						if table.colTypes[colIndex] == "float32" {
+							err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(uint64Val))
+						} else {
+							err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64(uint64Val))
+						}
+					}
 
 				case "*Table":
-					var tableOut *Table
-					tableOut, err = newTableFromYAML_recursive(row[colIndex].(map[string]interface{}))
-					if err != nil {
-						return
+					var mapVal map[string]interface{}
+					if mapVal, ok = row[colIndex].(map[string]interface{}); ok {
+						var tableOut *Table
+						tableOut, err = newTableFromYAML_recursive(mapVal)
+						if err != nil {
+							table = nil
+							return
+						}
+						err = table.SetTableByColIndex(colIndex, rowIndex, tableOut)
 					}
-					err = table.SetTableByColIndex(colIndex, rowIndex, tableOut)
 
 				case "[]byte", "[]uint8":
 					var sliceVal []interface{}
@@ -336,11 +401,12 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 						sliceVal = row[colIndex].([]interface{})
 						byteSliceVal = make([]byte, len(sliceVal))
 						for i := 0; i < len(sliceVal); i++ {
-							var intVal int = sliceVal[i].(int)
+							intVal, isInt := sliceVal[i].(int)
+							ok = ok && isInt && int(byte(intVal)) == intVal
 							byteSliceVal[i] = byte(intVal)
 						}
-					case interface{}:
 					default:
+						ok = false
 					}
 					switch table.colTypes[colIndex] {
 					case "[]byte":
@@ -360,6 +426,10 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 					table = nil
 					return
 				}
+				if !ok {
+					err = fmt.Errorf("%s %s: table [%s] col %s row %d: unexpected value of type %T in a col of type %s",
+						UtilFuncSource(), UtilFuncName(), tableName, table.colNames[colIndex], rowIndex, row[colIndex], table.colTypes[colIndex])
+				}
 				// #1 Error handler for all cases.
 				if err != nil {
 					table = nil
-- 
2.43.0


From 901e2f5e741bbe6dae73cc3efb8511c83ea39b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 34/48] fix: the gob decoder refuses inconsistent tables
 instead of panicking or returning them

---
 gob.go      | 56 +++++++++++++++++++++++++++++------------------------
 gotables.go |  2 +-
 2 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/gob.go b/gob.go
index 572f097..ba6ac74 100644
--- a/gob.go
+++ b/gob.go
@@ -88,7 +88,6 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 		return nil, fmt.Errorf("table.%s() table is <nil>", UtilFuncName())
 	}
 	var err error
-	var elementCount int
 	var table *Table
 
 	var tableName string = tableExported.TableName
@@ -100,35 +99,38 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 
 	var colCount int = len(tableExported.ColNames)
 
-	table.colNames = make([]string, colCount)
-	elementCount = copy(table.colNames, tableExported.ColNames)
-	if elementCount != colCount {
-		err = fmt.Errorf("importTable() [%s] expecting to import %d col names but imported: %d",
-			tableName, colCount, elementCount)
-		return nil, err
-	}
-
-	table.colTypes = make([]string, colCount)
-	elementCount = copy(table.colTypes, tableExported.ColTypes)
-	if elementCount != colCount {
-		err = fmt.Errorf("importTable() [%s] expecting to import %d col types but imported: %d",
-			tableName, colCount, elementCount)
+	if len(tableExported.ColTypes) != colCount {
+		err = fmt.Errorf("importTable() [%s] with %d col names expecting %d col types but found: %d",
+			tableName, colCount, colCount, len(tableExported.ColTypes))
 		return nil, err
 	}
 
-	table.colNamesMap = map[string]int{}
-	for key, val := range tableExported.ColNamesMap {
-		table.colNamesMap[key] = val
+	// This also reconstructs the lookup map of col names. (We don't rely on the decoded map.)
+	for colIndex := 0; colIndex < colCount; colIndex++ {
+		err = table.AppendCol(tableExported.ColNames[colIndex], tableExported.ColTypes[colIndex])
+		if err != nil {
+			return nil, err
+		}
 	}
 
-	var rowCount int = len(tableExported.Rows)
-
-	table.rows = make([]tableRow, rowCount)
-	elementCount = copy(table.rows, tableExported.Rows)
-	if elementCount != rowCount {
-		err = fmt.Errorf("importTable() [%s] expecting to import %d rows but imported: %d",
-			table.Name(), rowCount, elementCount)
-		return nil, err
+	for rowIndex := 0; rowIndex < len(tableExported.Rows); rowIndex++ {
+		var row tableRow = tableExported.Rows[rowIndex]
+		if len(row) != colCount {
+			err = fmt.Errorf("importTable() [%s] with %d cols expecting %d cell values per row but in row %d found: %d",
+				tableName, colCount, colCount, rowIndex, len(row))
+			return nil, err
+		}
+		err = table.AppendRow()
+		if err != nil {
+			return nil, err
+		}
+		for colIndex := 0; colIndex < colCount; colIndex++ {
+			// This checks that the cell value is of the type of its col.
+			err = table.SetValByColIndex(colIndex, rowIndex, row[colIndex])
+			if err != nil {
+				return nil, err
+			}
+		}
 	}
 
 	// GOB does not encode functions, so SortFunc (and ColType) come from the table's own cols.
@@ -256,6 +258,10 @@ func NewTableSetFromGob(buffer []bytes.Buffer) (*TableSet, error) {
 	Note: GOB encoding and decoding does not (yet) support nested tables or type time.Time.
 */
 func GobDecodeTableSet(buffer []bytes.Buffer) (*TableSet, error) {
+	if len(buffer) == 0 {
+		return nil, fmt.Errorf("%s: buffer is empty: expecting at least the table set header", UtilFuncName())
+	}
+
 	var tableSet *TableSet
 	var err error
 	tableSet, err = NewTableSet("")
diff --git a/gotables.go b/gotables.go
index 29822c0..cedd7c9 100644
--- a/gotables.go
+++ b/gotables.go
@@ -2856,7 +2856,7 @@ func (table *Table) IsValidTable() (isValid bool, err error) {
 
 	_, err = table.isValidColNamesMap()
 	if err != nil {
-		return false, nil
+		return false, err
 	}
 
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
-- 
2.43.0


From 18ec7b88d71e20c63cf1a9494d756ed592bf9ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 35/48] fix: printing nested tables does not rename them, and
 no unguarded package counters

StringNested() renamed the nested tables it printed, and it, NewTreeTable()
and the parser kept counters in package variables which nothing used, so two
goroutines with tables of their own raced on them.
---
 gotables.go | 19 +++++++++++--------
 parser.go   |  2 --
 tree.go     |  8 +-------
 3 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/gotables.go b/gotables.go
index cedd7c9..a059f54 100644
--- a/gotables.go
+++ b/gotables.go
@@ -4614,11 +4614,7 @@ func (tableSet *TableSet) StringNested() (stringNested string) {
 }
 */
 
-var globalDepth int
 func (table *Table) stringNested_recursive(parentTableName string, parentTailName, parentColName string, parentRowIndex int, stringNested *string) {
-//where(fmt.Sprintf("depth=%d [%s]",  globalDepth, table.Name()))
-globalDepth++
-
 	const debug = true
 
 //where(fmt.Sprintf("stringNested_recursive(parentTableName: [%s], parentColName: %q, parentRowIndex: %d, stringNested)\n",
@@ -4670,19 +4666,26 @@ globalDepth++
 				}
 				newName := headName + tailName
 //where(fmt.Sprintf("newName = %s", newName))
-				err = nestedTable.SetName(newName)
+				_, err = IsValidTableName(newName)
 				if err != nil {
 					return
 				}
 
+				if nestedTable == nil {
+					return
+				}
+
+				// Rename a (shallow) copy. Printing a table must not modify it.
+				renamedTable := *nestedTable
+				renamedTable.tableName = newName
+				renamedTable.isNilTable = false
+
 // where(fmt.Sprintf("\n>>> nestedTable.stringNested_recursive(%q, %q, %d, stringNested=\n%s)",
 // table.Name(), colName, rowIndex, *stringNested))
-				nestedTable.stringNested_recursive(headName, tailName, colName, rowIndex, stringNested)
+				renamedTable.stringNested_recursive(headName, tailName, colName, rowIndex, stringNested)
 			}
 		}
 	}
 
-	globalDepth--
-
 	return
 }
diff --git a/parser.go b/parser.go
index 51be73d..737a4e3 100644
--- a/parser.go
+++ b/parser.go
@@ -93,8 +93,6 @@ func init() {
 
 const globalErrorLimit int = 10
 
-var globalErrorCount int
-
 const _ALL_SUBSTRINGS = -1
 
 // Constants for strconv parse functions.
diff --git a/tree.go b/tree.go
index b0ba7e3..92a81a1 100644
--- a/tree.go
+++ b/tree.go
@@ -561,12 +561,9 @@ func (rootTable *Table) NewTreeTable1(tablesDepth int) (treeTable *Table, err er
 	If there are no type *Table cols in table, or if depth is set to 0, then
 	return table unchanged.
 */
-var globalTreeCalls int
-var globalTreeDepth int
 func (table *Table) NewTreeTable(depth int) (treeTable *Table, err error) {
-globalTreeCalls++
 if CURRENT_TESTS_VERBOSE {
-where(fmt.Sprintf("NewTreeTable(globalTreeCalls=%d)\n", globalTreeCalls))
+where(fmt.Sprintf("NewTreeTable(depth=%d)\n", depth))
 }
 	// where("caller: " + UtilFuncCaller())
 	// where(UtilFuncName())
@@ -592,11 +589,8 @@ where(fmt.Sprintf("NewTreeTable(globalTreeCalls=%d)\n", globalTreeCalls))
 }
 
 func newTreeTable_recursive(originalTable *Table, table *Table, depth int) (err error) {
-globalTreeDepth++
 if CURRENT_TESTS_VERBOSE {
 where(fmt.Sprintf("newTreeTable_recursive(depth=%d)\n", depth))
-where(fmt.Sprintf("newTreeTable_recursive(globalTreeCalls=%d)\n", globalTreeCalls))
-where(fmt.Sprintf("newTreeTable_recursive(globalTreeDepth=%d)\n", globalTreeDepth))
 }
 
 	if originalTable == nil {
-- 
2.43.0


From 6c5721fa2ae412d9477e4f99853a2fa08a38f3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:29 +0000
Subject: [PATCH 36/48] fix: piped input is read byte for byte, read errors are
 reported, and a timed-out read loses nothing

UtilGulpFromPipe() replaced bytes which are not UTF-8. UtilGulpFromPipeWithTimeout()
returned "" and no error when reading failed, its goroutine wrote to the caller's
results (a data race after a timeout), and after a timeout it kept taking input
away from later calls.
---
 util.go | 81 +++++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 58 insertions(+), 23 deletions(-)

diff --git a/util.go b/util.go
index 7e2fbdf..0b746a2 100644
--- a/util.go
+++ b/util.go
@@ -1,7 +1,6 @@
 package gotables
 
 import (
-	"bufio"
 	"bytes"
 	"fmt"
 	"go/format"
@@ -13,6 +12,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -581,6 +581,55 @@ func UtilCanReadFromPipe() (bool, error) {
 	return false, nil
 }
 
+// A gulp reads all of stdin. It is shared by everyone who waits for it, so that input
+// which a caller gave up waiting for (timeout) goes to the next caller and is not lost.
+type utilGulp struct {
+	stdin *os.File
+	done  chan struct{} // Closed when input and err are set.
+	input string
+	err   error
+}
+
+var utilGulpMutex sync.Mutex
+var utilGulpPending *utilGulp // Not yet returned to any caller.
+
+// Start to read stdin, or join the pending read of stdin.
+func utilGulpStdin() *utilGulp {
+	utilGulpMutex.Lock()
+	defer utilGulpMutex.Unlock()
+
+	if utilGulpPending != nil && utilGulpPending.stdin == os.Stdin {
+		return utilGulpPending
+	}
+
+	gulp := &utilGulp{stdin: os.Stdin, done: make(chan struct{})}
+	utilGulpPending = gulp
+
+	go func() {
+		input, err := io.ReadAll(gulp.stdin)
+		if err != nil {
+			gulp.err = err
+		} else {
+			gulp.input = string(input)
+		}
+		close(gulp.done)
+	}()
+
+	return gulp
+}
+
+// The result of a gulp that is done.
+func (gulp *utilGulp) result() (input string, err error) {
+	utilGulpMutex.Lock()
+	defer utilGulpMutex.Unlock()
+
+	if utilGulpPending == gulp {
+		utilGulpPending = nil
+	}
+
+	return gulp.input, gulp.err
+}
+
 /*
 	Read and return piped input as a string.
 
@@ -590,21 +639,10 @@ func UtilCanReadFromPipe() (bool, error) {
 */
 func UtilGulpFromPipe() (string, error) {
 
-	reader := bufio.NewReader(os.Stdin)
-	var output []rune
-	for {
-		inputRune, _, err := reader.ReadRune()
-		if err != nil && err == io.EOF {
-			break
-		}
-		if err != nil {
-			return "", err
-		}
-
-		output = append(output, inputRune)
-	}
+	gulp := utilGulpStdin()
+	<-gulp.done
 
-	return string(output), nil
+	return gulp.result()
 }
 
 /*
@@ -612,20 +650,17 @@ func UtilGulpFromPipe() (string, error) {
 
 	This waits for stdin but only until timeout expires.
 
+	If it expires, input that arrives later is returned by the next call.
+
 		stdin, err := UtilGulpFromPipe(1 * time.Second)
 */
 func UtilGulpFromPipeWithTimeout(timeout time.Duration) (input string, err error) {
 
-	c1 := make(chan string, 1)
-
-	go func() {
-		input, err = UtilGulpFromPipe()
-		c1 <- input
-	}()
+	gulp := utilGulpStdin()
 
 	select {
-	case result := <-c1:
-		return result, nil
+	case <-gulp.done:
+		return gulp.result()
 	case <-time.After(timeout):
 		return "", fmt.Errorf("did not read any piped input from stdin after waiting %v", timeout)
 	}
-- 
2.43.0


From 82f8b77a2ae4d97d49145908052a75d22ff73b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:37 +0000
Subject: [PATCH 37/48] fix: ordering cols by sort keys, and merging, do not
 panic when a col is a sort key twice

---
 sort.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sort.go b/sort.go
index ecd47ad..0207741 100644
--- a/sort.go
+++ b/sort.go
@@ -867,13 +867,19 @@ func (table *Table) OrderColsBySortKeys() error {
 	// Populate new order ...
 
 	// First slots with key col names.
+	row := 0
+	placed := map[string]bool{}
 	for key = 0; key < table.SortKeyCount(); key++ {
 		keyName := table.sortKeys[key].colName
-		newOrder[key] = keyName
+		if placed[keyName] {
+			continue // The same col can be a sort key more than once.
+		}
+		placed[keyName] = true
+		newOrder[row] = keyName
+		row++
 	}
 
 	// Subsequent slots with non-key col names.
-	row := table.SortKeyCount()
 	for col := 0; col < table.ColCount(); col++ {
 		colName := table.colNames[col]
 		var isSortKey bool
-- 
2.43.0


From ca5bd04874be684aa23cb7c637453c5fc46a14cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:16 +0000
Subject: [PATCH 38/48] fix: the CSV of a table with one col has a record for
 each row, empty values included

---
 gotables.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gotables.go b/gotables.go
index a059f54..4d8b8ad 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1801,6 +1801,13 @@ func (table *Table) GetTableAsCSV(optionalSubstituteHeadingNames ...string) (str
 			}
 		}
 
+		if len(record) == 1 && len(record[0]) == 0 {
+			// CSV readers skip an empty line, so in a table with one col an empty value needs quotes.
+			csvWriter.Flush()
+			buf.WriteString("\"\"\n")
+			continue
+		}
+
 		err = csvWriter.Write(record)
 		if err != nil {
 			return "", err
-- 
2.43.0


From 8879d6b30454f0af0522361cbe7d9ffa4efb9233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:54 +0000
Subject: [PATCH 39/48] fix: an unsigned integer written with a plus sign
 loads, as a signed one does

---
 parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 737a4e3..04d0eff 100644
--- a/parser.go
+++ b/parser.go
@@ -1443,7 +1443,8 @@ func parseUint(s string, bitSize int) (uint64Val uint64, err error) {
 			uint64Val, err = strconv.ParseUint(s, _OCT, bitSize)
 		}
 	} else {
-		uint64Val, err = strconv.ParseUint(s, _DEC, bitSize)
+		// strconv.ParseUint() does not accept a sign, and uintRegexp does.
+		uint64Val, err = strconv.ParseUint(strings.TrimPrefix(s, "+"), _DEC, bitSize)
 	}
 
 	return
-- 
2.43.0


From aa5ad9ba7bf7f7791f887aa27b7cac7d528f295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 40/48] fix: the circular reference errors of Walk and
 HasCircularReference can be told by HasCircRefError, as meant

---
 tree.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tree.go b/tree.go
index 92a81a1..b8e9dcd 100644
--- a/tree.go
+++ b/tree.go
@@ -162,7 +162,7 @@ func (table *Table) Walk(
 						if exists { // Invalid table with circular reference!
 							// Construct CircRefError.
 							circError := NewCircRefError(table, nestedTable, "")
-							err = fmt.Errorf("visitCell(): %s", circError) // Wrap circError in err.
+							err = fmt.Errorf("visitCell(): %w", circError) // Wrap circError in err.
 							return err
 						} else {
 							// Add this nested table to the map.
@@ -301,8 +301,12 @@ func (rootTable *Table) HasCircularReference() (hasCircularReference bool, err e
 	isValidTableNesting, err := rootTable.IsValidTableNesting()
 	if !isValidTableNesting {
 		// Say the error is from here, not from the called method.
-		replacedMsg := strings.Replace(err.Error(), "IsValidTableNesting", "HasCircularReference", 1)
-		err = fmt.Errorf("%s", replacedMsg)
+		if circError := GetCircRefError(err); circError != nil {
+			err = fmt.Errorf("HasCircularReference(): %w", circError) // Wrap circError in err.
+		} else {
+			replacedMsg := strings.Replace(err.Error(), "IsValidTableNesting", "HasCircularReference", 1)
+			err = fmt.Errorf("%s", replacedMsg)
+		}
 		return !isValidTableNesting, err
 	}
 
-- 
2.43.0


From f086925ae6732c0043f4a0e143068808e1eac9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:05 +0000
Subject: [PATCH 41/48] fix: SortKeyCount of a nil table is -1, as RowCount and
 ColCount, and not a panic

---
 sort.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sort.go b/sort.go
index 0207741..3ed3dad 100644
--- a/sort.go
+++ b/sort.go
@@ -793,6 +793,10 @@ func newSortKeys() SortKeys {
 }
 
 func (table *Table) SortKeyCount() int {
+	if table == nil {
+		return -1
+	}
+
 	return len(table.sortKeys)
 }
 
-- 
2.43.0


From 0a1ecdb22beb6caa79dc4af680482a7260287124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:09 +0000
Subject: [PATCH 42/48] fix: a JSON number that is no integer, but rounds to
 one as a float64, is refused in an integer column, not altered

---
 json.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/json.go b/json.go
index f286c60..c511f28 100644
--- a/json.go
+++ b/json.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"math"
+	"math/big"
 	_ "os"
 	"reflect"
 	"regexp"
@@ -348,17 +349,30 @@ func checkJsonDecodeError(checkErr error) (err error) {
 	return nil
 }
 
-// All integers up to this one can be represented exactly by a float64
-const maxExactFloat64 = 1 << 53
+// The integer that a JSON number says by way of a fraction or an exponent, exactly or not at all.
+// JSON does not distinguish 1 from 1.0 or 1e0
+func jsonNumberToDecimal(number json.Number) (decimal string, isInteger bool) {
+	float64Val, err := strconv.ParseFloat(number.String(), 64)
+	if err != nil || math.Abs(float64Val) > math.MaxUint64 {
+		return "", false
+	}
+	if float64Val == 0 { // Zero, or too small for a float64
+		mantissa := strings.Split(strings.ToLower(number.String()), "e")[0]
+		return "0", !strings.ContainsAny(mantissa, "123456789")
+	}
+	rat, ok := new(big.Rat).SetString(number.String())
+	if !ok || !rat.IsInt() {
+		return "", false
+	}
+	return rat.Num().String(), true
+}
 
 // Convert a JSON number to an integer of this many bits, exactly or not at all.
-// JSON does not distinguish 1 from 1.0 or 1e0
 func jsonNumberToInt64(number json.Number, bitSize int) (int64Val int64, err error) {
 	int64Val, err = strconv.ParseInt(number.String(), 10, bitSize)
 	if err != nil && strings.ContainsAny(number.String(), ".eE") {
-		float64Val, floatErr := strconv.ParseFloat(number.String(), 64)
-		if floatErr == nil && float64Val == math.Trunc(float64Val) && math.Abs(float64Val) <= maxExactFloat64 {
-			int64Val, err = strconv.ParseInt(strconv.FormatFloat(float64Val, 'f', 0, 64), 10, bitSize)
+		if decimal, isInteger := jsonNumberToDecimal(number); isInteger {
+			int64Val, err = strconv.ParseInt(decimal, 10, bitSize)
 		}
 	}
 	return
@@ -368,9 +382,8 @@ func jsonNumberToInt64(number json.Number, bitSize int) (int64Val int64, err err
 func jsonNumberToUint64(number json.Number, bitSize int) (uint64Val uint64, err error) {
 	uint64Val, err = strconv.ParseUint(number.String(), 10, bitSize)
 	if err != nil && strings.ContainsAny(number.String(), ".eE") {
-		float64Val, floatErr := strconv.ParseFloat(number.String(), 64)
-		if floatErr == nil && float64Val == math.Trunc(float64Val) && math.Abs(float64Val) <= maxExactFloat64 {
-			uint64Val, err = strconv.ParseUint(strconv.FormatFloat(float64Val, 'f', 0, 64), 10, bitSize)
+		if decimal, isInteger := jsonNumberToDecimal(number); isInteger {
+			uint64Val, err = strconv.ParseUint(decimal, 10, bitSize)
 		}
 	}
 	return
-- 
2.43.0


From b750888b318b92c192d47d1ee1cf25584f9d7781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:25 +0000
Subject: [PATCH 43/48] fix: a YAML number too big for a float32 is refused,
 not altered to infinity

---
 yaml.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yaml.go b/yaml.go
index ca5ac55..a652e4a 100644
--- a/yaml.go
+++ b/yaml.go
@@ -293,6 +293,12 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 				switch table.colTypes[colIndex] {
 				case "float32":
 					var float64Val float64 = row[colIndex].(float64)
+					if math.IsInf(float64(float32(float64Val)), 0) && !math.IsInf(float64Val, 0) {
+						err = fmt.Errorf("%s %s: table [%s] col %s row %d: number %g does not fit in type %s",
+							UtilFuncSource(), UtilFuncName(), table.Name(), table.colNames[colIndex], rowIndex, float64Val, table.colTypes[colIndex])
+						table = nil
+						return
+					}
 					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(float64Val))
 				case "float64":
 					err = table.SetFloat64ByColIndex(colIndex, rowIndex, row[colIndex].(float64))
-- 
2.43.0


From 92d81293f4afe31668663d819d1c052626d969d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:30 +0000
Subject: [PATCH 44/48] fix: a JSON cell that is named after another column
 than its own is refused, not put into the wrong column

---
 json.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index c511f28..8f56e0b 100644
--- a/json.go
+++ b/json.go
@@ -483,8 +483,13 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 				return nil, fmt.Errorf("%s %s: table [%s] row %d col %d: expecting {col name: value} but found: %v",
 					UtilFuncSource(), UtilFuncName(), tableName, rowIndex, colIndex, val)
 			}
+			var colName string
 			var cell interface{}
-			for _, cell = range cellMap {
+			for colName, cell = range cellMap {
+				if colName != table.colNames[colIndex] {
+					return nil, fmt.Errorf("%s %s: table [%s] row %d col %d: expecting a cell of col %s but found a cell of col %s",
+						UtilFuncSource(), UtilFuncName(), tableName, rowIndex, colIndex, table.colNames[colIndex], colName)
+				}
 				// There's only one map element here: colName and colType.
 				// where(fmt.Sprintf("\t\t\tcol=%d row=%d celltype=%T cell=%v", colIndex, rowIndex, cell, cell))
 
-- 
2.43.0


From 3f58c2db71af04eb63965dc287a315bf04b63efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:06 +0000
Subject: [PATCH 45/48] fix: JSON and YAML table data that are no list of rows
 are refused, not left out

---
 json.go | 4 ++++
 yaml.go | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/json.go b/json.go
index 8f56e0b..aa63408 100644
--- a/json.go
+++ b/json.go
@@ -459,6 +459,10 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 	var data []interface{}
 	data, exists = jsonMap["data"].([]interface{})
 	if !exists {
+		if jsonMap["data"] != nil {
+			return nil, fmt.Errorf("%s %s: table [%s] expecting data to be a list of rows but found: %v",
+				UtilFuncSource(), UtilFuncName(), tableName, jsonMap["data"])
+		}
 		// Zero rows in this table. That's okay.
 		return table, nil
 	}
diff --git a/yaml.go b/yaml.go
index a652e4a..590579a 100644
--- a/yaml.go
+++ b/yaml.go
@@ -200,7 +200,13 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 				data[i] = append(data[i], el2)
 			}
 		}
+	case nil:
+		// Missing or empty. Zero rows in this table.
 	default:
+		err = fmt.Errorf("%s %s: table [%s] expecting data to be a list of rows but found: %v",
+			UtilFuncSource(), UtilFuncName(), tableName, whatever)
+		table = nil
+		return
 	}
 
 	whatever, exists = existsInMap(tableMap, "data")
-- 
2.43.0


From d97ae79b9bb4ddbcb457369e4759431fe178d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:00 +0000
Subject: [PATCH 46/48] fix: IsValidCellValue and IsValidColValue accept what
 SetVal accepts, also []byte, []uint8, byte, rune, *Table and time.Time

---
 gotables.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gotables.go b/gotables.go
index 4d8b8ad..a913aa9 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3201,10 +3201,17 @@ func (table *Table) IsValidCellValue(colName string, value interface{}) (bool, e
 		return false, fmt.Errorf("table[%s] col=%s type=%s invalid value: <nil>", table.Name(), colName, colType)
 	}
 
-	valueType := reflect.TypeOf(value)
-	valueTypeName := valueType.Name()
+	// The same rule as in SetValByColIndex()
+	valueTypeName := fmt.Sprintf("%T", value)
+	if tableValue, isTable := value.(*Table); isTable {
+		if tableValue == nil {
+			return false, fmt.Errorf("table[%s] col=%s type=%s invalid value: <nil>", table.Name(), colName, colType)
+		}
+		// "*gotables.Table" not accepted as a gotables custom type. Use "*Table" instead.
+		valueTypeName = "*Table"
+	}
 
-	if valueTypeName != colType {
+	if valueTypeName != colType && !isAlias(colType, valueTypeName) {
 		return false, fmt.Errorf("table[%s] col=%s type=%s invalid value: %v", table.Name(), colName, colType, value)
 	}
 
-- 
2.43.0


From ed6f1afacadbdea2e5a53ecb5eac8f1cf113e37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:38 +0000
Subject: [PATCH 47/48] fix: the byte slices in a merged table or a table of
 unique rows are its own, not those of its sources

---
 merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index c9a0458..08e2e17 100644
--- a/merge.go
+++ b/merge.go
@@ -491,7 +491,7 @@ func (srcTable *Table) copyTableCells(beginRow int, targTable *Table) error {
 			if err != nil {
 				return err
 			}
-			err = targTable.SetVal(colName, targRow, cellVal)
+			err = targTable.SetVal(colName, targRow, copyOfVal(cellVal))
 			// where(fmt.Sprintf("targTable.SetVal(%q, %d, cellVal=%v)\n", colName, targRow, cellVal))
 			if err != nil {
 				return err
-- 
2.43.0


From d35caf519df9c643b5125a2b49f8ff92659fca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:27 +0000
Subject: [PATCH 48/48] fix: Merge and SortUnique accept tables that have a
 column named _TABLE_ or _DELETE_

---
 merge.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 08e2e17..7d7f494 100644
--- a/merge.go
+++ b/merge.go
@@ -124,7 +124,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 	var tempColCount int // To ignore temporary columns.
 
 	// Add a column to keep track of which columns came from which table.
-	const tableNumberColName = "_TABLE_"
+	tableNumberColName := merged.unusedColName("_TABLE_")
 	err = merged.AppendCol(tableNumberColName, "int")
 	if err != nil {
 		return nil, err
@@ -192,7 +192,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 	}
 
 	// Add a column to keep track of which columns are duplicates, to be deleted later.
-	const deleteColName = "_DELETE_"
+	deleteColName := merged.unusedColName("_DELETE_")
 	err = merged.AppendCol(deleteColName, "bool")
 	if err != nil {
 		return nil, err
@@ -501,3 +501,14 @@ func (srcTable *Table) copyTableCells(beginRow int, targTable *Table) error {
 
 	return nil
 }
+
+// Return colName, lengthened where necessary so that it is not the name of a column of this table.
+func (table *Table) unusedColName(colName string) string {
+	for {
+		hasCol, _ := table.HasCol(colName)
+		if !hasCol {
+			return colName
+		}
+		colName += "_"
+	}
+}
-- 
2.43.0

