From 0a08af9d7ab9a8bf253cb781a4f4434bc74376d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:25 +0000
Subject: [PATCH 01/30] fix: keep the size of binary and varbinary columns in
 MySQL DDL

---
 format/mysql/exporter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index ce395c6..4138048 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -138,7 +138,7 @@ func (c *Exporter) formatColumnType(colType string, col *octopus.Column) string
 func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	switch col.Type {
 	case octopus.ColTypeBinary:
-		return "binary"
+		return c.formatColumnType("binary", col)
 	case octopus.ColTypeBit:
 		return c.formatColumnType("bit", col)
 	case octopus.ColTypeBlob8:
@@ -194,7 +194,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypeTime:
 		return "time"
 	case octopus.ColTypeVarbinary:
-		return "varbinary"
+		return c.formatColumnType("varbinary", col)
 	case octopus.ColTypeVarchar:
 		return c.formatColumnType("varchar", col)
 	case octopus.ColTypeYear:
-- 
2.43.0


From 9bd8f7fa7cad7da5b1d9b3e64e00908b0785138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:45 +0000
Subject: [PATCH 02/30] fix: escape string literals in MySQL DDL

---
 format/mysql/exporter.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index 4138048..9313e0d 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -124,6 +124,21 @@ func (c *Exporter) quote(name string) string {
 	return fmt.Sprintf("`%s`", name)
 }
 
+// quoteText returns text as MySQL string literal.
+func (c *Exporter) quoteText(text string) string {
+	escaped := strings.ReplaceAll(text, "\\", "\\\\")
+	return "'" + strings.ReplaceAll(escaped, "'", "''") + "'"
+}
+
+// quoteTexts returns comma separated MySQL string literals.
+func (c *Exporter) quoteTexts(texts []string) string {
+	var literals []string
+	for _, text := range texts {
+		literals = append(literals, c.quoteText(text))
+	}
+	return strings.Join(literals, ", ")
+}
+
 func (c *Exporter) formatColumnType(colType string, col *octopus.Column) string {
 	if col.Size > 0 {
 		if col.Scale > 0 {
@@ -162,7 +177,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypeDouble:
 		return c.formatColumnType("double", col)
 	case octopus.ColTypeEnum:
-		return "enum(" + util.QuoteAndJoin(col.Values, "'", ", ") + ")"
+		return "enum(" + c.quoteTexts(col.Values) + ")"
 	case octopus.ColTypeFloat:
 		return c.formatColumnType("float", col)
 	case octopus.ColTypeGeometry:
@@ -182,7 +197,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypePoint:
 		return "point"
 	case octopus.ColTypeSet:
-		return "set(" + util.QuoteAndJoin(col.Values, "'", ", ") + ")"
+		return "set(" + c.quoteTexts(col.Values) + ")"
 	case octopus.ColTypeText8:
 		return "tinytext"
 	case octopus.ColTypeText16:
@@ -221,7 +236,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 			defaultValue = defaultValue + "()"
 		} else {
 			if util.IsStringType(column.Type) {
-				defaultValue = fmt.Sprintf("'%s'", defaultValue)
+				defaultValue = c.quoteText(defaultValue)
 			}
 		}
 		constraints = append(constraints, "DEFAULT "+defaultValue)
@@ -233,14 +248,14 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 			onUpdate = onUpdate + "()"
 		} else {
 			if util.IsStringType(column.Type) {
-				onUpdate = fmt.Sprintf("'%s'", onUpdate)
+				onUpdate = c.quoteText(onUpdate)
 			}
 		}
 		constraints = append(constraints, "ON UPDATE "+onUpdate)
 	}
 
 	if column.Description != "" {
-		constraints = append(constraints, fmt.Sprintf("COMMENT '%s'", column.Description))
+		constraints = append(constraints, "COMMENT "+c.quoteText(column.Description))
 	}
 
 	return strings.Join(constraints, " ")
-- 
2.43.0


From 3c115b47c9c3262fa2a51edfc4970d2a1a523d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:48 +0000
Subject: [PATCH 03/30] fix: quote default values of enum and set columns in
 MySQL DDL

---
 format/mysql/exporter.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index 9313e0d..379fb61 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -124,6 +124,11 @@ func (c *Exporter) quote(name string) string {
 	return fmt.Sprintf("`%s`", name)
 }
 
+// isQuotedType returns true if values of the type are written as string literal.
+func isQuotedType(colType string) bool {
+	return util.IsStringType(colType) || colType == octopus.ColTypeEnum || colType == octopus.ColTypeSet
+}
+
 // quoteText returns text as MySQL string literal.
 func (c *Exporter) quoteText(text string) string {
 	escaped := strings.ReplaceAll(text, "\\", "\\\\")
@@ -235,7 +240,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 		if fn {
 			defaultValue = defaultValue + "()"
 		} else {
-			if util.IsStringType(column.Type) {
+			if isQuotedType(column.Type) {
 				defaultValue = c.quoteText(defaultValue)
 			}
 		}
@@ -247,7 +252,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 		if fn {
 			onUpdate = onUpdate + "()"
 		} else {
-			if util.IsStringType(column.Type) {
+			if isQuotedType(column.Type) {
 				onUpdate = c.quoteText(onUpdate)
 			}
 		}
-- 
2.43.0


From c446bd230bdc4d136381e32697701063bea8f8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:30 +0000
Subject: [PATCH 04/30] fix: apply the table filter in DBML export

---
 format/dbml/exporter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 454524a..d7c4e06 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -33,6 +33,11 @@ func (c *Exporter) exportToString() ([]byte, error) {
 	definedTables := make(map[string]bool)
 
 	for _, table := range c.schema.Tables {
+		// filter table
+		if c.option.TableFilter != nil && !c.option.TableFilter(table) {
+			continue
+		}
+
 		result = append(result, fmt.Sprintf("Table %s {", table.Name))
 
 		for _, column := range table.Columns {
-- 
2.43.0


From e2068b1bc5cbb19331ae60e3c69d0c8522a1327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:44 +0000
Subject: [PATCH 05/30] fix: ignore prefix and annotation entries without a
 group

---
 format/common/annotation.go | 3 +++
 format/common/prefix.go     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/format/common/annotation.go b/format/common/annotation.go
index bb5d0e3..839287f 100644
--- a/format/common/annotation.go
+++ b/format/common/annotation.go
@@ -15,6 +15,9 @@ func NewAnnotationMapper(annotation string) *AnnotationMapper {
 	if strings.Contains(annotation, ":") {
 		for _, annoToken := range strings.Split(annotation, ",") {
 			kv := strings.SplitN(annoToken, ":", 2)
+			if len(kv) != 2 {
+				continue
+			}
 			group := kv[0]
 			annotations := strings.Split(kv[1], ";")
 			annoMap[group] = annotations
diff --git a/format/common/prefix.go b/format/common/prefix.go
index ffa9990..2a5e01a 100644
--- a/format/common/prefix.go
+++ b/format/common/prefix.go
@@ -15,6 +15,9 @@ func NewPrefixMapper(prefix string) *PrefixMapper {
 	if strings.Contains(prefix, ":") {
 		for _, prefixToken := range strings.Split(prefix, ",") {
 			kv := strings.SplitN(prefixToken, ":", 2)
+			if len(kv) != 2 {
+				continue
+			}
 			group := kv[0]
 			prefixValue := kv[1]
 			prefixMap[group] = prefixValue
-- 
2.43.0


From b4c4c48b32961a3812a6908f46655e3855d9eec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:49 +0000
Subject: [PATCH 06/30] fix: import default values of ojson columns

---
 format/ojson/importer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/ojson/importer.go b/format/ojson/importer.go
index a02c5dc..c9d60c1 100644
--- a/format/ojson/importer.go
+++ b/format/ojson/importer.go
@@ -82,7 +82,7 @@ func (c *Importer) fromOjsonColumn(column1 *Column) *octopus.Column {
 		PrimaryKey:      column1.PrimaryKey,
 		UniqueKey:       column1.UniqueKey,
 		AutoIncremental: column1.AutoIncremental,
-		DefaultValue:    column1.Description,
+		DefaultValue:    column1.DefaultValue,
 		Ref:             ref,
 	}
 }
-- 
2.43.0


From 81dd19b7f0de26a8a978162955d506547d8bbeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:49 +0000
Subject: [PATCH 07/30] fix: import class names of ojson tables

---
 format/ojson/importer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/ojson/importer.go b/format/ojson/importer.go
index c9d60c1..c89aeae 100644
--- a/format/ojson/importer.go
+++ b/format/ojson/importer.go
@@ -61,6 +61,7 @@ func (c *Importer) fromOjsonTable(table1 *Table) *octopus.Table {
 		Columns:     columns,
 		Description: table1.Description,
 		Group:       table1.Group,
+		ClassName:   table1.ClassName,
 	}
 }
 
-- 
2.43.0


From 53b05a113f31dbb2a238e35995223204ceb80f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:49 +0000
Subject: [PATCH 08/30] fix: reject schema files that do not normalise

---
 format/octopus/io.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/format/octopus/io.go b/format/octopus/io.go
index 52042dc..26b894b 100644
--- a/format/octopus/io.go
+++ b/format/octopus/io.go
@@ -17,7 +17,9 @@ func LoadSchema(filename string) (*Schema, error) {
 	if schema, err := reader.ToSchema(); err != nil {
 		return nil, err
 	} else {
-		schema.Normalize()
+		if err := schema.Normalize(); err != nil {
+			return nil, err
+		}
 		return schema, nil
 	}
 }
-- 
2.43.0


From c362ea843a83c9ca11bbd0f0872599b71f4c20e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:33 +0000
Subject: [PATCH 09/30] fix: report added columns in schema diff

---
 format/diff/diff.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 258bd25..c520df2 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -249,6 +249,7 @@ func diffTable(
 				AfterColumn:  nil,
 			})
 		}
+		changeSets = append(changeSets, changeSet)
 	}
 
 	// primary key
-- 
2.43.0


From b39a8cdd7e2be2290f6a892e05e60966b329456b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:33 +0000
Subject: [PATCH 10/30] fix: do not report tables outside the groups as dropped
 in schema diff

---
 format/diff/diff.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index c520df2..1b82cda 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -35,20 +35,22 @@ func getDiff(option *Option) (*Result, error) {
 	var addedTables []*octopus.Table
 	renamedTableMap := make(map[*octopus.Table]*octopus.Table)
 	removedTableNames := util.NewStringSet()
-	for name := range fromTableByName {
-		removedTableNames.Add(name)
+	for _, table := range option.DiffFrom.Tables {
+		if option.TableFilter == nil || option.TableFilter(table) {
+			removedTableNames.Add(table.Name)
+		}
 	}
 
 	id := newChangeSetID()
 	for _, table := range option.DiffTo.Tables {
+		tableName := table.Name
+		removedTableNames.Remove(tableName)
+
 		// filter table
 		if option.TableFilter != nil && !option.TableFilter(table) {
 			continue
 		}
 
-		tableName := table.Name
-		removedTableNames.Remove(tableName)
-
 		oldTable, ok := fromTableByName[tableName]
 		if !ok {
 			// added
-- 
2.43.0


From dfb0e95fb882b634c42c44d922eeed6ac253e0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:33 +0000
Subject: [PATCH 11/30] fix: report renames in schema order in schema diff

---
 format/diff/diff.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 1b82cda..0d0f520 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -95,7 +95,11 @@ func getDiff(option *Option) (*Result, error) {
 	}
 
 	// renamed tables
-	for newTable, oldTable := range renamedTableMap {
+	for _, newTable := range addedTables {
+		oldTable, ok := renamedTableMap[newTable]
+		if !ok {
+			continue
+		}
 		id.bumpMajor()
 
 		// drop old unique constraint
@@ -226,7 +230,11 @@ func diffTable(
 	}
 
 	// renamed columns
-	for newColumn, oldColumn := range renamedColumnMap {
+	for _, newColumn := range addedColumns {
+		oldColumn, ok := renamedColumnMap[newColumn]
+		if !ok {
+			continue
+		}
 		changeSet := newDiffChangeSet(id.bumpMinor(), author)
 		changeSet.Add(&RenameColumn{Table: table, OldColumn: oldColumn, NewColumn: newColumn})
 		changeSets = append(changeSets, changeSet)
-- 
2.43.0


From 0466088b1f395dcc67ba292dd0f23085f7982ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:41 +0000
Subject: [PATCH 12/30] fix: drop primary key only if the old table has one

---
 format/diff/mysql.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 120f678..8e35c51 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -86,8 +86,9 @@ func (b *MysqlQueryBuilder) toUpdatePrimaryKeySQL(c *UpdatePrimaryKey) ([]string
 	tableName := table.Name
 	pkColumnNames := table.PrimaryKeyNameSet().Slice()
 
-	result := []string{
-		fmt.Sprintf("ALTER TABLE %s DROP PRIMARY KEY;", tableName),
+	var result []string
+	if c.OldTable.PrimaryKeyNameSet().Size() > 0 {
+		result = append(result, fmt.Sprintf("ALTER TABLE %s DROP PRIMARY KEY;", tableName))
 	}
 
 	if len(pkColumnNames) > 0 {
-- 
2.43.0


From 8529b10e0fda48f1283898d66c575ee80e511f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:41 +0000
Subject: [PATCH 13/30] fix: add column statement is not valid SQL

---
 format/diff/mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 8e35c51..b4d0c1e 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -119,7 +119,7 @@ func (b *MysqlQueryBuilder) toAddColumnSQL(c *AddColumn) ([]string, error) {
 	columnType := b.mysqlExporter.ToMysqlColumnType(column)
 	colConstraints := b.mysqlExporter.ColumnConstraints(column)
 
-	sql := fmt.Sprintf("ALTER TABLE %s MODIFY ADD %s %s", tableName, column.Name, columnType)
+	sql := fmt.Sprintf("ALTER TABLE %s ADD %s %s", tableName, column.Name, columnType)
 	if colConstraints != "" {
 		sql += " " + colConstraints
 	}
-- 
2.43.0


From f00e83549071f3e50788ddb8818ca52fe7ccf5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:41 +0000
Subject: [PATCH 14/30] fix: keep other constraints when NOT NULL of a column
 changes

---
 format/diff/mysql.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index b4d0c1e..6acb6fd 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -150,14 +150,13 @@ func (b *MysqlQueryBuilder) toSetNotNullConstraintSQL(c *SetNotNullConstraint) (
 	tableName := c.Table.Name
 	column := c.Column
 	columnType := b.mysqlExporter.ToMysqlColumnType(column)
+	colConstraints := b.mysqlExporter.ColumnConstraints(column)
 
-	var sql string
-	if column.NotNull {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY %s %s NOT NULL;", tableName, column.Name, columnType)
-	} else {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY %s %s;", tableName, column.Name, columnType)
+	sql := fmt.Sprintf("ALTER TABLE %s MODIFY %s %s", tableName, column.Name, columnType)
+	if colConstraints != "" {
+		sql += " " + colConstraints
 	}
-	return []string{sql}, nil
+	return []string{sql + ";"}, nil
 }
 
 func (b *MysqlQueryBuilder) toSetAutoIncrementSQL(c *SetAutoIncrement) ([]string, error) {
-- 
2.43.0


From 79ac254f85cb86ab2a43d42cc09ffb0ff1f339a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:41 +0000
Subject: [PATCH 15/30] fix: removing auto increment adds it with a primary key

---
 format/diff/mysql.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 6acb6fd..d317cf1 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -165,17 +165,13 @@ func (b *MysqlQueryBuilder) toSetAutoIncrementSQL(c *SetAutoIncrement) ([]string
 	columnName := column.Name
 	columnType := b.mysqlExporter.ToMysqlColumnType(column)
 
-	var sql string
-	if c.Column.AutoIncremental {
-		sql = strings.Join([]string{
-			fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s %s", tableName, columnName, columnType),
-			b.mysqlExporter.ColumnConstraints(column),
-		}, " ") + ";"
-	} else {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s %s AUTO_INCREMENT PRIMARY KEY;",
-			tableName, columnName, columnType)
+	colConstraints := b.mysqlExporter.ColumnConstraints(column)
+
+	sql := fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s %s", tableName, columnName, columnType)
+	if colConstraints != "" {
+		sql += " " + colConstraints
 	}
-	return []string{sql}, nil
+	return []string{sql + ";"}, nil
 }
 
 func (b *MysqlQueryBuilder) toSetDefaultValueSQL(c *SetDefaultValue) ([]string, error) {
-- 
2.43.0


From c1519e81424981a5c6c8ad5cb926f8fca96718f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:36 +0000
Subject: [PATCH 16/30] fix: protobuf generation panics on a reference to a
 missing table

---
 format/protobuf/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 52fb0ac..d10eead 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -188,6 +188,10 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 		// reference
 		if ref := column.Ref; ref != nil {
 			refTable := t.schema.TableByName(ref.Table)
+			if refTable == nil {
+				log.Printf("referenced table not found: %s", ref.Table)
+				continue
+			}
 			refMessageType := t.messageNameMemoizer(refTable)
 			refName := strcase.ToLowerCamel(refMessageType)
 			repeated := ref.Relationship == octopus.RefOneToMany
-- 
2.43.0


From 639eb649c774e73148e68aede6485743f1a7785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:36 +0000
Subject: [PATCH 17/30] fix: decrement protobuf relation tags when asked for

---
 format/protobuf/generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index d10eead..d516a52 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -222,7 +222,11 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 
 	// update tag of relations
 	for i, relation := range relations {
-		relation.Tag = relTagStart + i
+		if relTagDecr {
+			relation.Tag = relTagStart - i
+		} else {
+			relation.Tag = relTagStart + i
+		}
 	}
 
 	return &PbMessage{
-- 
2.43.0


From 9915cdb20d6a13340c2053523fe665f8f1503cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:36 +0000
Subject: [PATCH 18/30] fix: protobuf fields of one to many relations are
 repeated

---
 format/protobuf/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index d516a52..ae325b5 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -116,7 +116,7 @@ message {{.Name}} {
   {{.Type}} {{.Name}} = {{.Tag}};
   {{- end}}
   {{- range .Relations}}
-  {{.Type}} {{.Name}} = {{.Tag}};
+  {{if .Repeated}}repeated {{end}}{{.Type}} {{.Name}} = {{.Tag}};
   {{- end}}
 }
 {{end}}`
-- 
2.43.0


From 0da5fa9674bd882abeac9e66c0cc1c6df8b6dcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:36 +0000
Subject: [PATCH 19/30] fix: protobuf relation tag flags are ignored

---
 format/protobuf/cli.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/protobuf/cli.go b/format/protobuf/cli.go
index a5c0da8..381a270 100644
--- a/format/protobuf/cli.go
+++ b/format/protobuf/cli.go
@@ -36,8 +36,8 @@ func Action(c *cli.Context) error {
 			Package:          c.String(FlagPackage),
 			GoPackage:        c.String(FlagGoPackage),
 			FilePath:         c.String(FlagOutput),
-			RelationTagStart: -1,
-			RelationTagDecr:  false,
+			RelationTagStart: util.ToInt(c.String(FlogRelationTagStart), -1),
+			RelationTagDecr:  c.Bool(FlogRelationTagDecr),
 		},
 	)
 	buf := new(bytes.Buffer)
-- 
2.43.0


From b1362171fef7cf17a6b895e0d83aaa5fc58e59ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:31 +0000
Subject: [PATCH 20/30] fix: init writes db.json when no output is given

---
 format/octopus/cli.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/format/octopus/cli.go b/format/octopus/cli.go
index 961cf49..58343de 100644
--- a/format/octopus/cli.go
+++ b/format/octopus/cli.go
@@ -67,10 +67,10 @@ func InitAction(c *cli.Context) error {
 
 var InitCliFlags = []cli.Flag{
 	&cli.StringFlag{
-		Name:        FlagOutput,
-		Aliases:     []string{"o"},
-		Usage:       "init octopus schema to `FILE`",
-		EnvVars:     []string{"OCTOPUS_OUTPUT"},
-		DefaultText: "db.json",
+		Name:    FlagOutput,
+		Aliases: []string{"o"},
+		Usage:   "init octopus schema to `FILE`",
+		EnvVars: []string{"OCTOPUS_OUTPUT"},
+		Value:   "db.json",
 	},
 }
-- 
2.43.0


From df7cebab6691b7caaae654621543ce9538ad3cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:31 +0000
Subject: [PATCH 21/30] fix: sqlalchemy useUTC is a flag

---
 format/sqlalchemy/cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/cli.go b/format/sqlalchemy/cli.go
index db5ddac..793c188 100644
--- a/format/sqlalchemy/cli.go
+++ b/format/sqlalchemy/cli.go
@@ -75,7 +75,7 @@ var CliFlags = []cli.Flag{
 		Usage:   "set unique constraint name suffix",
 		EnvVars: []string{"OCTOPUS_UNIQUE_NAME_SUFFIX"},
 	},
-	&cli.StringFlag{
+	&cli.BoolFlag{
 		Name:    FlagUseUTC,
 		Aliases: []string{"t"},
 		Usage:   "use UTC for audit column default value",
-- 
2.43.0


From 3d723bf559ebe3c68e47785cdddcf81070040805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:31 +0000
Subject: [PATCH 22/30] fix: liquibase diff ignores uniqueNameSuffix

---
 format/diff/cli.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/format/diff/cli.go b/format/diff/cli.go
index 54e7ca0..d9aba94 100644
--- a/format/diff/cli.go
+++ b/format/diff/cli.go
@@ -70,11 +70,12 @@ func LiquibaseAction(c *cli.Context) error {
 
 	return liquibase.NewDiff(
 		&liquibase.DiffOption{
-			Author:      c.String(FlagAuthor),
-			DiffFrom:    fromSchema,
-			DiffTo:      toSchema,
-			TableFilter: octopus.GetTableFilterFn(c.String(FlagGroups)),
-			UseComments: c.Bool(FlagUseComments),
+			Author:           c.String(FlagAuthor),
+			DiffFrom:         fromSchema,
+			DiffTo:           toSchema,
+			TableFilter:      octopus.GetTableFilterFn(c.String(FlagGroups)),
+			UniqueNameSuffix: c.String(FlagUniqueNameSuffix),
+			UseComments:      c.Bool(FlagUseComments),
 		},
 	).Generate(c.String(FlagOutput))
 }
-- 
2.43.0


From ffa5643f5d82a6360b8af79b16ba067888bbe748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:24 +0000
Subject: [PATCH 23/30] fix: embedded gorm models depend on map iteration order

---
 format/gorm/gorm_model.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/gorm/gorm_model.go b/format/gorm/gorm_model.go
index 0259bad..fd0ff2b 100644
--- a/format/gorm/gorm_model.go
+++ b/format/gorm/gorm_model.go
@@ -3,6 +3,7 @@ package gorm
 import (
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"regexp"
+	"sort"
 	"strings"
 )
 
@@ -54,6 +55,7 @@ func (m EmbeddedModels) Names() []string {
 	for name, _ := range m {
 		names = append(names, name)
 	}
+	sort.Strings(names)
 	return names
 }
 
@@ -82,7 +84,8 @@ func extractEmbeddedModels(fields []*GoField) EmbeddedModels {
 	}
 
 	result := EmbeddedModels{}
-	for name, model := range embeddedModels {
+	for _, name := range embeddedModels.Names() {
+		model := embeddedModels[name]
 		if columnNameSet.ContainsAll(model.ColumnNames) {
 			result[name] = model
 			columnNameSet.RemoveAll(model.ColumnNames)
-- 
2.43.0


From dd8fb0fc557f71f7030b49f8fb78a3980309d0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:24 +0000
Subject: [PATCH 24/30] fix: gorm models without columns are not embedded

---
 format/gorm/gorm_model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/gorm/gorm_model.go b/format/gorm/gorm_model.go
index fd0ff2b..8645291 100644
--- a/format/gorm/gorm_model.go
+++ b/format/gorm/gorm_model.go
@@ -86,7 +86,7 @@ func extractEmbeddedModels(fields []*GoField) EmbeddedModels {
 	result := EmbeddedModels{}
 	for _, name := range embeddedModels.Names() {
 		model := embeddedModels[name]
-		if columnNameSet.ContainsAll(model.ColumnNames) {
+		if len(model.ColumnNames) > 0 && columnNameSet.ContainsAll(model.ColumnNames) {
 			result[name] = model
 			columnNameSet.RemoveAll(model.ColumnNames)
 		}
-- 
2.43.0


From 368e8a8f9e3346dad4e4374fc2656db6c2bd5f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:45 +0000
Subject: [PATCH 25/30] fix: sqlalchemy files per table miss imports

---
 format/sqlalchemy/generator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 109da63..2df3851 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -181,6 +181,9 @@ func (c *Generator) Generate(outputPath string) error {
 			contents = append(contents, classLines...)
 		} else {
 			contents = append(contents, c.getHeaderLines(importSet.Slice(), saImportSet.Slice())...)
+			if useTZDateTime {
+				contents = append(contents, c.getTZDateTimeLines()...)
+			}
 			contents = append(contents, classLines...)
 			contents = append(contents, "")
 
@@ -192,7 +195,9 @@ func (c *Generator) Generate(outputPath string) error {
 			// reset slice
 			contents = make([]string, 0)
 			saImportSet.Clear()
+			saImportSet.Add("Column")
 			importSet.Clear()
+			useTZDateTime = false
 		}
 	}
 
-- 
2.43.0


From 0033ad7adade854f6abc3ed3f36a25aa420f0c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:45 +0000
Subject: [PATCH 26/30] fix: sqlalchemy columns without a known type are not
 valid Python

---
 format/sqlalchemy/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 2df3851..d3cab9b 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -149,7 +149,7 @@ func (c *Generator) Generate(outputPath string) error {
 					}
 				}
 				importSet.Add("from datetime import datetime")
-			} else {
+			} else if field.Type != "" {
 				attributes = append(attributes, field.Type)
 			}
 			// PK
-- 
2.43.0


From 2e490e546c01731d77ce8fcbcd776f8ae5f88e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:22 +0000
Subject: [PATCH 27/30] fix: gorm files import the null package without using
 it

---
 format/gorm/gorm.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index d66b8c2..3806994 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -97,9 +97,6 @@ func NewGoField(column *octopus.Column) *GoField {
 	var fieldType string
 	importSet := util.NewStringSet()
 	nullable := !column.NotNull
-	if nullable {
-		importSet.Add("gopkg.in/guregu/null.v4")
-	}
 
 	columnType := strings.ToLower(column.Type)
 	switch columnType {
@@ -201,6 +198,10 @@ func NewGoField(column *octopus.Column) *GoField {
 		fieldType = "interface{}"
 	}
 
+	if strings.HasPrefix(fieldType, "null.") {
+		importSet.Add("gopkg.in/guregu/null.v4")
+	}
+
 	fieldName, ok := util.ToUpperCamel(column.Name)
 	overrideName := !ok
 
-- 
2.43.0


From 646682f7b623c4f82e70ab238fab326e265de962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:00 +0000
Subject: [PATCH 28/30] fix: kotlin fields without a default value are not
 valid Kotlin

---
 format/jpa/kotlin-gen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 4c2bcc2..3e400be 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -175,9 +175,9 @@ data class {{.Class.Name}}(
     {{end}}
     {{- if .Column.NotNull}}
 		{{- if eq . $.IdEntityField}}
-        override var {{.Name}}: {{.Type}} = {{.DefaultValue}},
+        override var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}},
 		{{- else}}
-        var {{.Name}}: {{.Type}} = {{.DefaultValue}}{{if hasNext . $.Class.Fields}},{{end}}
+        var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.Fields}},{{end}}
 		{{- end}}
     {{- else}}
         var {{.Name}}: {{.Type}}{{if hasNext . $.Class.Fields}},{{end}}
@@ -192,7 +192,7 @@ data class {{.Class.Name}}(
 {{- if ne .IdClassName ""}}
 data class {{.IdClassName}}(
 {{- range .Class.PKFields}}
-        var {{.Name}}: {{.Type}} = {{.DefaultValue}}{{if hasNext . $.Class.PKFields}},{{end}}
+        var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.PKFields}},{{end}}
 {{- end}}
 ): Serializable
 {{- end}}
-- 
2.43.0


From 6da9165507da19817cf71a3711dbe585386303d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:00 +0000
Subject: [PATCH 29/30] fix: kotlin repository of a table without primary key
 panics

---
 format/jpa/kotlin-gen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 3e400be..91a02ac 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -341,6 +341,10 @@ func (c *KtGenerator) generateRepositories(outputPath string) error {
 	}
 
 	for _, class := range classes {
+		if len(class.PKFields) == 0 {
+			// no repository without an ID type
+			continue
+		}
 		buf := new(bytes.Buffer)
 		if err := c.generateRepository(buf, class, outputPackage, reposPackage); err != nil {
 			return err
-- 
2.43.0


From 95e5f3ddedcac221f2fe307470c0da966e8ead57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:00 +0000
Subject: [PATCH 30/30] fix: kotlin classes without a package are not written
 to the output directory

---
 util/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/io.go b/util/io.go
index 6625fff..2e66fc7 100644
--- a/util/io.go
+++ b/util/io.go
@@ -11,7 +11,7 @@ import (
 // MkdirPackage creates nested package directories.
 func MkdirPackage(basedir, pkgName string) (string, error) {
 	if pkgName == "" {
-		return "", nil
+		return Mkdir(basedir)
 	}
 	dir := path.Join(append([]string{basedir}, strings.Split(pkgName, ".")...)...)
 	if err := os.MkdirAll(dir, 0777); err != nil {
-- 
2.43.0

