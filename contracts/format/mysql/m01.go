package mysql

import (
	"bytes"
	"io"
	"strconv"
	"strings"

	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

// ---- the statement a table is exported as, written from the MySQL manual

func specIdent(s string) string { return "`" + s + "`" }

// specLiteral: s as MySQL string literal (backslash and quote escaped).
func specLiteral(s string) string {
	return "'" + strings.Replace(strings.Replace(s, "\\", "\\\\", -1), "'", "''", -1) + "'"
}

func specLiterals(xs []string, k int) []string {
	if k <= 0 {
		return nil
	}
	return append(specLiterals(xs, k-1), specLiteral(xs[k-1]))
}

func specSized(name string, c octopus.Column) string {
	if c.Size == 0 {
		return name
	}
	if c.Scale == 0 {
		return name + "(" + strconv.Itoa(int(c.Size)) + ")"
	}
	return name + "(" + strconv.Itoa(int(c.Size)) + "," + strconv.Itoa(int(c.Scale)) + ")"
}

func SpecColumnType(c octopus.Column) string {
	switch c.Type {
	case "bit", "char", "decimal", "double", "float", "binary", "varbinary", "varchar":
		return specSized(c.Type, c)
	case "int8":
		return specSized("tinyint", c)
	case "int16":
		return specSized("smallint", c)
	case "int24":
		return specSized("mediumint", c)
	case "int32":
		return specSized("int", c)
	case "int64":
		return specSized("bigint", c)
	case "boolean":
		return "bit(1)"
	case "blob8":
		return "tinyblob"
	case "blob16":
		return "blob"
	case "blob24":
		return "mediumblob"
	case "blob32":
		return "longblob"
	case "text8":
		return "tinytext"
	case "text16":
		return "text"
	case "text24":
		return "mediumtext"
	case "text32":
		return "longtext"
	case "enum", "set":
		return c.Type + "(" + strings.Join(specLiterals(c.Values, len(c.Values)), ", ") + ")"
	}
	return c.Type
}

func specTextual(t string) bool {
	l := strings.ToLower(t)
	return strings.Contains(l, "char") || strings.Contains(l, "string") || t == "enum" || t == "set"
}

// specValue: a default/onupdate value in SQL.
func specValue(t, v string) string {
	if strings.HasPrefix(v, "fn::") {
		return v[4:] + "()"
	}
	if specTextual(t) {
		return specLiteral(v)
	}
	return v
}

func specConstraints(c octopus.Column) []string {
	var out []string
	if c.NotNull {
		out = append(out, "NOT NULL")
	}
	if c.AutoIncremental {
		out = append(out, "AUTO_INCREMENT")
	}
	if c.DefaultValue != "" {
		out = append(out, "DEFAULT "+specValue(c.Type, c.DefaultValue))
	}
	if c.OnUpdate != "" {
		out = append(out, "ON UPDATE "+specValue(c.Type, c.OnUpdate))
	}
	if c.Description != "" {
		out = append(out, "COMMENT "+specLiteral(c.Description))
	}
	return out
}

func SpecConstraintText(c octopus.Column) string { return strings.Join(specConstraints(c), " ") }

func specColumnDef(c octopus.Column) string {
	s := c.Name + " " + SpecColumnType(c)
	cs := SpecConstraintText(c)
	if cs == "" {
		return s
	}
	return s + " " + cs
}

func specColumnDefs(cols []*octopus.Column, k int) []string {
	if k <= 0 {
		return nil
	}
	return append(specColumnDefs(cols, k-1), specColumnDef(*cols[k-1]))
}

func specPKs(cols []*octopus.Column, k int) []string {
	if k <= 0 {
		return nil
	}
	r := specPKs(cols, k-1)
	if cols[k-1].PrimaryKey {
		return append(r, specIdent(cols[k-1].Name))
	}
	return r
}

func specUniques(cols []*octopus.Column, k int) []string {
	if k <= 0 {
		return nil
	}
	r := specUniques(cols, k-1)
	if cols[k-1].UniqueKey {
		return append(r, specIdent(cols[k-1].Name))
	}
	return r
}

func specIdents(xs []string, k int) []string {
	if k <= 0 {
		return nil
	}
	return append(specIdents(xs, k-1), specIdent(xs[k-1]))
}

func specIndices(defs []string, xs []*octopus.Index, k int) []string {
	if k <= 0 {
		return defs
	}
	x := xs[k-1]
	return append(specIndices(defs, xs, k-1), "INDEX "+specIdent(x.Name)+" ("+strings.Join(specIdents(x.Columns, len(x.Columns)), ", ")+")")
}

func specDefinitions(t octopus.Table, suffix string) []string {
	n := len(t.Columns)
	defs := specColumnDefs(t.Columns, n)
	pk := specPKs(t.Columns, n)
	uq := specUniques(t.Columns, n)
	if len(pk) > 0 {
		defs = append(defs, "PRIMARY KEY ("+strings.Join(pk, ", ")+")")
	}
	if len(uq) > 0 {
		defs = append(defs, "UNIQUE KEY "+specIdent(t.Name+suffix)+" ("+strings.Join(uq, ", ")+")")
	}
	return specIndices(defs, t.Indices, len(t.Indices))
}

func specLines(defs []string, k int) string {
	if k <= 0 {
		return ""
	}
	if k-1 < len(defs)-1 {
		return specLines(defs, k-1) + "  " + defs[k-1] + ",\n"
	}
	return specLines(defs, k-1) + "  " + defs[k-1] + "\n"
}

func SpecCreate(t octopus.Table, suffix string) string {
	defs := specDefinitions(t, suffix)
	return "CREATE TABLE IF NOT EXISTS " + t.Name + " (\n" + specLines(defs, len(defs)) + ");\n"
}

func specExport(ts []*octopus.Table, f octopus.TableFilterFn, suffix string, k int) string {
	if k <= 0 {
		return ""
	}
	r := specExport(ts, f, suffix, k-1)
	if f != nil && !f(ts[k-1]) {
		return r
	}
	return r + SpecCreate(*ts[k-1], suffix)
}

func SpecTableOK(t *octopus.Table) bool {
	return t != nil &&
		verifspec.Forall(0, len(t.Columns), func(i int) bool { return t.Columns[i] != nil }) &&
		verifspec.Forall(0, len(t.Indices), func(i int) bool { return t.Indices[i] != nil })
}

func VInv_M01_Commas(v, v_0 []string, k int) bool {
	return len(v) == len(v_0) &&
		verifspec.Forall(0, k, func(i int) bool {
			return (i < len(v_0)-1 && v[i] == v_0[i]+",") || (i >= len(v_0)-1 && v[i] == v_0[i])
		}) &&
		verifspec.Forall(k, len(v), func(i int) bool { return v[i] == v_0[i] })
}

//verif:use (*mysql.Exporter).ToMysqlColumnType by Verif_M01_ColumnType
func specToMysqlColumnType(e *Exporter, col *octopus.Column) string { return SpecColumnType(*col) }

//verif:use (*mysql.Exporter).ColumnConstraints by Verif_M01_Constraints
func specColumnConstraints(e *Exporter, col *octopus.Column) string {
	return SpecConstraintText(*col)
}

// ToMysqlColumnType maps every octopus type to its MySQL type.
func Verif_M01_ColumnType(c octopus.Column) {
	e := &Exporter{option: &ExportOption{}}
	verifspec.Ensures("MySQL column type", e.ToMysqlColumnType(&c) == specToMysqlColumnType(e, &c))
}

func Verif_M01_Constraints(c octopus.Column) {
	e := &Exporter{option: &ExportOption{}}
	verifspec.Ensures("column constraints in order", e.ColumnConstraints(&c) == specColumnConstraints(e, &c))
}

//verif:use (*mysql.Exporter).ExportTable by Verif_M01_Table
//verif:modifies w
func ctExportTable(e *Exporter, w io.Writer, t *octopus.Table) error {
	verifspec.Requires(SpecTableOK(t))
	_, err := w.Write([]byte(SpecCreate(*t, e.option.UniqueNameSuffix)))
	return err
}

// one table becomes one CREATE TABLE statement.
//
//verif:opaque mysql.SpecColumnType mysql.SpecConstraintText
func Verif_M01_Table(t *octopus.Table, f octopus.TableFilterFn, suffix string) {
	verifspec.Requires(SpecTableOK(t))
	e := NewExporter(&octopus.Schema{}, &ExportOption{TableFilter: f, UniqueNameSuffix: suffix})
	buf := new(bytes.Buffer)
	err := e.ExportTable(buf, t)
	verifspec.Ensures("export succeeds", err == nil)
	want := new(bytes.Buffer)
	err2 := ctExportTable(e, want, t)
	verifspec.Ensures("contract", err2 == nil && buf.String() == want.String())
	verifspec.Ensures("the table's CREATE TABLE statement", buf.String() == SpecCreate(*t, suffix))
}

// a schema becomes the statements of its selected tables, in order.
//
//verif:opaque mysql.SpecColumnType mysql.SpecConstraintText
func Verif_M01_Schema(s *octopus.Schema, f octopus.TableFilterFn, suffix string) {
	verifspec.Requires(s != nil)
	verifspec.Requires(verifspec.Forall(0, len(s.Tables), func(i int) bool { return SpecTableOK(s.Tables[i]) }))
	e := NewExporter(s, &ExportOption{TableFilter: f, UniqueNameSuffix: suffix})
	buf := new(bytes.Buffer)
	err := e.Export(buf)
	verifspec.Ensures("export succeeds", err == nil)
	verifspec.Ensures("selected tables in order", buf.String() == specExport(s.Tables, f, suffix, len(s.Tables)))
}
