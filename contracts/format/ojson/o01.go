package ojson

import (
	"encoding/json"
	"sort"
	"strings"

	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

// specCanon: the type of a version 1 column, "" when the type is not known.
func specCanon(t string) string {
	switch strings.ToLower(t) {
	case "string", "varchar", "char":
		return "string"
	case "int", "integer", "smallint":
		return "int"
	case "bigint", "long":
		return "long"
	case "datetime":
		return "datetime"
	case "bool", "boolean":
		return "boolean"
	case "number", "double", "decimal":
		return "decimal"
	case "float":
		return "float"
	case "text":
		return "text"
	case "date":
		return "date"
	case "time":
		return "time"
	case "blob":
		return "blob"
	}
	return ""
}

// specCanonOf is specCanon under a name contracts can keep opaque.
func specCanonOf(t string) string { return specCanon(t) }

// specNorm: the column as normalisation leaves it.
func specNorm(c Column) Column {
	r := c
	if specCanonOf(c.Type) == "" {
		return r
	}
	r.Type = specCanonOf(c.Type)
	r.AutoIncremental = c.AutoIncremental && (r.Type == "int" || r.Type == "long")
	return r
}

func specImported(c Column) octopus.Column {
	r := octopus.Column{
		Name: c.Name, Type: c.Type, Description: c.Description, Size: c.Size, Scale: c.Scale, NotNull: c.NotNull,
		PrimaryKey: c.PrimaryKey, UniqueKey: c.UniqueKey, AutoIncremental: c.AutoIncremental, DefaultValue: c.DefaultValue,
	}
	if c.Ref != nil {
		r.Ref = &octopus.Reference{Table: c.Ref.Table, Column: c.Ref.Column}
	}
	return r
}

func specShape(ts []*Table) bool {
	return verifspec.Forall(0, len(ts), func(i int) bool {
		return ts[i] != nil && verifspec.Forall(0, len(ts[i].Columns), func(j int) bool { return ts[i].Columns[j] != nil })
	})
}

func specSameHead(a, b *Table) bool {
	return a.Name == b.Name && a.Group == b.Group && a.Description == b.Description && a.ClassName == b.ClassName && len(a.Columns) == len(b.Columns)
}

func specNormTable(a, b *Table, k int) bool {
	return a != nil && specSameHead(a, b) &&
		verifspec.Forall(0, k, func(j int) bool { return a.Columns[j] != nil && verifspec.Eq(*a.Columns[j], specNorm(*b.Columns[j])) }) &&
		verifspec.Forall(k, len(b.Columns), func(j int) bool { return verifspec.Eq(a.Columns[j], b.Columns[j]) })
}

func specSameColumns(a, b *Table) bool {
	return verifspec.Forall(0, len(b.Columns), func(j int) bool { return verifspec.Eq(a.Columns[j], b.Columns[j]) })
}

func VInv_O01_Tables(v, v_0 []*Table, k int) bool {
	return len(v) == len(v_0) &&
		verifspec.Forall(0, k, func(i int) bool { return specNormTable(v[i], v_0[i], len(v_0[i].Columns)) }) &&
		verifspec.Forall(k, len(v), func(i int) bool { return specSameColumns(v[i], v_0[i]) })
}

func VInv_O01_Columns(v, v_0 []*Table, t int, k int) bool {
	return 0 <= t && t < len(v_0) && len(v) == len(v_0) && k <= len(v_0[t].Columns) && specNormTable(v[t], v_0[t], k) &&
		verifspec.Forall(0, len(v), func(i int) bool { return i == t || specSameColumns(v[i], v_0[i]) })
}

func specImportedColumns(cs []*Column, k int) []*octopus.Column {
	if k <= 0 {
		return nil
	}
	c := specImported(*cs[k-1])
	return append(specImportedColumns(cs, k-1), &c)
}

func specImportedTable(t Table) octopus.Table {
	return octopus.Table{Name: t.Name, Description: t.Description, Group: t.Group, ClassName: t.ClassName, Columns: specImportedColumns(t.Columns, len(t.Columns))}
}

func specImportedTables(ts []*Table, k int) []*octopus.Table {
	if k <= 0 {
		return nil
	}
	t := specImportedTable(*ts[k-1])
	return append(specImportedTables(ts, k-1), &t)
}

//verif:use (*ojson.Importer).fromOjsonTable by Verif_O01_Table
func ctFromOjsonTable(c *Importer, t *Table) *octopus.Table {
	verifspec.Requires(t != nil && verifspec.Forall(0, len(t.Columns), func(j int) bool { return t.Columns[j] != nil }))
	r := specImportedTable(*t)
	return &r
}

// one table with all its columns
func Verif_O01_Table(t *Table) {
	verifspec.Requires(verifspec.Forall(0, len(t.Columns), func(j int) bool { return t.Columns[j] != nil }))
	c := &Importer{option: &ImportOption{}}
	verifspec.Ensures("every attribute and column", verifspec.Eq(c.fromOjsonTable(t), ctFromOjsonTable(c, t)))
}

// specResult: table a is table b of the file, normalised and imported.
func specResult(a *octopus.Table, b *Table) bool {
	return a != nil && a.Name == b.Name && a.Group == b.Group && a.Description == b.Description && a.ClassName == b.ClassName &&
		len(a.Indices) == 0 && len(a.Columns) == len(b.Columns) &&
		verifspec.Forall(0, len(b.Columns), func(j int) bool {
			return a.Columns[j] != nil && verifspec.Eq(*a.Columns[j], specImported(specNorm(*b.Columns[j])))
		})
}

func Verif_O01_Less(s TableSlice, i, j int) {
	verifspec.Requires(0 <= i && i < len(s) && 0 <= j && j < len(s))
	verifspec.Requires(s[i] != nil && s[j] != nil)
	want := s[i].Group < s[j].Group || (s[i].Group == s[j].Group && s[i].Name < s[j].Name)
	verifspec.Ensures("group first, then name", s.Less(i, j) == want)
}

func Verif_O01_Keys() {
	verifspec.Ensures("schema keys", verifspec.JSONKeys(Schema{}) == "Author=author,omitempty Name=name,omitempty Version=version,omitempty Tables=tables,omitempty")
	verifspec.Ensures("table keys", verifspec.JSONKeys(Table{}) == "Name=name,omitempty Columns=columns,omitempty Description=desc,omitempty Group=group,omitempty ClassName=className,omitempty")
	verifspec.Ensures("column keys", verifspec.JSONKeys(Column{}) == "Name=name Type=type Description=description,omitempty Size=size,omitempty Scale=scale,omitempty NotNull=notnull,omitempty PrimaryKey=pk,omitempty UniqueKey=unique,omitempty AutoIncremental=autoinc,omitempty DefaultValue=default,omitempty Ref=ref,omitempty")
	verifspec.Ensures("reference keys", verifspec.JSONKeys(Reference{}) == "Table=table,omitempty Column=column,omitempty")
}

// a version 1 file is imported completely, columns normalised, tables sorted.
//
//verif:opaque ojson.specCanonOf
func Verif_O01_Import(s *Schema) {
	verifspec.Requires(specShape(s.Tables))
	verifspec.Requires(verifspec.Forall(0, len(s.Tables), func(i int) bool {
		return verifspec.Forall(0, len(s.Tables[i].Columns), func(j int) bool { return s.Tables[i].Columns[j].Name != "" })
	}))
	data, _ := json.Marshal(s)
	verifspec.Input("in/v1.ojson", data)
	sorted := verifspec.Clone(s.Tables).([]*Table)
	sort.Sort(TableSlice(sorted))
	got, err := (&Importer{option: &ImportOption{}}).ImportFile("in/v1.ojson")
	verifspec.Ensures("import succeeds", err == nil)
	verifspec.Ensures("author, name and version", got.Author == s.Author && got.Name == s.Name && got.Version == s.Version)
	verifspec.Ensures("no table appears or vanishes", len(got.Tables) == len(sorted))
	verifspec.Ensures("every table and column", verifspec.Forall(0, len(sorted), func(i int) bool { return specResult(got.Tables[i], sorted[i]) }))
}

//verif:use ojson.normalizeColumnType by Verif_O01_Type
func ctNormalizeColumnType(c *Column) (string, bool) {
	if t := specCanonOf(c.Type); t != "" {
		return t, true
	}
	return strings.ToLower(c.Type), false
}

// the canonical type of every type name
func Verif_O01_Type(c *Column) {
	got, ok := normalizeColumnType(c)
	want, wantOK := ctNormalizeColumnType(c)
	verifspec.Ensures("known types", ok == wantOK)
	verifspec.Ensures("canonical name", got == want)
}

func VInv_O01_Imported(v []*octopus.Table, ts []*Table, k int) bool {
	return verifspec.Eq(v, specImportedTables(ts, k))
}
