package quickdbd

import (
	"bytes"
	"strings"

	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

func specRel(r octopus.Reference) string {
	if r.Relationship == octopus.RefOneToMany {
		return "-<"
	}
	if r.Relationship == octopus.RefOneToOne {
		return "-"
	}
	return ">-"
}

func specColumn(c octopus.Column) string {
	s := c.Name + " " + c.Type
	if c.PrimaryKey {
		s += " PK"
	}
	if c.UniqueKey {
		s += " UNIQUE"
	}
	if c.AutoIncremental {
		s += " AUTOINCREMENT"
	}
	if !c.NotNull {
		s += " NULLABLE"
	}
	if c.DefaultValue != "" {
		s += " default=" + c.DefaultValue
	}
	if c.Ref != nil {
		s += " FK " + specRel(*c.Ref) + " " + c.Ref.Table + "." + c.Ref.Column
	}
	if c.Description != "" {
		s += " # " + c.Description
	}
	return s
}

func specColumns(cs []*octopus.Column, k int) []string {
	if k <= 0 {
		return nil
	}
	return append(specColumns(cs, k-1), specColumn(*cs[k-1]))
}

func specHead(t octopus.Table) string {
	if t.Description != "" {
		return t.Name + " # " + t.Description
	}
	return t.Name
}

func specTable(t octopus.Table) []string {
	r := []string{specHead(t), strings.Repeat("-", len(t.Name))}
	r = append(r, specColumns(t.Columns, len(t.Columns))...)
	return append(r, "")
}

func specTables(ts []*octopus.Table, k int) []string {
	if k <= 0 {
		return nil
	}
	return append(specTables(ts, k-1), specTable(*ts[k-1])...)
}

func specTableOK(t *octopus.Table) bool {
	return t != nil && verifspec.Forall(0, len(t.Columns), func(i int) bool { return t.Columns[i] != nil })
}

//verif:use quickdbd.getColumnDef by Verif_E02_Column
func specColumnDef(c *octopus.Column) string { return specColumn(*c) }

func Verif_E02_Column(c octopus.Column) {
	verifspec.Ensures("column line", getColumnDef(&c) == specColumn(c))
}

//verif:opaque quickdbd.specColumn
func Verif_E02_Schema(s *octopus.Schema) {
	verifspec.Requires(s != nil)
	verifspec.Requires(verifspec.Forall(0, len(s.Tables), func(i int) bool { return specTableOK(s.Tables[i]) }))
	e := Exporter{schema: s, option: &ExportOption{}}
	buf := new(bytes.Buffer)
	err := e.Export(buf)
	verifspec.Ensures("export succeeds", err == nil)
	verifspec.Ensures("every table and column, in order", buf.String() == strings.Join(specTables(s.Tables, len(s.Tables)), "\n"))
}
