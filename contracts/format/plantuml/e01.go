package plantuml

import (
	"bytes"
	"strings"

	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

func specRel(r octopus.Reference) string {
	if r.Relationship == octopus.RefOneToMany {
		return "||-o{"
	}
	if r.Relationship == octopus.RefOneToOne {
		return "||-||"
	}
	return "}o-||"
}

func specColumn(c octopus.Column) string {
	s := c.Name + ": " + c.Type
	if c.NotNull {
		s = "* " + s
	}
	if c.PrimaryKey {
		s += " <<PK>>"
	}
	if c.UniqueKey {
		s += " <<UQ>>"
	}
	if c.Ref != nil {
		s += " <<FK>>"
	}
	return s
}

// specPlain: some of the first k columns is not a primary key.
func specPlain(cs []*octopus.Column, k int) bool {
	if k <= 0 {
		return false
	}
	return specPlain(cs, k-1) || !cs[k-1].PrimaryKey
}

// specColumns: the column lines, a separator before the first column that is no primary key.
func specColumns(cs []*octopus.Column, k int) []string {
	if k <= 0 {
		return nil
	}
	r := specColumns(cs, k-1)
	if !cs[k-1].PrimaryKey && !specPlain(cs, k-1) {
		r = append(r, "    --")
	}
	return append(r, "    "+specColumn(*cs[k-1]))
}

func specTables(ts []*octopus.Table, k int) []string {
	if k <= 0 {
		return []string{"@startuml"}
	}
	t := ts[k-1]
	r := append(specTables(ts, k-1), "entity "+t.Name+" {")
	r = append(r, specColumns(t.Columns, len(t.Columns))...)
	return append(r, "}")
}

func specTableRefs(name string, cs []*octopus.Column, k int) []string {
	if k <= 0 {
		return nil
	}
	r := specTableRefs(name, cs, k-1)
	c := cs[k-1]
	if c.Ref == nil {
		return r
	}
	return append(r, name+" "+specRel(*c.Ref)+" "+c.Ref.Table)
}

func specRefs(ts []*octopus.Table, k int) []string {
	if k <= 0 {
		return nil
	}
	t := ts[k-1]
	return append(specRefs(ts, k-1), specTableRefs(t.Name, t.Columns, len(t.Columns))...)
}

func specTableOK(t *octopus.Table) bool {
	return t != nil && verifspec.Forall(0, len(t.Columns), func(i int) bool { return t.Columns[i] != nil })
}

//verif:use plantuml.getColumnDef by Verif_E01_Column
func specColumnDef(c *octopus.Column) string { return specColumn(*c) }

func Verif_E01_Column(c octopus.Column) {
	verifspec.Ensures("column line", getColumnDef(&c) == specColumn(c))
}

//verif:opaque plantuml.specColumn
func Verif_E01_Schema(s *octopus.Schema) {
	verifspec.Requires(s != nil)
	verifspec.Requires(verifspec.Forall(0, len(s.Tables), func(i int) bool { return specTableOK(s.Tables[i]) }))
	g := Generator{schema: s, option: &Option{}}
	buf := new(bytes.Buffer)
	err := g.Generate(buf)
	lines := append(specTables(s.Tables, len(s.Tables)), specRefs(s.Tables, len(s.Tables))...)
	lines = append(lines, "@enduml")
	verifspec.Ensures("generation succeeds", err == nil)
	verifspec.Ensures("entities, then relations, in order", buf.String() == strings.Join(lines, "\n"))
}
