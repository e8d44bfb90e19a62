package dbml

import (
	"bytes"
	"strconv"
	"strings"

	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

func specRel(r octopus.Reference) string {
	if r.Relationship == octopus.RefOneToMany {
		return "<"
	}
	if r.Relationship == octopus.RefOneToOne {
		return "-"
	}
	return ">"
}

func specType(c octopus.Column) string {
	if c.Size == 0 {
		return c.Type
	}
	if c.Scale == 0 {
		return c.Type + "(" + strconv.Itoa(int(c.Size)) + ")"
	}
	return c.Type + "(" + strconv.Itoa(int(c.Size)) + "," + strconv.Itoa(int(c.Scale)) + ")"
}

func specDefault(c octopus.Column) string {
	l := strings.ToLower(c.Type)
	if strings.Contains(l, "char") || strings.Contains(l, "string") {
		return "'" + c.DefaultValue + "'"
	}
	return c.DefaultValue
}

// specSettings: the settings of a column; inline: its reference is written here.
func specSettings(c octopus.Column, inline bool) []string {
	var r []string
	if c.PrimaryKey {
		r = append(r, "pk")
	}
	if c.UniqueKey {
		r = append(r, "unique")
	}
	if c.NotNull {
		r = append(r, "not null")
	}
	if c.DefaultValue != "" {
		r = append(r, "default: "+specDefault(c))
	}
	if c.Ref != nil && inline {
		r = append(r, "ref: "+specRel(*c.Ref)+" "+c.Ref.Table+"."+c.Ref.Column)
	}
	if c.Description != "" {
		r = append(r, "note: \""+c.Description+"\"")
	}
	return r
}

func specColumn(c octopus.Column, inline bool) string {
	s := "  " + c.Name + " " + specType(c)
	ps := specSettings(c, inline)
	if len(ps) == 0 {
		return s
	}
	return s + " [" + strings.Join(ps, ", ") + "]"
}

func specSelected(t *octopus.Table, f octopus.TableFilterFn) bool { return f == nil || f(t) }

// specDefined: the tables written before table k.
func specDefined(ts []*octopus.Table, f octopus.TableFilterFn, k int) map[string]bool {
	if k <= 0 {
		return map[string]bool{}
	}
	m := specDefined(ts, f, k-1)
	if specSelected(ts[k-1], f) {
		m[ts[k-1].Name] = true
	}
	return m
}

func specInline(c octopus.Column, defined map[string]bool) bool {
	return c.Ref != nil && defined[c.Ref.Table]
}

func specColumns(cs []*octopus.Column, defined map[string]bool, k int) []string {
	if k <= 0 {
		return nil
	}
	return append(specColumns(cs, defined, k-1), specColumn(*cs[k-1], specInline(*cs[k-1], defined)))
}

func specTables(ts []*octopus.Table, f octopus.TableFilterFn, k int) []string {
	if k <= 0 {
		return nil
	}
	r := specTables(ts, f, k-1)
	t := ts[k-1]
	if !specSelected(t, f) {
		return r
	}
	r = append(r, "Table "+t.Name+" {")
	r = append(r, specColumns(t.Columns, specDefined(ts, f, k-1), len(t.Columns))...)
	return append(r, "}", "")
}

func specLaterRefs(name string, cs []*octopus.Column, defined map[string]bool, k int) []string {
	if k <= 0 {
		return nil
	}
	r := specLaterRefs(name, cs, defined, k-1)
	c := cs[k-1]
	if c.Ref == nil || specInline(*c, defined) {
		return r
	}
	return append(r, "Ref: "+name+"."+c.Name+" "+specRel(*c.Ref)+" "+c.Ref.Table+"."+c.Ref.Column)
}

func specRefs(ts []*octopus.Table, f octopus.TableFilterFn, k int) []string {
	if k <= 0 {
		return nil
	}
	r := specRefs(ts, f, k-1)
	t := ts[k-1]
	if !specSelected(t, f) {
		return r
	}
	return append(r, specLaterRefs(t.Name, t.Columns, specDefined(ts, f, k-1), len(t.Columns))...)
}

func specTableOK(t *octopus.Table) bool {
	return t != nil && verifspec.Forall(0, len(t.Columns), func(i int) bool { return t.Columns[i] != nil })
}

func Verif_E03_Schema(s *octopus.Schema, f octopus.TableFilterFn) {
	verifspec.Requires(s != nil)
	verifspec.Requires(verifspec.Forall(0, len(s.Tables), func(i int) bool { return specTableOK(s.Tables[i]) }))
	e := Exporter{schema: s, option: &Option{TableFilter: f}}
	buf := new(bytes.Buffer)
	err := e.Export(buf)
	n := len(s.Tables)
	lines := append(specTables(s.Tables, f, n), strings.Join(specRefs(s.Tables, f, n), "\n"))
	verifspec.Ensures("export succeeds", err == nil)
	verifspec.Ensures("tables, then the remaining references", buf.String() == strings.Join(lines, "\n"))
}
