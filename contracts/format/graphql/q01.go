package graphql

import (
	"path"
	"strings"

	"github.com/gertd/go-pluralize"
	"github.com/iancoleman/strcase"
	"github.com/lechuckroh/octopus-db-tools/format/common"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

// specType: the GraphQL type of a column.
func specType(c octopus.Column) string {
	t := "String"
	switch strings.ToLower(c.Type) {
	case "boolean":
		t = "Boolean"
	case "int8", "int16", "int24", "int32", "int64":
		t = "Int"
	case "decimal", "float", "double":
		t = "Float"
	}
	if c.NotNull {
		return t + "!"
	}
	return t
}

func specField(c *octopus.Column) *Field {
	return &Field{Column: c, Name: strcase.ToLowerCamel(c.Name), Type: specType(*c)}
}

//verif:use graphql.NewField by Verif_Q01_Field
func ctNewField(c *octopus.Column) *Field {
	verifspec.Requires(c != nil)
	return specField(c)
}

// a column becomes a field.
func Verif_Q01_Field(c octopus.Column) {
	verifspec.Ensures("the field of the column", verifspec.Eq(NewField(&c), specField(&c)))
}

func specStrip(name string, prefixes []string, k int) string {
	if k <= 0 {
		return name
	}
	return strings.TrimPrefix(specStrip(name, prefixes, k-1), prefixes[k-1])
}

func specClassName(t octopus.Table, prefixes []string, p *common.PrefixMapper) string {
	if t.ClassName != "" {
		return t.ClassName
	}
	return p.GetPrefix(t.Group) + strcase.ToCamel(specStrip(t.Name, prefixes, len(prefixes)))
}

func specKeys(cs []*octopus.Column, k int) int {
	if k <= 0 {
		return 0
	}
	r := specKeys(cs, k-1)
	if cs[k-1].PrimaryKey {
		return r + 1
	}
	return r
}

// specFields: the only key column is the ID.
func specFields(cs []*octopus.Column, k int) []*Field {
	if k <= 0 {
		return nil
	}
	r := specFields(cs, k-1)
	f := specField(cs[k-1])
	if cs[k-1].PrimaryKey && specKeys(cs, len(cs)) == 1 {
		f.Type = "ID!"
	}
	return append(r, f)
}

func specClass(t *octopus.Table, prefixes []string, p *common.PrefixMapper) *Class {
	return &Class{table: t, Name: specClassName(*t, prefixes, p), Fields: specFields(t.Columns, len(t.Columns))}
}

func specTableOK(t *octopus.Table) bool {
	return t != nil && verifspec.Forall(0, len(t.Columns), func(i int) bool { return t.Columns[i] != nil })
}

func specFieldsOK(fs []*Field) bool {
	return verifspec.Forall(0, len(fs), func(i int) bool { return fs[i] != nil })
}

func specClassOK(c *Class) bool { return c != nil && specFieldsOK(c.Fields) }

func VInv_Q01_Classes(v []*Class, k int) bool {
	return verifspec.Forall(0, len(v), func(i int) bool { return specClassOK(v[i]) })
}

//verif:use graphql.NewClass by Verif_Q01_Class
func ctNewClass(t *octopus.Table, o *Option) *Class {
	verifspec.Requires(specTableOK(t) && o != nil && o.PrefixMapper != nil)
	r := specClass(t, o.RemovePrefixes, o.PrefixMapper)
	verifspec.Provides("fields", specClassOK(r))
	return r
}

// a table becomes a class with one field per column.
//
//verif:native-only
func Verif_Q01_Class(t octopus.Table, prefixes []string, p common.PrefixMapper) {
	verifspec.Requires(specTableOK(&t))
	o := &Option{RemovePrefixes: prefixes, PrefixMapper: &p}
	got, want := NewClass(&t, o), specClass(&t, prefixes, &p)
	verifspec.Ensures("class name", got.Name == want.Name)
	verifspec.Ensures("one field per column", verifspec.Eq(got.Fields, want.Fields))
	verifspec.Ensures("nothing else", verifspec.Eq(got, want))
}

func specClasses(ts []*octopus.Table, f octopus.TableFilterFn, prefixes []string, p *common.PrefixMapper, k int) []*Class {
	if k <= 0 {
		return nil
	}
	r := specClasses(ts, f, prefixes, p, k-1)
	if f != nil && !f(ts[k-1]) {
		return r
	}
	return append(r, specClass(ts[k-1], prefixes, p))
}

// specQueries: a query for each selected table.
func specQueries(r []string, ts []*octopus.Table, f octopus.TableFilterFn, prefixes []string, p *common.PrefixMapper, k int) []string {
	if k <= 0 {
		return r
	}
	r = specQueries(r, ts, f, prefixes, p, k-1)
	if f != nil && !f(ts[k-1]) {
		return r
	}
	c := specClass(ts[k-1], prefixes, p)
	return append(r, "  "+pluralize.NewClient().Plural(strcase.ToLowerCamel(c.Name))+": ["+c.Name+"]")
}

func specFieldLines(r []string, fs []*Field, k int) []string {
	if k <= 0 {
		return r
	}
	return append(specFieldLines(r, fs, k-1), "  "+fs[k-1].Name+": "+fs[k-1].Type)
}

func specTypes(r []string, cs []*Class, k int) []string {
	if k <= 0 {
		return r
	}
	c := cs[k-1]
	r = append(specTypes(r, cs, k-1), "type "+c.Name+" {")
	return append(specFieldLines(r, c.Fields, len(c.Fields)), "}", "")
}

func specFile(s octopus.Schema, f octopus.TableFilterFn, prefixes []string, p *common.PrefixMapper) string {
	r := []string{"schema {\n    query: Query\n}\n", "type Query {"}
	r = append(specQueries(r, s.Tables, f, prefixes, p, len(s.Tables)), "}", "")
	cs := specClasses(s.Tables, f, prefixes, p, len(s.Tables))
	return strings.Join(specTypes(r, cs, len(cs)), "\n")
}

// the file has a query and a type for each selected table.
//
//verif:opaque graphql.specClass
func Verif_Q01_Generate(s octopus.Schema, f octopus.TableFilterFn, prefixes []string, p common.PrefixMapper, output string) {
	verifspec.Requires(verifspec.Forall(0, len(s.Tables), func(i int) bool { return specTableOK(s.Tables[i]) }))
	output = verifspec.OutFile(output)
	s.Name, s.Version = verifspec.OutFile(s.Name), verifspec.OutFile(s.Version)
	g := &Generator{schema: &s, option: &Option{TableFilter: f, RemovePrefixes: prefixes, PrefixMapper: &p}}
	files, err := verifspec.Run(func() error { return g.Generate(output) })
	if err == nil {
		verifspec.Ensures("one file", len(files) == 1)
		verifspec.Ensures("named after the schema", files[0].Name == path.Join(output, s.Name+"-"+s.Version+".graphqls"))
		verifspec.Ensures("a query and a type for each selected table", files[0].Content == specFile(s, f, prefixes, &p))
	}
}
