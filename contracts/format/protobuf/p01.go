package protobuf

import (
	"bytes"
	"io"
	"strconv"
	"strings"

	"github.com/iancoleman/strcase"
	"github.com/lechuckroh/octopus-db-tools/format/common"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

const specTimestamp = "google/protobuf/timestamp.proto"

// specType: the protobuf type of a column.
func specType(t string) string {
	switch strings.ToLower(t) {
	case "char", "varchar", "text8", "text16", "text24", "text32":
		return "string"
	case "boolean":
		return "bool"
	case "int8", "int16", "int24", "int32":
		return "int32"
	case "int64":
		return "int64"
	case "decimal", "double":
		return "double"
	case "float":
		return "float"
	case "datetime":
		return "google.protobuf.Timestamp"
	}
	return t
}

func specFieldImport(t string) string {
	if strings.ToLower(t) == "datetime" {
		return specTimestamp
	}
	return ""
}

func specField(tag int, c octopus.Column) *PbField {
	return &PbField{Type: specType(c.Type), Name: strcase.ToLowerCamel(c.Name), Tag: tag, Rule: "optional",
		Comment: c.Description, Default: c.DefaultValue, Import: specFieldImport(c.Type)}
}

//verif:use protobuf.newPbField by Verif_P01_Field
func ctNewPbField(tag int, c *octopus.Column) *PbField { return specField(tag, *c) }

// a column becomes a field.
func Verif_P01_Field(tag int, c octopus.Column) {
	verifspec.Ensures("the field of the column", verifspec.Eq(newPbField(tag, &c), ctNewPbField(tag, &c)))
}

func specStrip(name string, prefixes []string, k int) string {
	if k <= 0 {
		return name
	}
	return strings.TrimPrefix(specStrip(name, prefixes, k-1), prefixes[k-1])
}

func specMessageName(t octopus.Table, prefixes []string, p *common.PrefixMapper) string {
	name := strcase.ToCamel(specStrip(t.Name, prefixes, len(prefixes)))
	if p == nil {
		return name
	}
	return p.GetPrefix(t.Group) + name
}

//verif:use (*protobuf.Generator).getMessageName by Verif_P01_Name
func ctGetMessageName(g *Generator, t *octopus.Table) string {
	return specMessageName(*t, g.option.RemovePrefixes, g.option.PrefixMapper)
}

// the message name is the camel case table name without the prefixes to remove, after the prefix of its group.
func Verif_P01_Name(t octopus.Table, prefixes []string, prefix string) {
	g := newGenerator(&octopus.Schema{}, &Option{RemovePrefixes: prefixes, PrefixMapper: common.NewPrefixMapper(prefix)})
	verifspec.Ensures("message name", g.getMessageName(&t) == ctGetMessageName(g, &t))
	g.option.PrefixMapper = nil
	verifspec.Ensures("message name without prefixes", g.getMessageName(&t) == ctGetMessageName(g, &t))
}

func specFields(cs []*octopus.Column, k int) []*PbField {
	if k <= 0 {
		return nil
	}
	return append(specFields(cs, k-1), specField(k, *cs[k-1]))
}

// specRelations: one field per reference to a table of the schema (tags follow).
func specRelations(s octopus.Schema, prefixes []string, p *common.PrefixMapper, cs []*octopus.Column, k int) []*PbRelation {
	if k <= 0 {
		return nil
	}
	r := specRelations(s, prefixes, p, cs, k-1)
	ref := cs[k-1].Ref
	if ref == nil {
		return r
	}
	t := octopus.SpecTableNamed(&s, ref.Table)
	if t == nil {
		return r
	}
	name := specMessageName(*t, prefixes, p)
	return append(r, &PbRelation{Type: name, Name: strcase.ToLowerCamel(name), Tag: -1, Repeated: ref.Relationship == "1:n"})
}

// specTagStart: the tag of the first relation; all relation tags lie behind the tags of the fields.
func specTagStart(start int, decr bool, fields, n int) int {
	if decr {
		if start-n+1 <= fields {
			return fields + n
		}
		return start
	}
	if start <= fields {
		return fields + 1
	}
	return start
}

func specTag(start int, decr bool, fields, n, i int) int {
	if decr {
		return specTagStart(start, decr, fields, n) - i
	}
	return specTagStart(start, decr, fields, n) + i
}

func specTagged(rs []*PbRelation, start int, decr bool, fields, k int) []*PbRelation {
	if k <= 0 {
		return nil
	}
	r := *rs[k-1]
	r.Tag = specTag(start, decr, fields, len(rs), k-1)
	return append(specTagged(rs, start, decr, fields, k-1), &r)
}

func specImports(cs []*octopus.Column, k int) map[string]bool {
	if k <= 0 {
		return map[string]bool{}
	}
	m := specImports(cs, k-1)
	if imp := specFieldImport(cs[k-1].Type); imp != "" {
		m[imp] = true
	}
	return m
}

func specMessage(s octopus.Schema, prefixes []string, p *common.PrefixMapper, start int, decr bool, t octopus.Table) *PbMessage {
	n := len(t.Columns)
	return &PbMessage{
		Name:      specMessageName(t, prefixes, p),
		Fields:    specFields(t.Columns, n),
		Relations: specTagged(specRelations(s, prefixes, p, t.Columns, n), start, decr, n, len(specRelations(s, prefixes, p, t.Columns, n))),
		Imports:   verifspec.SortedKeys(specImports(t.Columns, n)),
	}
}

// the tags of the relations are set one by one
func VInv_P01_Tags(v, v_0 []*PbRelation, start int, decr bool, t octopus.Table, k int) bool {
	return len(v) == len(v_0) &&
		verifspec.Forall(0, len(v), func(i int) bool {
			return v[i] != nil && v[i].Type == v_0[i].Type && v[i].Name == v_0[i].Name && v[i].Repeated == v_0[i].Repeated
		}) &&
		verifspec.Forall(0, k, func(i int) bool { return v[i].Tag == specTag(start, decr, len(t.Columns), len(v_0), i) })
}

func specTableOK(t *octopus.Table) bool {
	return t != nil && verifspec.Forall(0, len(t.Columns), func(i int) bool { return t.Columns[i] != nil })
}

//verif:use (*protobuf.Generator).newPbMessage by Verif_P01_Message
func ctNewPbMessage(g *Generator, t *octopus.Table) *PbMessage {
	verifspec.Requires(specTableOK(t) && g.schema != nil && specSchemaOK(g.schema) && g.option != nil)
	return specMessage(*g.schema, g.option.RemovePrefixes, g.option.PrefixMapper, g.option.RelationTagStart, g.option.RelationTagDecr, *t)
}

func specSchemaOK(s *octopus.Schema) bool {
	return verifspec.Forall(0, len(s.Tables), func(i int) bool { return specTableOK(s.Tables[i]) })
}

// a table becomes a message.
//
//verif:opaque protobuf.specType protobuf.specMessageName
func Verif_P01_Message(s octopus.Schema, t octopus.Table, prefixes []string, p *common.PrefixMapper, start int, decr bool) {
	verifspec.Requires(specTableOK(&t) && specSchemaOK(&s))
	g := newGenerator(&s, &Option{RemovePrefixes: prefixes, PrefixMapper: p, RelationTagStart: start, RelationTagDecr: decr})
	got := g.newPbMessage(&t)
	want := ctNewPbMessage(g, &t)
	verifspec.Ensures("message name", got.Name == want.Name)
	verifspec.Ensures("one field per column", verifspec.Eq(got.Fields, want.Fields))
	verifspec.Ensures("one field per reference", verifspec.Eq(got.Relations, want.Relations))
	verifspec.Ensures("imports", verifspec.Eq(got.Imports, want.Imports))
	verifspec.Ensures("nothing else", verifspec.Eq(got, want))
}

// field numbers are never used twice: relations lie behind the fields and differ from each other.
func Verif_P01_Tags(start int, decr bool, fields, n, i, j int) {
	verifspec.Requires(0 <= i && i < j && j < n && fields >= 0)
	a, b := specTag(start, decr, fields, n, i), specTag(start, decr, fields, n, j)
	verifspec.Ensures("behind the fields", a > fields && b > fields)
	verifspec.Ensures("different", a != b)
}

// ---- the file

func specAdd(m map[string]bool, xs []string, k int) map[string]bool {
	if k <= 0 {
		return m
	}
	r := specAdd(m, xs, k-1)
	r[xs[k-1]] = true
	return r
}

func specAllImports(ms []*PbMessage, k int) map[string]bool {
	if k <= 0 {
		return map[string]bool{}
	}
	return specAdd(specAllImports(ms, k-1), ms[k-1].Imports, len(ms[k-1].Imports))
}

func specMessages(s octopus.Schema, prefixes []string, p *common.PrefixMapper, start int, decr bool, ts []*octopus.Table, f octopus.TableFilterFn, k int) []*PbMessage {
	if k <= 0 {
		return nil
	}
	r := specMessages(s, prefixes, p, start, decr, ts, f, k-1)
	if f != nil && !f(ts[k-1]) {
		return r
	}
	return append(r, specMessage(s, prefixes, p, start, decr, *ts[k-1]))
}

func specImportText(xs []string, k int) string {
	if k <= 0 {
		return ""
	}
	return specImportText(xs, k-1) + "\nimport \"" + xs[k-1] + "\";\n"
}

func specFieldText(fs []*PbField, k int) string {
	if k <= 0 {
		return ""
	}
	f := fs[k-1]
	return specFieldText(fs, k-1) + "\n  " + f.Type + " " + f.Name + " = " + strconv.Itoa(f.Tag) + ";"
}

func specRelationText(rs []*PbRelation, k int) string {
	if k <= 0 {
		return ""
	}
	r := rs[k-1]
	repeated := ""
	if r.Repeated {
		repeated = "repeated "
	}
	return specRelationText(rs, k-1) + "\n  " + repeated + r.Type + " " + r.Name + " = " + strconv.Itoa(r.Tag) + ";"
}

func specMessageText(ms []*PbMessage, k int) string {
	if k <= 0 {
		return ""
	}
	m := ms[k-1]
	return specMessageText(ms, k-1) + "\nmessage " + m.Name + " {" + specFieldText(m.Fields, len(m.Fields)) +
		specRelationText(m.Relations, len(m.Relations)) + "\n}\n"
}

func specProto(ms []*PbMessage, pkg, goPkg string) string {
	r := "syntax = \"proto3\";\n\n"
	if pkg != "" {
		r += "package " + pkg + ";"
	}
	r += "\n"
	if goPkg != "" {
		r += "\noption go_package = \"" + goPkg + "\";\n"
	}
	imports := verifspec.SortedKeys(specAllImports(ms, len(ms)))
	return r + specImportText(imports, len(imports)) + specMessageText(ms, len(ms))
}

// the text of the file: package, go package option, imports, messages.
func Verif_P01_Text(ms []*PbMessage, pkg, goPkg string) {
	verifspec.Requires(verifspec.Forall(0, len(ms), func(i int) bool {
		return ms[i] != nil && verifspec.Forall(0, len(ms[i].Fields), func(j int) bool { return ms[i].Fields[j] != nil }) &&
			verifspec.Forall(0, len(ms[i].Relations), func(j int) bool { return ms[i].Relations[j] != nil })
	}))
	g := newGenerator(&octopus.Schema{}, &Option{})
	buf := new(bytes.Buffer)
	err := g.generateProto(buf, ms, pkg, goPkg)
	verifspec.Ensures("generation succeeds", err == nil)
	verifspec.Ensures("the file", buf.String() == specProto(ms, pkg, goPkg))
}

//verif:use (*protobuf.Generator).generateProto by Verif_P01_Text
//verif:modifies wr
func ctGenerateProto(g *Generator, wr io.Writer, ms []*PbMessage, pkg, goPkg string) error {
	_, err := wr.Write([]byte(specProto(ms, pkg, goPkg)))
	return err
}

// the file has a message for each selected table, in schema order.
//
//verif:opaque protobuf.specMessage protobuf.specProto
func Verif_P01_Schema(s octopus.Schema, f octopus.TableFilterFn, prefixes []string, p *common.PrefixMapper, start int, decr bool, pkg, goPkg string) {
	verifspec.Requires(specSchemaOK(&s))
	o := Option{RemovePrefixes: prefixes, PrefixMapper: p, TableFilter: f, RelationTagStart: start, RelationTagDecr: decr, Package: pkg, GoPackage: goPkg}
	g := newGenerator(&s, &o)
	buf := new(bytes.Buffer)
	err := g.Generate(buf)
	verifspec.Ensures("generation succeeds", err == nil)
	verifspec.Ensures("one message per selected table", buf.String() == specProto(specMessages(s, prefixes, p, start, decr, s.Tables, f, len(s.Tables)), pkg, goPkg))
}

// the last tag is the number of the columns seen
func VInv_P01_MaxTag(v int, k int) bool { return v == k }
