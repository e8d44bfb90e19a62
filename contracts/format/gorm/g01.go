package gorm

import (
	"bytes"
	"io"
	"regexp"
	"strconv"
	"strings"

	"github.com/iancoleman/strcase"
	"github.com/lechuckroh/octopus-db-tools/format/common"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/util"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

// ---- fields

// specType: the Go type of a column and what it imports.
func specType(c octopus.Column) (string, string) {
	null := func(nullable, plain string) (string, string) {
		if c.NotNull {
			return plain, ""
		}
		return nullable, "gopkg.in/guregu/null.v4"
	}
	switch strings.ToLower(c.Type) {
	case "char", "varchar", "text8", "text16", "text24", "text32":
		return null("null.String", "string")
	case "boolean":
		return null("null.Bool", "bool")
	case "int8":
		return null("null.Int", "int8")
	case "int16":
		return null("null.Int", "int16")
	case "int24", "int32":
		return null("null.Int", "int32")
	case "int64":
		return null("null.Int", "int64")
	case "decimal":
		if c.NotNull {
			return "decimal.Decimal", "github.com/shopspring/decimal"
		}
		return "decimal.NullDecimal", "github.com/shopspring/decimal"
	case "float":
		return null("null.Float", "float32")
	case "double":
		return null("null.Float", "float64")
	case "datetime", "date", "time":
		if c.NotNull {
			return "time.Time", "time"
		}
		return null("null.Time", "")
	case "blob8", "blob16", "blob24", "blob32":
		return "[]byte", ""
	case "bit":
		if c.NotNull {
			return "byte", ""
		}
		return "*byte", ""
	case "enum":
		return "string", ""
	}
	return "interface{}", ""
}

// specFieldName: upper camel case, ID instead of Id at the end, no digit in front.
func specFieldName(column string) (string, bool) {
	name, ok := util.ToUpperCamel(column)
	if strings.HasSuffix(name, "Id") {
		name = strings.TrimSuffix(name, "Id") + "ID"
	}
	if digit, _ := regexp.MatchString(`^\d+.*$`, name); digit {
		return "_" + name, true
	}
	return name, !ok
}

func specName(column string) string { name, _ := specFieldName(column); return name }

func specOverride(column string) bool { _, override := specFieldName(column); return override }

func specGoType(c octopus.Column) string { t, _ := specType(c); return t }

func specImports(c octopus.Column) []string {
	if _, imp := specType(c); imp != "" {
		return []string{imp}
	}
	return []string{}
}

func specField(c octopus.Column) *GoField {
	return &GoField{Column: &c, Name: specName(c.Name), Type: specGoType(c), OverrideName: specOverride(c.Name), Imports: specImports(c)}
}

//verif:use gorm.NewGoField by Verif_G01_Field
func ctNewGoField(c *octopus.Column) *GoField { return specField(*c) }

// a column becomes a field.
func Verif_G01_Field(c octopus.Column) {
	got, want := NewGoField(&c), specField(c)
	verifspec.Ensures("name", got.Name == want.Name && got.OverrideName == want.OverrideName)
	verifspec.Ensures("type", got.Type == want.Type)
	verifspec.Ensures("imports", verifspec.Eq(got.Imports, want.Imports))
	verifspec.Ensures("column", verifspec.Eq(got.Column, &c))
}

// ---- structs

func specStrip(name string, prefixes []string, k int) string {
	if k <= 0 {
		return name
	}
	return strings.TrimPrefix(specStrip(name, prefixes, k-1), prefixes[k-1])
}

func specStructName(t octopus.Table, prefixes []string, p *common.PrefixMapper) string {
	if t.ClassName != "" {
		return t.ClassName
	}
	return p.GetPrefix(t.Group) + strcase.ToCamel(specStrip(t.Name, prefixes, len(prefixes)))
}

//verif:use (*gorm.GoStructProcessor).StructName by Verif_G01_Name
func ctStructName(c *GoStructProcessor, t *octopus.Table) string {
	verifspec.Requires(c.option != nil && c.option.PrefixMapper != nil)
	return specStructName(*t, c.option.RemovePrefixes, c.option.PrefixMapper)
}

// the struct is named after the class name or the table without prefixes.
func Verif_G01_Name(t octopus.Table, prefixes []string, p common.PrefixMapper) {
	c := GoStructProcessor{option: &Option{RemovePrefixes: prefixes, PrefixMapper: &p}}
	verifspec.Ensures("struct name", c.StructName(&t) == ctStructName(&c, &t))
}

func specHasAll(set map[string]bool, names []string) bool {
	return verifspec.Forall(0, len(names), func(i int) bool { _, ok := set[names[i]]; return ok })
}

func specWithout(set map[string]bool, names []string, k int) map[string]bool {
	if k <= 0 {
		return set
	}
	r := specWithout(set, names, k-1)
	delete(r, names[k-1])
	return r
}

// specLeft: the columns the first k models leave.
func specLeft(fs []*GoField, models EmbeddedModels, names []string, k int) map[string]bool {
	if k <= 0 {
		return specColumnNames(fs, len(fs))
	}
	r := specLeft(fs, models, names, k-1)
	cols := models[names[k-1]].ColumnNames
	if len(cols) > 0 && specHasAll(r, cols) {
		return specWithout(r, cols, len(cols))
	}
	return r
}

// specEmbedded: the models among the first k which find all their columns.
func specEmbedded(fs []*GoField, models EmbeddedModels, names []string, k int) EmbeddedModels {
	if k <= 0 {
		return EmbeddedModels{}
	}
	r := specEmbedded(fs, models, names, k-1)
	cols := models[names[k-1]].ColumnNames
	if len(cols) > 0 && specHasAll(specLeft(fs, models, names, k-1), cols) {
		r[names[k-1]] = models[names[k-1]]
	}
	return r
}

func specColumnNames(fs []*GoField, k int) map[string]bool {
	if k <= 0 {
		return map[string]bool{}
	}
	r := specColumnNames(fs, k-1)
	r[fs[k-1].Column.Name] = true
	return r
}

func specExtract(models EmbeddedModels, fs []*GoField) EmbeddedModels {
	names := verifspec.SortedKeys(models)
	return specEmbedded(fs, models, names, len(names))
}

func specFieldsOK(fs []*GoField) bool {
	return verifspec.Forall(0, len(fs), func(i int) bool { return fs[i] != nil && fs[i].Column != nil })
}

//verif:use gorm.extractEmbeddedModels by Verif_G01_Embedded
func ctExtractEmbeddedModels(fs []*GoField) EmbeddedModels {
	verifspec.Requires(specFieldsOK(fs))
	return specExtract(embeddedModels, fs)
}

// in name order, each model is embedded that finds all its columns among those not yet embedded.
func Verif_G01_Embedded(models EmbeddedModels, fs []*GoField) {
	verifspec.Requires(specFieldsOK(fs))
	embeddedModels = models
	verifspec.Ensures("embedded models", verifspec.Eq(extractEmbeddedModels(fs), specExtract(models, fs)))
}

func specContains(names []string, name string, k int) bool {
	return verifspec.Exists(0, k, func(i int) bool { return names[i] == name })
}

//verif:use (gorm.EmbeddedModel).Contains by Verif_G01_Contains
func ctContains(m EmbeddedModel, name string) bool {
	return specContains(m.ColumnNames, name, len(m.ColumnNames))
}

func VInv_G01_NotSeen(k int, m EmbeddedModel, name string) bool {
	return !specContains(m.ColumnNames, name, k)
}

func Verif_G01_Contains(m EmbeddedModel, name string) {
	verifspec.Ensures("one of the columns", m.Contains(name) == specContains(m.ColumnNames, name, len(m.ColumnNames)))
}

func specTaken(m EmbeddedModels, names []string, name string, k int) bool {
	return verifspec.Exists(0, k, func(i int) bool {
		return specContains(m[names[i]].ColumnNames, name, len(m[names[i]].ColumnNames))
	})
}

func VInv_G01_NotTaken(k int, xs []string, models EmbeddedModels, name string) bool {
	return !specTaken(models, xs, name, k)
}

//verif:use (gorm.EmbeddedModels).ContainsColumnName by Verif_G01_Taken
func ctContainsColumnName(m EmbeddedModels, name string) bool {
	names := verifspec.SortedKeys(m)
	return specTaken(m, names, name, len(names))
}

// a column is embedded when one of the models has it.
func Verif_G01_Taken(models EmbeddedModels, name string) {
	verifspec.Ensures("one of the models", models.ContainsColumnName(name) == ctContainsColumnName(models, name))
}

func specFields(cs []*octopus.Column, k int) []*GoField {
	if k <= 0 {
		return nil
	}
	return append(specFields(cs, k-1), specField(*cs[k-1]))
}

func specPKs(cs []*octopus.Column, k int) []*GoField {
	if k <= 0 {
		return nil
	}
	r := specPKs(cs, k-1)
	if cs[k-1].PrimaryKey {
		r = append(r, specField(*cs[k-1]))
	}
	return r
}

func specUniques(cs []*octopus.Column, k int) []*GoField {
	if k <= 0 {
		return nil
	}
	r := specUniques(cs, k-1)
	if cs[k-1].UniqueKey {
		r = append(r, specField(*cs[k-1]))
	}
	return r
}

// specAssociations: one field per reference to a column of the schema.
func specAssociations(s octopus.Schema, prefixes []string, p *common.PrefixMapper, cs []*octopus.Column, k int) []*GoAssocationField {
	if k <= 0 {
		return nil
	}
	r := specAssociations(s, prefixes, p, cs, k-1)
	ref := cs[k-1].Ref
	if ref == nil {
		return r
	}
	t := octopus.SpecTableNamed(&s, ref.Table)
	if t == nil {
		return r
	}
	c := octopus.SpecColumnNamed(t, ref.Column)
	if c == nil {
		return r
	}
	name := specStructName(*t, prefixes, p)
	return append(r, &GoAssocationField{Name: name, Type: name, Array: ref.Relationship == "1:n",
		ForeignKey: specField(*cs[k-1]).Name, Reference: specField(*c).Name})
}

func specRest(fs []*GoField, m EmbeddedModels, k int) []*GoField {
	if k <= 0 {
		return nil
	}
	r := specRest(fs, m, k-1)
	if !ctContainsColumnName(m, fs[k-1].Column.Name) {
		r = append(r, fs[k-1])
	}
	return r
}

func specStruct(s octopus.Schema, prefixes []string, p *common.PrefixMapper, models EmbeddedModels, t *octopus.Table) *GoStruct {
	n := len(t.Columns)
	fs := specFields(t.Columns, n)
	m := specExtract(models, fs)
	return &GoStruct{table: t, Name: specStructName(*t, prefixes, p), EmbeddedModelNames: verifspec.SortedKeys(m),
		Fields: specRest(fs, m, n), PKFields: specPKs(t.Columns, n), UniqueFields: specUniques(t.Columns, n),
		AssociationFields: specAssociations(s, prefixes, p, t.Columns, n)}
}

func specTableOK(t *octopus.Table) bool {
	return t != nil && verifspec.Forall(0, len(t.Columns), func(i int) bool { return t.Columns[i] != nil })
}

func specSchemaOK(s *octopus.Schema) bool {
	return verifspec.Forall(0, len(s.Tables), func(i int) bool { return specTableOK(s.Tables[i]) })
}

func VInv_G01_Fields(v []*GoField, k int) bool { return specFieldsOK(v) }

// a table becomes a struct.
//
//verif:opaque gorm.specName gorm.specOverride gorm.specGoType gorm.specImports gorm.specStructName gorm.specExtract
func Verif_G01_Struct(s octopus.Schema, t octopus.Table, prefixes []string, p common.PrefixMapper, models EmbeddedModels) {
	verifspec.Requires(specTableOK(&t) && specSchemaOK(&s))
	embeddedModels = models
	c := &GoStructProcessor{schema: &s, option: &Option{RemovePrefixes: prefixes, PrefixMapper: &p}}
	got := NewGoStruct(&t, c)
	want := ctNewGoStruct(&t, c)
	verifspec.Ensures("struct name", got.Name == want.Name)
	verifspec.Ensures("embedded models", verifspec.Eq(got.EmbeddedModelNames, want.EmbeddedModelNames))
	verifspec.Ensures("a field for each other column", verifspec.Eq(got.Fields, want.Fields))
	verifspec.Ensures("primary key", verifspec.Eq(got.PKFields, want.PKFields))
	verifspec.Ensures("unique columns", verifspec.Eq(got.UniqueFields, want.UniqueFields))
	verifspec.Ensures("a field for each reference", verifspec.Eq(got.AssociationFields, want.AssociationFields))
	verifspec.Ensures("nothing else", verifspec.Eq(got, want))
}

// ---- the text

// specPos: where the column comes in the index, -1 if it does not.
func specPos(names []string, name string, k int) int {
	if k >= len(names) {
		return -1
	}
	if names[k] == name {
		return k
	}
	return specPos(names, name, k+1)
}

func VInv_G01_NoColumn(k int, xs []string, field *GoField) bool {
	return specPos(xs, field.Column.Name, 0) == specPos(xs, field.Column.Name, k)
}

func specIndexTags(ixs []*octopus.Index, field *GoField, k int) []*IndexTag {
	if k <= 0 {
		return nil
	}
	r := specIndexTags(ixs, field, k-1)
	ix := ixs[k-1]
	if i := specPos(ix.Columns, field.Column.Name, 0); i >= 0 {
		r = append(r, &IndexTag{IndexName: ix.Name, Priority: i + 1, SingleIndex: len(ix.Columns) == 1})
	}
	return r
}

func specIndicesOK(ixs []*octopus.Index) bool {
	return verifspec.Forall(0, len(ixs), func(i int) bool { return ixs[i] != nil })
}

//verif:use gorm.getGormIndexTag by Verif_G01_Index
func ctGetGormIndexTag(ixs *[]*octopus.Index, field *GoField) []*IndexTag {
	verifspec.Requires(ixs != nil && specIndicesOK(*ixs) && field != nil && field.Column != nil)
	r := specIndexTags(*ixs, field, len(*ixs))
	verifspec.Provides("tags", verifspec.Forall(0, len(r), func(i int) bool { return r[i] != nil }))
	return r
}

func VInv_G01_Tags(v []*IndexTag, k int) bool {
	return verifspec.Forall(0, len(v), func(i int) bool { return v[i] != nil })
}

// one tag for each index the column is in, with its position in the index.
func Verif_G01_Index(ixs []*octopus.Index, field *GoField) {
	verifspec.Requires(specIndicesOK(ixs) && field != nil && field.Column != nil)
	got := getGormIndexTag(&ixs, field)
	want := ctGetGormIndexTag(&ixs, field)
	verifspec.Ensures("the indices of the column", verifspec.Eq(got, want))
}

func specSized(c octopus.Column) string {
	size, scale := strconv.Itoa(int(c.Size)), strconv.Itoa(int(c.Scale))
	switch c.Type {
	case "bit", "char", "varchar":
		if c.Size > 0 {
			return "type:" + c.Type + "(" + size + ")"
		}
	case "double", "float", "decimal":
		if c.Size > 0 && c.Scale > 0 {
			return "type:" + c.Type + "(" + size + "," + scale + ")"
		}
	}
	return ""
}

//verif:use gorm.getGormTagByType by Verif_G01_Sized
func ctGetGormTagByType(c *octopus.Column) string {
	verifspec.Requires(c != nil)
	return specSized(*c)
}

// the sized types.
func Verif_G01_Sized(c octopus.Column) {
	verifspec.Ensures("type with size and scale", getGormTagByType(&c) == specSized(c))
}

func specIndexText(r []string, tags []*IndexTag, k int) []string {
	if k <= 0 {
		return r
	}
	t := tags[k-1]
	s := "index:" + t.IndexName
	if !t.SingleIndex {
		s += ",priority:" + strconv.Itoa(t.Priority)
	}
	return append(specIndexText(r, tags, k-1), s)
}

func specTag(tags []string) string {
	if len(tags) == 0 {
		return ""
	}
	return "`gorm:\"" + strings.Join(tags, ";") + "\"`"
}

// specTags: column name, type, keys, indices, auto increment, not null.
func specTags(f *GoField, ixs []*octopus.Index, unique string) []string {
	c := f.Column
	var r []string
	if f.OverrideName {
		r = append(r, "column:"+c.Name)
	}
	if s := specSized(*c); s != "" {
		r = append(r, s)
	}
	if c.PrimaryKey {
		r = append(r, "primary_key")
	}
	if c.UniqueKey {
		if unique == "" {
			r = append(r, "unique")
		} else {
			r = append(r, "unique_index:"+unique)
		}
	}
	tags := specIndexTags(ixs, f, len(ixs))
	r = specIndexText(r, tags, len(tags))
	if c.AutoIncremental {
		r = append(r, "auto_increment")
	}
	if c.NotNull && !c.AutoIncremental {
		r = append(r, "not null")
	}
	return r
}

func specTplFields(fs []*GoField, t *GoStruct, suffix string, k int) []*TplFieldData {
	if k <= 0 {
		return nil
	}
	f := fs[k-1]
	return append(specTplFields(fs, t, suffix, k-1), &TplFieldData{Name: f.Name, Type: f.Type, Tag: specTag(specTags(f, t.table.Indices, specUniqueName(t, suffix)))})
}

func specTplAssociations(r []*TplFieldData, as []*GoAssocationField, pointer bool, k int) []*TplFieldData {
	if k <= 0 {
		return r
	}
	a := as[k-1]
	typ := a.Type
	if a.Array {
		typ = "[]" + typ
	}
	if pointer {
		typ = "*" + typ
	}
	return append(specTplAssociations(r, as, pointer, k-1), &TplFieldData{Name: a.Name, Type: typ,
		Tag: specTag([]string{"foreignKey:" + a.ForeignKey, "references:" + a.Reference})})
}

func specEmbeds(names []string, k int) string {
	if k <= 0 {
		return ""
	}
	return specEmbeds(names, k-1) + "\n\t" + names[k-1]
}

func specFieldLines(fs []*TplFieldData, k int) string {
	if k <= 0 {
		return ""
	}
	f := fs[k-1]
	s := f.Name + " " + f.Type
	if f.Tag != "" {
		s += " " + f.Tag
	}
	return specFieldLines(fs, k-1) + "\n\t" + s
}

func specUniqueName(t *GoStruct, suffix string) string {
	if len(specQuoted(t.UniqueFields, len(t.UniqueFields))) > 1 {
		return t.table.Name + suffix
	}
	return ""
}

func specStructText(t *GoStruct, pointer bool, suffix string) string {
	fs := specTplFields(t.Fields, t, suffix, len(t.Fields))
	fs = specTplAssociations(fs, t.AssociationFields, pointer, len(t.AssociationFields))
	return "type " + t.Name + " struct {" + specEmbeds(t.EmbeddedModelNames, len(t.EmbeddedModelNames)) + specFieldLines(fs, len(fs)) +
		"\n}\n\nfunc (c *" + t.Name + ") TableName() string { return \"" + t.table.Name + "\" }\n\n"
}

func specStructOK(t *GoStruct) bool {
	return t != nil && t.table != nil && specIndicesOK(t.table.Indices) && specFieldsOK(t.Fields) && specFieldsOK(t.UniqueFields) &&
		verifspec.Forall(0, len(t.AssociationFields), func(i int) bool { return t.AssociationFields[i] != nil })
}

func VInv_G01_Lines(v []*TplFieldData, k int) bool {
	return verifspec.Forall(0, len(v), func(i int) bool { return v[i] != nil })
}

//verif:use (*gorm.Generator).GenerateStruct by Verif_G01_Text
//verif:modifies wr
func ctGenerateStruct(g *Generator, wr io.Writer, t *GoStruct) error {
	verifspec.Requires(specStructOK(t) && g.option != nil)
	_, err := wr.Write([]byte(specStructText(t, g.option.PointerAssociation, g.option.UniqueNameSuffix)))
	return err
}

// specQuoted: the names of the unique columns (their number decides).
func specQuoted(fs []*GoField, k int) []string {
	if k <= 0 {
		return nil
	}
	return append(specQuoted(fs, k-1), "'"+fs[k-1].Name+"'")
}

// the text of a struct.
//
//verif:opaque gorm.specSized gorm.specIndexTags
func Verif_G01_Text(t *GoStruct, pkg, suffix string, pointer bool) {
	verifspec.Requires(specStructOK(t))
	g := &Generator{option: &Option{Package: pkg, UniqueNameSuffix: suffix, PointerAssociation: pointer}}
	buf := new(bytes.Buffer)
	err := g.GenerateStruct(buf, t)
	verifspec.Ensures("generation succeeds", err == nil)
	verifspec.Ensures("the struct", buf.String() == specStructText(t, pointer, suffix))
}

// ---- the file

// specKnown: the models, with the one the option defines.
func specKnown(models EmbeddedModels, embed string) EmbeddedModels {
	r := verifspec.Clone(models).(EmbeddedModels)
	if embed == "" {
		return r
	}
	groups, _ := util.MatchRegexGroups(regexp.MustCompile(`^([a-zA-Z0-9._]+):(.*)$`), embed)
	r[groups[0]] = EmbeddedModel{ColumnNames: strings.Split(groups[1], ",")}
	return r
}

func specDefinition(embed string) bool {
	groups, ok := util.MatchRegexGroups(regexp.MustCompile(`^([a-zA-Z0-9._]+):(.*)$`), embed)
	return ok && groups[1] != ""
}

// the option defines a model of the columns listed.
func Verif_G01_Embed(models EmbeddedModels, embed string) {
	verifspec.Requires(models != nil && (embed == "" || specDefinition(embed)))
	embeddedModels = verifspec.Clone(models).(EmbeddedModels)
	want := specKnown(models, embed)
	err := (&Generator{schema: &octopus.Schema{}, option: &Option{Embed: embed}}).Generate(new(bytes.Buffer))
	verifspec.Ensures("models known", err == nil && verifspec.Eq(embeddedModels, want))
}

// the default model.
func Verif_G01_Default(models EmbeddedModels) {
	verifspec.Requires(models != nil)
	embeddedModels = verifspec.Clone(models).(EmbeddedModels)
	want := verifspec.Clone(models).(EmbeddedModels)
	want["gorm.Model"] = EmbeddedModel{ColumnNames: []string{"id", "created_at", "updated_at", "deleted_at"}}
	registerDefaultEmbeddedModels()
	verifspec.Ensures("gorm.Model known", verifspec.Eq(embeddedModels, want))
}

func specStructs(ts []*octopus.Table, f octopus.TableFilterFn, s octopus.Schema, prefixes []string, p *common.PrefixMapper, models EmbeddedModels, k int) []*GoStruct {
	if k <= 0 {
		return nil
	}
	r := specStructs(ts, f, s, prefixes, p, models, k-1)
	if f != nil && !f(ts[k-1]) {
		return r
	}
	return append(r, specStruct(s, prefixes, p, models, ts[k-1]))
}

func specModelImports(m map[string]bool, names []string, k int) map[string]bool {
	if k <= 0 {
		return m
	}
	r := specModelImports(m, names, k-1)
	if names[k-1] == "gorm.Model" {
		r["github.com/jinzhu/gorm"] = true
	}
	return r
}

func specAdd(m map[string]bool, xs []string, k int) map[string]bool {
	if k <= 0 {
		return m
	}
	r := specAdd(m, xs, k-1)
	r[xs[k-1]] = true
	return r
}

func specFieldImports(m map[string]bool, fs []*GoField, k int) map[string]bool {
	if k <= 0 {
		return m
	}
	return specAdd(specFieldImports(m, fs, k-1), fs[k-1].Imports, len(fs[k-1].Imports))
}

func specAllImports(gs []*GoStruct, k int) map[string]bool {
	if k <= 0 {
		return map[string]bool{}
	}
	g := gs[k-1]
	return specFieldImports(specModelImports(specAllImports(gs, k-1), g.EmbeddedModelNames, len(g.EmbeddedModelNames)), g.Fields, len(g.Fields))
}

func specImportLines(xs []string, k int) string {
	if k <= 0 {
		return ""
	}
	return specImportLines(xs, k-1) + "\n\t\"" + xs[k-1] + "\""
}

func specStructTexts(r string, gs []*GoStruct, pointer bool, suffix string, k int) string {
	if k <= 0 {
		return r
	}
	return specStructTexts(r, gs, pointer, suffix, k-1) + specStructText(gs[k-1], pointer, suffix)
}

func specFile(gs []*GoStruct, pkg string, pointer bool, suffix string) string {
	if pkg == "" {
		pkg = "main"
	}
	imports := verifspec.SortedKeys(specAllImports(gs, len(gs)))
	return specStructTexts("package "+pkg+"\n\nimport ("+specImportLines(imports, len(imports))+"\n)\n\n", gs, pointer, suffix, len(gs))
}

func specTableAll(t *octopus.Table) bool { return specTableOK(t) && specIndicesOK(t.Indices) }

func VInv_G01_Structs(v []*GoStruct, k int) bool {
	return verifspec.Forall(0, len(v), func(i int) bool { return specStructOK(v[i]) })
}

//verif:use gorm.NewGoStruct by Verif_G01_Struct
func ctNewGoStruct(t *octopus.Table, p IProcessor) *GoStruct {
	g := p.(*GoStructProcessor)
	verifspec.Requires(g != nil && specTableOK(t) && g.schema != nil && specSchemaOK(g.schema) && g.option != nil && g.option.PrefixMapper != nil)
	r := specStruct(*g.schema, g.option.RemovePrefixes, g.option.PrefixMapper, embeddedModels, t)
	verifspec.Provides("table", r != nil && verifspec.Eq(r.table, t))
	verifspec.Provides("fields", specFieldsOK(r.Fields) && specFieldsOK(r.UniqueFields) &&
		verifspec.Forall(0, len(r.AssociationFields), func(i int) bool { return r.AssociationFields[i] != nil }))
	return r
}

func VInv_G01_Associations(v []*GoAssocationField, k int) bool {
	return verifspec.Forall(0, len(v), func(i int) bool { return v[i] != nil })
}

// the file: package, imports, a struct for each selected table in schema order.
//
//verif:opaque gorm.specStruct gorm.specStructText
func Verif_G01_Schema(s octopus.Schema, f octopus.TableFilterFn, prefixes []string, p common.PrefixMapper, models EmbeddedModels, pkg, suffix string, pointer bool) {
	verifspec.Requires(verifspec.Forall(0, len(s.Tables), func(i int) bool { return specTableAll(s.Tables[i]) }))
	embeddedModels = models
	o := Option{PrefixMapper: &p, TableFilter: f, Package: pkg, PointerAssociation: pointer, RemovePrefixes: prefixes, UniqueNameSuffix: suffix}
	buf := new(bytes.Buffer)
	err := (&Generator{schema: &s, option: &o}).Generate(buf)
	verifspec.Ensures("generation succeeds", err == nil)
	verifspec.Ensures("the file", buf.String() == specFile(specStructs(s.Tables, f, s, prefixes, &p, models, len(s.Tables)), pkg, pointer, suffix))
}
