package sqlalchemy

import (
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/iancoleman/strcase"
	"github.com/lechuckroh/octopus-db-tools/format/common"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/util"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

// specType: the SQLAlchemy type of a column ("" when there is none).
func specType(c octopus.Column) string {
	switch strings.ToLower(c.Type) {
	case "char", "varchar", "text8", "text16", "text24", "text32":
		return "String"
	case "boolean":
		return "Boolean"
	case "int8", "int16", "int24", "int32":
		return "Integer"
	case "int64":
		return "BigInteger"
	case "decimal":
		return "Numeric"
	case "float", "double":
		return "Float"
	case "datetime":
		return "DateTime"
	case "date":
		return "Date"
	case "time":
		return "Time"
	case "blob8", "blob16", "blob24", "blob32":
		return "LargeBinary"
	case "bit":
		if c.Size == 1 {
			return "Boolean"
		}
	}
	return ""
}

func specField(c *octopus.Column) *SaField {
	name := strcase.ToSnake(strings.ToLower(c.Name))
	f := &SaField{Column: c, Name: name, OverrideName: name != c.Name, Type: specType(*c)}
	if f.Type != "" {
		f.Imports = []string{f.Type}
	}
	if util.SpecReserved(name) {
		f.Name = name + "_"
		f.OverrideName = true
	}
	return f
}

//verif:use sqlalchemy.NewSaField by Verif_S01_Field
func ctNewSaField(c *octopus.Column) *SaField { return specField(c) }

// a column becomes a field.
func Verif_S01_Field(c octopus.Column) {
	verifspec.Ensures("the field of the column", verifspec.Eq(NewSaField(&c), specField(&c)))
}

func specStrip(name string, prefixes []string, k int) string {
	if k <= 0 {
		return name
	}
	return strings.TrimPrefix(specStrip(name, prefixes, k-1), prefixes[k-1])
}

func specClassName(t octopus.Table, prefixes []string, p *common.PrefixMapper) string {
	if t.ClassName != "" {
		return t.ClassName
	}
	return p.GetPrefix(t.Group) + strcase.ToCamel(specStrip(t.Name, prefixes, len(prefixes)))
}

func specFields(cs []*octopus.Column, k int) []*SaField {
	if k <= 0 {
		return nil
	}
	return append(specFields(cs, k-1), specField(cs[k-1]))
}

func specPKs(cs []*octopus.Column, k int) []*SaField {
	if k <= 0 {
		return nil
	}
	r := specPKs(cs, k-1)
	if cs[k-1].PrimaryKey {
		r = append(r, specField(cs[k-1]))
	}
	return r
}

func specUniques(cs []*octopus.Column, k int) []*SaField {
	if k <= 0 {
		return nil
	}
	r := specUniques(cs, k-1)
	if cs[k-1].UniqueKey {
		r = append(r, specField(cs[k-1]))
	}
	return r
}

func specClass(t *octopus.Table, prefixes []string, p *common.PrefixMapper) *SaClass {
	n := len(t.Columns)
	return &SaClass{table: t, Name: specClassName(*t, prefixes, p), Fields: specFields(t.Columns, n),
		PKFields: specPKs(t.Columns, n), UniqueFields: specUniques(t.Columns, n)}
}

func specTableOK(t *octopus.Table) bool {
	return t != nil && verifspec.Forall(0, len(t.Columns), func(i int) bool { return t.Columns[i] != nil })
}

//verif:use sqlalchemy.NewSaClass by Verif_S01_Class
func ctNewSaClass(t *octopus.Table, o *Option) *SaClass {
	verifspec.Requires(specTableOK(t) && o != nil && o.PrefixMapper != nil)
	r := specClass(t, o.RemovePrefixes, o.PrefixMapper)
	verifspec.Provides("fields", specClassOK(r))
	return r
}

func specFieldsOK(fs []*SaField) bool {
	return verifspec.Forall(0, len(fs), func(i int) bool { return fs[i] != nil && fs[i].Column != nil })
}

func specClassOK(c *SaClass) bool {
	return c != nil && c.table != nil && specFieldsOK(c.Fields) && specFieldsOK(c.UniqueFields)
}

func VInv_S01_Fields(v []*SaField, k int) bool { return specFieldsOK(v) }

func VInv_S01_Classes(v []*SaClass, k int) bool {
	return verifspec.Forall(0, len(v), func(i int) bool { return specClassOK(v[i]) })
}

// a table becomes a class with one field per column.
func Verif_S01_Class(t octopus.Table, prefixes []string, p common.PrefixMapper) {
	verifspec.Requires(specTableOK(&t))
	got := NewSaClass(&t, &Option{RemovePrefixes: prefixes, PrefixMapper: &p})
	want := ctNewSaClass(&t, &Option{RemovePrefixes: prefixes, PrefixMapper: &p})
	verifspec.Ensures("class name", got.Name == want.Name)
	verifspec.Ensures("one field per column", verifspec.Eq(got.Fields, want.Fields))
	verifspec.Ensures("nothing else", verifspec.Eq(got, want))
}

// ---- the text

func specNumber(f SaField) string {
	s := ""
	if f.Column.Size > 0 {
		s = "precision=" + strconv.Itoa(int(f.Column.Size))
	}
	if f.Column.Scale > 0 {
		if s != "" {
			s += ", "
		}
		s += "scale=" + strconv.Itoa(int(f.Column.Scale))
	}
	return f.Type + "(" + s + ")"
}

// specZoned: a date and time column that is kept in UTC.
func specZoned(c octopus.Column, utc bool) bool {
	return utc && strings.ToLower(c.Type) == "datetime" && c.Name != "created_at" && c.Name != "updated_at"
}

// specAttributes: name if it differs, type, time defaults, then the flags.
func specAttributes(f SaField, utc bool) []string {
	c := f.Column
	var as []string
	if f.OverrideName {
		as = append(as, "'"+c.Name+"'")
	}
	now := "datetime.now"
	if utc {
		now = "datetime.utcnow"
	}
	switch t := strings.ToLower(c.Type); {
	case (t == "varchar" || t == "char") && c.Size > 0:
		as = append(as, f.Type+"("+strconv.Itoa(int(c.Size))+")")
	case t == "double" || t == "float" || t == "decimal":
		as = append(as, specNumber(f))
	case specZoned(*c, utc):
		as = append(as, "TZDateTime")
	case t == "datetime" && c.Name == "created_at":
		as = append(as, f.Type, "default="+now)
	case t == "datetime" && c.Name == "updated_at":
		as = append(as, f.Type, "default="+now, "onupdate="+now)
	case t == "datetime" || f.Type != "":
		as = append(as, f.Type)
	}
	if c.PrimaryKey {
		as = append(as, "primary_key=True")
	}
	if c.UniqueKey {
		as = append(as, "unique=True")
	}
	if c.AutoIncremental {
		as = append(as, "autoincrement=True")
	}
	if c.NotNull && !c.AutoIncremental {
		as = append(as, "nullable=False")
	}
	return as
}

func specLine(f SaField, utc bool) string {
	return "    " + f.Name + " = Column(" + strings.Join(specAttributes(f, utc), ", ") + ")"
}

func specFieldLines(r []string, fs []*SaField, utc bool, k int) []string {
	if k <= 0 {
		return r
	}
	return append(specFieldLines(r, fs, utc, k-1), specLine(*fs[k-1], utc))
}

func specQuoted(fs []*SaField, k int) []string {
	if k <= 0 {
		return nil
	}
	return append(specQuoted(fs, k-1), "'"+fs[k-1].Name+"'")
}

func specClassLines(c SaClass, suffix string, utc bool) []string {
	r := []string{"", "", "class " + c.Name + "(Base):", "    __tablename__ = '" + c.table.Name + "'"}
	if names := specQuoted(c.UniqueFields, len(c.UniqueFields)); len(names) > 1 {
		r = append(r, "    UniqueConstraint("+strings.Join(names, ", ")+", name='"+c.table.Name+suffix+"')")
	}
	r = append(r, "")
	return specFieldLines(r, c.Fields, utc, len(c.Fields))
}

func specAdd(m map[string]bool, xs []string, k int) map[string]bool {
	if k <= 0 {
		return m
	}
	r := specAdd(m, xs, k-1)
	r[xs[k-1]] = true
	return r
}

// specSaFields: what the columns need from sqlalchemy.
func specSaFields(m map[string]bool, fs []*SaField, utc bool, k int) map[string]bool {
	if k <= 0 {
		return m
	}
	f := fs[k-1]
	r := specSaFields(m, fs, utc, k-1)
	if specZoned(*f.Column, utc) {
		r["TypeDecorator"] = true
	}
	return specAdd(r, f.Imports, len(f.Imports))
}

func specSaClass(m map[string]bool, c SaClass, utc bool) map[string]bool {
	if len(specQuoted(c.UniqueFields, len(c.UniqueFields))) > 1 {
		m["UniqueConstraint"] = true
	}
	return specSaFields(m, c.Fields, utc, len(c.Fields))
}

// specImportFields: the modules the columns need.
func specImportFields(m map[string]bool, fs []*SaField, utc bool, k int) map[string]bool {
	if k <= 0 {
		return m
	}
	c := *fs[k-1].Column
	r := specImportFields(m, fs, utc, k-1)
	if specZoned(c, utc) {
		r["from datetime import timezone"] = true
	}
	if strings.ToLower(c.Type) == "datetime" {
		r["from datetime import datetime"] = true
	}
	return r
}

func specZonedFields(zoned bool, fs []*SaField, utc bool, k int) bool {
	if k <= 0 {
		return zoned
	}
	return specZonedFields(zoned, fs, utc, k-1) || specZoned(*fs[k-1].Column, utc)
}

func specHeader(imports, saImports []string) []string {
	var r []string
	if len(imports) > 0 {
		r = append(r, imports...)
		r = append(r, "")
	}
	return append(r, "from sqlalchemy import "+strings.Join(saImports, ", "),
		"from sqlalchemy.ext.declarative import declarative_base",
		"from sqlalchemy_repr import RepresentableBase",
		"",
		"Base = declarative_base(cls=RepresentableBase)")
}

//verif:use (*sqlalchemy.Generator).getHeaderLines by Verif_S01_Header
func ctGetHeaderLines(g *Generator, imports, saImports []string) []string {
	return specHeader(imports, saImports)
}

func Verif_S01_Header(g *Generator, imports, saImports []string) {
	verifspec.Requires(g != nil)
	verifspec.Ensures("header", verifspec.Eq(g.getHeaderLines(imports, saImports), specHeader(imports, saImports)))
}

func specDecorator() []string {
	return []string{
		"",
		"",
		"class TZDateTime(TypeDecorator):",
		"    impl = DateTime",
		"",
		"    def process_bind_param(self, value, dialect):",
		"        if value is not None:",
		"            if not value.tzinfo:",
		"                raise TypeError(\"tzinfo is required\")",
		"            value = value.astimezone(timezone.utc).replace(tzinfo=None)",
		"        return value",
		"",
		"    def process_result_value(self, value, dialect):",
		"        if value is not None:",
		"            value = value.replace(tzinfo=timezone.utc)",
		"        return value",
	}
}

func specClasses(ts []*octopus.Table, f octopus.TableFilterFn, prefixes []string, p *common.PrefixMapper, k int) []*SaClass {
	if k <= 0 {
		return nil
	}
	r := specClasses(ts, f, prefixes, p, k-1)
	if f != nil && !f(ts[k-1]) {
		return r
	}
	return append(r, specClass(ts[k-1], prefixes, p))
}

func specBody(cs []*SaClass, suffix string, utc bool, k int) []string {
	if k <= 0 {
		return nil
	}
	return append(specBody(cs, suffix, utc, k-1), specClassLines(*cs[k-1], suffix, utc)...)
}

func specSa(cs []*SaClass, utc bool, k int) map[string]bool {
	if k <= 0 {
		return map[string]bool{"Column": true}
	}
	return specSaClass(specSa(cs, utc, k-1), *cs[k-1], utc)
}

func specImports(cs []*SaClass, utc bool, k int) map[string]bool {
	if k <= 0 {
		return map[string]bool{}
	}
	return specImportFields(specImports(cs, utc, k-1), cs[k-1].Fields, utc, len(cs[k-1].Fields))
}

func specAnyZoned(cs []*SaClass, utc bool, k int) bool {
	if k <= 0 {
		return false
	}
	return specZonedFields(specAnyZoned(cs, utc, k-1), cs[k-1].Fields, utc, len(cs[k-1].Fields))
}

// specFile: a file with the classes.
func specFile(cs []*SaClass, suffix string, utc bool) string {
	n := len(cs)
	r := specHeader(verifspec.SortedKeys(specImports(cs, utc, n)), verifspec.SortedKeys(specSa(cs, utc, n)))
	if specAnyZoned(cs, utc, n) {
		r = append(r, specDecorator()...)
	}
	r = append(r, specBody(cs, suffix, utc, n)...)
	return strings.Join(append(r, ""), "\n")
}

// all classes in one file.
func Verif_S01_Single(s octopus.Schema, f octopus.TableFilterFn, prefixes []string, p common.PrefixMapper, suffix string, utc bool) {
	verifspec.Requires(verifspec.Forall(0, len(s.Tables), func(i int) bool { return specTableOK(s.Tables[i]) }))
	for _, output := range []string{"models.py"} {
		g := Generator{schema: &s, option: &Option{TableFilter: f, RemovePrefixes: prefixes, PrefixMapper: &p, UniqueNameSuffix: suffix, UseUTC: utc}}
		files, err := verifspec.Run(func() error { return g.Generate(output) })
		if err == nil {
			verifspec.Ensures("one file", len(files) == 1 && files[0].Name == output)
			verifspec.Ensures("a class for each selected table", files[0].Content == specFile(specClasses(s.Tables, f, prefixes, &p, len(s.Tables)), suffix, utc))
		}
	}
}

func specClassFiles(cs []*SaClass, output, suffix string, utc bool, k int) []verifspec.File {
	if k <= 0 {
		return nil
	}
	return append(specClassFiles(cs, output, suffix, utc, k-1),
		verifspec.File{Name: path.Join(output, cs[k-1].table.Name+".py"), Content: specFile([]*SaClass{cs[k-1]}, suffix, utc)})
}

// what a loop leaves as it was.
func VInv_S01_SameBool(v, v_0 bool) bool { return v == v_0 }

func VInv_S01_SameSet(v, v_0 map[string]bool) bool { return verifspec.Eq(v, v_0) }

func VInv_S01_SameLines(v, v_0 []string) bool { return verifspec.Eq(v, v_0) }

// one file for each class.
//
//verif:opaque sqlalchemy.specClass
//verif:no-native
func Verif_S01_Directory(s octopus.Schema, f octopus.TableFilterFn, prefixes []string, p common.PrefixMapper, output, suffix string, utc bool) {
	verifspec.Requires(verifspec.Forall(0, len(s.Tables), func(i int) bool { return specTableOK(s.Tables[i]) }))
	verifspec.Requires(strings.ToLower(filepath.Ext(output)) != ".py")
	g := Generator{schema: &s, option: &Option{TableFilter: f, RemovePrefixes: prefixes, PrefixMapper: &p, UniqueNameSuffix: suffix, UseUTC: utc}}
	err := g.Generate(output)
	files := verifspec.Files()
	if err == nil {
		verifspec.Ensures("a file for each selected table", verifspec.Eq(files, specClassFiles(specClasses(s.Tables, f, prefixes, &p, len(s.Tables)), output, suffix, utc, len(specClasses(s.Tables, f, prefixes, &p, len(s.Tables))))))
	}
}

// the same on concrete inputs.
//
//verif:native-only
func Verif_S01_DirectoryRun(s octopus.Schema, prefixes []string, p common.PrefixMapper, output, suffix string, utc bool) {
	verifspec.Requires(verifspec.Forall(0, len(s.Tables), func(i int) bool { return specTableOK(s.Tables[i]) }))
	seen := map[string]bool{}
	for i, t := range s.Tables {
		t.Name = verifspec.OutFile(t.Name)
		if seen[t.Name] {
			t.Name += strconv.Itoa(i)
		}
		verifspec.Requires(!seen[t.Name])
		seen[t.Name] = true
	}
	output = verifspec.OutFile(output)
	verifspec.Requires(strings.ToLower(filepath.Ext(output)) != ".py")
	cs := specClasses(s.Tables, nil, prefixes, &p, len(s.Tables))
	want := specClassFiles(cs, output, suffix, utc, len(cs))
	g := Generator{schema: &s, option: &Option{RemovePrefixes: prefixes, PrefixMapper: &p, UniqueNameSuffix: suffix, UseUTC: utc}}
	files, err := verifspec.Run(func() error { return g.Generate(output) })
	sort.Slice(want, func(i, j int) bool { return want[i].Name < want[j].Name })
	sort.Slice(files, func(i, j int) bool { return files[i].Name < files[j].Name })
	verifspec.Ensures("no error", err == nil)
	verifspec.Ensures("a file for each table", verifspec.Eq(files, want))
}
