package jpa

import (
	"bytes"
	"io"
	"path"
	"sort"
	"strconv"
	"strings"

	"github.com/iancoleman/strcase"
	"github.com/lechuckroh/octopus-db-tools/format/common"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/util"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

// ---- fields and classes

// specType: the Kotlin type of a column, its default value, what it imports.
func specType(c octopus.Column) (string, string, string) {
	switch strings.ToLower(c.Type) {
	case "char", "varchar", "text8", "text16", "text24", "text32":
		return "String", "\"\"", ""
	case "boolean":
		return "Boolean", "false", ""
	case "int8", "int16", "int24", "int32":
		return "Int", "0", ""
	case "int64":
		return "Long", "0L", ""
	case "decimal":
		return "BigDecimal", "BigDecimal.ZERO", "java.math.BigDecimal"
	case "float":
		return "Float", "0.0F", ""
	case "double":
		return "Double", "0.0", ""
	case "datetime":
		return "Timestamp", "Timestamp(System.currentTimeMillis())", "java.sql.Timestamp"
	case "date":
		return "LocalDate", "LocalDate.now()", "java.time.LocalDate"
	case "time":
		return "LocalTime", "LocalTime.now()", "java.time.LocalTime"
	case "blob8", "blob16", "blob24", "blob32":
		return "Blob", "", "java.sql.Blob"
	}
	return "Any", "", ""
}

func specKtType(c octopus.Column) string {
	t, _, _ := specType(c)
	if c.NotNull {
		return t
	}
	return t + "?"
}

func specDefault(c octopus.Column) string {
	_, d, _ := specType(c)
	if c.NotNull {
		return d
	}
	return ""
}

func specImports(c octopus.Column) []string {
	if _, _, imp := specType(c); imp != "" {
		return []string{imp}
	}
	return []string{}
}

func specName(column string) string { name, _ := util.ToLowerCamel(column); return name }

func specOverride(column string) bool { _, ok := util.ToLowerCamel(column); return !ok }

func specField(c *octopus.Column) *KotlinField {
	return &KotlinField{Column: c, Name: specName(c.Name), OverrideName: specOverride(c.Name), Type: specKtType(*c), Imports: specImports(*c), DefaultValue: specDefault(*c)}
}

//verif:use jpa.NewKotlinField by Verif_J01_Field
func ctNewKotlinField(c *octopus.Column) *KotlinField {
	verifspec.Requires(c != nil)
	return specField(c)
}

// a column becomes a field.
func Verif_J01_Field(c octopus.Column) {
	got, want := NewKotlinField(&c), specField(&c)
	verifspec.Ensures("name", got.Name == want.Name && got.OverrideName == want.OverrideName)
	verifspec.Ensures("type and default value", got.Type == want.Type && got.DefaultValue == want.DefaultValue)
	verifspec.Ensures("imports", verifspec.Eq(got.Imports, want.Imports))
	verifspec.Ensures("nothing else", verifspec.Eq(got, want))
}

func specStrip(name string, prefixes []string, k int) string {
	if k <= 0 {
		return name
	}
	return strings.TrimPrefix(specStrip(name, prefixes, k-1), prefixes[k-1])
}

func specClassName(t octopus.Table, prefixes []string, p *common.PrefixMapper) string {
	if t.ClassName != "" {
		return t.ClassName
	}
	return p.GetPrefix(t.Group) + strcase.ToCamel(specStrip(t.Name, prefixes, len(prefixes)))
}

func specFields(cs []*octopus.Column, k int) []*KotlinField {
	if k <= 0 {
		return nil
	}
	return append(specFields(cs, k-1), specField(cs[k-1]))
}

func specPKs(cs []*octopus.Column, k int) []*KotlinField {
	if k <= 0 {
		return nil
	}
	r := specPKs(cs, k-1)
	if cs[k-1].PrimaryKey {
		r = append(r, specField(cs[k-1]))
	}
	return r
}

func specUniques(cs []*octopus.Column, k int) []*KotlinField {
	if k <= 0 {
		return nil
	}
	r := specUniques(cs, k-1)
	if cs[k-1].UniqueKey {
		r = append(r, specField(cs[k-1]))
	}
	return r
}

func specClass(t *octopus.Table, prefixes []string, p *common.PrefixMapper, a *common.AnnotationMapper) *KotlinClass {
	n := len(t.Columns)
	return &KotlinClass{table: t, Name: specClassName(*t, prefixes, p), Annotations: a.GetAnnotations(t.Group), Fields: specFields(t.Columns, n),
		PKFields: specPKs(t.Columns, n), UniqueFields: specUniques(t.Columns, n)}
}

func specTableOK(t *octopus.Table) bool {
	return t != nil && verifspec.Forall(0, len(t.Columns), func(i int) bool { return t.Columns[i] != nil })
}

func specFieldsOK(fs []*KotlinField) bool {
	return verifspec.Forall(0, len(fs), func(i int) bool { return fs[i] != nil && fs[i].Column != nil })
}

func specClassOK(c *KotlinClass) bool {
	return c != nil && c.table != nil && specFieldsOK(c.Fields) && specFieldsOK(c.PKFields) && specFieldsOK(c.UniqueFields)
}

func VInv_J01_Fields(v []*KotlinField, k int) bool { return specFieldsOK(v) }

func VInv_J01_Classes(v []*KotlinClass, k int) bool {
	return verifspec.Forall(0, len(v), func(i int) bool { return specClassOK(v[i]) })
}

//verif:use jpa.NewKotlinClass by Verif_J01_Class
func ctNewKotlinClass(t *octopus.Table, o *KtOption) *KotlinClass {
	verifspec.Requires(specTableOK(t) && o != nil && o.PrefixMapper != nil && o.AnnoMapper != nil)
	r := specClass(t, o.RemovePrefixes, o.PrefixMapper, o.AnnoMapper)
	verifspec.Provides("fields", specClassOK(r))
	return r
}

// a table becomes a class with one field per column.
func Verif_J01_Class(t octopus.Table, prefixes []string, p common.PrefixMapper, a common.AnnotationMapper) {
	verifspec.Requires(specTableOK(&t))
	o := &KtOption{RemovePrefixes: prefixes, PrefixMapper: &p, AnnoMapper: &a}
	got := NewKotlinClass(&t, o)
	want := ctNewKotlinClass(&t, o)
	verifspec.Ensures("class name", got.Name == want.Name)
	verifspec.Ensures("one field per column", verifspec.Eq(got.Fields, want.Fields))
	verifspec.Ensures("primary key", verifspec.Eq(got.PKFields, want.PKFields))
	verifspec.Ensures("nothing else", verifspec.Eq(got, want))
}

// ---- the text

// specClassOf: the name of the class of the first table of the name.
func specClassOf(cs []*KotlinClass, table string, k int) string {
	if k >= len(cs) {
		return ""
	}
	if cs[k].table.Name == table {
		return cs[k].Name
	}
	return specClassOf(cs, table, k+1)
}

// specTable: a table name.
type specTable string

func VInv_J01_NotYet(k int, c *KtGenerator, name specTable) bool {
	return specClassOf(c.classes, string(name), 0) == specClassOf(c.classes, string(name), k)
}

//verif:use (*jpa.KtGenerator).getClassNameByTableName by Verif_J01_ClassOf
func ctGetClassNameByTableName(c *KtGenerator, tableName string) string {
	verifspec.Requires(specClassesOK(c.classes))
	return specClassOf(c.classes, tableName, 0)
}

func specClassesOK(cs []*KotlinClass) bool {
	return verifspec.Forall(0, len(cs), func(i int) bool { return cs[i] != nil && cs[i].table != nil })
}

func Verif_J01_ClassOf(c *KtGenerator, name specTable) {
	tableName := string(name)
	verifspec.Requires(c != nil && specClassesOK(c.classes))
	verifspec.Ensures("the first table of the name", c.getClassNameByTableName(tableName) == specClassOf(c.classes, tableName, 0))
}

func specIsText(t string) bool {
	switch strings.ToLower(t) {
	case "text8", "text16", "text24", "text32":
		return true
	}
	return false
}

func specIsReal(t string) bool {
	switch strings.ToLower(t) {
	case "float", "double", "decimal":
		return true
	}
	return false
}

func specIsString(t string) bool {
	lc := strings.ToLower(t)
	return specIsText(t) || lc == "char" || lc == "varchar"
}

// specColumn: the attributes of the column annotation.
func specColumn(f *KotlinField) []string {
	c := f.Column
	var r []string
	if f.OverrideName {
		r = append(r, "name = \""+c.Name+"\"")
	}
	if c.NotNull {
		r = append(r, "nullable = false")
	}
	if specIsString(c.Type) && c.Size > 0 {
		r = append(r, "length = "+strconv.Itoa(int(c.Size)))
	}
	if specIsReal(c.Type) && c.Size > 0 {
		r = append(r, "precision = "+strconv.Itoa(int(c.Size)))
	}
	if specIsReal(c.Type) && c.Scale > 0 {
		r = append(r, "scale = "+strconv.Itoa(int(c.Scale)))
	}
	if c.Type == "datetime" && f.Name == "createdAt" {
		r = append(r, "updatable = false")
	}
	return r
}

func specAnnotations(cs []*KotlinClass, f *KotlinField, relation string) []string {
	c := f.Column
	var r []string
	if c.PrimaryKey {
		r = append(r, "@Id")
	}
	if c.AutoIncremental {
		r = append(r, "@GeneratedValue(strategy = GenerationType.AUTO)")
	}
	if specIsText(c.Type) {
		r = append(r, "@Lob")
	}
	if relation == "VRelation" && c.Ref != nil {
		r = append(r, "@VRelation(cls = \""+specClassOf(cs, c.Ref.Table, 0)+"\", field = \""+strcase.ToLowerCamel(c.Ref.Column)+"\")")
	}
	if c.Type == "datetime" && f.Name == "createdAt" {
		r = append(r, "@CreationTimestamp")
	}
	if c.Type == "datetime" && f.Name == "updatedAt" {
		r = append(r, "@UpdateTimestamp")
	}
	if as := specColumn(f); len(as) > 0 {
		r = append(r, "@Column("+strings.Join(as, ", ")+")")
	}
	return r
}

// specRelated: the table a column refers to has a class, when the relation is to be written.
func specRelated(cs []*KotlinClass, c *octopus.Column, relation string) bool {
	return relation != "VRelation" || c.Ref == nil || specClassOf(cs, c.Ref.Table, 0) != ""
}

//verif:use (*jpa.KtGenerator).getFieldAnnotations by Verif_J01_Annotations
func ctGetFieldAnnotations(c *KtGenerator, class *KotlinClass, f *KotlinField) []string {
	verifspec.Requires(f != nil && f.Column != nil && c.option != nil && specClassesOK(c.classes) && specRelated(c.classes, f.Column, c.option.Relation))
	return specAnnotations(c.classes, f, c.option.Relation)
}

// the annotations of a field.
func Verif_J01_Annotations(cs []*KotlinClass, class *KotlinClass, c octopus.Column, relation string) {
	verifspec.Requires(specClassesOK(cs) && class != nil && specRelated(cs, &c, relation))
	f := NewKotlinField(&c)
	g := &KtGenerator{classes: cs, option: &KtOption{Relation: relation}}
	verifspec.Ensures("annotations", verifspec.Eq(g.getFieldAnnotations(class, f), specAnnotations(cs, f, relation)))
}

func specImportLines(xs []string, k int) string {
	if k <= 0 {
		return ""
	}
	return specImportLines(xs, k-1) + "import " + xs[k-1] + "\n"
}

func specAnnotationLines(xs []string, k int) string {
	if k <= 0 {
		return ""
	}
	return specAnnotationLines(xs, k-1) + "\n        " + xs[k-1]
}

func specConcat(xs []string, k int) string {
	if k <= 0 {
		return ""
	}
	return specConcat(xs, k-1) + xs[k-1]
}

func specVar(f *KotlinField, before, comma string) string {
	s := "\n        " + before + "var " + f.Name + ": " + f.Type
	if f.DefaultValue != "" {
		s += " = " + f.DefaultValue
	}
	return s + comma
}

func specComma(fs []*KotlinField, f *KotlinField) string {
	if f != fs[len(fs)-1] {
		return ","
	}
	return ""
}

func specFieldText(cs []*KotlinClass, class *KotlinClass, f *KotlinField, relation, entity string) string {
	as := specAnnotations(cs, f, relation)
	s := specAnnotationLines(as, len(as))
	if !f.Column.NotNull {
		return s + "\n        var " + f.Name + ": " + f.Type + specComma(class.Fields, f) + "\n"
	}
	if f == specID(class, entity) {
		return s + specVar(f, "override ", ",") + "\n"
	}
	return s + specVar(f, "", specComma(class.Fields, f)) + "\n"
}

func specFieldTexts(cs []*KotlinClass, class *KotlinClass, relation, entity string, k int) string {
	if k <= 0 {
		return ""
	}
	return specFieldTexts(cs, class, relation, entity, k-1) + specFieldText(cs, class, class.Fields[k-1], relation, entity)
}

func specPKText(fs []*KotlinField, k int) string {
	if k <= 0 {
		return ""
	}
	return specPKText(fs, k-1) + specVar(fs[k-1], "", specComma(fs, fs[k-1]))
}

func specQuoted(fs []*KotlinField, k int) []string {
	if k <= 0 {
		return nil
	}
	return append(specQuoted(fs, k-1), "\""+fs[k-1].Name+"\"")
}

func specAddJava(m map[string]bool, xs []string, k int) map[string]bool {
	if k <= 0 {
		return m
	}
	r := specAddJava(m, xs, k-1)
	if strings.HasPrefix(xs[k-1], "java.") {
		r[xs[k-1]] = true
	}
	return r
}

func specAddOther(m map[string]bool, xs []string, k int) map[string]bool {
	if k <= 0 {
		return m
	}
	r := specAddOther(m, xs, k-1)
	if !strings.HasPrefix(xs[k-1], "java.") {
		r[xs[k-1]] = true
	}
	return r
}

func specJava(m map[string]bool, fs []*KotlinField, k int) map[string]bool {
	if k <= 0 {
		return m
	}
	return specAddJava(specJava(m, fs, k-1), fs[k-1].Imports, len(fs[k-1].Imports))
}

func specOther(fs []*KotlinField, k int) map[string]bool {
	if k <= 0 {
		return map[string]bool{}
	}
	f := fs[k-1]
	r := specAddOther(specOther(fs, k-1), f.Imports, len(f.Imports))
	if f.Column.Type == "datetime" && f.Name == "createdAt" {
		r["org.hibernate.annotations.CreationTimestamp"] = true
	}
	if f.Column.Type == "datetime" && f.Name == "updatedAt" {
		r["org.hibernate.annotations.UpdateTimestamp"] = true
	}
	return r
}

// specID: the field the interface of entities with an id declares.
func specID(c *KotlinClass, entity string) *KotlinField {
	if entity != "" && len(c.PKFields) == 1 && c.PKFields[0].Name == "id" {
		return c.PKFields[0]
	}
	return nil
}

func specText(cs []*KotlinClass, c *KotlinClass, as []string, pkg, suffix, relation, entity string) string {
	java := map[string]bool{"javax.persistence.*": true}
	if len(c.PKFields) > 1 {
		java["java.io.Serializable"] = true
	}
	imports := verifspec.SortedKeys(specOther(c.Fields, len(c.Fields)))
	javas := verifspec.SortedKeys(specJava(java, c.Fields, len(c.Fields)))
	s := "package " + pkg + "\n\n" + specImportLines(imports, len(imports)) + "\n" + specImportLines(javas, len(javas)) + "\n" +
		specConcat(as, len(as)) + "\n@Entity"
	if names := specQuoted(c.UniqueFields, len(c.UniqueFields)); len(names) > 0 {
		s += "\n@Table(name=\"" + c.table.Name + "\", uniqueConstraints = [\n    UniqueConstraint(name = \"" + c.table.Name + suffix + "\", columnNames = [" + strings.Join(names, ", ") + "])\n])"
	} else {
		s += "\n@Table(name = \"" + c.table.Name + "\")"
	}
	if len(c.PKFields) > 1 {
		s += "\n@IdClass(" + c.Name + "PK::class)"
	}
	id := specID(c, entity)
	s += "\ndata class " + c.Name + "(" + specFieldTexts(cs, c, relation, entity, len(c.Fields))
	if id != nil {
		s += "\n): " + entity + "<" + id.Type + ">"
	} else {
		s += "\n)"
	}
	if len(c.PKFields) > 1 {
		s += "\ndata class " + c.Name + "PK(" + specPKText(c.PKFields, len(c.PKFields)) + "\n): Serializable"
	}
	return s + "\n"
}

func specAllRelated(cs []*KotlinClass, fs []*KotlinField, relation string) bool {
	return verifspec.Forall(0, len(fs), func(i int) bool { return specRelated(cs, fs[i].Column, relation) })
}

//verif:use (*jpa.KtGenerator).GenerateEntityClass by Verif_J01_Entity
//verif:modifies wr
func ctGenerateEntityClass(c *KtGenerator, wr io.Writer, class *KotlinClass) error {
	o := c.option
	verifspec.Requires(o != nil && o.AnnoMapper != nil && specClassOK(class) && specClassesOK(c.classes) && specAllRelated(c.classes, class.Fields, o.Relation))
	_, err := wr.Write([]byte(specText(c.classes, class, o.AnnoMapper.GetAnnotations(class.table.Group), o.Package, o.UniqueNameSuffix, o.Relation, o.IdEntity)))
	return err
}

// the text of any class.
//
//verif:opaque jpa.specAnnotations
//verif:identity content
func Verif_J01_Entity(class *KotlinClass, cs []*KotlinClass, a common.AnnotationMapper, pkg, suffix, relation, entity string) {
	verifspec.Requires(specClassOK(class) && specClassesOK(cs) && specAllRelated(cs, class.Fields, relation))
	g := &KtGenerator{classes: cs, option: &KtOption{Package: pkg, UniqueNameSuffix: suffix, Relation: relation, IdEntity: entity, AnnoMapper: &a}}
	buf := new(bytes.Buffer)
	err := g.GenerateEntityClass(buf, class)
	verifspec.Ensures("generation succeeds", err == nil)
	verifspec.Ensures("the class", buf.String() == specText(cs, class, a.GetAnnotations(class.table.Group), pkg, suffix, relation, entity))
}

// ---- repositories

func specRepository(c *KotlinClass, pkg, repos string) string {
	id := c.Name + "PK"
	if len(c.PKFields) == 1 {
		id = c.PKFields[0].Type
	}
	return "package " + repos + "\n\nimport " + pkg + ".*\nimport org.springframework.data.jpa.repository.JpaRepository\nimport org.springframework.stereotype.Repository\n\n" +
		"@Repository\ninterface " + c.Name + "Repository : JpaRepository<" + c.Name + ", " + id + ">\n"
}

//verif:use (*jpa.KtGenerator).generateRepository by Verif_J01_Repository
//verif:modifies wr
func ctGenerateRepository(c *KtGenerator, wr io.Writer, class *KotlinClass, entityPackageName, reposPackageName string) error {
	verifspec.Requires(specClassOK(class) && len(class.PKFields) > 0)
	_, err := wr.Write([]byte(specRepository(class, entityPackageName, reposPackageName)))
	return err
}

// the text of a repository.
func Verif_J01_Repository(class *KotlinClass, pkg, repos string) {
	verifspec.Requires(specClassOK(class) && len(class.PKFields) > 0)
	buf := new(bytes.Buffer)
	err := (&KtGenerator{}).generateRepository(buf, class, pkg, repos)
	verifspec.Ensures("generation succeeds", err == nil)
	verifspec.Ensures("the repository", buf.String() == specRepository(class, pkg, repos))
}

// ---- the files

func specClasses(ts []*octopus.Table, f octopus.TableFilterFn, prefixes []string, p *common.PrefixMapper, a *common.AnnotationMapper, k int) []*KotlinClass {
	if k <= 0 {
		return nil
	}
	r := specClasses(ts, f, prefixes, p, a, k-1)
	if f != nil && !f(ts[k-1]) {
		return r
	}
	return append(r, specClass(ts[k-1], prefixes, p, a))
}

// the classes of the generator.
//
//verif:opaque jpa.specClass
func Verif_J01_Generator(s octopus.Schema, f octopus.TableFilterFn, prefixes []string, p common.PrefixMapper, a common.AnnotationMapper) {
	verifspec.Requires(verifspec.Forall(0, len(s.Tables), func(i int) bool { return specTableOK(s.Tables[i]) }))
	o := &KtOption{TableFilter: f, RemovePrefixes: prefixes, PrefixMapper: &p, AnnoMapper: &a}
	g := NewKtGenerator(&s, o)
	verifspec.Ensures("a class for each selected table", verifspec.Eq(g.classes, specClasses(s.Tables, f, prefixes, &p, &a, len(s.Tables))))
	verifspec.Ensures("settings", g.option == o)
}

func specDir(output, pkg string) string {
	if pkg == "" {
		return output
	}
	return path.Join(append([]string{output}, strings.Split(pkg, ".")...)...)
}

func specEntityFiles(all, cs []*KotlinClass, o KtOption, dir string, k int) []verifspec.File {
	if k <= 0 {
		return nil
	}
	c := cs[k-1]
	return append(specEntityFiles(all, cs, o, dir, k-1), verifspec.File{Name: path.Join(dir, c.Name+".kt"),
		Content: specText(all, c, o.AnnoMapper.GetAnnotations(c.table.Group), o.Package, o.UniqueNameSuffix, o.Relation, o.IdEntity)})
}

func specRepositoryFiles(r []verifspec.File, cs []*KotlinClass, pkg, repos, dir string, k int) []verifspec.File {
	if k <= 0 {
		return r
	}
	c := cs[k-1]
	r = specRepositoryFiles(r, cs, pkg, repos, dir, k-1)
	if len(c.PKFields) == 0 {
		return r
	}
	return append(r, verifspec.File{Name: path.Join(dir, c.Name+"Repository.kt"), Content: specRepository(c, pkg, repos)})
}

func specFiles(cs []*KotlinClass, o KtOption, output string) []verifspec.File {
	r := specEntityFiles(cs, cs, o, specDir(output, o.Package), len(cs))
	if o.ReposPackage == "" {
		return r
	}
	return specRepositoryFiles(r, cs, o.Package, o.ReposPackage, specDir(output, o.ReposPackage), len(cs))
}

func specGeneratorOK(cs []*KotlinClass, relation string) bool {
	return verifspec.Forall(0, len(cs), func(i int) bool { return specClassOK(cs[i]) && specAllRelated(cs, cs[i].Fields, relation) })
}

// one file for each class, one for each repository.
//
//verif:opaque jpa.specText jpa.specRepository
//verif:no-native
func Verif_J01_Files(cs []*KotlinClass, a common.AnnotationMapper, output, pkg, repos, suffix, relation, entity string) {
	verifspec.Requires(specGeneratorOK(cs, relation))
	o := KtOption{Package: pkg, ReposPackage: repos, UniqueNameSuffix: suffix, Relation: relation, IdEntity: entity, AnnoMapper: &a}
	g := &KtGenerator{classes: cs, option: &o}
	err := g.Generate(output)
	files := verifspec.Files()
	if err == nil {
		verifspec.Ensures("a file for each class and repository", verifspec.Eq(files, specFiles(cs, o, output)))
	}
}

// the same on concrete inputs.
//
//verif:native-only
func Verif_J01_FilesRun(s octopus.Schema, prefixes []string, p common.PrefixMapper, a common.AnnotationMapper, output string, packaged, withRepos bool, suffix, entity string) {
	verifspec.Requires(verifspec.Forall(0, len(s.Tables), func(i int) bool { return specTableOK(s.Tables[i]) }))
	seen := map[string]bool{}
	for i, t := range s.Tables {
		t.ClassName = verifspec.OutFile(t.Name + strconv.Itoa(i))
		verifspec.Requires(!seen[t.ClassName])
		seen[t.ClassName] = true
	}
	output = verifspec.OutFile(output)
	o := KtOption{RemovePrefixes: prefixes, PrefixMapper: &p, AnnoMapper: &a, UniqueNameSuffix: suffix, IdEntity: entity}
	if packaged {
		o.Package = "oct.entity"
	}
	if withRepos {
		o.ReposPackage = "oct.repos"
	}
	g := NewKtGenerator(&s, &o)
	want := specFiles(g.classes, o, output)
	files, err := verifspec.Run(func() error { return g.Generate(output) })
	sort.Slice(want, func(i, j int) bool { return want[i].Name < want[j].Name })
	sort.Slice(files, func(i, j int) bool { return files[i].Name < files[j].Name })
	verifspec.Ensures("no error", err == nil)
	verifspec.Ensures("a file for each class and repository", verifspec.Eq(files, want))
}
