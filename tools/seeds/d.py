SEEDS = [
 dict(id='s01-import-leak', property='S01', pkg='format/sqlalchemy',
  edits=[('format/sqlalchemy/generator.go', '''			saImportSet.Add("Column")
			importSet.Clear()
''', '''			saImportSet.Add("Column")
			if len(class.Fields) == 0 {
				importSet.Clear()
			}
''')],
  needs='one file per table, a table with a date and time column before one without', breaks='the file of the second table imports what only the first one uses',
  demo='''
package sqlalchemy

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/lechuckroh/octopus-db-tools/format/common"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
)

func TestZZDemo(t *testing.T) {
	d, _ := ioutil.TempDir("", "demo")
	defer os.RemoveAll(d)
	s := &octopus.Schema{Tables: []*octopus.Table{
		{Name: "a", Columns: []*octopus.Column{{Name: "at", Type: "datetime"}}},
		{Name: "b", Columns: []*octopus.Column{{Name: "id", Type: "int64"}}}}}
	g := Generator{schema: s, option: &Option{PrefixMapper: common.NewPrefixMapper("")}}
	if err := g.Generate(filepath.Join(d, "out")); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile(filepath.Join(d, "out", "b.py"))
	if err != nil || strings.Contains(string(b), "datetime") {
		t.Fatal(err, string(b))
	}
}
'''),
 dict(id='s01-size-case', property='S01', pkg='format/sqlalchemy',
  edits=[('format/sqlalchemy/generator.go', '''			if (lcColumnType == octopus.ColTypeVarchar || lcColumnType == octopus.ColTypeChar) && column.Size > 0 {''',
   '''			if (column.Type == octopus.ColTypeVarchar || lcColumnType == octopus.ColTypeChar) && column.Size > 0 {''')],
  needs='a varchar type in upper case', breaks='the column loses its size',
  demo='''
package sqlalchemy

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/lechuckroh/octopus-db-tools/format/common"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
)

func TestZZDemo(t *testing.T) {
	d, _ := ioutil.TempDir("", "demo")
	defer os.RemoveAll(d)
	s := &octopus.Schema{Tables: []*octopus.Table{
		{Name: "a", Columns: []*octopus.Column{{Name: "n", Type: "VarChar", Size: 20}}}}}
	g := Generator{schema: s, option: &Option{PrefixMapper: common.NewPrefixMapper("")}}
	f := filepath.Join(d, "m.py")
	if err := g.Generate(f); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile(f)
	if err != nil || !strings.Contains(string(b), "String(20)") {
		t.Fatal(err, string(b))
	}
}
'''),
 dict(id='g01-model-overlap', property='G01', pkg='format/gorm',
  edits=[('format/gorm/gorm_model.go', '''			columnNameSet.RemoveAll(model.ColumnNames)
''', '''			columnNameSet.RemoveAll(model.ColumnNames[1:])
''')],
  needs='two known models which share only their first column, and a table with the columns of both', breaks='both models are embedded',
  demo='''
package gorm

import (
	"bytes"
	"strings"
	"testing"

	"github.com/lechuckroh/octopus-db-tools/format/common"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
)

func TestZZDemo(t *testing.T) {
	registerEmbeddedModel("AModel", []string{"id", "a"})
	registerEmbeddedModel("BModel", []string{"b", "id"})
	s := &octopus.Schema{Tables: []*octopus.Table{{Name: "x", Columns: []*octopus.Column{
		{Name: "id", Type: "int64"}, {Name: "a", Type: "int64"}, {Name: "b", Type: "int64"}}}}}
	g := Generator{schema: s, option: &Option{PrefixMapper: common.NewPrefixMapper("")}}
	buf := new(bytes.Buffer)
	if err := g.Generate(buf); err != nil {
		t.Fatal(err)
	}
	if strings.Contains(buf.String(), "BModel") {
		t.Fatal(buf.String())
	}
}
'''),
 dict(id='g01-index-priority', property='G01', pkg='format/gorm',
  edits=[('format/gorm/generator.go', '''					Priority:    i + 1,
''', '''					Priority:    len(gormIndexTags)/2 + i + 1,
''')],
  needs='a column in three indices', breaks='the position in the third index is wrong',
  demo='''
package gorm

import (
	"bytes"
	"strings"
	"testing"

	"github.com/lechuckroh/octopus-db-tools/format/common"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
)

func TestZZDemo(t *testing.T) {
	s := &octopus.Schema{Tables: []*octopus.Table{{Name: "x", Columns: []*octopus.Column{
		{Name: "a", Type: "int64"}, {Name: "b", Type: "int64"}}, Indices: []*octopus.Index{
		{Name: "i1", Columns: []string{"a", "b"}}, {Name: "i2", Columns: []string{"a", "b"}}, {Name: "i3", Columns: []string{"a", "b"}}}}}}
	g := Generator{schema: s, option: &Option{PrefixMapper: common.NewPrefixMapper("")}}
	buf := new(bytes.Buffer)
	if err := g.Generate(buf); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(buf.String(), "index:i1,priority:2;index:i2,priority:2;index:i3,priority:2") {
		t.Fatal(buf.String())
	}
}
'''),
 dict(id='g01-unique-pk', property='G01', pkg='format/gorm',
  edits=[('format/gorm/gorm.go', '''		if column.PrimaryKey {
			pkFields = append(pkFields, field)
		}
		if column.UniqueKey {
			uniqueFields''', '''		if column.PrimaryKey {
			pkFields = append(pkFields, field)
		} else if column.UniqueKey {
			uniqueFields''')],
  needs='a table with two unique columns, one of which is the primary key', breaks='the columns lose their shared unique index',
  demo='''
package gorm

import (
	"bytes"
	"strings"
	"testing"

	"github.com/lechuckroh/octopus-db-tools/format/common"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
)

func TestZZDemo(t *testing.T) {
	s := &octopus.Schema{Tables: []*octopus.Table{{Name: "x", Columns: []*octopus.Column{
		{Name: "a", Type: "int64", PrimaryKey: true, UniqueKey: true}, {Name: "b", Type: "int64", UniqueKey: true}}}}}
	g := Generator{schema: s, option: &Option{PrefixMapper: common.NewPrefixMapper(""), UniqueNameSuffix: "_uq"}}
	buf := new(bytes.Buffer)
	if err := g.Generate(buf); err != nil {
		t.Fatal(err)
	}
	if strings.Count(buf.String(), "unique_index:x_uq") != 2 {
		t.Fatal(buf.String())
	}
}
'''),
 dict(id='j01-key-import', property='J01', pkg='format/jpa',
  edits=[('format/jpa/kotlin-gen.go', '''	if pkFieldCount > 1 {
		javaImportSet.Add("java.io.Serializable")''', '''	if pkFieldCount > 1 && idEntityInterfaceName == "" {
		javaImportSet.Add("java.io.Serializable")''')],
  needs='a table with two key columns and the idEntity option', breaks='the import of Serializable is missing',
  demo='''
package jpa

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/lechuckroh/octopus-db-tools/format/common"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
)

func zzGen(t *testing.T, s *octopus.Schema, o *KtOption, file string) string {
	d, _ := ioutil.TempDir("", "demo")
	defer os.RemoveAll(d)
	o.PrefixMapper, o.AnnoMapper = common.NewPrefixMapper(""), common.NewAnnotationMapper("")
	o.Package = "x"
	if err := NewKtGenerator(s, o).Generate(d); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile(filepath.Join(d, file))
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}

func TestZZDemo(t *testing.T) {
	s := &octopus.Schema{Tables: []*octopus.Table{{Name: "a", Columns: []*octopus.Column{
		{Name: "x", Type: "int64", NotNull: true, PrimaryKey: true}, {Name: "y", Type: "int64", NotNull: true, PrimaryKey: true}}}}}
	if r := zzGen(t, s, &KtOption{IdEntity: "Base"}, "x/A.kt"); !strings.Contains(r, "import java.io.Serializable") {
		t.Fatal(r)
	}
}
'''),
 dict(id='j01-relation-first', property='J01', pkg='format/jpa',
  edits=[('format/jpa/kotlin-gen.go', '''	for _, cls := range c.classes {
		if cls.table.Name == tableName {
			return cls.Name
		}
	}
	return ""''', '''	name := ""
	for _, cls := range c.classes {
		if strings.EqualFold(cls.table.Name, tableName) {
			name = cls.Name
			if cls.table.ClassName != "" {
				break
			}
		}
	}
	return name''')],
  needs='relations and two tables whose names differ in letter case only', breaks='the relation leads to the wrong class',
  demo='''
package jpa

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/lechuckroh/octopus-db-tools/format/common"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
)

func zzGen(t *testing.T, s *octopus.Schema, o *KtOption, file string) string {
	d, _ := ioutil.TempDir("", "demo")
	defer os.RemoveAll(d)
	o.PrefixMapper, o.AnnoMapper = common.NewPrefixMapper(""), common.NewAnnotationMapper("")
	o.Package = "x"
	if err := NewKtGenerator(s, o).Generate(d); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile(filepath.Join(d, file))
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}

func TestZZDemo(t *testing.T) {
	s := &octopus.Schema{Tables: []*octopus.Table{
		{Name: "ab", Columns: []*octopus.Column{{Name: "id", Type: "int64", PrimaryKey: true, NotNull: true}}},
		{Name: "Ab", ClassName: "Other", Columns: []*octopus.Column{{Name: "id", Type: "int64", PrimaryKey: true, NotNull: true}}},
		{Name: "c", Columns: []*octopus.Column{{Name: "ab_id", Type: "int64", Ref: &octopus.Reference{Table: "ab", Column: "id", Relationship: "n:1"}}}}}}
	if r := zzGen(t, s, &KtOption{Relation: "VRelation"}, "x/C.kt"); !strings.Contains(r, `cls = "Ab"`) {
		t.Fatal(r)
	}
}
'''),
 dict(id='j01-created', property='J01', pkg='format/jpa',
  edits=[('format/jpa/kotlin-gen.go', '''		annotations = append(annotations, "@CreationTimestamp")
		colAttrs = append(colAttrs, "updatable = false")''', '''		annotations = append(annotations, "@CreationTimestamp")
		if len(colAttrs) > 0 {
			colAttrs = append(colAttrs, "updatable = false")
		}''')],
  needs='a nullable created_at column', breaks='the creation time can be updated',
  demo='''
package jpa

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/lechuckroh/octopus-db-tools/format/common"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
)

func zzGen(t *testing.T, s *octopus.Schema, o *KtOption, file string) string {
	d, _ := ioutil.TempDir("", "demo")
	defer os.RemoveAll(d)
	o.PrefixMapper, o.AnnoMapper = common.NewPrefixMapper(""), common.NewAnnotationMapper("")
	o.Package = "x"
	if err := NewKtGenerator(s, o).Generate(d); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile(filepath.Join(d, file))
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}

func TestZZDemo(t *testing.T) {
	s := &octopus.Schema{Tables: []*octopus.Table{{Name: "a", Columns: []*octopus.Column{{Name: "created_at", Type: "datetime"}}}}}
	if r := zzGen(t, s, &KtOption{}, "x/A.kt"); !strings.Contains(r, "updatable = false") {
		t.Fatal(r)
	}
}
'''),
 dict(id='q01-key-later', property='Q01', pkg='format/graphql',
  edits=[('format/graphql/generator.go', '''	if len(pkFields) == 1 {''', '''	if len(pkFields) == 1 && (len(fields) < 3 || fields[0] == pkFields[0]) {''')],
  needs='a table of three columns or more whose key is not the first', breaks='the key is not an ID',
  demo='''
package graphql

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/lechuckroh/octopus-db-tools/format/common"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
)

func zzGen(t *testing.T, s *octopus.Schema) string {
	d, _ := ioutil.TempDir("", "demo")
	defer os.RemoveAll(d)
	s.Name, s.Version = "s", "1"
	g := &Generator{schema: s, option: &Option{PrefixMapper: common.NewPrefixMapper("")}}
	if err := g.Generate(d); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile(filepath.Join(d, "s-1.graphqls"))
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}

func TestZZDemo(t *testing.T) {
	c := func(n string, k bool) *octopus.Column { return &octopus.Column{Name: n, Type: "int64", PrimaryKey: k} }
	s := &octopus.Schema{Tables: []*octopus.Table{{Name: "a", Columns: []*octopus.Column{c("x", false), c("k", true), c("y", false)}}}}
	if r := zzGen(t, s); !strings.Contains(r, "  k: ID!") {
		t.Fatal(r)
	}
}
'''),
 dict(id='q01-empty-type', property='Q01', pkg='format/graphql',
  edits=[('format/graphql/generator.go', '''	for _, class := range classes {
''', '''	for _, class := range classes {
		if len(class.Fields) == 0 {
			continue
		}
''')],
  needs='a table without columns', breaks='the query leads to a type which is not there',
  demo='''
package graphql

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/lechuckroh/octopus-db-tools/format/common"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
)

func zzGen(t *testing.T, s *octopus.Schema) string {
	d, _ := ioutil.TempDir("", "demo")
	defer os.RemoveAll(d)
	s.Name, s.Version = "s", "1"
	g := &Generator{schema: s, option: &Option{PrefixMapper: common.NewPrefixMapper("")}}
	if err := g.Generate(d); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile(filepath.Join(d, "s-1.graphqls"))
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}

func TestZZDemo(t *testing.T) {
	s := &octopus.Schema{Tables: []*octopus.Table{{Name: "a"}}}
	if r := zzGen(t, s); !strings.Contains(r, "type A {") {
		t.Fatal(r)
	}
}
'''),
 dict(id='q01-type-case', property='Q01', pkg='format/graphql',
  edits=[('format/graphql/generator.go', '''	columnType := strings.ToLower(column.Type)''', '''	columnType := column.Type
	if len(columnType) < 5 {
		columnType = strings.ToLower(columnType)
	}''')],
  needs='a column with a type in upper case, such as INT64', breaks='the field is a string',
  demo='''
package graphql

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/lechuckroh/octopus-db-tools/format/common"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
)

func zzGen(t *testing.T, s *octopus.Schema) string {
	d, _ := ioutil.TempDir("", "demo")
	defer os.RemoveAll(d)
	s.Name, s.Version = "s", "1"
	g := &Generator{schema: s, option: &Option{PrefixMapper: common.NewPrefixMapper("")}}
	if err := g.Generate(d); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile(filepath.Join(d, "s-1.graphqls"))
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}

func TestZZDemo(t *testing.T) {
	s := &octopus.Schema{Tables: []*octopus.Table{{Name: "a", Columns: []*octopus.Column{{Name: "x", Type: "INT64"}}}}}
	if r := zzGen(t, s); !strings.Contains(r, "  x: Int") {
		t.Fatal(r)
	}
}
'''),
]
