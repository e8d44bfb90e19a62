IMP = '''
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
'''
SEEDS = [
 dict(id='e01-separator', property='E01', pkg='format/plantuml',
  edits=[('format/plantuml/generator.go', '''	result = append(result, "@startuml")
	for _, table := range c.schema.Tables {
		result = append(result, fmt.Sprintf("entity %s {", table.Name))

		separatorAdded := false
''', '''	result = append(result, "@startuml")
	separatorAdded := false
	for i, table := range c.schema.Tables {
		result = append(result, fmt.Sprintf("entity %s {", table.Name))

		if i < 2 {
			separatorAdded = false
		}
''')],
  needs='three or more tables', breaks='the separator is missing from the third table on',
  demo='''
package plantuml

import (
	"bytes"
	"strings"
	"testing"
''' + IMP + ''')

func TestZZDemo(t *testing.T) {
	s := &octopus.Schema{}
	for _, n := range []string{"a", "b", "c"} {
		s.Tables = append(s.Tables, &octopus.Table{Name: n, Columns: []*octopus.Column{{Name: "x", Type: "int32"}}})
	}
	var b bytes.Buffer
	g := Generator{schema: s, option: &Option{}}
	if err := g.Generate(&b); err != nil {
		t.Fatal(err)
	}
	if strings.Count(b.String(), "    --") != 3 {
		t.Fatal(b.String())
	}
}
'''),
 dict(id='e02-dash', property='E02', pkg='format/quickdbd',
  edits=[('format/quickdbd/exporter.go', 'strings.Repeat("-", len(table.Name))', 'strings.Repeat("-", len(getTableDef(table)))')],
  needs='a table with a description', breaks='the line below the table name is as long as name and comment',
  demo='''
package quickdbd

import (
	"bytes"
	"testing"
''' + IMP + ''')

func TestZZDemo(t *testing.T) {
	s := &octopus.Schema{Tables: []*octopus.Table{{Name: "abc", Description: "long text"}}}
	var b bytes.Buffer
	g := Exporter{schema: s, option: &ExportOption{}}
	if err := g.Export(&b); err != nil {
		t.Fatal(err)
	}
	if b.String() != "abc # long text\\n---\\n" {
		t.Fatal(b.String())
	}
}
'''),
 dict(id='e03-defined-early', property='E03', pkg='format/dbml',
  edits=[('format/dbml/exporter.go', '''		result = append(result, fmt.Sprintf("Table %s {", table.Name))
''', '''		result = append(result, fmt.Sprintf("Table %s {", table.Name))
		definedTables[table.Name] = true
'''), ('format/dbml/exporter.go', '''		result = append(result, "}")
		result = append(result, "")

		definedTables[table.Name] = true
''', '''		result = append(result, "}")
		result = append(result, "")
''')],
  needs='a table that refers to itself', breaks='the self reference is written inside the table that is not written yet',
  demo='''
package dbml

import (
	"strings"
	"testing"
''' + IMP + ''')

func TestZZDemo(t *testing.T) {
	s := &octopus.Schema{Tables: []*octopus.Table{{Name: "t", Columns: []*octopus.Column{
		{Name: "id", Type: "int64"},
		{Name: "parent", Type: "int64", Ref: &octopus.Reference{Table: "t", Column: "id"}}}}}}
	g := Exporter{schema: s, option: &Option{}}
	b, err := g.exportToString()
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(string(b), "\\nRef: t.parent > t.id") {
		t.Fatal(string(b))
	}
}
'''),
 dict(id='c07-prefix-colon', property='C07', pkg='format/common',
  edits=[('format/common/prefix.go', 'strings.SplitN(prefixToken, ":", 2)', 'strings.Split(prefixToken, ":")')],
  needs='a prefix value that contains a colon', breaks='the entry is ignored',
  demo='''
package common

import "testing"

func TestZZDemo(t *testing.T) {
	if p := NewPrefixMapper("a:x:y,b:z").GetPrefix("a"); p != "x:y" {
		t.Fatal(p)
	}
}
'''),
 dict(id='c06-empty-group', property='C06', pkg='format/octopus',
  edits=[('format/octopus/filter.go', 'if table.Group == group {', 'if group != "" && table.Group == group {')],
  needs='a groups text with an empty entry and a table without group', breaks='tables without group cannot be selected',
  demo='''
package octopus

import "testing"

func TestZZDemo(t *testing.T) {
	if !GetTableFilterFn("a,")(&Table{Name: "x"}) {
		t.Fatal("table without group is not selected by the empty entry")
	}
}
'''),
 dict(id='c04-last-table', property='C04', pkg='format/octopus',
  edits=[('format/octopus/table.go', '''	if table := s.TableByName(ref.Table); table != nil {
		if column''', '''	if table := s.TablesByName()[ref.Table]; table != nil {
		if column''')],
  needs='two tables of one name (in different groups)', breaks='a reference resolves to the last table of the name, not the first',
  demo='''
package octopus

import "testing"

func TestZZDemo(t *testing.T) {
	a := &Table{Name: "t", Group: "a", Columns: []*Column{{Name: "id"}}}
	b := &Table{Name: "t", Group: "b", Columns: []*Column{{Name: "x"}}}
	s := &Schema{Tables: []*Table{a, b}}
	tb, c := s.FindReference(Reference{Table: "t", Column: "id"})
	if tb != a || c != a.Columns[0] {
		t.Fatal("not found")
	}
}
'''),
 dict(id='c05-scale', property='C05', pkg='format/octopus',
  edits=[('format/octopus/column.go', '''	if c.Size == 0 {
		return c.Type
	}''', '''	if c.Size == 0 && c.Scale == 0 {
		return c.Type
	}''')],
  needs='a column with a scale and no size', breaks='the type text has a zero size',
  demo='''
package octopus

import "testing"

func TestZZDemo(t *testing.T) {
	if s := (&Column{Type: "decimal", Scale: 2}).Format(); s != "decimal" {
		t.Fatal(s)
	}
}
'''),
 dict(id='d01-rename-order', property='D01', pkg='format/diff',
  edits=[('format/diff/diff.go', '''					renamedTableMap[addedTable] = removedTable
					removedTableNames.Remove(removedTableName)
''', '''					renamedTableMap[addedTable] = removedTable
''')],
  needs='a renamed table', breaks='the renamed table is also dropped',
  demo='''
package diff

import (
	"testing"
''' + IMP + ''')

func TestZZDemo(t *testing.T) {
	cols := []*octopus.Column{{Name: "id", Type: "int64"}}
	from := &octopus.Schema{Tables: []*octopus.Table{{Name: "a", Columns: cols}}}
	to := &octopus.Schema{Tables: []*octopus.Table{{Name: "b", Columns: cols}}}
	r, err := getDiff(&Option{DiffFrom: from, DiffTo: to})
	if err != nil {
		t.Fatal(err)
	}
	if len(r.ChangeSets) != 1 {
		t.Fatal(len(r.ChangeSets))
	}
}
'''),
 dict(id='d01-rename-auto', property='D01', pkg='format/octopus',
  edits=[('format/octopus/column.go', '''		c.Scale == target.Scale &&
		c.NotNull == target.NotNull &&
''', '''		(c.Size == 0 || c.Scale == target.Scale) &&
		c.NotNull == target.NotNull &&
''')],
  needs='a column removed and one added that differ only in scale, without size', breaks='reported as a rename',
  demo='''
package octopus

import "testing"

func TestZZDemo(t *testing.T) {
	a := &Column{Name: "a", Type: "decimal", Scale: 1}
	b := &Column{Name: "b", Type: "decimal", Scale: 2}
	if a.IsRenamed(b, true) {
		t.Fatal("renamed")
	}
}
'''),
 dict(id='d02-old-pk', property='D02', pkg='format/diff',
  edits=[('format/diff/markdown.go', '''	newUniqueColumnNames := strings.Join(c.Table.UniqueKeyNameSet().Slice(), ", ")
''', '''	names := c.Table.UniqueKeyNameSet()
	if pk := c.Table.PrimaryKeyNameSet().Slice(); len(pk) > 1 {
		names.RemoveAll(pk)
	}
	newUniqueColumnNames := strings.Join(names.Slice(), ", ")
''')],
  needs='a composite primary key with a column that is unique too', breaks='the column is left out of the report',
  demo='''
package diff

import (
	"strings"
	"testing"
''' + IMP + ''')

func TestZZDemo(t *testing.T) {
	w := NewMarkdownChangeSetWirter(nil, &Option{})
	l, err := w.toMarkdownLine(&CreateUniqueConstraint{Table: &octopus.Table{Name: "t", Columns: []*octopus.Column{
		{Name: "a", PrimaryKey: true, UniqueKey: true}, {Name: "b", PrimaryKey: true}, {Name: "c", UniqueKey: true}}}})
	if err != nil || !strings.Contains(l, "[a, c]") {
		t.Fatal(l, err)
	}
}
'''),
 dict(id='d03-blank', property='D03', pkg='format/diff',
  edits=[('format/diff/flyway.go', '''		w.writer.WriteLine("")
	}
	return nil''', '''		if len(changeSet.Changes) > 1 {
			w.writer.WriteLine("")
		}
	}
	if n := len(result.ChangeSets); n > 0 {
		w.writer.WriteLine("")
	}
	return nil''')],
  needs='several change sets', breaks='the empty lines between change sets are missing',
  demo='''
package diff

import (
	"bytes"
	"testing"
''' + IMP + ''')

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	w := NewFlywayChangeSetWirter(&b, &Option{})
	r := &Result{}
	for _, n := range []string{"a", "b"} {
		cs := &ChangeSet{}
		cs.Add(&DropTable{Table: &octopus.Table{Name: n}})
		r.Add(cs)
	}
	if err := w.Write(r); err != nil {
		t.Fatal(err)
	}
	if b.String() != "DROP TABLE a;\\n\\nDROP TABLE b;\\n\\n" {
		t.Fatalf("%q", b.String())
	}
}
'''),
 dict(id='d04-sort', property='D04', pkg='format/diff',
  edits=[('format/diff/markdown.go', 'return strings.Compare(keys[i].(string), keys[j].(string)) < 0',
          'return strings.Compare(strings.ToLower(keys[i].(string)), strings.ToLower(keys[j].(string))) < 0')],
  needs='table names in upper and lower case', breaks='sections are not in name order',
  demo='''
package diff

import (
	"bytes"
	"strings"
	"testing"
''' + IMP + ''')

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	w := NewMarkdownChangeSetWirter(&b, &Option{})
	r := &Result{From: &octopus.Schema{}, To: &octopus.Schema{}}
	for _, n := range []string{"a", "B"} {
		cs := &ChangeSet{}
		cs.Add(&DropTable{Table: &octopus.Table{Name: n}})
		r.Add(cs)
	}
	if err := w.Write(r); err != nil {
		t.Fatal(err)
	}
	if strings.Index(b.String(), "## B") > strings.Index(b.String(), "## a") {
		t.Fatalf("%q", b.String())
	}
}
'''),
 dict(id='p01-relation-tags', property='P01', pkg='format/protobuf',
  edits=[('format/protobuf/generator.go', '''	var relations []*PbRelation
	maxTag := 0
	for i, column := range table.Columns {
		tag := i + 1
		maxTag = tag
		field := newPbField(tag, column)
		fields = append(fields, field)
''', '''	var relations []*PbRelation
	maxTag := 0
	for i, column := range table.Columns {
		tag := i + 1
		field := newPbField(tag, column)
		fields = append(fields, field)
		if column.Ref == nil {
			maxTag = tag
		}
''')],
  needs='a table whose last column is a reference', breaks='a relation gets the number of the last field',
  demo='''
package protobuf

import (
	"testing"
''' + IMP + ''')

func TestZZDemo(t *testing.T) {
	s := &octopus.Schema{Tables: []*octopus.Table{{Name: "a", Columns: []*octopus.Column{{Name: "id", Type: "int64"},
		{Name: "b_id", Type: "int64", Ref: &octopus.Reference{Table: "b", Column: "id"}}}},
		{Name: "b", Columns: []*octopus.Column{{Name: "id", Type: "int64"}}}}}
	g := newGenerator(s, &Option{RelationTagStart: -1})
	m := g.newPbMessage(s.Tables[0])
	if len(m.Relations) != 1 || m.Relations[0].Tag != 3 {
		t.Fatal(m.Relations[0].Tag)
	}
}
'''),
 dict(id='o01-size', property='O01', pkg='format/ojson',
  edits=[('format/ojson/importer.go', '''	var ref *octopus.Reference
	if column1.Ref != nil {''', '''	var ref *octopus.Reference
	if column1.Ref != nil && !column1.PrimaryKey {''')],
  needs='a primary key column that is a reference', breaks='the reference is lost',
  demo='''
package ojson

import "testing"

func TestZZDemo(t *testing.T) {
	s, err := (&Importer{}).ImportJSON([]byte(`{"tables":[{"name":"t","columns":[{"name":"id","type":"long","pk":true,"ref":{"table":"x","column":"y"}}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if s.Tables[0].Columns[0].Ref == nil {
		t.Fatal("reference lost")
	}
}
'''),
 dict(id='o02-write-first', property='O02', pkg='format/octopus',
  edits=[('format/octopus/table.go', 'Indices     []*Index  `json:"indices,omitempty"`', 'Indices     []*Index  `json:"indexes,omitempty"`')],
  needs='a table with indices read from a file', breaks='indices of schema files are ignored',
  demo='''
package octopus

import "testing"

func TestZZDemo(t *testing.T) {
	s := &Schema{}
	if err := s.FromJson([]byte(`{"tables":[{"name":"t","indices":[{"name":"i","columns":["a"]}]}]}`)); err != nil {
		t.Fatal(err)
	}
	if len(s.Tables[0].Indices) != 1 {
		t.Fatal("index lost")
	}
}
'''),
]
