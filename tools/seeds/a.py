SEEDS = [
 dict(id='m01-unique-pk', property='M01', pkg='format/mysql',
  edits=[('format/mysql/exporter.go', '''		if column.PrimaryKey {
			pkColumns = append(pkColumns, c.quote(column.Name))
		}
		if column.UniqueKey {
			uniqueColumns''', '''		if column.PrimaryKey {
			pkColumns = append(pkColumns, c.quote(column.Name))
		} else if column.UniqueKey {
			uniqueColumns''')],
  needs='a column that is both primary key and unique', breaks='the column is missing from the UNIQUE KEY',
  demo='''
package mysql

import (
	"bytes"
	"strings"
	"testing"

	"github.com/lechuckroh/octopus-db-tools/format/octopus"
)

func TestZZDemo(t *testing.T) {
	s := &octopus.Schema{Tables: []*octopus.Table{{Name: "t", Columns: []*octopus.Column{
		{Name: "id", Type: "int64", PrimaryKey: true, UniqueKey: true}, {Name: "n", Type: "int32", UniqueKey: true}}}}}
	var b bytes.Buffer
	if err := NewExporter(s, &ExportOption{UniqueNameSuffix: "_uq"}).Export(&b); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(b.String(), "UNIQUE KEY `t_uq` (`id`, `n`)") {
		t.Fatal(b.String())
	}
}
'''),
 dict(id='c02-set-limit', property='C02', pkg='format/octopus',
  edits=[('format/octopus/column.go', 'memberCount <= 0 || memberCount > 64', 'memberCount <= 0 || memberCount >= 64')],
  needs='a set column with exactly 64 members', breaks='a set of 64 members is rejected',
  demo='''
package octopus

import (
	"fmt"
	"testing"
)

func TestZZDemo(t *testing.T) {
	c := &Column{Name: "a", Type: "set"}
	for i := 0; i < 64; i++ {
		c.Values = append(c.Values, fmt.Sprint(i))
	}
	if err := c.Validate(true); err != nil {
		t.Fatal(err)
	}
	c.Values = append(c.Values, "x")
	if err := c.Validate(true); err == nil {
		t.Fatal("65 members accepted")
	}
}
'''),
 dict(id='c03-less-case', property='C03', pkg='format/octopus',
  edits=[('format/octopus/table.go', 'if s[i].Group == s[j].Group {', 'if strings.EqualFold(s[i].Group, s[j].Group) {'), ('format/octopus/table.go', '	"sort"\n)', '	"sort"\n	"strings"\n)')],
  needs='two groups that differ only in letter case', breaks='tables of the two groups are interleaved by name',
  demo='''
package octopus

import "testing"

func TestZZDemo(t *testing.T) {
	s := &Schema{Tables: []*Table{{Name: "c", Group: "G"}, {Name: "b", Group: "g"}, {Name: "a", Group: "G"}, {Name: "d", Group: "G"}}}
	if err := s.Normalize(); err != nil {
		t.Fatal(err)
	}
	got := ""
	for _, x := range s.Tables {
		got += x.Group + x.Name
	}
	if got != "GaGcGdgb" {
		t.Fatal(got)
	}
}
'''),
 dict(id='c01-numeric', property='C01', pkg='format/octopus',
  edits=[('format/octopus/column.go', '''	case "numeric":
		return ColTypeDecimal
''', '''	case "numeric":
		if c.Scale > 0 {
			return ColTypeDecimal
		}
		return ColTypeInt64
''')],
  needs='a numeric column without scale', breaks='numeric becomes int64 instead of decimal',
  demo='''
package octopus

import "testing"

func TestZZDemo(t *testing.T) {
	c := &Column{Name: "a", Type: "NUMERIC", Size: 20}
	c.NormalizeType()
	if c.Type != "decimal" {
		t.Fatal(c.Type)
	}
}
'''),
]
