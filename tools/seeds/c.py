SEEDS = [
 dict(id='k01-go-package', property='K01', pkg='format/protobuf',
  edits=[('format/protobuf/cli.go', '''	gen := newGenerator(
		schema,''', '''	goPackage := c.String(FlagGoPackage)
	if goPackage == "" {
		goPackage = c.String(FlagPackage)
	}
	gen := newGenerator(
		schema,'''), ('format/protobuf/cli.go', 'GoPackage:        c.String(FlagGoPackage),', 'GoPackage:        goPackage,')],
  needs='a package without a go package', breaks='the go_package option is written although it is not asked for',
  demo='''
package protobuf

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/urfave/cli/v2"
)

func TestZZDemo(t *testing.T) {
	d, _ := ioutil.TempDir("", "demo")
	defer os.RemoveAll(d)
	in, out := filepath.Join(d, "in.json"), filepath.Join(d, "out.proto")
	ioutil.WriteFile(in, []byte(`{"tables":[{"name":"t","columns":[{"name":"id","type":"int64"}]}]}`), 0644)
	app := &cli.App{Commands: []*cli.Command{{Name: "pb", Flags: CliFlags, Action: Action}}}
	if err := app.Run([]string{"x", "pb", "-i", in, "-o", out, "-p", "pk"}); err != nil {
		t.Fatal(err)
	}
	b, _ := ioutil.ReadFile(out)
	if !strings.Contains(string(b), "package pk;") || strings.Contains(string(b), "go_package") {
		t.Fatal(string(b))
	}
}
'''),
 dict(id='k01-diff-author', property='K01', pkg='format/diff',
  edits=[('format/diff/cli.go', '''func loadSchema(fromFilename, toFilename string) (*octopus.Schema, *octopus.Schema, error) {
''', '''func loadSchema(fromFilename, toFilename string) (*octopus.Schema, *octopus.Schema, error) {
	if fromFilename == toFilename {
		schema, err := octopus.LoadSchema(fromFilename)
		return schema, &octopus.Schema{Version: schema.Version, Tables: schema.Tables}, err
	}
''')],
  needs='the same file given as from and to, and no author option, or a file that cannot be read', breaks='an unreadable file panics instead of an error',
  demo='''
package diff

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/urfave/cli/v2"
)

func TestZZDemo(t *testing.T) {
	d, _ := ioutil.TempDir("", "demo")
	defer os.RemoveAll(d)
	in := filepath.Join(d, "in.json")
	ioutil.WriteFile(in, []byte(`{"tables":[{"name":"t","columns":[{"name":"","type":"int64"}]}]}`), 0644)
	app := &cli.App{Commands: []*cli.Command{{Name: "d", Flags: CliFlags, Action: FlywayAction}}}
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	if err := app.Run([]string{"x", "d", "--from", in, "--to", in, "-o", filepath.Join(d, "out")}); err == nil {
		t.Fatal("no error")
	}
}
'''),
]
