package protobuf

import (
	"bytes"
	"encoding/json"
	"io"
	"strings"

	"github.com/lechuckroh/octopus-db-tools/format/common"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/util"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

//verif:use (*protobuf.Generator).Generate by Verif_P01_Schema
//verif:modifies wr
func ctGenerate(g *Generator, wr io.Writer) error {
	verifspec.Requires(g.schema != nil && specSchemaOK(g.schema) && g.option != nil)
	s, o := *g.schema, *g.option
	_, err := wr.Write([]byte(specProto(specMessages(s, o.RemovePrefixes, o.PrefixMapper, o.RelationTagStart, o.RelationTagDecr, s.Tables, o.TableFilter, len(s.Tables)), o.Package, o.GoPackage)))
	return err
}

// every option of the command reaches the generator.
//
//verif:effect octopus.LoadSchema
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper protobuf.specMessages protobuf.specProto
func Verif_K01_Protobuf(input, output string, s *octopus.Schema, pkg, goPkg, groups, prefix, remove, start string, decr bool) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	verifspec.Requires(SpecSchemaOK(s))
	data, _ := json.Marshal(s)
	verifspec.Input(input, data)
	schema, lerr := octopus.LoadSchema(input)
	verifspec.Requires(lerr != nil || schema != nil && specSchemaOK(schema))
	files, err := verifspec.Run(func() error {
		return verifspec.CLI(CliFlags, Action, "input", input, "output", output, "package", pkg, "goPackage", goPkg,
			"groups", groups, "prefix", prefix, "removePrefix", remove, "relationTagStart", start, "relationTagDecr", decr)
	})
	want, wantErr := verifspec.Run(func() error {
		if lerr != nil {
			return lerr
		}
		g := newGenerator(schema, &Option{Package: pkg, GoPackage: goPkg, TableFilter: octopus.GetTableFilterFn(groups), PrefixMapper: common.NewPrefixMapper(prefix),
			RemovePrefixes: strings.Split(remove, ","), RelationTagStart: util.ToInt(start, -1), RelationTagDecr: decr})
		buf := new(bytes.Buffer)
		if err := g.Generate(buf); err != nil {
			return err
		}
		return util.WriteStringToFile(output, buf.String())
	})
	verifspec.Ensures("fails like the generator", (err == nil) == (wantErr == nil))
	verifspec.Ensures("writes what the generator writes", verifspec.Eq(files, want))
}

// SpecSchemaOK is what the generator needs of a schema.
func SpecSchemaOK(s *octopus.Schema) bool {
	return s != nil && specSchemaOK(s)
}
