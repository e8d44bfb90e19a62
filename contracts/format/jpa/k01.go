package jpa

import (
	"encoding/json"
	"strings"

	"github.com/lechuckroh/octopus-db-tools/format/common"
	"github.com/lechuckroh/octopus-db-tools/format/octopus"
	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

// every option of the command reaches the generator, the output goes to the file named.
//
//verif:effect octopus.LoadSchema
//verif:effect jpa.NewKtGenerator
//verif:effect (*jpa.KtGenerator).Generate
//verif:opaque octopus.GetTableFilterFn common.NewPrefixMapper common.NewAnnotationMapper
func Verif_K01_Kotlin(input, output string, s *octopus.Schema, anno, groups, id, pkg, prefix, relation, remove, repos, suffix string) {
	input = verifspec.InFile(input)
	output = verifspec.OutFile(output)
	data, _ := json.Marshal(s)
	verifspec.Input(input, data)
	files, err := verifspec.Run(func() error {
		return verifspec.CLI(KotlinCliFlags, KotlinAction, "input", input, "output", output, "annotation", anno, "groups", groups, "idEntity", id, "package", pkg, "prefix", prefix, "relation", relation, "removePrefix", remove, "reposPackage", repos, "uniqueNameSuffix", suffix)
	})
	want, wantErr := verifspec.Run(func() error {
		schema, err := octopus.LoadSchema(input)
		if err != nil {
			return err
		}
		g := NewKtGenerator(schema, &KtOption{AnnoMapper: common.NewAnnotationMapper(anno), PrefixMapper: common.NewPrefixMapper(prefix), TableFilter: octopus.GetTableFilterFn(groups),
			IdEntity: id, Package: pkg, Relation: relation, RemovePrefixes: strings.Split(remove, ","), ReposPackage: repos, UniqueNameSuffix: suffix})
		return g.Generate(output)
	})
	verifspec.Ensures("fails like the generator", (err == nil) == (wantErr == nil))
	verifspec.Ensures("writes what the generator writes", verifspec.Eq(files, want))
}
