package octopus

import (
	"encoding/json"

	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

// the JSON keys are those of the format documentation
func Verif_O02_Keys() {
	verifspec.Ensures("schema keys", verifspec.JSONKeys(Schema{}) == "Author=author,omitempty Name=name,omitempty Version=version,omitempty Tables=tables,omitempty")
	verifspec.Ensures("table keys", verifspec.JSONKeys(Table{}) == "Name=name,omitempty Columns=columns,omitempty Description=desc,omitempty Group=group,omitempty ClassName=className,omitempty Indices=indices,omitempty")
	verifspec.Ensures("column keys", verifspec.JSONKeys(Column{}) == "Name=name Type=type Description=desc,omitempty Size=size,omitempty Scale=scale,omitempty NotNull=notnull,omitempty PrimaryKey=pk,omitempty UniqueKey=unique,omitempty AutoIncremental=autoinc,omitempty DefaultValue=default,omitempty OnUpdate=onupdate,omitempty Values=values,omitempty Ref=ref,omitempty")
	verifspec.Ensures("reference keys", verifspec.JSONKeys(Reference{}) == "Table=table,omitempty Column=column,omitempty Relationship=relationship,omitempty")
	verifspec.Ensures("index keys", verifspec.JSONKeys(Index{}) == "Name=name Columns=columns")
}

// a schema file is read as its normalised schema, or rejected.
//
//verif:effect (*octopus.Schema).Normalize
func Verif_O02_Load(s *Schema, upper bool) {
	verifspec.Requires(specShape(s.Tables))
	data, _ := json.Marshal(s)
	name := "schema.json"
	if upper {
		name = "v1/Schema.OJSON"
	}
	verifspec.Input(name, data)
	want := verifspec.Clone(s).(*Schema)
	wantErr := want.Normalize()
	got, err := LoadSchema(name)
	verifspec.Ensures("loads exactly the schemas that normalise", (err == nil) == (wantErr == nil))
	if err == nil {
		verifspec.Ensures("the normalised schema", verifspec.Eq(got, want))
	}
}

// files with another extension are rejected.
func Verif_O02_Extension(s *Schema) {
	data, _ := json.Marshal(s)
	for _, n := range []string{"schema.mdj", "schema.xlsx", "schema.schema", "schema.plantuml", "schema.graphql", "schema", "json", "schema.json.txt"} {
		verifspec.Input(n, data)
		got, err := LoadSchema(n)
		verifspec.Ensures("not a schema file: "+n, got == nil && err != nil)
	}
}

// a schema is written as its normalised schema, or not at all.
//
//verif:effect (*octopus.Schema).Normalize
func Verif_O02_Save(s *Schema) {
	verifspec.Requires(specShape(s.Tables))
	want := verifspec.Clone(s).(*Schema)
	wantErr := want.Normalize()
	err := s.ToFile("out.json")
	files := verifspec.Files()
	if wantErr != nil {
		verifspec.Ensures("an invalid schema is rejected", err != nil)
		verifspec.Ensures("an invalid schema is not written", len(files) == 0)
		return
	}
	if err == nil {
		data, _ := json.MarshalIndent(want, "", "  ")
		verifspec.Ensures("one file", len(files) == 1 && files[0].Name == "out.json")
		verifspec.Ensures("the normalised schema", files[0].Content == string(data))
	}
}
