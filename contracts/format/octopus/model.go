package octopus

import (
	"errors"
	"strings"

	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

// specCanon: canonical name of a lower-case type name.
func specCanon(t string) string {
	if t == "string" {
		return "varchar"
	}
	if t == "tinyint" {
		return "int8"
	}
	if t == "smallint" {
		return "int16"
	}
	if t == "mediumint" {
		return "int24"
	}
	if t == "int" || t == "integer" {
		return "int32"
	}
	if t == "bigint" || t == "long" {
		return "int64"
	}
	if t == "numeric" {
		return "decimal"
	}
	if t == "real" {
		return "double"
	}
	if t == "timestamp" {
		return "datetime"
	}
	if t == "tinyblob" {
		return "blob8"
	}
	if t == "blob" {
		return "blob16"
	}
	if t == "mediumblob" {
		return "blob24"
	}
	if t == "longblob" {
		return "blob32"
	}
	if t == "tinytext" {
		return "text8"
	}
	if t == "text" {
		return "text16"
	}
	if t == "mediumtext" {
		return "text24"
	}
	if t == "longtext" {
		return "text32"
	}
	return t
}

// specCanonOf: the canonical name of any type name.
func specCanonOf(t string) string { return specCanon(strings.ToLower(t)) }

func specIntType(t string) bool {
	return t == "int8" || t == "int16" || t == "int24" || t == "int32" || t == "int64"
}

// specKnownType: the column types of the schema format.
func specKnownType(t string) bool {
	return specIntType(t) || t == "binary" || t == "bit" || t == "blob8" || t == "blob16" || t == "blob24" || t == "blob32" ||
		t == "boolean" || t == "char" || t == "date" || t == "datetime" || t == "decimal" || t == "double" || t == "enum" ||
		t == "float" || t == "geometry" || t == "json" || t == "point" || t == "set" || t == "text8" || t == "text16" ||
		t == "text24" || t == "text32" || t == "time" || t == "varbinary" || t == "varchar" || t == "year"
}

// NormalizeType canonicalises the type name, changes nothing else and is idempotent.
func Verif_C01_NormalizeType(c *Column) {
	old := *c
	c.NormalizeType()
	want := old
	want.Type = specCanon(strings.ToLower(old.Type))
	verifspec.Ensures("canonical type name, every other attribute unchanged", verifspec.Eq(*c, want))
	ct := old
	ctNormalizeType(&ct)
	verifspec.Ensures("the contract callers rely on", verifspec.Eq(*c, ct))
	again := *c
	again.NormalizeType()
	verifspec.Ensures("normalising twice changes nothing", verifspec.Eq(again, *c))
}

// contract of NormalizeType as its callers see it
//
//verif:use (*octopus.Column).NormalizeType by Verif_C01_NormalizeType
//verif:modifies c
func ctNormalizeType(c *Column) { c.Type = specCanonOf(c.Type) }

func specColumnValid(c Column) bool {
	if c.Name == "" || !specKnownType(c.Type) {
		return false
	}
	if c.Type == "enum" && len(c.Values) == 0 {
		return false
	}
	return !(c.Type == "set" && (len(c.Values) == 0 || len(c.Values) > 64))
}

// Validate accepts exactly the well-formed columns.
func Verif_C02_ValidateColumn(c *Column, autoCorrect bool) {
	old := *c
	err := c.Validate(autoCorrect)
	isInt := specIntType(strings.ToLower(old.Type))
	bad := old.AutoIncremental && !isInt
	verifspec.Ensures("accepted exactly when well-formed", (err == nil) == (specColumnValid(old) && (autoCorrect || !bad)))
	want := old
	if autoCorrect && bad && old.Name != "" {
		want.AutoIncremental = false
	}
	verifspec.Ensures("auto-increment is switched off only where it is impossible; nothing else changes", verifspec.Eq(*c, want))
	ct := old
	ctErr := ctValidate(&ct, autoCorrect)
	verifspec.Ensures("the contract callers rely on", (err == nil) == (ctErr == nil) && verifspec.Eq(*c, ct))
}

// contract of Validate as its callers see it (the text of the error is not specified)
//
//verif:use (*octopus.Column).Validate by Verif_C02_ValidateColumn
//verif:modifies c
func ctValidate(c *Column, autoCorrect bool) error {
	bad := c.AutoIncremental && !specIntType(strings.ToLower(c.Type))
	ok := specColumnValid(*c) && (autoCorrect || !bad)
	if autoCorrect && bad && c.Name != "" {
		c.AutoIncremental = false
	}
	if ok {
		return nil
	}
	return errors.New("invalid column")
}

// LESS orders tables by group, then by name.
func Verif_C03_Less(s TableSlice, i, j int) {
	verifspec.Requires(0 <= i && i < len(s) && 0 <= j && j < len(s))
	verifspec.Requires(s[i] != nil && s[j] != nil)
	want := s[i].Group < s[j].Group || (s[i].Group == s[j].Group && s[i].Name < s[j].Name)
	verifspec.Ensures("group first, then name", s.Less(i, j) == want)
}

func specNonNil(ts []*Table) bool {
	return verifspec.Forall(0, len(ts), func(i int) bool { return ts[i] != nil })
}

// specFindTable: the first table at or after i that has the name.
func specFindTable(ts []*Table, name string, i int) *Table {
	if i >= len(ts) {
		return nil
	}
	if ts[i].Name == name {
		return ts[i]
	}
	return specFindTable(ts, name, i+1)
}

// loop: nothing found so far
func VInv_C04_FindTable(xs []*Table, name string, k int) bool {
	return specFindTable(xs, name, 0) == specFindTable(xs, name, k)
}

func Verif_C04_TableByName(s *Schema, name string) {
	verifspec.Requires(specNonNil(s.Tables))
	got := s.TableByName(name)
	verifspec.Ensures("the first table of that name", verifspec.Eq(got, ctTableByName(s, name)))
}
