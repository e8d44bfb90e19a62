package octopus

import (
	"strconv"
	"strings"

	"github.com/lechuckroh/octopus-db-tools/verifspec"
)

func Verif_C05_Values(c *Column, fn string, text string) {
	old := *c
	v, isFn := c.GetDefaultValue()
	if strings.HasPrefix(old.DefaultValue, "fn::") {
		verifspec.Ensures("a function default is read back as the function name", isFn && "fn::"+v == old.DefaultValue)
	} else {
		verifspec.Ensures("any other default is read back as it is", !isFn && v == old.DefaultValue)
	}
	u, isFn2 := c.GetOnUpdate()
	if strings.HasPrefix(old.OnUpdate, "fn::") {
		verifspec.Ensures("a function on-update value is read back as the function name", isFn2 && "fn::"+u == old.OnUpdate)
	} else {
		verifspec.Ensures("any other on-update value is read back as it is", !isFn2 && u == old.OnUpdate)
	}
	verifspec.Ensures("reading changes nothing", verifspec.Eq(*c, old))

	c.SetDefaultValueFn(fn)
	want := old
	want.DefaultValue = "fn::" + fn
	verifspec.Ensures("setting a function default changes only the default", verifspec.Eq(*c, want))
	g, ok := c.GetDefaultValue()
	verifspec.Ensures("the function that was set is the one read", ok && g == fn)
	c.SetOnUpdateFn(fn)
	want.OnUpdate = "fn::" + fn
	verifspec.Ensures("setting a function on-update value changes only that", verifspec.Eq(*c, want))
	h, ok2 := c.GetOnUpdate()
	verifspec.Ensures("the on-update function that was set is the one read", ok2 && h == fn)

	c.SetDefaultValue(text)
	want.DefaultValue = text
	c.SetOnUpdate(text)
	want.OnUpdate = text
	verifspec.Ensures("setting plain values stores them", verifspec.Eq(*c, want))
	c.SetDefaultValue(nil)
	want.DefaultValue = ""
	c.SetOnUpdate(nil)
	want.OnUpdate = ""
	verifspec.Ensures("setting nothing clears the values", verifspec.Eq(*c, want))
}

// SpecFormat: a column type with its size and scale.
func SpecFormat(c Column) string {
	if c.Size != 0 && c.Scale == 0 {
		return c.Type + "(" + strconv.Itoa(int(c.Size)) + ")"
	}
	if c.Size != 0 && c.Scale != 0 {
		return c.Type + "(" + strconv.Itoa(int(c.Size)) + "," + strconv.Itoa(int(c.Scale)) + ")"
	}
	return c.Type
}

//verif:use (*octopus.Column).Format by Verif_C05_Format
func ctFormat(c *Column) string { return SpecFormat(*c) }

func Verif_C05_Format(c Column) {
	verifspec.Ensures("type, size and scale", c.Format() == ctFormat(&c))
}

func specHas(xs []string, s string, i int) bool {
	if i >= len(xs) {
		return false
	}
	if xs[i] == s {
		return true
	}
	return specHas(xs, s, i+1)
}

func VInv_C06_Has(xs []string, t Table, k int) bool {
	return specHas(xs, t.Group, 0) == specHas(xs, t.Group, k)
}

func Verif_C06_GroupFilter(groups string, t Table) {
	f := GetTableFilterFn(groups)
	if groups == "" {
		verifspec.Ensures("no filter without groups", f == nil)
		return
	}
	verifspec.Ensures("a filter", f != nil)
	verifspec.Ensures("selects the tables of the listed groups", f(&t) == specHas(strings.Split(groups, ","), t.Group, 0))
}
