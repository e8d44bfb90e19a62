package octopus

// SpecRenamed: the columns agree on everything but name, members and reference
// (and description, unless it counts).
func SpecRenamed(c, old *Column, useComments bool) bool {
	if useComments && c.Description != old.Description {
		return false
	}
	return c.Type == old.Type && c.Size == old.Size && c.Scale == old.Scale && c.NotNull == old.NotNull &&
		c.PrimaryKey == old.PrimaryKey && c.UniqueKey == old.UniqueKey && c.AutoIncremental == old.AutoIncremental &&
		c.DefaultValue == old.DefaultValue && c.OnUpdate == old.OnUpdate
}
