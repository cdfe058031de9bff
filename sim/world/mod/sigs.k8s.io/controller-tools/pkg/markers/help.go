package markers

type DetailedHelp struct {
	Summary string
	Details string
}

type DefinitionHelp struct {
	Category     string
	DetailedHelp
	FieldHelp map[string]DetailedHelp
}
