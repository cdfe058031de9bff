package strings

type Builder struct{ buf []byte }

func Join(a []string, sep string) string { return "" }
