package url

type Values map[string][]string
type URL struct {
	Scheme string
	Host   string
}
