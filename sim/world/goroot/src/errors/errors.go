package errors

func New(text string) error { return nil }
