package sort

func Strings(x []string) {}
