package unsafe

type ArbitraryType int
type Pointer *ArbitraryType
