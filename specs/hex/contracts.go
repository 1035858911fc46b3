package hex

// Dumps return normally whatever their arguments (what they show: see lemmas.go).

func zt_DumpSub(prefix string, data []byte, i1, i2 int) string { return "" }

func zt_Dump(prefix string, data []byte) string { return "" }

func zt_DumpTail(prefix string, data []byte, size int) string { return "" }
