package asn

func zt_Varbind_String(vb Varbind) string { return "" }

func zt_Tag_String(tag Tag) string { return "" }
