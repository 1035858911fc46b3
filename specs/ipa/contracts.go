package ipa

func zt_String(val [4]byte) string { return "" }
