package oid

func zt_String(id []uint32) string { return "" }
