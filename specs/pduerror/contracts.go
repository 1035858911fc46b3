package pduerror

func zt_Error_String(i Error) string { return "" }
