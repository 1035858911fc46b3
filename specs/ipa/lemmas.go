package ipa

import "strconv"

// C09
func zlIpText(a [4]byte) {
	zvInline("String")
	zvAssertEq("an address prints its four bytes in decimal, separated by dots", String(a), strconv.FormatUint(uint64(a[0]), 10)+"."+strconv.FormatUint(uint64(a[1]), 10)+"."+
		strconv.FormatUint(uint64(a[2]), 10)+"."+strconv.FormatUint(uint64(a[3]), 10))
}
