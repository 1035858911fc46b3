package hex

// Specification of hex dumps.

const zvDigits = "0123456789ABCDEF"

// zvOffset is the offset at the beginning of a line: 8 digits and two spaces.
func zvOffset(n int) []byte {
	a, b, c, d := byte(n>>24), byte(n>>16), byte(n>>8), byte(n)
	return []byte{zvDigits[a>>4], zvDigits[a&15], zvDigits[b>>4], zvDigits[b&15],
		zvDigits[c>>4], zvDigits[c&15], zvDigits[d>>4], zvDigits[d&15], ' ', ' '}
}

// zvDump shows data[i1:i2], four bytes a line.
func zvDump(prefix string, data []byte, i1, i2 int) string {
	if i1 == i2 {
		return prefix + string(zvOffset(i1))
	}
	var out []byte
	n := i2 - i1
	for k := 0; k < n; k++ {
		if k%4 == 0 {
			out = append(out, prefix...)
			out = append(out, zvOffset(i1+k)...)
		}
		b := data[i1+k]
		out = append(out, zvDigits[b>>4], zvDigits[b&15], ' ')
		if k%4 == 3 && k != n-1 {
			out = append(out, '\n')
		}
	}
	return string(out)
}

// C17
func zlDumpSub(prefix string, data []byte, i1, i2 int) {
	zvInline("DumpSub")
	s := DumpSub(prefix, data, i1, i2)
	if i1 >= 0 && i1 <= i2 && i2 <= len(data) {
		zvAssertEq("DumpSub shows exactly the bytes of the part", s, zvDump(prefix, data, i1, i2))
	}
}

func zlDump(prefix string, data []byte) {
	zvInline("DumpSub")
	zvInline("Dump")
	zvAssertEq("Dump shows exactly the bytes", Dump(prefix, data), zvDump(prefix, data, 0, len(data)))
}

func zlDumpTail(prefix string, data []byte, size int) {
	zvInline("DumpSub")
	zvInline("DumpTail")
	s := DumpTail(prefix, data, size)
	if size >= 0 && size <= len(data) {
		zvAssertEq("DumpTail shows exactly the last bytes", s, zvDump(prefix, data, len(data)-size, len(data)))
	}
}

// C17
func zlDiff(a, b []byte) {
	s := DumpDiff(a, b)
	zvAssert("the diff is empty exactly if the data are equal", (s == "") == (string(a) == string(b)))
}
