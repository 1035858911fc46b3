package oid

import (
	"strconv"
	"strings"
)

// ---- specification of the lexicographic order

// zvFirstDiff is the first index at which a and b differ, or the length of the shorter.
func zvFirstDiff(a, b []uint32) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	i := 0
	for i < n && a[i] == b[i] {
		i++
	}
	return i
}

// zvCmp is the lexicographic order of RFC 3416 (a proper prefix is smaller).
func zvCmp(a, b []uint32) int {
	i := zvFirstDiff(a, b)
	switch {
	case i == len(a) && i == len(b):
		return 0
	case i == len(a):
		return -1
	case i == len(b):
		return 1
	case a[i] < b[i]:
		return -1
	}
	return 1
}

func zc_Compare(id1, id2 []uint32) int {
	return zvCmp(id1, id2)
}

// C10
func zlCompare(a, b []uint32) {
	zvAssertEq("Compare is the lexicographic order", Compare(a, b), zvCmp(a, b))
}

func zlCompareAntisym(a, b []uint32) {
	x, y := Compare(a, b), Compare(b, a)
	zvAssertEq("Compare(a,b) == -Compare(b,a)", x, -y)
	zvAssert("Compare is -1, 0 or 1", x == -1 || x == 0 || x == 1)
}

func zlCompareEq(a, b []uint32) {
	if Compare(a, b) == 0 {
		zvAssertEq("Compare 0 means equal", a, b)
	}
	zvAssertEq("Compare(a,a) == 0", Compare(a, a), 0)
}

func zlCompareTrans(a, b, c []uint32) {
	if Compare(a, b) <= 0 && Compare(b, c) <= 0 {
		zvAssert("transitive", Compare(a, c) <= 0)
		if Compare(a, b) < 0 || Compare(b, c) < 0 {
			zvAssert("strictly transitive", Compare(a, c) < 0)
		}
	}
}

func zlRelations(a, b []uint32) {
	c := zvCmp(a, b)
	zvAssertEq("Lt", Lt(a, b), c < 0)
	zvAssertEq("Le", Le(a, b), c <= 0)
	zvAssertEq("Eq", Eq(a, b), c == 0)
	zvAssertEq("Ne", Ne(a, b), c != 0)
	zvAssertEq("Ge", Ge(a, b), c >= 0)
	zvAssertEq("Gt", Gt(a, b), c > 0)
}

func zlHasPrefix(id, p []uint32) {
	r := HasPrefix(id, p...)
	zvAssertEq("HasPrefix", r, zvFirstDiff(id, p) == len(p))
}

// C11
func zlClone(id []uint32) {
	before := zvSnap(id)
	c := Clone(id)
	zvUnchanged("Clone does not modify its argument", before, id)
	zvDisjoint("the clone shares no memory with the original", c, id)
	zvAssertEq("Clone has the same subids", c, id)
}

func zlCat(id, s []uint32) {
	before1, before2 := zvSnap(id), zvSnap(s)
	c := Cat(id, s...)
	zvUnchanged("Cat does not modify the oid", before1, id)
	zvUnchanged("Cat does not modify the subids", before2, s)
	zvDisjoint("the concatenation shares no memory with the oid and subids", c, id, s)
	zvAssertEq("Cat length", len(c), len(id)+len(s))
	zvAssertEq("Cat begins with id", c[:len(id)], id)
	zvAssertEq("Cat ends with subids", c[len(id):], s)
}

// C12

// zvText is the text form: the sub-identifiers in decimal, separated by dots.
func zvText(id []uint32) string {
	var out []byte
	for i, subid := range id {
		if i > 0 {
			out = append(out, '.')
		}
		out = append(out, strconv.FormatUint(uint64(subid), 10)...)
	}
	return string(out)
}

// zvParse gives the identifier denoted by a text, if it denotes one.
func zvParse(s string) (id []uint32, ok bool) {
	if len(s) > 0 && s[0] == '.' {
		s = s[1:]
	}
	if len(s) == 0 {
		return nil, true
	}
	parts := strings.Split(s, ".")
	if len(parts) > 128 {
		return nil, false
	}
	for _, part := range parts {
		subid, err := strconv.ParseUint(part, 10, 32)
		if err != nil {
			return nil, false
		}
		id = append(id, uint32(subid))
	}
	return id, true
}

func zvTryParse(s string) (id []uint32, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	return Parse(s), true
}

func zlString(id []uint32) {
	zvInline("String")
	zvAssertEq("the text form is the sub-identifiers in decimal, separated by dots", String(id), zvText(id))
}

func zlFprint(pre string, id []uint32) {
	var sb strings.Builder
	sb.WriteString(pre)
	Fprint(&sb, id)
	zvAssertEq("Fprint appends the text form", sb.String(), pre+zvText(id))
}

func zlParse(s string) {
	id, ok := zvTryParse(s)
	want, wantOk := zvParse(s)
	zvAssertEq("Parse accepts exactly the texts of identifiers", ok, wantOk)
	if ok && wantOk {
		zvAssertEq("Parse gives the identifier the text denotes", id, want)
	}
}

func zlTextRound(id []uint32) {
	if len(id) <= 128 {
		got, ok := zvParse(zvText(id))
		zvAssert("the text form of an identifier denotes one", ok)
		zvAssertEq("the text form of an identifier denotes it", got, id)
	}
}
