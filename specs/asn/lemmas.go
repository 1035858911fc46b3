package asn

import (
	"strconv"
	"strings"
)

// Specification of the text forms of tags, values and variable bindings.

func zvTagText(tag Tag) string {
	switch tag {
	case TagInteger32:
		return "Integer32"
	case TagOctetString:
		return "OctetString"
	case TagNull:
		return "Null"
	case TagObjectId:
		return "ObjectId"
	case TagSequence:
		return "Sequence"
	case TagIpAddress:
		return "IpAddress"
	case TagCounter32:
		return "Counter32"
	case TagGauge32:
		return "Unsigned32"
	case TagTimeTicks:
		return "TimeTicks"
	case TagOpaque:
		return "Opaque"
	case TagCounter64:
		return "Counter64"
	case TagNoSuchObject:
		return "NoSuchObject"
	case TagNoSuchInstance:
		return "NoSuchInstance"
	case TagEndOfMibView:
		return "EndOfMibView"
	}
	return "?" + strconv.FormatInt(int64(tag), 10)
}

func zvIpText(a [4]byte) string {
	return strconv.FormatUint(uint64(a[0]), 10) + "." + strconv.FormatUint(uint64(a[1]), 10) + "." +
		strconv.FormatUint(uint64(a[2]), 10) + "." + strconv.FormatUint(uint64(a[3]), 10)
}

func zvOidText(id []uint32) string {
	var out []byte
	for i, subid := range id {
		if i > 0 {
			out = append(out, '.')
		}
		out = append(out, strconv.FormatUint(uint64(subid), 10)...)
	}
	return string(out)
}

func zvBytesText(b []byte) string {
	var out []byte
	for i, x := range b {
		if i > 0 {
			out = append(out, ' ')
		}
		out = append(out, strconv.FormatUint(uint64(x), 10)...)
	}
	return "{" + string(out) + "}"
}

// zvValueText is the text of a value; "?" if the value does not fit the tag.
func zvValueText(tag Tag, v interface{}) string {
	switch tag {
	case TagInteger32:
		if x, ok := v.(int32); ok {
			return strconv.FormatInt(int64(x), 10)
		}
	case TagOctetString:
		if x, ok := v.(string); ok {
			return x
		}
	case TagObjectId:
		if x, ok := v.([]uint32); ok {
			return zvOidText(x)
		}
	case TagIpAddress:
		if x, ok := v.([4]byte); ok {
			return zvIpText(x)
		}
	case TagCounter32, TagGauge32, TagTimeTicks:
		if x, ok := v.(uint32); ok {
			return strconv.FormatUint(uint64(x), 10)
		}
	case TagCounter64:
		if x, ok := v.(uint64); ok {
			return strconv.FormatUint(x, 10)
		}
	case TagOpaque:
		if x, ok := v.([]byte); ok {
			return zvBytesText(x)
		}
	case TagNull, TagNoSuchObject, TagNoSuchInstance, TagEndOfMibView:
		return ""
	}
	return "?"
}

// zvPick returns x, one of the 256 values at a time.
func zvPick(x byte) int {
	lo, hi := 0, 256
	for hi-lo > 1 {
		if m := (lo + hi) / 2; int(x) < m {
			hi = m
		} else {
			lo = m
		}
	}
	zvAssert("the picked value", lo == int(x))
	return lo
}

// C09
func zlTagText(tag Tag) {
	zvInline("Tag.String")
	t := Tag(zvPick(byte(tag)))
	zvAssertEq("every known tag prints its name, every other one its number", t.String(), zvTagText(t))
}

func zlValueText(pre string, tag Tag, v interface{}) {
	var sb strings.Builder
	sb.WriteString(pre)
	tag.Fprint(&sb, v)
	zvAssertEq("a value prints its text, or ? if it does not fit the tag", sb.String(), pre+zvValueText(tag, v))
}

func zlVarbindText(vb Varbind) {
	zvInline("Varbind.String")
	zvInline("Tag.String")
	zvAssertEq("a variable binding prints identifier, tag and value", vb.String(), "{"+zvOidText(vb.Oid)+" "+zvTagText(vb.Tag)+": "+zvValueText(vb.Tag, vb.Value)+"}")
}

// zlText_Varbind: Fprint returns normally.
func zlText_Varbind(pre string, vb Varbind) {
	var sb strings.Builder
	sb.WriteString(pre)
	vb.Fprint(&sb)
	zvAssert("C07: the text form of a variable binding is found", true)
}
