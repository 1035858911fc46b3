package agentx

import (
	"strconv"
	"strings"
)

// Specification of the text forms of flags, PDU types, close reasons and search ranges.

func zvFlagsText(f Flags) string {
	s := ""
	for i, name := range [8]string{"InstanceRegistration", "NewIndex", "AnyIndex", "NonDefaultContext", "NetworkByteOrder", "?0x20", "?0x40", "?0x80"} {
		if f&(1<<i) != 0 {
			if s != "" {
				s += "|"
			}
			s += name
		}
	}
	return s
}

func zvPduTagText(tag PduTag) string {
	switch tag {
	case 1:
		return "Open"
	case 2:
		return "Close"
	case 3:
		return "Register"
	case 4:
		return "Unregister"
	case 5:
		return "Get"
	case 6:
		return "GetNext"
	case 7:
		return "GetBulk"
	case 8:
		return "TestSet"
	case 9:
		return "CommitSet"
	case 10:
		return "UndoSet"
	case 11:
		return "CleanupSet"
	case 12:
		return "Notify"
	case 13:
		return "Ping"
	case 14:
		return "IndexAllocate"
	case 15:
		return "IndexDeallocate"
	case 16:
		return "AddAgentCaps"
	case 17:
		return "RemoveAgentCaps"
	case 18:
		return "Response"
	}
	return "?" + strconv.FormatInt(int64(tag), 10)
}

func zvReasonText(r CloseReason) string {
	switch r {
	case 1:
		return "Other"
	case 2:
		return "ParseError"
	case 3:
		return "ProtocolError"
	case 4:
		return "Timeouts"
	case 5:
		return "Shutdown"
	case 6:
		return "ByManager"
	}
	return "?" + strconv.FormatInt(int64(r), 10)
}

func zvOidText(id []uint32) string {
	var out []byte
	for i, subid := range id {
		if i > 0 {
			out = append(out, '.')
		}
		out = append(out, strconv.FormatUint(uint64(subid), 10)...)
	}
	return string(out)
}

// zvPick returns x, one of the 256 values at a time.
func zvPick(x byte) int {
	lo, hi := 0, 256
	for hi-lo > 1 {
		if m := (lo + hi) / 2; int(x) < m {
			hi = m
		} else {
			lo = m
		}
	}
	zvAssert("the picked value", lo == int(x))
	return lo
}

// C09
func zlFlagsText(f Flags) {
	zvInline("Flags.String")
	t := Flags(zvPick(byte(f)))
	zvAssertEq("flags print the names of the set ones in order, separated by bars", t.String(), zvFlagsText(t))
}

func zlPduTagText(tag PduTag) {
	zvInline("PduTag.String")
	t := PduTag(zvPick(byte(tag)))
	zvAssertEq("every known PDU type prints its name, every other one its number", t.String(), zvPduTagText(t))
}

func zlReasonText(r CloseReason) {
	zvInline("CloseReason.String")
	t := CloseReason(zvPick(byte(r)))
	zvAssertEq("every known close reason prints its name, every other one its number", t.String(), zvReasonText(t))
}

func zlRangeText(r SearchRange) {
	zvInline("SearchRange.String")
	zvAssertEq("a search range prints both identifiers and the include byte", r.String(), "{StartOid: "+zvOidText(r.StartOid)+" EndOid: "+zvOidText(r.EndOid)+" StartIncluded: "+strconv.FormatUint(uint64(r.StartIncluded), 10)+"}")
}

// The text form of a pdu, which the logging variants write.

// zlPduText: the text form of every pdu is found, at the depth the logging variants use.
func zlPduText(pdu Pdu) {
	zvInline("internal.StructString")
	s := pdu.String(1)
	zvAssert("C07: the text form of a pdu is found", len(s) >= 0)
}

// zlText_T: the method Fprint of T returns normally.

func zlText_Flags(pre string, f Flags) {
	var sb strings.Builder
	sb.WriteString(pre)
	Flags(zvPick(byte(f))).Fprint(&sb)
	zvAssert("C07: the text form of flags is found", true)
}

func zlText_SearchRange(pre string, r SearchRange) {
	var sb strings.Builder
	sb.WriteString(pre)
	r.Fprint(&sb)
	zvAssert("C07: the text form of a search range is found", true)
}
