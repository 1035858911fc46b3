package agentx

import (
	"strings"
	"sync"

	"github.com/alexispb/mygosnmp/asn"
)

// Property lemmas: each must hold for all values of its arguments.

// zlEncode: EncodePdu produces exactly the RFC 2741 encoding and refuses
// exactly the pdus which have none.
func zlEncode(pdu Pdu) {
	pdu.Tag = PduTag(zvCase(int(pdu.Tag), 19))
	before := zvSnap(pdu)
	data, ok := EncodePdu(pdu)
	zvUnchanged("C08: EncodePdu does not modify the pdu", before, pdu)
	zvDisjoint("C08: the encoding shares no memory with the pdu", data, pdu)
	want, wok := zvEncode(pdu)
	zvAssert("C06: EncodePdu accepts exactly the encodable pdus", ok == wok)
	if ok && wok {
		zvAssertEq("C01: EncodePdu returns the RFC 2741 encoding", data, want)
	}
}

// zlHeader: header decoding accepts exactly the well-formed headers.
func zlHeader(data []byte) {
	before := zvSnap(data)
	pdu, ok := DecodePduHeader(data)
	zvUnchanged("C08: DecodePduHeader does not modify the data", before, data)
	zvDisjoint("C08: the decoded header shares no memory with the data", pdu, data)
	zvAllocBound("C03: no allocation of DecodePduHeader exceeds the size of the data")
	zvAssert("C04: DecodePduHeader accepts exactly the well-formed headers", ok == zvHeaderOk(data))
	if ok && zvHeaderOk(data) {
		net := zvNetFlag(Flags(data[2]))
		zvAssert("C04: header tag", pdu.Tag == PduTag(data[1]))
		zvAssert("C04: header flags", pdu.Flags == Flags(data[2]))
		zvAssert("C04: header session id", pdu.SessionId == zvGet32(net, data[4:]))
		zvAssert("C04: header transaction id", pdu.TransactionId == zvGet32(net, data[8:]))
		zvAssert("C04: header packet id", pdu.PacketId == zvGet32(net, data[12:]))
		zvAssert("C04: header payload size", pdu.PayloadSize == int32(zvGet32(net, data[16:])))
		zvAssert("C04: header decoding sets no payload field", pdu.Context == "" && pdu.Params == nil && len(pdu.Ranges) == 0 && len(pdu.Varbinds) == 0)
	}
}

// zlPayload: payload decoding accepts exactly the well-formed payloads.
func zlPayload(h Pdu, data []byte) {
	h.Tag = PduTag(zvCase(int(h.Tag), 19))
	pdu := Pdu{Tag: h.Tag, Flags: h.Flags, SessionId: h.SessionId, TransactionId: h.TransactionId,
		PacketId: h.PacketId, PayloadSize: h.PayloadSize}
	before := zvSnap(data)
	ok := DecodePduPayload(&pdu, data)
	zvUnchanged("C08: DecodePduPayload does not modify the data", before, data)
	zvDisjoint("C08: the decoded pdu shares no memory with the data", pdu, data)
	zvAllocBound("C03: no allocation of DecodePduPayload exceeds the size of the data")
	wok, ctx, p, rs, vbs := zvPayload(h.Tag, h.Flags, data)
	wok = wok && len(data) == int(h.PayloadSize)
	zvAssert("C05: DecodePduPayload accepts exactly the well-formed payloads", ok == wok)
	if ok && wok {
		zvAssertEq("C05: payload context", pdu.Context, ctx)
		zvAssertEq("C05: payload params", pdu.Params, p)
		zvAssertEq("C05: payload search ranges", pdu.Ranges, rs)
		zvAssertEq("C05: payload varbinds", pdu.Varbinds, vbs)
		zvAssert("C05: payload decoding keeps the header", pdu.Tag == h.Tag && pdu.Flags == h.Flags &&
			pdu.SessionId == h.SessionId && pdu.TransactionId == h.TransactionId &&
			pdu.PacketId == h.PacketId && pdu.PayloadSize == h.PayloadSize)
	}
}

// Concrete consequences, for the search of failing inputs only.

// zxPayloadAlloc: decoding allocates little more than the data.
func zxPayloadAlloc(h Pdu, data []byte) {
	n := zvAllocs(func() {
		pdu := h
		pdu.Context, pdu.Params, pdu.Ranges, pdu.Varbinds = "", nil, nil, nil
		DecodePduPayload(&pdu, data)
	})
	zvAssert("C03: decoding allocates at most a constant multiple of the data", n < 1<<20+100*uint64(len(data)))
}

// zxEncodeTwice: an encoding is not changed by later calls, and does not depend on earlier ones.
func zxEncodeTwice(p, q Pdu) {
	a, ok1 := EncodePdu(p)
	before := zvSnap(a)
	b, _ := EncodePdu(q)
	zvUnchanged("C08: an encoding is not changed by a later call", before, a)
	zvDisjoint("C08: encodings of different calls share no memory", a, b)
	c, ok2 := EncodePdu(p)
	zvAssertEq("C08: encoding does not depend on earlier calls", ok1, ok2)
	zvAssertEq("C08: encoding does not depend on earlier calls", a, c)
	done := make(chan zvResult, 3)
	for i := 0; i < 3; i++ {
		go func(i int) {
			x := p
			if i == 1 {
				x = q
			}
			d, ok := EncodePdu(x)
			if i == 1 {
				d, ok = nil, false
			}
			done <- zvResult{d, ok}
		}(i)
	}
	for i := 0; i < 3; i++ {
		if r := <-done; r.ok {
			zvAssertEq("C08: concurrent calls do not influence each other", r.data, a)
		}
	}
}

type zvResult struct {
	data []byte
	ok   bool
}

// zxEncodeHuge: payloads longer than the length field can hold are refused.
func zxEncodeHuge() {
	zvHuge.Lock()
	defer zvHuge.Unlock()
	for _, size := range []int{1 << 31, 1<<32 - 4, 1<<32 + 64, 1<<33 + 400} {
		const n = 1 << 26
		if zvHugeText == "" {
			zvHugeText = strings.Repeat("x", n)
		}
		vb := asn.Varbind{Tag: asn.TagOctetString, Value: zvHugeText}
		pdu := Pdu{Tag: TagResponse, Params: ResponseParams{}}
		rest := size - 8
		for rest >= 12+n {
			pdu.Varbinds = append(pdu.Varbinds, vb)
			rest -= 12 + n
		}
		for rest >= 8 {
			k := 4
			if rest%8 == 0 || rest >= 4096 {
				k = 0
			}
			if k == 0 && rest >= 4096 {
				pdu.Varbinds = append(pdu.Varbinds, asn.Varbind{Tag: asn.TagOctetString, Value: zvHugeText[:(rest-2048)&^3]})
				rest -= 12 + (rest-2048)&^3
				continue
			}
			vb := asn.Varbind{Tag: asn.TagNull}
			if k == 4 {
				vb = asn.Varbind{Tag: asn.TagInteger32, Value: int32(0)}
			}
			pdu.Varbinds = append(pdu.Varbinds, vb)
			rest -= 8 + k
		}
		_, ok := EncodePdu(pdu)
		zvAssert("C06: payloads longer than the length field can hold are refused", !ok)
	}
}

var zvHuge sync.Mutex

var zvHugeText string

// zxPduString: the text form of a pdu, which the logging variants write, is always found.
func zxPduString(pdu Pdu, depth byte) {
	s := pdu.String(int(depth & 15))
	zvAssert("C07: the text form of a pdu is found", s != "not struct")
}

// zxDecodeTwice: a decoded pdu is not changed by later calls or by changes of the data.
func zxDecodeTwice(h Pdu, data []byte) {
	h.Context, h.Params, h.Ranges, h.Varbinds = "", nil, nil, nil
	a, b := h, h
	ok := DecodePduPayload(&a, data)
	before := zvSnap(a)
	DecodePduPayload(&b, data)
	zvUnchanged("C08: a decoded pdu is not changed by a later call", before, a)
	zvDisjoint("C08: pdus of different calls share no memory", a, b)
	if ok {
		for i := range data {
			data[i] ^= 0xff
		}
		zvUnchanged("C08: a decoded pdu is not changed with the data", before, a)
	}
}

// zvTypeOk: the value has the Go type that belongs to the tag (C18).
func zvTypeOk(tag asn.Tag, v interface{}) bool {
	switch tag {
	case asn.TagInteger32:
		_, ok := v.(int32)
		return ok
	case asn.TagOctetString:
		_, ok := v.(string)
		return ok
	case asn.TagObjectId:
		_, ok := v.([]uint32)
		return ok
	case asn.TagIpAddress:
		_, ok := v.([4]byte)
		return ok
	case asn.TagCounter32, asn.TagGauge32, asn.TagTimeTicks:
		_, ok := v.(uint32)
		return ok
	case asn.TagOpaque:
		_, ok := v.([]byte)
		return ok
	case asn.TagCounter64:
		_, ok := v.(uint64)
		return ok
	case asn.TagNull, asn.TagNoSuchObject, asn.TagNoSuchInstance, asn.TagEndOfMibView:
		return true
	}
	return false
}

// zvFits: the value is not too long for the wire format.
func zvFits(v interface{}) bool {
	switch x := v.(type) {
	case []uint32:
		return zoOidOk(x)
	case string:
		return len(x) <= 1<<30
	case []byte:
		return len(x) <= 1<<30
	}
	return true
}

// zlValid: the validity check agrees with the tag and with the codec.
func zlValid(tag asn.Tag, v interface{}) {
	zvReveal("zoOidOk")
	zvReveal("zoOidLen")
	zvReveal("zoVbOk")
	zvReveal("zoVbSize")
	zvReveal("zoValOk")
	valid := tag.IsValidValue(v)
	zvAssert("C18: IsValidValue holds exactly for the Go type of the tag", valid == zvTypeOk(tag, v))
	if zvFits(v) {
		_, ok := EncodePdu(Pdu{Tag: TagResponse, Params: ResponseParams{}, Varbinds: []asn.Varbind{{Tag: tag, Value: v}}})
		zvAssert("C18: a varbind can be encoded exactly if its value is valid", ok == valid)
	}
}

// zvNoLog is a log that keeps nothing.
type zvNoLog struct{}

func (zvNoLog) Write(msg string)                          {}
func (zvNoLog) Writef(format string, args ...interface{}) {}

// zlEncodeDbg: the logging encoder agrees with the plain one.
func zlEncodeDbg(pdu Pdu) {
	pdu.Tag = PduTag(zvCase(int(pdu.Tag), 19))
	data, ok := EncodePdu(pdu)
	data2, ok2 := EncodePduDbg(pdu, zvNoLog{})
	zvAssert("C07: EncodePduDbg accepts the same pdus as EncodePdu", ok == ok2)
	if ok && ok2 {
		zvAssertEq("C07: EncodePduDbg returns the same bytes as EncodePdu", data, data2)
	}
}

// zlHeaderDbg: the logging header decoder agrees with the plain one.
func zlHeaderDbg(data []byte) {
	a, ok := DecodePduHeader(data)
	b, ok2 := DecodePduHeaderDbg(data, zvNoLog{})
	zvAssert("C07: DecodePduHeaderDbg accepts the same data as DecodePduHeader", ok == ok2)
	if ok && ok2 {
		zvAssertEq("C07: DecodePduHeaderDbg returns the same pdu as DecodePduHeader", a, b)
	}
}

// zlPayloadDbg: the logging payload decoder agrees with the plain one.
func zlPayloadDbg(h Pdu, data []byte) {
	h.Tag = PduTag(zvCase(int(h.Tag), 19))
	a := Pdu{Tag: h.Tag, Flags: h.Flags, SessionId: h.SessionId, TransactionId: h.TransactionId,
		PacketId: h.PacketId, PayloadSize: h.PayloadSize}
	b := a
	ok := DecodePduPayload(&a, data)
	ok2 := DecodePduPayloadDbg(&b, data, zvNoLog{})
	zvAssert("C07: DecodePduPayloadDbg accepts the same data as DecodePduPayload", ok == ok2)
	if ok && ok2 {
		zvAssertEq("C07: DecodePduPayloadDbg gives the same pdu as DecodePduPayload", a, b)
	}
}
