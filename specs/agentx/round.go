package agentx

import "github.com/alexispb/mygosnmp/asn"

// Rules: reading what was written, followed by anything, gives it back.

func zr_zoOid_zoEncOid(net bool, id []uint32, include byte) (ok bool, id2 []uint32, inc byte, n int) {
	zvRequire(zoOidOk(id))
	if len(id) == 0 {
		return true, id, 0, zoOidLen(id)
	}
	return true, id, include, zoOidLen(id)
}

func zr_zoStr_zoEncStr(net bool, s []byte) (ok bool, s2 []byte, n int) {
	zvRequire(len(s) < 1<<31)
	return true, s, zvOctLen(len(s))
}

func zr_zoVal_zoEncVal(net bool, tag asn.Tag, v interface{}) (ok bool, v2 interface{}, n int) {
	zvRequire(zoValOk(tag, v))
	zvRequire(zoValLen(tag, v) < 1<<31)
	return true, zvNormVal(tag, v), zoValLen(tag, v)
}

// zvNormVal is the value without what its type cannot carry.
func zvNormVal(tag asn.Tag, v interface{}) interface{} {
	switch tag {
	case asn.TagNull, asn.TagNoSuchObject, asn.TagNoSuchInstance, asn.TagEndOfMibView:
		return nil
	}
	return v
}

func zr_zoVb_zoEncVb(net bool, vb asn.Varbind) (ok bool, vb2 asn.Varbind, n int) {
	zvRequire(zoVbOk(vb))
	zvRequire(zoValLen(vb.Tag, vb.Value) < 1<<31)
	return true, zvNormVb(vb), 4 + zoOidLen(vb.Oid) + zoValLen(vb.Tag, vb.Value)
}

// zvNormVb is the varbind without what the wire format cannot carry.
func zvNormVb(vb asn.Varbind) asn.Varbind {
	return asn.Varbind{Oid: vb.Oid, Tag: vb.Tag, Value: zvNormVal(vb.Tag, vb.Value)}
}

func zr_zoRange_zoEncRange(net bool, r SearchRange) (ok bool, r2 SearchRange, n int) {
	zvRequire(zoRangeOk(r))
	return true, zvNormRange(r), zoOidLen(r.StartOid) + zoOidLen(r.EndOid)
}

// zvNormRange is the range without what the wire format cannot carry.
func zvNormRange(r SearchRange) SearchRange {
	if len(r.StartOid) == 0 {
		r.StartIncluded = 0
	}
	return r
}

// zvNormParams is p without what the wire format cannot carry.
func zvNormParams(p PayloadParams) PayloadParams {
	switch q := p.(type) {
	case RegisterParams:
		if q.RangeSubid == 0 {
			q.UpperBound = 0
		}
		return q
	case UnregisterParams:
		if q.RangeSubid == 0 {
			q.UpperBound = 0
		}
		return q
	}
	return p
}

// zlRound: decoding an encoded pdu gives the pdu back.
func zlRound(pdu Pdu) {
	zvRewrites()
	pdu.Tag = PduTag(zvCase(int(pdu.Tag), 19))
	data, ok := EncodePdu(pdu)
	zvAssert("C02: an encoding has a header", !ok || len(data) >= PduHeaderSize)
	if !ok {
		return
	}
	p, ok := DecodePduHeader(data[:PduHeaderSize])
	zvAssert("C02: the header of an encoding can be decoded", ok)
	if !ok {
		return
	}
	zvAssert("C02: the payload size is the size of the rest", int(p.PayloadSize) == len(data)-PduHeaderSize)
	ok = DecodePduPayload(&p, data[PduHeaderSize:])
	zvAssert("C02: the payload of an encoding can be decoded", ok)
	if !ok {
		return
	}
	zvAssert("C02: type, flags and ids are kept", p.Tag == pdu.Tag && p.Flags == pdu.Flags && p.SessionId == pdu.SessionId &&
		p.TransactionId == pdu.TransactionId && p.PacketId == pdu.PacketId)
	if pdu.Flags&FlagNonDefaultContext != 0 {
		zvAssertEq("C02: the context is kept", p.Context, pdu.Context)
	} else {
		zvAssertEq("C02: no context appears", p.Context, "")
	}
	zvAssertEq("C02: the params are kept", p.Params, zvNormParams(pdu.Params))
	var rs []SearchRange
	if zvHasRanges(pdu.Tag) {
		for _, r := range pdu.Ranges {
			rs = append(rs, zvNormRange(r))
		}
	}
	zvAssertEq("C02: the search ranges are kept", p.Ranges, rs)
	var vbs []asn.Varbind
	if zvHasVarbinds(pdu.Tag) {
		for i := range pdu.Varbinds {
			vbs = append(vbs, zvNormVb(pdu.Varbinds[i]))
		}
	}
	zvAssertEq("C02: the variable bindings are kept", p.Varbinds, vbs)
}
