package agentx

import (
	"github.com/alexispb/mygosnmp/asn"
)

// Contracts of the internal functions: same signature, same results, panics
// exactly when the real function panics. The verifier proves each one against
// the real body before it is used at a call.

func zvNet(b byteOrder) bool {
	switch b.(type) {
	case networkByteOrder:
		return true
	case inverseByteOrder:
		return false
	}
	zvRequire(false)
	return false
}

func zc_objectIdEncodingSize(id []uint32) int { return zoOidLen(id) }

func zc_varbindEncodingSize(vb asn.Varbind) int {
	ok, n := zoVbSize(vb)
	if !ok {
		panic("varbind")
	}
	return n
}

func zc_encoder_appendObjectId(e encoder, data []byte, val []uint32, include byte) []byte {
	net := zvNet(e.byteOrder)
	if !zoOidOk(val) {
		panic("oid")
	}
	return append(data, zoEncOid(net, val, include)...)
}

func zc_encoder_appendOctetString(e encoder, data []byte, val string) []byte {
	zvRequire(len(data)%4 == 0)
	return append(data, zoEncStr(zvNet(e.byteOrder), []byte(val))...)
}

func zc_encoder_appendOpaque(e encoder, data []byte, val []byte) []byte {
	zvRequire(len(data)%4 == 0)
	return append(data, zoEncStr(zvNet(e.byteOrder), val)...)
}

func zc_encoder_appendVarbind(e encoder, data []byte, vb asn.Varbind) []byte {
	zvRequire(len(data)%4 == 0)
	net := zvNet(e.byteOrder)
	if !zoVbOk(vb) {
		panic("varbind")
	}
	return append(data, zoEncVb(net, vb)...)
}

func zc_encoder_appendSearchRange(e encoder, data []byte, r SearchRange) []byte {
	net := zvNet(e.byteOrder)
	if !zoRangeOk(r) {
		panic("range")
	}
	return append(data, zoEncRange(net, r)...)
}

func zc_decoder_parseObjectId(d decoder, data []byte) (val []uint32, include byte, next []byte) {
	ok, id, inc, n := zoOid(zvNet(d.byteOrder), data)
	if !ok {
		panic("oid")
	}
	return id, inc, data[n:]
}

func zc_decoder_parseOctetString(d decoder, data []byte) (val string, next []byte) {
	ok, s, n := zoStr(zvNet(d.byteOrder), data)
	if !ok {
		panic("string")
	}
	return string(s), data[n:]
}

func zc_decoder_parseOpaque(d decoder, data []byte) (val []byte, next []byte) {
	ok, s, n := zoStr(zvNet(d.byteOrder), data)
	if !ok {
		panic("opaque")
	}
	return append([]byte{}, s...), data[n:]
}

func zc_decoder_parseVarbind(d decoder, data []byte) (vb asn.Varbind, next []byte) {
	ok, vb, n := zoVb(zvNet(d.byteOrder), data)
	if !ok {
		panic("varbind")
	}
	return vb, data[n:]
}

func zc_decoder_parseSearchRange(d decoder, data []byte) (r SearchRange, next []byte) {
	ok, r, n := zoRange(zvNet(d.byteOrder), data)
	if !ok {
		panic("range")
	}
	return r, data[n:]
}

// Contracts of the logging variants: the same results as the plain ones.

func zt_SearchRange_String(r SearchRange) string { return "" }

func zt_Flags_String(f Flags) string { return "" }

func zt_PduTag_String(tag PduTag) string { return "" }

func zc_encoderDbg_appendObjectId(e encoderDbg, data []byte, val []uint32, include byte) []byte {
	net := zvNet(e.byteOrder)
	if !zoOidOk(val) {
		panic("oid")
	}
	return append(data, zoEncOid(net, val, include)...)
}

func zc_encoderDbg_appendOctetString(e encoderDbg, data []byte, val string) []byte {
	zvRequire(len(data)%4 == 0)
	return append(data, zoEncStr(zvNet(e.byteOrder), []byte(val))...)
}

func zc_encoderDbg_appendOpaque(e encoderDbg, data []byte, val []byte) []byte {
	zvRequire(len(data)%4 == 0)
	return append(data, zoEncStr(zvNet(e.byteOrder), val)...)
}

func zc_encoderDbg_appendVarbind(e encoderDbg, data []byte, vb asn.Varbind) []byte {
	zvRequire(len(data)%4 == 0)
	net := zvNet(e.byteOrder)
	if !zoVbOk(vb) {
		panic("varbind")
	}
	return append(data, zoEncVb(net, vb)...)
}

func zc_encoderDbg_appendSearchRange(e encoderDbg, data []byte, r SearchRange) []byte {
	net := zvNet(e.byteOrder)
	if !zoRangeOk(r) {
		panic("range")
	}
	return append(data, zoEncRange(net, r)...)
}

func zc_decoderDbg_parseObjectId(d *decoderDbg, startpos int) (val []uint32, include byte, nextpos int) {
	zvRequire(0 <= startpos && startpos <= len(d.data))
	ok, id, inc, n := zoOid(zvNet(d.byteOrder), d.data[startpos:])
	if !ok {
		panic("oid")
	}
	return id, inc, startpos + n
}

func zc_decoderDbg_parseOctetString(d decoderDbg, startpos int) (val string, nextpos int) {
	zvRequire(0 <= startpos && startpos <= len(d.data))
	ok, s, n := zoStr(zvNet(d.byteOrder), d.data[startpos:])
	if !ok {
		panic("string")
	}
	return string(s), startpos + n
}

func zc_decoderDbg_parseOpaque(d decoderDbg, startpos int) (val []byte, nextpos int) {
	zvRequire(0 <= startpos && startpos <= len(d.data))
	ok, s, n := zoStr(zvNet(d.byteOrder), d.data[startpos:])
	if !ok {
		panic("opaque")
	}
	return append([]byte{}, s...), startpos + n
}

func zc_decoderDbg_parseVarbind(d decoderDbg, startpos int) (vb asn.Varbind, nextpos int) {
	zvRequire(0 <= startpos && startpos <= len(d.data))
	ok, vb, n := zoVb(zvNet(d.byteOrder), d.data[startpos:])
	if !ok {
		panic("varbind")
	}
	return vb, startpos + n
}

func zc_decoderDbg_parseSearchRange(d decoderDbg, startpos int) (r SearchRange, nextpos int) {
	zvRequire(0 <= startpos && startpos <= len(d.data))
	ok, r, n := zoRange(zvNet(d.byteOrder), d.data[startpos:])
	if !ok {
		panic("range")
	}
	return r, startpos + n
}
