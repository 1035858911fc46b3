package agentx

// Specification of the AgentX wire format (RFC 2741), written as pure
// executable functions over exported types only. The verifier runs the same
// functions symbolically and the replay harness runs them concretely.
//
// zv*  transparent specification function
// zo*  specification function that is opaque to its callers unless revealed
// zc_* contract of an internal function (same signature, substituted at calls)
// zl*  property lemma (quantified over all its arguments)

import (
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/pduerror"
)

const zvMaxInt32 = 1<<31 - 1

// ---------------------------------------------------------------- integers

func zvPut16(net bool, v uint16) []byte {
	if net {
		return []byte{byte(v >> 8), byte(v)}
	}
	return []byte{byte(v), byte(v >> 8)}
}

func zvPut32(net bool, v uint32) []byte {
	if net {
		return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	}
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
}

func zvPut64(net bool, v uint64) []byte {
	if net {
		return []byte{byte(v >> 56), byte(v >> 48), byte(v >> 40), byte(v >> 32),
			byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	}
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24),
		byte(v >> 32), byte(v >> 40), byte(v >> 48), byte(v >> 56)}
}

func zvGet16(net bool, d []byte) uint16 {
	if net {
		return uint16(d[0])<<8 | uint16(d[1])
	}
	return uint16(d[1])<<8 | uint16(d[0])
}

func zvGet32(net bool, d []byte) uint32 {
	if net {
		return uint32(d[0])<<24 | uint32(d[1])<<16 | uint32(d[2])<<8 | uint32(d[3])
	}
	return uint32(d[3])<<24 | uint32(d[2])<<16 | uint32(d[1])<<8 | uint32(d[0])
}

func zvGet64(net bool, d []byte) uint64 {
	if net {
		return uint64(d[0])<<56 | uint64(d[1])<<48 | uint64(d[2])<<40 | uint64(d[3])<<32 |
			uint64(d[4])<<24 | uint64(d[5])<<16 | uint64(d[6])<<8 | uint64(d[7])
	}
	return uint64(d[7])<<56 | uint64(d[6])<<48 | uint64(d[5])<<40 | uint64(d[4])<<32 |
		uint64(d[3])<<24 | uint64(d[2])<<16 | uint64(d[1])<<8 | uint64(d[0])
}

// zvPad is the number of zero bytes that follow n octets (RFC 2741, 5.3).
func zvPad(n int) int {
	return (4 - n%4) % 4
}

func zvZeros(n int) []byte {
	if n == 1 {
		return []byte{0}
	}
	if n == 2 {
		return []byte{0, 0}
	}
	if n == 3 {
		return []byte{0, 0, 0}
	}
	return []byte{}
}

// ---------------------------------------------------------------- encoding

// zvOidPrefixed: the OID is 1.3.6.1.p... with p representable in the prefix byte.
func zvOidPrefixed(id []uint32) bool {
	return len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4] >= 1 && id[4] <= 255
}

// zoOidLen is the size of the encoded OID.
func zoOidLen(id []uint32) int {
	if zvOidPrefixed(id) {
		return 4 + 4*(len(id)-5)
	}
	return 4 + 4*len(id)
}

func zoOidLen_ens(id []uint32, r int) bool {
	return r >= 4 && r%4 == 0
}

// zoOidOk: the OID has at most 128 encoded sub-identifiers.
func zoOidOk(id []uint32) bool {
	return zoOidLen(id) <= 4+4*128
}

// zoEncOid is the encoding of an object identifier (RFC 2741, 5.1).
func zoEncOid(net bool, id []uint32, include byte) []byte {
	if len(id) == 0 {
		return []byte{0, 0, 0, 0}
	}
	prefix, rest := byte(0), id
	if zvOidPrefixed(id) {
		prefix, rest = byte(id[4]), id[5:]
	}
	out := []byte{byte(len(rest)), prefix, include, 0}
	for _, s := range rest {
		out = append(out, zvPut32(net, s)...)
	}
	return out
}

func zoEncOid_ens(net bool, id []uint32, include byte, r []byte) bool {
	return len(r) == zoOidLen(id)
}

func zvOctLen(n int) int {
	return 4 + n + zvPad(n)
}

// zoEncStr is the encoding of an octet string (RFC 2741, 5.3).
func zoEncStr(net bool, s []byte) []byte {
	out := zvPut32(net, uint32(int32(len(s))))
	out = append(out, s...)
	return append(out, zvZeros(zvPad(len(s)))...)
}

func zoEncStr_ens(net bool, s []byte, r []byte) bool {
	return len(r) == zvOctLen(len(s))
}

// zoValOk: v is a value of the Go type that represents tag.
func zoValOk(tag asn.Tag, v interface{}) bool {
	switch tag {
	case asn.TagInteger32:
		_, ok := v.(int32)
		return ok
	case asn.TagOctetString:
		_, ok := v.(string)
		return ok
	case asn.TagObjectId:
		id, ok := v.([]uint32)
		return ok && zoOidOk(id)
	case asn.TagIpAddress:
		_, ok := v.([4]byte)
		return ok
	case asn.TagCounter32, asn.TagGauge32, asn.TagTimeTicks:
		_, ok := v.(uint32)
		return ok
	case asn.TagOpaque:
		_, ok := v.([]byte)
		return ok
	case asn.TagCounter64:
		_, ok := v.(uint64)
		return ok
	case asn.TagNull, asn.TagNoSuchObject, asn.TagNoSuchInstance, asn.TagEndOfMibView:
		return true
	}
	return false
}

// zoEncVal is the encoding of a varbind value (RFC 2741, 5.4); defined for
// values with zoValOk.
func zoEncVal(net bool, tag asn.Tag, v interface{}) []byte {
	switch tag {
	case asn.TagInteger32:
		return zvPut32(net, uint32(v.(int32)))
	case asn.TagOctetString:
		return zoEncStr(net, []byte(v.(string)))
	case asn.TagObjectId:
		return zoEncOid(net, v.([]uint32), 0)
	case asn.TagIpAddress:
		ip := v.([4]byte)
		return append(zvPut32(net, 4), ip[0], ip[1], ip[2], ip[3])
	case asn.TagCounter32, asn.TagGauge32, asn.TagTimeTicks:
		return zvPut32(net, v.(uint32))
	case asn.TagOpaque:
		return zoEncStr(net, v.([]byte))
	case asn.TagCounter64:
		return zvPut64(net, v.(uint64))
	}
	return []byte{}
}

// zoValLen is the size of the encoded value.
func zoValLen(tag asn.Tag, v interface{}) int {
	switch tag {
	case asn.TagInteger32, asn.TagCounter32, asn.TagGauge32, asn.TagTimeTicks:
		return 4
	case asn.TagOctetString:
		s, _ := v.(string)
		return zvOctLen(len(s))
	case asn.TagObjectId:
		id, _ := v.([]uint32)
		return zoOidLen(id)
	case asn.TagIpAddress, asn.TagCounter64:
		return 8
	case asn.TagOpaque:
		b, _ := v.([]byte)
		return zvOctLen(len(b))
	}
	return 0
}

func zoValLen_ens(tag asn.Tag, v interface{}, r int) bool {
	return r >= 0 && r%4 == 0
}

func zoEncVal_ens(net bool, tag asn.Tag, v interface{}, r []byte) bool {
	return !zoValOk(tag, v) || len(r) == zoValLen(tag, v)
}

func zoVbOk(vb asn.Varbind) bool {
	return zoOidOk(vb.Oid) && zoValOk(vb.Tag, vb.Value)
}

// zoEncVb is the encoding of a varbind (RFC 2741, 5.4).
func zoEncVb(net bool, vb asn.Varbind) []byte {
	out := append(zvPut16(net, uint16(vb.Tag)), 0, 0)
	out = append(out, zoEncOid(net, vb.Oid, 0)...)
	return append(out, zoEncVal(net, vb.Tag, vb.Value)...)
}

func zoEncVb_ens(net bool, vb asn.Varbind, r []byte) bool {
	return !zoVbOk(vb) || len(r) == 4+zoOidLen(vb.Oid)+zoValLen(vb.Tag, vb.Value)
}

// zoVbSize is the result of the size computation, which looks at the type of
// the value only where the size depends on it.
func zoVbSize(vb asn.Varbind) (ok bool, n int) {
	n = 4 + zoOidLen(vb.Oid)
	switch vb.Tag {
	case asn.TagOctetString:
		var s string
		s, ok = vb.Value.(string)
		return ok, n + zvOctLen(len(s))
	case asn.TagObjectId:
		var id []uint32
		id, ok = vb.Value.([]uint32)
		return ok, n + zoOidLen(id)
	case asn.TagOpaque:
		var b []byte
		b, ok = vb.Value.([]byte)
		return ok, n + zvOctLen(len(b))
	case asn.TagIpAddress:
		_, ok = vb.Value.([4]byte)
		return ok, n + 8
	case asn.TagCounter64:
		return true, n + 8
	case asn.TagInteger32, asn.TagCounter32, asn.TagGauge32, asn.TagTimeTicks:
		return true, n + 4
	case asn.TagNull, asn.TagNoSuchObject, asn.TagNoSuchInstance, asn.TagEndOfMibView:
		return true, n
	}
	return false, 0
}

func zoVbSize_ens(vb asn.Varbind, ok bool, n int) bool {
	return !zoVbOk(vb) || ok && n == 4+zoOidLen(vb.Oid)+zoValLen(vb.Tag, vb.Value)
}

func zoRangeOk(r SearchRange) bool {
	return zoOidOk(r.StartOid) && zoOidOk(r.EndOid)
}

// zoEncRange is the encoding of a search range (RFC 2741, 5.2).
func zoEncRange(net bool, r SearchRange) []byte {
	return append(zoEncOid(net, r.StartOid, r.StartIncluded), zoEncOid(net, r.EndOid, 0)...)
}

func zoEncRange_ens(net bool, r SearchRange, out []byte) bool {
	return len(out) == zoOidLen(r.StartOid)+zoOidLen(r.EndOid)
}

func zvAllowedFlags(tag PduTag) Flags {
	switch tag {
	case TagOpen, TagClose, TagCommitSet, TagUndoSet, TagCleanupSet:
		return FlagNetworkByteOrder
	case TagRegister, TagUnregister:
		return FlagInstanceRegistration | FlagNonDefaultContext | FlagNetworkByteOrder
	case TagGet, TagGetNext, TagGetBulk, TagTestSet, TagNotify, TagPing, TagAddAgentCaps, TagRemoveAgentCaps:
		return FlagNonDefaultContext | FlagNetworkByteOrder
	case TagIndexAllocate, TagIndexDeallocate:
		return FlagNewIndex | FlagAnyIndex | FlagNonDefaultContext | FlagNetworkByteOrder
	case TagResponse:
		return FlagInstanceRegistration | FlagNewIndex | FlagAnyIndex | FlagNonDefaultContext | FlagNetworkByteOrder
	}
	return 0
}

func zvHasRanges(tag PduTag) bool {
	return tag == TagGet || tag == TagGetNext || tag == TagGetBulk
}

func zvHasVarbinds(tag PduTag) bool {
	return tag == TagTestSet || tag == TagNotify || tag == TagIndexAllocate ||
		tag == TagIndexDeallocate || tag == TagResponse
}

// zvParamsOk: p is the params type of tag and its fields are encodable.
func zvParamsOk(tag PduTag, p PayloadParams) bool {
	switch tag {
	case TagOpen:
		q, ok := p.(OpenParams)
		return ok && zoOidOk(q.Oid)
	case TagClose:
		_, ok := p.(CloseParams)
		return ok
	case TagRegister:
		q, ok := p.(RegisterParams)
		return ok && zoOidOk(q.Subtree)
	case TagUnregister:
		q, ok := p.(UnregisterParams)
		return ok && zoOidOk(q.Subtree)
	case TagGetBulk:
		q, ok := p.(GetBulkParams)
		return ok && q.NonRepeaters >= 0 && q.MaxRepeatitions >= 0
	case TagAddAgentCaps:
		q, ok := p.(AddAgentCapsParams)
		return ok && zoOidOk(q.Oid)
	case TagRemoveAgentCaps:
		q, ok := p.(RemoveAgentCapsParams)
		return ok && zoOidOk(q.Oid)
	case TagResponse:
		_, ok := p.(ResponseParams)
		return ok
	case TagGet, TagGetNext, TagTestSet, TagCommitSet, TagUndoSet, TagCleanupSet, TagNotify, TagPing,
		TagIndexAllocate, TagIndexDeallocate:
		_, ok := p.(NoParams)
		return ok
	}
	return false
}

// zvEncParams is the fixed part of the payload (RFC 2741, 6.2).
func zvEncParams(net bool, tag PduTag, p PayloadParams) []byte {
	switch tag {
	case TagOpen:
		q := p.(OpenParams)
		out := append([]byte{q.Timeout, 0, 0, 0}, zoEncOid(net, q.Oid, 0)...)
		return append(out, zoEncStr(net, []byte(q.Description))...)
	case TagClose:
		q := p.(CloseParams)
		return []byte{byte(q.Reason), 0, 0, 0}
	case TagRegister:
		q := p.(RegisterParams)
		out := append([]byte{q.Timeout, q.Priority, q.RangeSubid, 0}, zoEncOid(net, q.Subtree, 0)...)
		if q.RangeSubid != 0 {
			out = append(out, zvPut32(net, q.UpperBound)...)
		}
		return out
	case TagUnregister:
		q := p.(UnregisterParams)
		out := append([]byte{0, q.Priority, q.RangeSubid, 0}, zoEncOid(net, q.Subtree, 0)...)
		if q.RangeSubid != 0 {
			out = append(out, zvPut32(net, q.UpperBound)...)
		}
		return out
	case TagGetBulk:
		q := p.(GetBulkParams)
		return append(zvPut16(net, uint16(q.NonRepeaters)), zvPut16(net, uint16(q.MaxRepeatitions))...)
	case TagAddAgentCaps:
		q := p.(AddAgentCapsParams)
		return append(zoEncOid(net, q.Oid, 0), zoEncStr(net, []byte(q.Description))...)
	case TagRemoveAgentCaps:
		q := p.(RemoveAgentCapsParams)
		return append([]byte{}, zoEncOid(net, q.Oid, 0)...)
	case TagResponse:
		q := p.(ResponseParams)
		out := zvPut32(net, q.SysUpTime)
		out = append(out, zvPut16(net, uint16(q.Error))...)
		return append(out, zvPut16(net, uint16(q.Index))...)
	}
	return []byte{}
}

func zvRangesOk(rs []SearchRange) bool {
	for _, r := range rs {
		if !zoRangeOk(r) {
			return false
		}
	}
	return true
}

func zvVarbindsOk(vbs []asn.Varbind) bool {
	for _, vb := range vbs {
		if !zoVbOk(vb) {
			return false
		}
	}
	return true
}

func zvNetFlag(f Flags) bool {
	return f&FlagNetworkByteOrder != 0
}

// zvEncPayload is the payload of an encodable pdu.
func zvEncPayload(pdu Pdu) []byte {
	net := zvNetFlag(pdu.Flags)
	out := []byte{}
	if pdu.Flags&FlagNonDefaultContext != 0 {
		out = append(out, zoEncStr(net, []byte(pdu.Context))...)
	}
	out = append(out, zvEncParams(net, pdu.Tag, pdu.Params)...)
	if zvHasRanges(pdu.Tag) {
		for _, r := range pdu.Ranges {
			out = append(out, zoEncRange(net, r)...)
		}
	}
	if zvHasVarbinds(pdu.Tag) {
		for _, vb := range pdu.Varbinds {
			out = append(out, zoEncVb(net, vb)...)
		}
	}
	return out
}

// zvFieldsOk: every part of the pdu which is carried by its type has a wire form.
func zvFieldsOk(pdu Pdu) bool {
	if pdu.Tag < TagOpen || pdu.Tag > TagResponse {
		return false
	}
	if pdu.Flags&^zvAllowedFlags(pdu.Tag) != 0 || !zvParamsOk(pdu.Tag, pdu.Params) {
		return false
	}
	if zvHasRanges(pdu.Tag) && !zvRangesOk(pdu.Ranges) {
		return false
	}
	if zvHasVarbinds(pdu.Tag) && !zvVarbindsOk(pdu.Varbinds) {
		return false
	}
	return true
}

func zvHeader(tag PduTag, flags Flags, sid, tid, pid uint32, size int) []byte {
	net := zvNetFlag(flags)
	out := []byte{1, byte(tag), byte(flags), 0}
	out = append(out, zvPut32(net, sid)...)
	out = append(out, zvPut32(net, tid)...)
	out = append(out, zvPut32(net, pid)...)
	return append(out, zvPut32(net, uint32(int32(size)))...)
}

// zvEncode is the whole specification of EncodePdu.
func zvEncode(pdu Pdu) (data []byte, ok bool) {
	if !zvFieldsOk(pdu) {
		return nil, false
	}
	payload := zvEncPayload(pdu)
	if len(payload) > zvMaxInt32 {
		return nil, false
	}
	data = zvHeader(pdu.Tag, pdu.Flags, pdu.SessionId, pdu.TransactionId, pdu.PacketId, len(payload))
	return append(data, payload...), true
}

// ---------------------------------------------------------------- decoding

// zoOid reads an object identifier: n is the number of bytes it occupies.
func zoOid(net bool, d []byte) (ok bool, id []uint32, inc byte, n int) {
	if len(d) < 4 || d[3] != 0 || d[0] > 128 {
		return
	}
	k := int(d[0])
	if len(d) < 4+4*k {
		return
	}
	if d[1] != 0 {
		id = append(id, 1, 3, 6, 1, uint32(d[1]))
	}
	for j := 0; j < k; j++ {
		id = append(id, zvGet32(net, d[4+4*j:]))
	}
	return true, id, d[2], 4 + 4*k
}

func zoOid_ens(net bool, d []byte, ok bool, id []uint32, inc byte, n int) bool {
	return !ok || n >= 4 && n%4 == 0 && n <= len(d)
}

// zoStr reads an octet string.
func zoStr(net bool, d []byte) (ok bool, s []byte, n int) {
	if len(d) < 4 {
		return
	}
	size := int32(zvGet32(net, d))
	if size < 0 {
		return
	}
	k := int(size)
	n = zvOctLen(k)
	if len(d) < n {
		return
	}
	for i := 4 + k; i < n; i++ {
		if d[i] != 0 {
			return
		}
	}
	return true, d[4 : 4+k], n
}

func zoStr_ens(net bool, d []byte, ok bool, s []byte, n int) bool {
	return !ok || n >= 4 && n%4 == 0 && n <= len(d)
}

// zoVal reads the value of a varbind of type tag.
func zoVal(net bool, tag asn.Tag, d []byte) (ok bool, v interface{}, n int) {
	switch tag {
	case asn.TagInteger32:
		if len(d) < 4 {
			return
		}
		return true, int32(zvGet32(net, d)), 4
	case asn.TagOctetString:
		ok, s, n := zoStr(net, d)
		return ok, string(s), n
	case asn.TagObjectId:
		ok, id, _, n := zoOid(net, d)
		return ok, id, n
	case asn.TagIpAddress:
		if len(d) < 8 || zvGet32(net, d) != 4 {
			return
		}
		return true, [4]byte{d[4], d[5], d[6], d[7]}, 8
	case asn.TagCounter32, asn.TagGauge32, asn.TagTimeTicks:
		if len(d) < 4 {
			return
		}
		return true, zvGet32(net, d), 4
	case asn.TagOpaque:
		ok, s, n := zoStr(net, d)
		return ok, append([]byte{}, s...), n
	case asn.TagCounter64:
		if len(d) < 8 {
			return
		}
		return true, zvGet64(net, d), 8
	case asn.TagNull, asn.TagNoSuchObject, asn.TagNoSuchInstance, asn.TagEndOfMibView:
		return true, nil, 0
	}
	return
}

func zoVal_ens(net bool, tag asn.Tag, d []byte, ok bool, v interface{}, n int) bool {
	return !ok || n >= 0 && n%4 == 0 && n <= len(d)
}

// zoVb reads a varbind.
func zoVb(net bool, d []byte) (ok bool, vb asn.Varbind, n int) {
	if len(d) < 4 || zvGet16(net, d) > 255 || d[2] != 0 || d[3] != 0 {
		return
	}
	tag := asn.Tag(zvGet16(net, d))
	ok1, id, _, n1 := zoOid(net, d[4:])
	if !ok1 {
		return
	}
	ok2, v, n2 := zoVal(net, tag, d[4+n1:])
	if !ok2 {
		return
	}
	return true, asn.Varbind{Oid: id, Tag: tag, Value: v}, 4 + n1 + n2
}

func zoVb_ens(net bool, d []byte, ok bool, vb asn.Varbind, n int) bool {
	return !ok || n >= 8 && n%4 == 0 && n <= len(d)
}

// zvVbs reads varbinds up to the end of d.
func zvVbs(net bool, d []byte) (ok bool, vbs []asn.Varbind) {
	for len(d) > 0 {
		ok1, vb, n := zoVb(net, d)
		if !ok1 {
			return false, nil
		}
		vbs = append(vbs, vb)
		d = d[n:]
	}
	return true, vbs
}

// zoRange reads a search range.
func zoRange(net bool, d []byte) (ok bool, r SearchRange, n int) {
	ok1, id1, inc, n1 := zoOid(net, d)
	if !ok1 {
		return
	}
	ok2, id2, _, n2 := zoOid(net, d[n1:])
	if !ok2 {
		return
	}
	return true, SearchRange{StartOid: id1, EndOid: id2, StartIncluded: inc}, n1 + n2
}

func zoRange_ens(net bool, d []byte, ok bool, r SearchRange, n int) bool {
	return !ok || n >= 8 && n%4 == 0 && n <= len(d)
}

// zvRanges reads search ranges up to the end of d.
func zvRanges(net bool, d []byte) (ok bool, rs []SearchRange) {
	for len(d) > 0 {
		ok1, r, n := zoRange(net, d)
		if !ok1 {
			return false, nil
		}
		rs = append(rs, r)
		d = d[n:]
	}
	return true, rs
}

// zvParams reads the fixed part of the payload.
func zvParams(net bool, tag PduTag, d []byte) (ok bool, p PayloadParams, n int) {
	switch tag {
	case TagOpen:
		if len(d) < 4 || d[1] != 0 || d[2] != 0 || d[3] != 0 {
			return
		}
		ok1, id, _, n1 := zoOid(net, d[4:])
		if !ok1 {
			return
		}
		ok2, s, n2 := zoStr(net, d[4+n1:])
		if !ok2 {
			return
		}
		return true, OpenParams{Timeout: d[0], Oid: id, Description: string(s)}, 4 + n1 + n2
	case TagClose:
		if len(d) < 4 || d[1] != 0 || d[2] != 0 || d[3] != 0 {
			return
		}
		return true, CloseParams{Reason: CloseReason(d[0])}, 4
	case TagRegister:
		if len(d) < 4 || d[3] != 0 {
			return
		}
		ok1, id, _, n1 := zoOid(net, d[4:])
		if !ok1 {
			return
		}
		if d[2] == 0 {
			return true, RegisterParams{Timeout: d[0], Priority: d[1], Subtree: id}, 4 + n1
		}
		if len(d) < 4+n1+4 {
			return
		}
		return true, RegisterParams{Timeout: d[0], Priority: d[1], RangeSubid: d[2], Subtree: id,
			UpperBound: zvGet32(net, d[4+n1:])}, 4 + n1 + 4
	case TagUnregister:
		if len(d) < 4 || d[0] != 0 || d[3] != 0 {
			return
		}
		ok1, id, _, n1 := zoOid(net, d[4:])
		if !ok1 {
			return
		}
		if d[2] == 0 {
			return true, UnregisterParams{Priority: d[1], Subtree: id}, 4 + n1
		}
		if len(d) < 4+n1+4 {
			return
		}
		return true, UnregisterParams{Priority: d[1], RangeSubid: d[2], Subtree: id,
			UpperBound: zvGet32(net, d[4+n1:])}, 4 + n1 + 4
	case TagGetBulk:
		if len(d) < 4 {
			return
		}
		a, b := int16(zvGet16(net, d)), int16(zvGet16(net, d[2:]))
		if a < 0 || b < 0 {
			return
		}
		return true, GetBulkParams{NonRepeaters: a, MaxRepeatitions: b}, 4
	case TagAddAgentCaps:
		ok1, id, _, n1 := zoOid(net, d)
		if !ok1 {
			return
		}
		ok2, s, n2 := zoStr(net, d[n1:])
		if !ok2 {
			return
		}
		return true, AddAgentCapsParams{Oid: id, Description: string(s)}, n1 + n2
	case TagRemoveAgentCaps:
		ok1, id, _, n1 := zoOid(net, d)
		if !ok1 {
			return
		}
		return true, RemoveAgentCapsParams{Oid: id}, n1
	case TagResponse:
		if len(d) < 8 {
			return
		}
		return true, ResponseParams{SysUpTime: zvGet32(net, d), Error: pduerror.Error(zvGet16(net, d[4:])),
			Index: int16(zvGet16(net, d[6:]))}, 8
	case TagGet, TagGetNext, TagTestSet, TagCommitSet, TagUndoSet, TagCleanupSet, TagNotify, TagPing,
		TagIndexAllocate, TagIndexDeallocate:
		return true, NoParams{}, 0
	}
	return
}

// zvPayload is the specification of payload decoding.
func zvPayload(tag PduTag, flags Flags, d []byte) (ok bool, ctx string, p PayloadParams, rs []SearchRange, vbs []asn.Varbind) {
	net := zvNetFlag(flags)
	if flags&FlagNonDefaultContext != 0 {
		ok1, s, n := zoStr(net, d)
		if !ok1 {
			return
		}
		ctx = string(s)
		d = d[n:]
	}
	ok2, p, n2 := zvParams(net, tag, d)
	if !ok2 {
		return
	}
	d = d[n2:]
	if zvHasRanges(tag) {
		ok, rs = zvRanges(net, d)
		return
	}
	if zvHasVarbinds(tag) {
		ok, vbs = zvVbs(net, d)
		return
	}
	ok = len(d) == 0
	return
}

// zvHeaderOk is the specification of header decoding.
func zvHeaderOk(d []byte) bool {
	if len(d) != 20 {
		return false
	}
	if d[0] != 1 || d[3] != 0 || d[1] < byte(TagOpen) || d[1] > byte(TagResponse) {
		return false
	}
	if Flags(d[2])&^zvAllowedFlags(PduTag(d[1])) != 0 {
		return false
	}
	size := zvGet32(zvNetFlag(Flags(d[2])), d[16:])
	return size < 1<<31 && size%4 == 0
}
