package main

import (
	"encoding/binary"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/serialization"
)

// anyBody is what an application decodes message bodies into: one field of every
// kind the serializer knows.
type anyBody struct {
	U8   uint8
	I8   int8
	Raw  []byte
	S8   []int8
	B    bool
	Name string
	U16  uint16
	I16  int16
	U32  uint32
	I32  int32
	U64  uint64
	I64  int64
	F64  float64
	F32  float32
	G    serialization.GUID
	P    *anyInner
	Inn  anyInner
	Strs []string
	Ptrs []*anyInner
	Objs []anyInner
	M    map[string]string
	MK   map[anyKey]uint32
	Node federation.NodeInstance
	Rng  federation.NodeIdRange
	Uri  common.Uri
	Nums []uint32
}

type anyKey struct{ Key string }
type anyInner struct {
	A uint32
	S string
	L []anyKey
}

func rich(g *Gen) []byte {
	v := &anyBody{U8: 7, I8: -3, Raw: g.bytes(g.IntN(6)), S8: []int8{1, -1}[:g.IntN(3)], B: true, Name: "name", U16: 5, I16: -5, U32: 1 << 20, I32: -99, U64: g.Uint64(), I64: -int64(g.Uint64() >> 1),
		F64: 1.5, F32: 2.5, P: &anyInner{A: 1, S: "x", L: []anyKey{{"k"}}}, Strs: []string{"a", "b"}, Ptrs: []*anyInner{{A: 9}, {S: "q"}}, Objs: []anyInner{{A: 4}, {L: []anyKey{{"z"}, {"y"}}}},
		M: map[string]string{"m": "v"}, MK: map[anyKey]uint32{{"o"}: 3}, Nums: []uint32{1, 2}}
	v.Node.Id = federation.NodeID{Hi: 3, Lo: 4}
	b, err := serialization.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// decodeAny is the application's decoding of a body.
func decodeAny(b []byte) { serialization.Unmarshal(b, &anyBody{}) }

// kindsObj is an object with fields of about the right types for anyBody.
func kindsObj(g *Gen) []byte {
	return object(func(e *enc) {
		for _, t := range []byte{tUChar, tChar, tArray, tArray, tBool} {
			switch {
			case g.chance(1, 4):
				e.b = append(e.b, metas[g.IntN(len(metas))])
			case t == tUChar, t == tChar:
				e.b = append(e.b, t, byte(g.Uint32()))
			case t == tArray:
				e.b = append(e.b, tArray|tUChar)
				e.b = append(e.b, compressU(uint64(g.pick(0, 1, 2, int64(g.extreme()))))...)
				e.b = append(e.b, g.bytes(g.IntN(3))...)
			default:
				e.bool(true)
			}
		}
		for k := g.IntN(20); k > 0; k-- {
			e.b = junkField(g, e.b, 1)
		}
	})
}

// Generators of hostile input.  Nothing here may be large: what a node allocates
// is compared with what it was sent.

var extremes = []uint64{0, 1, 2, 3, 11, 12, 13, 15, 16, 17, 63, 64, 127, 128, 255, 256, 4095, 65535, 65536, 1 << 20, 1 << 24,
	1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1<<32 - 12, 1<<32 - 2, 1 << 32, 1<<62 - 1, 1 << 63, 1<<64 - 1}

func (g *Gen) extreme() uint64 { return extremes[g.IntN(len(extremes))] }

var metas = []byte{tObject, tPointer, tBool, tChar, tUChar, tShort, tUShort, tInt32, tUInt32, tInt64, tUInt64, tDouble, tGuid, tWString,
	tEmpty | tObject, tEmpty | tPointer, tEmpty | tBool, tEmpty | tBool | 0x30, tEmpty | tChar, tEmpty | tInt32, tEmpty | tUInt32, tEmpty | tArray | tWString, tEmpty | tObject | tArray,
	tArray | tWString, tArray | tObject, tArray | tUChar, tArray | tChar, tArray | tPointer, tArray | tUInt32, tScopeBegin, tScopeEnd, tObjectEnd, 0x0e, 0x0f, 0xff, 0x2e}

// junkField is a token that looks like part of a serialized value.
func junkField(g *Gen, b []byte, depth int) []byte {
	switch g.IntN(14) {
	case 0, 1:
		if depth < 4 {
			return append(b, junkObj(g, depth+1)...)
		}
		return append(b, tEmpty|tObject)
	case 2:
		b = append(b, tArray|tWString)
		n := g.extreme()
		if g.chance(1, 2) {
			n = uint64(g.IntN(20))
		}
		b = append(b, compressU(n)...)
		return append(b, g.bytes(int(min(n*2, 40)))...)
	case 3:
		b = append(b, []byte{tObject | tArray, tUInt32, tUChar | tArray, tPointer | tArray}[g.IntN(4)])
		n := g.extreme()
		if g.chance(1, 2) {
			n = uint64(g.IntN(6))
		}
		b = append(b, compressU(n)...)
		for k := uint64(0); k < min(n, 4); k++ {
			if depth < 4 {
				b = junkField(g, b, depth+1)
			}
		}
		return b
	case 4:
		b = append(b, []byte{tShort, tUShort, tInt32, tUInt32, tInt64, tUInt64}[g.IntN(6)])
		return append(b, compressU(g.extreme())...)
	case 5:
		b = append(b, tGuid)
		return append(b, g.bytes(16)...)
	case 6:
		b = append(b, tPointer)
		if depth < 4 {
			return append(b, junkObj(g, depth+1)...)
		}
		return b
	case 7:
		return append(b, []byte{tEmpty | tBool, tEmpty | tBool | 0x30}[g.IntN(2)])
	case 8:
		b = append(b, tUChar|tArray)
		b = append(b, compressU(uint64(g.pick(16, 16, 15, 17, 0)))...)
		return append(b, g.bytes(16)...)
	case 9, 10, 11:
		return append(b, metas[g.IntN(len(metas))])
	case 12:
		b = append(b, metas[g.IntN(len(metas))])
		return append(b, g.bytes(g.IntN(6))...)
	default:
		// many continuation bytes
		b = append(b, []byte{tInt32, tUInt32, tInt64, tUInt64, tArray | tWString}[g.IntN(5)])
		for k := g.IntN(14); k > 0; k-- {
			b = append(b, 0x80|byte(g.Uint32()))
		}
		return append(b, byte(g.Uint32()))
	}
}

// junkObj looks like a serialized object and may have wrong sizes and contents.
func junkObj(g *Gen, depth int) []byte {
	var in []byte
	for k := g.IntN(8); k > 0; k-- {
		in = junkField(g, in, depth)
	}
	size := uint32(len(in) + 11)
	if g.chance(1, 4) {
		size = uint32(g.extreme())
		if g.chance(1, 2) {
			size = uint32(int64(len(in)+11) + g.between(-12, 12))
		}
	}
	b := []byte{tObject}
	b = binary.LittleEndian.AppendUint32(b, size)
	flag := uint32(0)
	if g.chance(1, 8) {
		flag = uint32(g.pick(1, 2, 3, 255, 1<<31))
	}
	b = append(b, byte(flag), 0, 0, 0)
	if flag != 0 {
		b = append(b, compressU(g.extreme())...)
		b = append(b, g.bytes(g.IntN(5))...)
	}
	b = append(b, tScopeBegin)
	b = append(b, in...)
	if !g.chance(1, 10) {
		b = append(b, tScopeEnd)
	}
	if !g.chance(1, 10) {
		b = append(b, tObjectEnd)
	}
	return b
}

// mutate damages a valid encoding.
func mutate(g *Gen, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + g.IntN(3); k > 0 && len(b) > 0; k-- {
		i := g.IntN(len(b))
		switch g.IntN(7) {
		case 0:
			b[i] ^= 1 << g.IntN(8)
		case 1:
			b[i] = byte(g.Uint32())
		case 2:
			b = b[:i]
		case 3:
			b = append(b[:i:i], append(compressU(g.extreme()), b[min(len(b), i+1):]...)...)
		case 4:
			b[i] = metas[g.IntN(len(metas))]
		case 5: // an extreme little-endian number
			if i+4 <= len(b) {
				binary.LittleEndian.PutUint32(b[i:], uint32(g.extreme()))
			}
		case 6: // repeat or drop a piece
			j := min(len(b), i+1+g.IntN(12))
			if g.chance(1, 2) {
				b = append(b[:j:j], b[i:]...)
			} else {
				b = append(b[:i:i], b[j:]...)
			}
		}
	}
	if len(b) > 20000 {
		b = b[:20000]
	}
	return b
}

// partnerHeader encodes the information about a federation node.
func partnerHeader(n NodeID, inst uint64, phase int64, addr, lease string) []byte {
	return object(func(e *enc) {
		e.obj(func() { e.nodeid(n); e.u64(inst) })
		e.i64(phase)
		e.str(addr)
		e.obj(func() { e.nodeid(NodeID{}); e.nodeid(NodeID{}); e.u64(0) })
		e.str(lease)
		e.i64(0)
		e.bool(false)
		e.obj(func() {
			e.i64(0)
			for i := 0; i < 2; i++ {
				e.str("")
			}
			e.i64(0)
			e.str("")
			e.i32(0)
			for i := 0; i < 3; i++ {
				e.str("")
			}
			e.refs(0)
		})
		e.str("")
		e.i32(0)
	})
}

// headIDs are the headers a node decodes, or at least looks at.
var headIDs = []uint16{hInvalid, hActor, hAction, hMessageID, hRelatesTo, hExpectsReply, hRetry, hFault, hIdempotent, hHighPriority,
	hPartner, hRouting, hPToP, hActivity, hNegotiation, 0x8041, 0, 0xffff}

// evilActions are names a node gives a meaning to.
var evilActions = []struct {
	actor  int64
	action string
}{{aTransport, ""}, {aTransport, "HeartbeatRequest"}, {aTransport, "HeartbeatResponse"}, {29, "ConnectionAuth"}, {29, "other"},
	{aNaming, "ServiceNotificationRequest"}, {aNaming, "ClientOperationFailure"}, {aNaming, "PingRequest"}, {aFederation, "VotePing"}, {aFederation, "VotePingReply"}, {aRouting, "x"}, {aSecurityContext, ""}, {0, "zero"}, {1 << 62, "big"}, {-1, "neg"}}

// evilBody is the body of a message that claims to be well formed.
func evilBody(g *Gen) []byte {
	switch g.IntN(9) {
	case 0:
		return nil
	case 6:
		return mutate(g, rich(g))
	case 7:
		return kindsObj(g)
	case 1:
		return g.bytes(g.IntN(60))
	case 2:
		return mutate(g, object(func(e *enc) { e.i64(int64(g.extreme())) }))
	case 3:
		return object(func(e *enc) { e.i64(int64(g.extreme())) })
	default:
		return junkObj(g, 0)
	}
}

func evilMsg(g *Gen) *RMsg {
	a := evilActions[g.IntN(len(evilActions))]
	m := &RMsg{ID: MsgID{GUID{9, byte(g.IntN(256))}, uint32(1 + g.IntN(1000))}, Actor: a.actor, Action: a.action, Body: evilBody(g)}
	if g.chance(1, 3) {
		m.Err = int64(g.extreme())
		m.HasFault = g.chance(1, 2)
	}
	if g.chance(1, 4) {
		m.Rel = MsgID{GUID{byte(g.IntN(256))}, uint32(g.extreme())}
	}
	if g.chance(1, 8) {
		m.Retry = int32(g.extreme())
	}
	for k := g.IntN(3); k > 0; k-- {
		id := headIDs[g.IntN(len(headIDs))]
		var d []byte
		switch g.IntN(5) {
		case 0:
			d = g.bytes(g.IntN(40))
		case 1:
			d = mutate(g, partnerHeader(NodeID{g.extreme(), g.extreme()}, g.extreme(), g.Int64N(6)-1, "10.0.0.9:1", "10.0.0.9:2"))
		case 2:
			id = hPartner
			d = mutate(g, partnerHeader(NodeID{g.extreme(), g.extreme()}, g.extreme(), g.Int64N(6)-1, "10.0.0.9:1", "10.0.0.9:2"))
		default:
			d = junkObj(g, 0)
		}
		m.Custom = append(m.Custom, hdrTLV{id, d})
	}
	return m
}

// genEvil draws bytes to send on a connection.
func genEvil(g *Gen, c frameCfg) []byte {
	switch g.IntN(10) {
	case 0:
		return g.bytes(1 + g.IntN(100))
	case 1, 2: // a frame header with extreme lengths and a valid checksum
		b := make([]byte, frameHdr)
		binary.LittleEndian.PutUint32(b, uint32(g.extreme()))
		b[4] = c.mask
		if g.chance(1, 4) {
			b[4] = byte(g.Uint32())
		}
		binary.LittleEndian.PutUint16(b[6:], uint16(g.extreme()))
		b[5] = crc8sum(b)
		return append(b, g.bytes(g.IntN(100))...)
	case 3: // damaged header list
		hs := mutate(g, evilMsg(g).encodeHeaders())
		return encodeFrame(hs[:min(len(hs), 65535)], evilBody(g), c)
	case 4: // a header list with wrong sizes
		var hs []byte
		for k := g.IntN(5); k > 0; k-- {
			hs = binary.LittleEndian.AppendUint16(hs, headIDs[g.IntN(len(headIDs))])
			d := junkObj(g, 2)
			n := uint16(len(d))
			if g.chance(1, 3) {
				n = uint16(g.extreme())
			}
			hs = binary.LittleEndian.AppendUint16(hs, n)
			hs = append(hs, d...)
		}
		return encodeFrame(hs[:min(len(hs), 65535)], evilBody(g), c)
	case 5:
		m := evilMsg(g)
		return mutate(g, m.encode(c))
	default:
		m := evilMsg(g)
		hs := m.encodeHeaders()
		return encodeFrame(hs[:min(len(hs), 65535)], m.Body, c)
	}
}
