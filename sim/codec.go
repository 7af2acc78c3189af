package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"unicode/utf16"
)

// An independent implementation of the wire format: frames, message headers,
// the serializer's basic types, and lease frames.  It shares no code with the
// system under test.

const (
	tObject, tPointer, tBool, tChar, tUChar   = 0, 1, 2, 3, 4
	tShort, tUShort, tInt32, tUInt32          = 5, 6, 7, 8
	tInt64, tUInt64, tDouble, tGuid, tWString = 9, 10, 11, 12, 13
	tEmpty, tArray, tScopeBegin, tScopeEnd    = 0x40, 0x80, 0x1f, 0x2f
	tObjectEnd                                = 0x3f
)

type GUID [16]byte // in wire order

type MsgID struct {
	G GUID
	I uint32
}

func (m MsgID) empty() bool    { return m == MsgID{} }
func (m MsgID) String() string { return fmt.Sprintf("%x:%d", m.G[:4], m.I) }

// --- encoder ---

type enc struct{ b []byte }

func (e *enc) meta(m byte) { e.b = append(e.b, m) }

func compressU(v uint64) []byte {
	// most significant group first, 7 bits each; the first byte must not look negative
	var out []byte
	for {
		out = append([]byte{byte(v & 0x7f)}, out...)
		v >>= 7
		if v == 0 && out[0]&0x40 == 0 {
			break
		}
	}
	for i := 0; i < len(out)-1; i++ {
		out[i] |= 0x80
	}
	return out
}

func compressI(v int64) []byte {
	var out []byte
	for {
		out = append([]byte{byte(v & 0x7f)}, out...)
		v >>= 7
		if v == 0 && out[0]&0x40 == 0 || v == -1 && out[0]&0x40 != 0 {
			break
		}
	}
	for i := 0; i < len(out)-1; i++ {
		out[i] |= 0x80
	}
	return out
}

func (e *enc) obj(f func()) {
	outer := e.b
	e.b = nil
	f()
	in := e.b
	e.b = outer
	e.meta(tObject)
	e.b = binary.LittleEndian.AppendUint32(e.b, uint32(len(in))+3+8)
	e.b = append(e.b, 0, 0, 0, 0, tScopeBegin)
	e.b = append(e.b, in...)
	e.b = append(e.b, tScopeEnd, tObjectEnd)
}
func (e *enc) uint(t byte, v uint64) {
	if v == 0 {
		e.meta(tEmpty | t)
		return
	}
	e.meta(t)
	e.b = append(e.b, compressU(v)...)
}
func (e *enc) int(t byte, v int64) {
	if v == 0 {
		e.meta(tEmpty | t)
		return
	}
	e.meta(t)
	e.b = append(e.b, compressI(v)...)
}
func (e *enc) u32(v uint32) { e.uint(tUInt32, uint64(v)) }
func (e *enc) u64(v uint64) { e.uint(tUInt64, v) }
func (e *enc) i32(v int32)  { e.int(tInt32, int64(v)) }
func (e *enc) i64(v int64)  { e.int(tInt64, v) }
func (e *enc) bool(v bool) {
	if v {
		e.meta(tEmpty | tBool)
	} else {
		e.meta(tEmpty | tBool | 0x30)
	}
}
func (e *enc) str(s string) {
	if s == "" {
		e.meta(tEmpty | tArray | tWString)
		return
	}
	e.meta(tArray | tWString)
	u := utf16.Encode([]rune(s))
	e.b = append(e.b, compressU(uint64(len(u)))...)
	for _, c := range u {
		e.b = binary.LittleEndian.AppendUint16(e.b, c)
	}
}
func (e *enc) guid(g GUID) {
	if g == (GUID{}) {
		e.meta(tEmpty | tGuid)
		return
	}
	e.meta(tGuid)
	e.b = append(e.b, g[:]...)
}
func (e *enc) nodeid(n NodeID) {
	e.meta(tUChar | tArray)
	e.b = append(e.b, compressU(16)...)
	e.b = binary.LittleEndian.AppendUint64(e.b, n.Hi)
	e.b = binary.LittleEndian.AppendUint64(e.b, n.Lo)
}
func (e *enc) ptr(f func()) {
	e.meta(tPointer)
	f()
}
func (e *enc) nilptr() { e.meta(tEmpty | tPointer) }

// count of a slice of strings or pointers
func (e *enc) refs(n int) bool {
	if n == 0 {
		e.meta(tEmpty | tUInt32)
		return false
	}
	e.meta(tUInt32)
	e.b = append(e.b, compressU(uint64(n))...)
	return true
}

// count of a slice of structs (or a map)
func (e *enc) objs(n int) bool {
	if n == 0 {
		e.meta(tEmpty | tObject | tArray)
		return false
	}
	e.meta(tObject | tArray)
	e.b = append(e.b, compressU(uint64(n))...)
	return true
}

func object(f func(e *enc)) []byte {
	e := &enc{}
	e.obj(func() { f(e) })
	return e.b
}

// --- decoder ---

type dec struct {
	b   []byte
	p   int
	err error
}

var errShort = errors.New("short data")

func (d *dec) fail(f string, a ...any) {
	if d.err == nil {
		d.err = fmt.Errorf(f+" at %d of %x", append(a, d.p, d.b)...)
	}
}
func (d *dec) byte() byte {
	if d.err != nil || d.p >= len(d.b) {
		d.fail("short data")
		return 0
	}
	d.p++
	return d.b[d.p-1]
}
func (d *dec) take(n int) []byte {
	if d.err != nil || n < 0 || d.p+n > len(d.b) {
		d.fail("short data")
		return make([]byte, max(0, min(n, 64)))
	}
	d.p += n
	return d.b[d.p-n : d.p]
}
func (d *dec) compU() uint64 {
	var v uint64
	for i := 0; i < 11; i++ {
		b := d.byte()
		v = v<<7 | uint64(b&0x7f)
		if b&0x80 == 0 {
			return v
		}
	}
	d.fail("compressed number too long")
	return 0
}
func (d *dec) compI() int64 {
	var v int64
	for i := 0; i < 11; i++ {
		b := d.byte()
		if i == 0 && b&0x40 != 0 {
			v = -1
		}
		v = v<<7 | int64(b&0x7f)
		if b&0x80 == 0 {
			return v
		}
	}
	d.fail("compressed number too long")
	return 0
}

// obj decodes an object's fields with f and skips what f left.
func (d *dec) obj(f func()) {
	if m := d.byte(); m != tObject {
		d.fail("object expected, got %x", m)
		return
	}
	start := d.p
	size := int(binary.LittleEndian.Uint32(append(d.take(4), 0, 0, 0, 0)))
	d.take(4)
	if d.byte() != tScopeBegin {
		d.fail("scope begin expected")
		return
	}
	end := start + size - 2
	if end > len(d.b) || end < d.p {
		d.fail("object size %d", size)
		return
	}
	f()
	if d.err != nil {
		return
	}
	if d.p > end {
		d.fail("object overrun")
		return
	}
	d.p = end
	if d.byte() != tScopeEnd || d.byte() != tObjectEnd {
		d.fail("object end expected")
	}
}
func (d *dec) uint(t byte) uint64 {
	m := d.byte()
	if m&tEmpty != 0 {
		return 0
	}
	if m != t {
		d.fail("type %x expected, got %x", t, m)
		return 0
	}
	return d.compU()
}
func (d *dec) int(t byte) int64 {
	m := d.byte()
	if m&tEmpty != 0 {
		return 0
	}
	if m != t {
		d.fail("type %x expected, got %x", t, m)
		return 0
	}
	return d.compI()
}
func (d *dec) u32() uint32 { return uint32(d.uint(tUInt32)) }
func (d *dec) u64() uint64 { return d.uint(tUInt64) }
func (d *dec) i32() int32  { return int32(d.int(tInt32)) }
func (d *dec) i64() int64  { return d.int(tInt64) }
func (d *dec) bool() bool {
	switch d.byte() {
	case tEmpty | tBool:
		return true
	case tEmpty | tBool | 0x30:
		return false
	}
	d.fail("bool expected")
	return false
}
func (d *dec) str() string {
	m := d.byte()
	if m&tEmpty != 0 {
		return ""
	}
	if m != tArray|tWString {
		d.fail("string expected, got %x", m)
		return ""
	}
	n := int(d.compU())
	if n > len(d.b) {
		d.fail("string length %d", n)
		return ""
	}
	b := d.take(2 * n)
	if d.err != nil {
		return ""
	}
	u := make([]uint16, n)
	for i := range u {
		u[i] = binary.LittleEndian.Uint16(b[2*i:])
	}
	return string(utf16.Decode(u))
}
func (d *dec) guid() (g GUID) {
	m := d.byte()
	if m == tEmpty|tGuid {
		return
	}
	if m != tGuid {
		d.fail("guid expected, got %x", m)
		return
	}
	copy(g[:], d.take(16))
	return
}
func (d *dec) nodeid() (n NodeID) {
	if m := d.byte(); m != tUChar|tArray {
		d.fail("node id expected, got %x", m)
		return
	}
	if d.compU() != 16 {
		d.fail("node id size")
		return
	}
	b := d.take(16)
	if d.err != nil {
		return
	}
	return NodeID{binary.LittleEndian.Uint64(b), binary.LittleEndian.Uint64(b[8:])}
}
func (d *dec) refs() int {
	m := d.byte()
	if m&tEmpty != 0 {
		return 0
	}
	if m != tUInt32 {
		d.fail("list expected, got %x", m)
		return 0
	}
	n := int(d.compU())
	if n > len(d.b) {
		d.fail("list length")
		return 0
	}
	return n
}
func (d *dec) objs() int {
	m := d.byte()
	if m&tEmpty != 0 {
		return 0
	}
	if m != tObject|tArray {
		d.fail("object list expected, got %x", m)
		return 0
	}
	n := int(d.compU())
	if n > len(d.b) {
		d.fail("list length")
		return 0
	}
	return n
}

func decodeObject(b []byte, f func(d *dec)) error {
	d := &dec{b: b}
	d.obj(func() { f(d) })
	return d.err
}

// --- frames ---

const frameHdr = 12

func crc8sum(b []byte) byte {
	var c byte
	for _, x := range b {
		c ^= x
		for i := 0; i < 8; i++ {
			if c&0x80 != 0 {
				c = c<<1 ^ 0x07
			} else {
				c <<= 1
			}
		}
	}
	return c
}

type frameCfg struct {
	mask             byte
	headCRC, bodyCRC bool
}

func encodeFrame(hdrs, body []byte, c frameCfg) []byte {
	b := make([]byte, frameHdr, frameHdr+len(hdrs)+len(body))
	binary.LittleEndian.PutUint32(b, uint32(frameHdr+len(hdrs)+len(body)))
	b[4] = c.mask
	binary.LittleEndian.PutUint16(b[6:], uint16(len(hdrs)))
	if c.headCRC {
		b[5] = crc8sum(b[:frameHdr])
	}
	b = append(b, hdrs...)
	b = append(b, body...)
	if c.bodyCRC {
		binary.LittleEndian.PutUint32(b[8:], crc32.ChecksumIEEE(b[frameHdr:]))
	}
	return b
}

type rawFrame struct {
	mask    byte
	headCRC byte
	bodyCRC uint32
	hdrs    []byte
	body    []byte
	headOK  bool // the header checksum is right
	bodyOK  bool
	size    int
}

// parseFrame takes one frame off the front of b; nil if b is incomplete.
func parseFrame(b []byte) (*rawFrame, error) {
	if len(b) < frameHdr {
		return nil, nil
	}
	n := int64(binary.LittleEndian.Uint32(b))
	hl := int64(binary.LittleEndian.Uint16(b[6:]))
	if n < frameHdr || hl > n-frameHdr || n > 256<<20 {
		return nil, fmt.Errorf("bad frame header %x", b[:frameHdr])
	}
	if int64(len(b)) < n {
		return nil, nil
	}
	f := &rawFrame{mask: b[4], headCRC: b[5], bodyCRC: binary.LittleEndian.Uint32(b[8:]), size: int(n)}
	var z [frameHdr]byte
	copy(z[:], b[:frameHdr])
	z[5], z[8], z[9], z[10], z[11] = 0, 0, 0, 0, 0
	f.headOK = crc8sum(z[:]) == f.headCRC
	f.bodyOK = crc32.ChecksumIEEE(b[frameHdr:n]) == f.bodyCRC
	f.hdrs = append([]byte(nil), b[frameHdr:frameHdr+hl]...)
	f.body = append([]byte(nil), b[frameHdr+hl:n]...)
	return f, nil
}

// --- messages ---

const (
	hInvalid, hActor, hAction, hMessageID = 0x8000, 0x8001, 0x8002, 0x8003
	hRelatesTo, hExpectsReply, hRetry     = 0x8004, 0x8005, 0x8006
	hFault, hIdempotent, hHighPriority    = 0x8007, 0x8008, 0x8009
	hPartner, hRouting, hPToP             = 0x800c, 0x8010, 0x8013
	hActivity, hTimeout, hProtocol        = 0x8020, 0x8023, 0x8025
	hClientIdentity, hNegotiation         = 0x8040, 0x8048
)

const (
	aTransport, aFederation, aRouting, aNaming = 1, 2, 3, 5
)

type hdrTLV struct {
	ID   uint16
	Data []byte
}

// RMsg is a message as the harness sees it on the wire.
type RMsg struct {
	ID, Rel   MsgID
	Actor     int64
	Action    string
	Expects   bool
	HighPri   bool
	Idem      bool
	Err       int64
	HasFault  bool
	Retry     int32
	Custom    []hdrTLV
	Body      []byte
	BadHeader string // first header that could not be decoded
	Order     []uint16
}

func tlv(b []byte, id uint16, data []byte) []byte {
	b = binary.LittleEndian.AppendUint16(b, id)
	b = binary.LittleEndian.AppendUint16(b, uint16(len(data)))
	return append(b, data...)
}

func encID(m MsgID) []byte {
	return object(func(e *enc) { e.guid(m.G); e.u32(m.I) })
}

func (m *RMsg) encodeHeaders() []byte {
	var b []byte
	b = tlv(b, hMessageID, encID(m.ID))
	if !m.Rel.empty() {
		b = tlv(b, hRelatesTo, encID(m.Rel))
	}
	b = tlv(b, hActor, object(func(e *enc) { e.i64(m.Actor) }))
	if m.Action != "" {
		b = tlv(b, hAction, object(func(e *enc) { e.str(m.Action) }))
	}
	if m.Expects {
		b = tlv(b, hExpectsReply, object(func(e *enc) { e.bool(true) }))
	}
	if m.HighPri {
		b = tlv(b, hHighPriority, object(func(e *enc) { e.bool(true) }))
	}
	if m.Idem {
		b = tlv(b, hIdempotent, object(func(e *enc) { e.bool(true) }))
	}
	if m.Err != 0 || m.HasFault {
		b = tlv(b, hFault, object(func(e *enc) { e.i64(m.Err); e.bool(m.HasFault) }))
	}
	if m.Retry > 0 {
		b = tlv(b, hRetry, object(func(e *enc) { e.i32(m.Retry) }))
	}
	for _, c := range m.Custom {
		b = tlv(b, c.ID, c.Data)
	}
	return b
}

func (m *RMsg) encode(c frameCfg) []byte { return encodeFrame(m.encodeHeaders(), m.Body, c) }

func decodeMsg(f *rawFrame) (*RMsg, error) {
	m := &RMsg{Body: f.body}
	b := f.hdrs
	bad := func(id uint16, err error) {
		if err != nil && m.BadHeader == "" {
			m.BadHeader = fmt.Sprintf("header %x: %v", id, err)
		}
	}
	for len(b) > 0 {
		if len(b) < 4 {
			return nil, fmt.Errorf("truncated header list")
		}
		id := binary.LittleEndian.Uint16(b)
		n := int(binary.LittleEndian.Uint16(b[2:]))
		if len(b) < 4+n {
			return nil, fmt.Errorf("truncated header %x", id)
		}
		data := append([]byte(nil), b[4:4+n]...)
		b = b[4+n:]
		m.Order = append(m.Order, id)
		switch id {
		case hMessageID:
			bad(id, decodeObject(data, func(d *dec) { m.ID = MsgID{d.guid(), d.u32()} }))
		case hRelatesTo:
			bad(id, decodeObject(data, func(d *dec) { m.Rel = MsgID{d.guid(), d.u32()} }))
		case hActor:
			bad(id, decodeObject(data, func(d *dec) { m.Actor = d.i64() }))
		case hAction:
			bad(id, decodeObject(data, func(d *dec) { m.Action = d.str() }))
		case hExpectsReply:
			bad(id, decodeObject(data, func(d *dec) { m.Expects = d.bool() }))
		case hHighPriority:
			bad(id, decodeObject(data, func(d *dec) { m.HighPri = d.bool() }))
		case hIdempotent:
			bad(id, decodeObject(data, func(d *dec) { m.Idem = d.bool() }))
		case hFault:
			bad(id, decodeObject(data, func(d *dec) { m.Err = d.i64(); m.HasFault = d.bool() }))
		case hRetry:
			bad(id, decodeObject(data, func(d *dec) { m.Retry = d.i32() }))
		default:
			m.Custom = append(m.Custom, hdrTLV{id, data})
		}
	}
	if m.BadHeader != "" {
		return nil, errors.New(m.BadHeader)
	}
	return m, nil
}

func (m *RMsg) custom(id uint16) [][]byte {
	var out [][]byte
	for _, c := range m.Custom {
		if c.ID == id {
			out = append(out, c.Data)
		}
	}
	return out
}

func (m *RMsg) String() string {
	return fmt.Sprintf("{id %v rel %v actor %d action %q expects %v err %d custom %d body %d}", m.ID, m.Rel, m.Actor, m.Action, m.Expects, m.Err, len(m.Custom), len(m.Body))
}

// sameMsg compares everything but (optionally) the id.
func sameMsg(a, b *RMsg, ids bool) string {
	switch {
	case ids && a.ID != b.ID:
		return fmt.Sprintf("id %v became %v", a.ID, b.ID)
	case a.Rel != b.Rel:
		return fmt.Sprintf("relates-to %v became %v", a.Rel, b.Rel)
	case a.Actor != b.Actor:
		return fmt.Sprintf("actor %v became %v", a.Actor, b.Actor)
	case a.Action != b.Action:
		return fmt.Sprintf("action %q became %q", a.Action, b.Action)
	case a.Expects != b.Expects:
		return fmt.Sprintf("expects-reply %v became %v", a.Expects, b.Expects)
	case a.HighPri != b.HighPri:
		return fmt.Sprintf("high-priority %v became %v", a.HighPri, b.HighPri)
	case a.Idem != b.Idem:
		return fmt.Sprintf("idempotent %v became %v", a.Idem, b.Idem)
	case a.Err != b.Err:
		return fmt.Sprintf("error code %v became %v", a.Err, b.Err)
	case a.HasFault != b.HasFault:
		return fmt.Sprintf("has-fault-body %v became %v", a.HasFault, b.HasFault)
	case a.Retry != b.Retry:
		return fmt.Sprintf("retry count %v became %v", a.Retry, b.Retry)
	case !bytes.Equal(a.Body, b.Body):
		return fmt.Sprintf("body of %d bytes became %d bytes, or changed", len(a.Body), len(b.Body))
	}
	// headers of one id keep their order; different ids may come in any order
	ids2 := map[uint16]bool{}
	for _, c := range a.Custom {
		ids2[c.ID] = true
	}
	for _, c := range b.Custom {
		ids2[c.ID] = true
	}
	for id := range ids2 {
		x, y := a.custom(id), b.custom(id)
		if len(x) != len(y) {
			return fmt.Sprintf("%d custom headers %x became %d", len(x), id, len(y))
		}
		for i := range x {
			if !bytes.Equal(x[i], y[i]) {
				return fmt.Sprintf("custom header %x changed", id)
			}
		}
	}
	return ""
}
