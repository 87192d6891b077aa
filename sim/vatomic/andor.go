package vatomic

import "sync/atomic"

func AndInt32(p *int32, m int32) int32 { y(); v := atomic.AndInt32(p, m); y(); return v }
func OrInt32(p *int32, m int32) int32  { y(); v := atomic.OrInt32(p, m); y(); return v }
func (x *Int32) And(m int32) int32     { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32      { return OrInt32(&x.v, m) }

func AndInt64(p *int64, m int64) int64 { y(); v := atomic.AndInt64(p, m); y(); return v }
func OrInt64(p *int64, m int64) int64  { y(); v := atomic.OrInt64(p, m); y(); return v }
func (x *Int64) And(m int64) int64     { return AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64      { return OrInt64(&x.v, m) }

func AndUint32(p *uint32, m uint32) uint32 { y(); v := atomic.AndUint32(p, m); y(); return v }
func OrUint32(p *uint32, m uint32) uint32  { y(); v := atomic.OrUint32(p, m); y(); return v }
func (x *Uint32) And(m uint32) uint32      { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32       { return OrUint32(&x.v, m) }

func AndUint64(p *uint64, m uint64) uint64 { y(); v := atomic.AndUint64(p, m); y(); return v }
func OrUint64(p *uint64, m uint64) uint64  { y(); v := atomic.OrUint64(p, m); y(); return v }
func (x *Uint64) And(m uint64) uint64      { return AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64       { return OrUint64(&x.v, m) }

func AndUintptr(p *uintptr, m uintptr) uintptr { y(); v := atomic.AndUintptr(p, m); y(); return v }
func OrUintptr(p *uintptr, m uintptr) uintptr  { y(); v := atomic.OrUintptr(p, m); y(); return v }
func (x *Uintptr) And(m uintptr) uintptr       { return AndUintptr(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr        { return OrUintptr(&x.v, m) }
