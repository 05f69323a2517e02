=== default P=I01
=== type lib Direction
=== raw direction
pub open spec fn rev_dir(d: Direction) -> Direction { match d { Direction::Incoming => Direction::Outgoing, Direction::Outgoing => Direction::Incoming } }
pub open spec fn dir_num(d: Direction) -> int { match d { Direction::Incoming => 0, Direction::Outgoing => 1 } }
=== const lib Direction::BOTH
=== type index IndexError derive=Clone,Copy,PartialEq,Eq,Structural
=== fn lib Direction::reverse
--- spec
ensures r == rev_dir(self)
=== fn lib Direction::try_from of=TryFrom<usize> assoc=Error:IndexError
--- spec
ensures dir <= 1 ==> r.is_ok() && dir_num(r->Ok_0) == dir, dir > 1 ==> r.is_err(),
=== type index BitField each=u32,u16 derive=Clone,Copy,PartialEq,Eq,Structural
=== raw bitfield each=u32,u16
impl BitField_$W {
    pub open spec fn none(self) -> bool { self.0 == $M$W }
    pub open spec fn idx(self) -> int { if self.0 >= $H$W { self.0 - $H } else { self.0 as int } }
    pub open spec fn flag(self) -> bool { self.0 >= $H$W }
    pub open spec fn max_idx() -> int { $H - 2 }
    pub open spec fn spec_none() -> BitField_$W { BitField_$W($M$W) }
    pub open spec fn mk(i: int, f: bool) -> BitField_$W { BitField_$W((i + (if f { $Hint } else { 0int })) as $W) }
    pub open spec fn wf(self) -> bool { !self.none() && self.0 != $H - 1 }
}
=== fn index BitField::msb_mask each=u32,u16
--- spec
ensures r == $H$W
--- hint start
assert($M$W >> 1 == $H$W - 1) by (bit_vector);
=== fn index BitField::new_none each=u32,u16
--- spec
ensures r == BitField_$W::spec_none(), r.none()
=== fn index BitField::is_none each=u32,u16
--- spec
ensures r == self.none()
=== fn index BitField::max_index each=u32,u16
--- spec
ensures r == BitField_$W::max_idx()
--- hint start
assert($Musize >> 1 == $Husize - 1) by (bit_vector);
=== fn index BitField::set_bit_flag each=u32,u16
--- spec
requires !self.none(),
ensures r.0 == (if self.0 >= $H$W { self.0 } else { (self.0 + $H) as $W }), r.idx() == self.idx(), r.flag(),
--- hint start
let ghost x = self.0;
assert(x | $H$W == (if x >= $H$W { x } else { (x + $H$W) as $W })) by (bit_vector);
=== fn index BitField::unset_bit_flag each=u32,u16
--- spec
requires !self.none(),
ensures r.idx() == self.idx(), !r.flag(), r.0 == self.idx(),
--- hint start
let ghost x = self.0;
assert(x & !$H$W == (if x >= $H$W { (x - $H$W) as $W } else { x })) by (bit_vector);
=== fn index BitField::flip_bit_flag each=u32,u16
--- spec
requires !self.none(), self.idx() <= BitField_$W::max_idx(),
ensures r == BitField_$W::mk(self.idx(), !self.flag()), r.idx() == self.idx(), r.flag() == !self.flag(), !r.none(),
--- hint start
let ghost x = self.0;
assert(x ^ $H$W == (if x >= $H$W { (x - $H$W) as $W } else { (x + $H$W) as $W })) by (bit_vector);
=== fn index BitField::index_unchecked each=u32,u16
--- spec
ensures r == self.idx(), r < $H,
--- hint start
let ghost x = self.0;
assert(x & !$H$W == (if x >= $H$W { (x - $H$W) as $W } else { x })) by (bit_vector);
=== fn index BitField::index each=u32,u16
--- spec
ensures r == (if self.none() { None::<usize> } else { Some(self.idx() as usize) })
=== fn index BitField::bit_flag each=u32,u16
--- spec
ensures r == (if self.none() { None::<bool> } else { Some(self.flag()) })
--- hint start
let ghost x = self.0;
assert((x & $H$W != 0) == (x >= $H$W)) by (bit_vector);
=== fn index BitField::new each=u32,u16
--- spec
requires index <= BitField_$W::max_idx(),
ensures r == BitField_$W::mk(index as int, bit_flag), r.idx() == index, r.flag() == bit_flag, !r.none(),
=== fn index BitField::new each=u32,u16 as=new__rejects panics
--- spec
ensures index <= BitField_$W::max_idx(), r == BitField_$W::mk(index as int, bit_flag), !r.none(),
=== fn index BitField::set_index each=u32,u16
--- spec
requires index <= BitField_$W::max_idx(),
ensures r.idx() == index, r.flag() == (!self.none() && self.flag()), !r.none(),
--- hint start
let ghost x = self.0;
let ghost i = index as $W;
assert(x & $H$W == (if x >= $H$W { $H$W } else { 0 })) by (bit_vector);
assert(i < $H$W ==> i | $H$W == i + $H$W && i | 0 == i) by (bit_vector);
=== fn index BitField::try_from each=u32,u16 of=TryFrom<usize>
--- spec
ensures
    index <= BitField_$W::max_idx() ==> r == Ok::<BitField_$W, IndexError>(BitField_$W::mk(index as int, false)),
    index > BitField_$W::max_idx() ==> r == Err::<BitField_$W, IndexError>(IndexError { index }),
=== type index NodeIndex
=== type index PortIndex
=== type index MaybeNodeIndex
=== type index MaybePortIndex
=== raw indices
impl NodeIndex {
    pub open spec fn i(self) -> int { self.0.idx() }
    pub open spec fn wf(self) -> bool { self.0.0 < 0x7fff_ffff }
    pub open spec fn mk(i: int) -> NodeIndex { NodeIndex(BitField_u32(i as u32)) }
    pub open spec fn max_i() -> int { 0x7fff_fffe }
}
impl PortIndex {
    pub open spec fn i(self) -> int { self.0.idx() }
    pub open spec fn wf(self) -> bool { self.0.0 < 0x7fff_ffff }
    pub open spec fn mk(i: int) -> PortIndex { PortIndex(BitField_u32(i as u32)) }
    pub open spec fn max_i() -> int { 0x7fff_fffe }
}
impl MaybeNodeIndex {
    pub open spec fn spec_none() -> MaybeNodeIndex { MaybeNodeIndex(BitField_u32::spec_none()) }
    pub open spec fn some(i: NodeIndex) -> MaybeNodeIndex { MaybeNodeIndex(i.0) }
    pub open spec fn none(self) -> bool { self.0.none() }
    pub open spec fn opt(self) -> Option<NodeIndex> { if self.0.none() { None } else { Some(NodeIndex(self.0)) } }
    pub open spec fn wf(self) -> bool { self.0.none() || self.0.0 < 0x7fff_ffff }
    pub open spec fn i(self) -> int { self.0.idx() }
}
impl MaybePortIndex {
    pub open spec fn spec_none() -> MaybePortIndex { MaybePortIndex(BitField_u32::spec_none()) }
    pub open spec fn some(i: PortIndex) -> MaybePortIndex { MaybePortIndex(i.0) }
    pub open spec fn none(self) -> bool { self.0.none() }
    pub open spec fn opt(self) -> Option<PortIndex> { if self.0.none() { None } else { Some(PortIndex(self.0)) } }
    pub open spec fn wf(self) -> bool { self.0.none() || self.0.0 < 0x7fff_ffff }
    pub open spec fn i(self) -> int { self.0.idx() }
}
=== fn index NodeIndex::max_index
--- spec
ensures r == NodeIndex::max_i()
=== fn index NodeIndex::new
--- spec
requires index <= NodeIndex::max_i(),
ensures r == NodeIndex::mk(index as int), r.wf(), r.i() == index,
=== fn index NodeIndex::new panics as=new__rejects call:new=new__rejects
--- spec
ensures index <= NodeIndex::max_i(), r == NodeIndex::mk(index as int), r.wf(), r.i() == index,
=== fn index NodeIndex::index
--- spec
ensures r == self.i()
=== fn index NodeIndex::try_from of=TryFrom<usize> resmap
--- spec
ensures index <= NodeIndex::max_i() ==> r == Ok::<NodeIndex, IndexError>(NodeIndex::mk(index as int)), index > NodeIndex::max_i() ==> r.is_err(),
=== fn index MaybeNodeIndex::new
--- spec
requires value.is_some() ==> value.unwrap().wf(),
ensures r == (match value { Some(v) => MaybeNodeIndex::some(v), None => MaybeNodeIndex::spec_none() }), r.wf(), r.opt() == value,
=== fn index MaybeNodeIndex::to_option
--- spec
ensures r == self.opt()
=== fn index MaybeNodeIndex::is_some
--- spec
ensures r == !self.none()
=== fn index MaybeNodeIndex::is_none
--- spec
ensures r == self.none()
=== fn index MaybeNodeIndex::expect
--- spec
requires !self.none(),
ensures r == NodeIndex(self.0), Some(r) == self.opt(),
=== fn index MaybeNodeIndex::unwrap
--- spec
requires !self.none(),
ensures r == NodeIndex(self.0), Some(r) == self.opt(),
=== fn index MaybeNodeIndex::from of=From<NodeIndex<U>> vinto
--- into
MaybeNodeIndex::some(self)
=== raw MaybeNodeIndex default
impl VDefault for MaybeNodeIndex {
    open spec fn dflt() -> MaybeNodeIndex { MaybeNodeIndex::spec_none() }
    fn vdefault() -> (r: MaybeNodeIndex) { MaybeNodeIndex::default() }
}
=== fn index MaybeNodeIndex::new nodebug as=new__nodebug
--- spec
ensures r == (match value { Some(v) => MaybeNodeIndex::some(v), None => MaybeNodeIndex::spec_none() })
=== fn index MaybeNodeIndex::from of=From<Option<NodeIndex<U>>> vinto call:new=new__nodebug
--- into
match self { Some(v) => MaybeNodeIndex::some(v), None => MaybeNodeIndex::spec_none() }
=== fn index MaybeNodeIndex::default of=Default
--- spec
ensures r == MaybeNodeIndex::spec_none(), r.none()
=== fn index MaybeNodeIndex::take
--- spec
ensures r == *old(self), *final(self) == MaybeNodeIndex::spec_none(),
=== fn index MaybeNodeIndex::replace
--- spec
ensures r == *old(self), *final(self) == MaybeNodeIndex::some(value),
=== fn index PortIndex::max_index
--- spec
ensures r == PortIndex::max_i()
=== fn index PortIndex::new
--- spec
requires index <= PortIndex::max_i(),
ensures r == PortIndex::mk(index as int), r.wf(), r.i() == index,
=== fn index PortIndex::new panics as=new__rejects call:new=new__rejects
--- spec
ensures index <= PortIndex::max_i(), r == PortIndex::mk(index as int), r.wf(), r.i() == index,
=== fn index PortIndex::index
--- spec
ensures r == self.i()
=== fn index PortIndex::try_from of=TryFrom<usize> resmap
--- spec
ensures index <= PortIndex::max_i() ==> r == Ok::<PortIndex, IndexError>(PortIndex::mk(index as int)), index > PortIndex::max_i() ==> r.is_err(),
=== fn index MaybePortIndex::new
--- spec
requires value.is_some() ==> value.unwrap().wf(),
ensures r == (match value { Some(v) => MaybePortIndex::some(v), None => MaybePortIndex::spec_none() }), r.wf(), r.opt() == value,
=== fn index MaybePortIndex::to_option
--- spec
ensures r == self.opt()
=== fn index MaybePortIndex::is_some
--- spec
ensures r == !self.none()
=== fn index MaybePortIndex::is_none
--- spec
ensures r == self.none()
=== fn index MaybePortIndex::expect
--- spec
requires !self.none(),
ensures r == PortIndex(self.0), Some(r) == self.opt(),
=== fn index MaybePortIndex::unwrap
--- spec
requires !self.none(),
ensures r == PortIndex(self.0), Some(r) == self.opt(),
=== fn index MaybePortIndex::from of=From<PortIndex<U>> vinto
--- into
MaybePortIndex::some(self)
=== raw MaybePortIndex default
impl VDefault for MaybePortIndex {
    open spec fn dflt() -> MaybePortIndex { MaybePortIndex::spec_none() }
    fn vdefault() -> (r: MaybePortIndex) { MaybePortIndex::default() }
}
=== fn index MaybePortIndex::new nodebug as=new__nodebug
--- spec
ensures r == (match value { Some(v) => MaybePortIndex::some(v), None => MaybePortIndex::spec_none() })
=== fn index MaybePortIndex::from of=From<Option<PortIndex<U>>> vinto call:new=new__nodebug
--- into
match self { Some(v) => MaybePortIndex::some(v), None => MaybePortIndex::spec_none() }
=== fn index MaybePortIndex::default of=Default
--- spec
ensures r == MaybePortIndex::spec_none(), r.none()
=== fn index MaybePortIndex::take
--- spec
ensures r == *old(self), *final(self) == MaybePortIndex::spec_none(),
=== fn index MaybePortIndex::replace
--- spec
ensures r == *old(self), *final(self) == MaybePortIndex::some(value),
=== raw port index default
impl VDefault for PortIndex {
    open spec fn dflt() -> PortIndex { PortIndex::mk(0) }
    fn vdefault() -> (r: PortIndex) { PortIndex::default() }
}
=== fn index PortIndex::default of=Default
--- spec
ensures r == PortIndex::mk(0), r.wf(), r.i() == 0
=== type index PortOffset U=$PO
=== raw PortOffset
impl PortOffset {
    pub open spec fn wf(self) -> bool { self.0.wf() }
    pub open spec fn i(self) -> int { self.0.idx() }
    pub open spec fn dir(self) -> Direction { if self.0.flag() { Direction::Outgoing } else { Direction::Incoming } }
    pub open spec fn max_o() -> int { BitField_$PO::max_idx() }
    pub open spec fn mk(d: Direction, i: int) -> PortOffset { PortOffset(BitField_$PO::mk(i, d == Direction::Outgoing)) }
}
=== fn index PortOffset::max_offset U=$PO
--- spec
ensures r == PortOffset::max_o()
=== fn index PortOffset::new U=$PO
--- spec
requires offset <= PortOffset::max_o(),
ensures r == PortOffset::mk(direction, offset as int), r.wf(), r.dir() == direction, r.i() == offset,
=== fn index PortOffset::new U=$PO panics as=new__rejects call:new=new__rejects
--- spec
ensures offset <= PortOffset::max_o(), r == PortOffset::mk(direction, offset as int),
=== fn index PortOffset::new_incoming U=$PO
--- spec
requires offset <= PortOffset::max_o(),
ensures r == PortOffset::mk(Direction::Incoming, offset as int), r.wf(), r.dir() == Direction::Incoming, r.i() == offset,
=== fn index PortOffset::new_outgoing U=$PO
--- spec
requires offset <= PortOffset::max_o(),
ensures r == PortOffset::mk(Direction::Outgoing, offset as int), r.wf(), r.dir() == Direction::Outgoing, r.i() == offset,
=== fn index PortOffset::direction U=$PO
--- spec
requires self.wf(),
ensures r == self.dir()
=== fn index PortOffset::index U=$PO
--- spec
requires self.wf(),
ensures r == self.i(), r <= PortOffset::max_o(),
=== fn index PortOffset::opposite U=$PO
--- spec
requires self.wf(),
ensures r.wf(), r.i() == self.i(), r.dir() == rev_dir(self.dir()),
