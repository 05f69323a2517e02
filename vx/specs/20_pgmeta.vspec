=== default P=G05
=== raw nonzero
/// `std::num::NonZeroU16` / `NonZeroU32`, with the safety condition of `new_unchecked` as precondition.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NonZeroU16 { pub v: u16 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NonZeroU32 { pub v: u32 }
impl NonZeroU16 { pub fn new_unchecked(v: u16) -> (r: Self) requires v != 0, ensures r.v == v { NonZeroU16 { v } } }
impl NonZeroU32 { pub fn new_unchecked(v: u32) -> (r: Self) requires v != 0, ensures r.v == v { NonZeroU32 { v } } }
impl VInto<u16> for NonZeroU16 {
    open spec fn into_spec(self) -> u16 { self.v }
    fn vinto(self) -> (r: u16) { self.v }
}
impl VInto<u32> for NonZeroU32 {
    open spec fn into_spec(self) -> u32 { self.v }
    fn vinto(self) -> (r: u32) { self.v }
}
=== type portgraph NodeMeta derive=Clone,Copy
=== type portgraph FreeNodeEntry derive=Clone,Copy
=== type portgraph NodeEntry derive=Clone,Copy
=== type portgraph PortMeta derive=Clone,Copy
=== type portgraph PortEntry derive=Clone,Copy
=== type portgraph PortOperation derive=Clone,Copy
=== type portgraph LinkError derive=none
=== raw nodemeta
impl NodeMeta {
    pub open spec fn first(self) -> int { self.first_port.i() }
    pub open spec fn inc(self) -> int { self.incoming.v - 1 }
    pub open spec fn out(self) -> int { self.outgoing as int }
    pub open spec fn cap(self) -> int { self.capacity as int }
    pub open spec fn tot(self) -> int { self.inc() + self.out() }
    pub open spec fn num(self, d: Direction) -> int { match d { Direction::Incoming => self.inc(), Direction::Outgoing => self.out() } }
    /// First port in the given direction.
    pub open spec fn at(self, d: Direction) -> int { match d { Direction::Incoming => self.first(), Direction::Outgoing => self.first() + self.inc() } }
    pub open spec fn wf(self) -> bool {
        &&& self.first_port.wf()
        &&& self.incoming.v != 0
        &&& self.tot() <= self.cap()
        &&& self.cap() == 0 ==> self.first() == 0
    }
    pub open spec fn mk(first: PortIndex, inc: int, out: int, cap: int) -> NodeMeta {
        NodeMeta { first_port: first, incoming: NonZeroU16 { v: (inc + 1) as u16 }, outgoing: out as u16, capacity: cap as u16 }
    }
}
impl PortMeta {
    pub open spec fn v(self) -> int { self.0.v as int }
    pub open spec fn n(self) -> int { if self.0.v >= 0x8000_0000u32 { self.0.v - 0x8000_0001 } else { self.0.v - 1 } }
    pub open spec fn d(self) -> Direction { if self.0.v >= 0x8000_0000u32 { Direction::Outgoing } else { Direction::Incoming } }
    pub open spec fn wf(self) -> bool { 0 <= self.n() <= NodeIndex::max_i() }
    pub open spec fn mk(n: int, d: Direction) -> PortMeta {
        PortMeta(NonZeroU32 { v: (n + 1 + (if d == Direction::Outgoing { 0x8000_0000int } else { 0 })) as u32 })
    }
}
=== const portgraph NodeMeta::MAX_INCOMING
=== const portgraph NodeMeta::MAX_OUTGOING
=== fn portgraph NodeMeta::new
--- spec
requires
    first_port.wf(),
    incoming < 65535,
    incoming + outgoing <= capacity,
    capacity == 0 ==> first_port.i() == 0,
ensures r == NodeMeta::mk(first_port, incoming as int, outgoing as int, capacity as int), r.wf(),
    r.first_port == first_port, r.inc() == incoming, r.out() == outgoing, r.cap() == capacity,
=== fn portgraph NodeMeta::first_port
--- spec
ensures r == self.first_port
=== fn portgraph NodeMeta::incoming
--- spec
requires self.wf(),
ensures r == self.inc()
=== fn portgraph NodeMeta::outgoing
--- spec
ensures r == self.out()
=== fn portgraph NodeMeta::num_ports
--- spec
requires self.wf(),
ensures r == self.num(dir)
=== fn portgraph NodeMeta::port_count
--- spec
requires self.wf(),
ensures r == self.tot()
=== fn portgraph NodeMeta::capacity
--- spec
ensures r == self.cap()
=== fn portgraph NodeMeta::all_ports
--- spec
requires self.wf(),
ensures r.start == self.first(), r.end == self.first() + self.tot(),
=== fn portgraph NodeMeta::ports
--- spec
requires self.wf(),
ensures r.start == self.at(direction), r.end == self.at(direction) + self.num(direction),
=== fn portgraph NodeMeta::incoming_ports
--- spec
requires self.wf(),
ensures r.start == self.first(), r.end == self.first() + self.inc(),
=== fn portgraph NodeMeta::outgoing_ports
--- spec
requires self.wf(),
ensures r.start == self.first() + self.inc(), r.end == self.first() + self.tot(),
=== fn portgraph NodeMeta::unused_ports
--- spec
requires self.wf(),
ensures r.start == self.first() + self.tot(), r.end == self.first() + self.cap(),
=== fn portgraph NodeMeta::default of=Default
--- spec
ensures r == NodeMeta::mk(PortIndex::mk(0), 0, 0, 0), r.wf(), r.cap() == 0, r.inc() == 0, r.out() == 0, r.first() == 0,
=== fn portgraph NodeEntry::free_entry
--- spec
ensures match *self { NodeEntry::Free(e) => r.is_some() && *r.unwrap() == e, NodeEntry::Node(_) => r.is_none() }
=== fn portgraph NodeEntry::free_entry_mut
--- spec
ensures match *old(self) {
    NodeEntry::Free(e) => r.is_some() && *r.unwrap() == e && *final(self) == NodeEntry::Free(*final(r.unwrap())),
    NodeEntry::Node(_) => r.is_none() && *final(self) == *old(self),
}
=== fn portgraph NodeEntry::new_free
--- spec
ensures r == NodeEntry::Free(FreeNodeEntry { prev: prev.into_spec(), next: next.into_spec() })
=== const portgraph PortMeta::DIRECTION_BIT
=== const portgraph PortMeta::NODE_MASK
=== fn portgraph PortMeta::new
--- spec
requires node.wf(),
ensures r == PortMeta::mk(node.i(), direction), r.wf(), r.n() == node.i(), r.d() == direction,
--- hint start
let ghost i = (node.i() + 1) as u32;
assert(1u32 << 31u32 == 0x8000_0000u32) by (bit_vector);
assert(0u32 << 31u32 == 0u32) by (bit_vector);
assert(i < 0x8000_0000u32 ==> i | 0x8000_0000u32 == i + 0x8000_0000u32) by (bit_vector);
assert(i | 0u32 == i) by (bit_vector);
=== fn portgraph PortMeta::node
--- spec
requires self.wf(),
ensures r.wf(), r.i() == self.n(), r == NodeIndex::mk(self.n()),
--- hint start
let ghost x = self.0.v;
assert(!(1u32 << 31u32) == 0x7fff_ffffu32) by (bit_vector);
assert(x & 0x7fff_ffffu32 == (if x >= 0x8000_0000u32 { (x - 0x8000_0000u32) as u32 } else { x })) by (bit_vector);
=== fn portgraph PortMeta::direction
--- spec
ensures r == self.d()
--- hint start
let ghost x = self.0.v;
assert((x >> 31u32 == 0u32) == (x < 0x8000_0000u32)) by (bit_vector);
