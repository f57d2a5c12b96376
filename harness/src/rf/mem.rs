//! Reference memory: byte-addressed allocations, optional Tree Borrows state. Independent of the
//! spec code; flat node vectors and per-byte permission automata.
use minirust_rs::mem as m;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    Ub(String),
    Machine,
    Abort,
    IllFormed(String),
    Deadlock,
    Leak,
    /// the reference noticed that the recorded choices do not fit (this is a disagreement)
    Mismatch(String),
    /// the reference cannot judge this execution (outside its domain)
    Skip(String),
    /// a recorded finding (known-findings.txt) was hit: not judged any further
    Known(&'static str),
}
pub type R<T = ()> = Result<T, Stop>;
pub fn ub<T>(s: impl Into<String>) -> R<T> { Err(Stop::Ub(s.into())) }
pub fn skip<T>(s: impl Into<String>) -> R<T> { Err(Stop::Skip(s.into())) }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Prov { pub alloc: usize, pub tag: usize }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum AByte { Uninit, Init(u8, Option<(Prov, u8)>) }
impl AByte {
    pub fn data(&self) -> Option<u8> { match self { AByte::Uninit => None, AByte::Init(b, _) => Some(*b) } }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Thin { pub addr: i128, pub prov: Option<Prov> }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Meta { Count(i128), VTable(Thin) }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct RPtr { pub thin: Thin, pub meta: Option<Meta> }

#[derive(Clone, Copy, Debug)]
pub struct Tgt { pub ptr_size: i128, pub ptr_align: i128, pub int_max_align: i128, pub big: bool, pub max_atomic: i128 }
pub const X86_64: Tgt = Tgt { ptr_size: 8, ptr_align: 8, int_max_align: 16, big: false, max_atomic: 8 };
impl Tgt {
    pub fn umax(&self) -> i128 { 1i128 << (self.ptr_size * 8) }
    pub fn imax(&self) -> i128 { (1i128 << (self.ptr_size * 8 - 1)) - 1 }
    pub fn wrap(&self, a: i128) -> i128 { a.rem_euclid(self.umax()) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Stack, Heap, Global, Function, VTable }
impl From<m::AllocationKind> for Kind {
    fn from(k: m::AllocationKind) -> Kind {
        match k {
            m::AllocationKind::Stack => Kind::Stack,
            m::AllocationKind::Heap => Kind::Heap,
            m::AllocationKind::Global => Kind::Global,
            m::AllocationKind::Function => Kind::Function,
            m::AllocationKind::VTable => Kind::VTable,
        }
    }
}

/// base state of a byte under a tree node
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum St { Cell, Res, ResIm, Uniq, Froz, Dis }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Perm { pub st: St, pub lread: bool, pub fread: bool }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Protector { None, Weak, Strong }

#[derive(Clone, Debug)]
pub struct TNode { pub parent: Option<usize>, pub perms: Vec<Perm>, pub prot: Protector }

#[derive(Clone, Debug)]
pub struct RAlloc {
    pub kind: Kind,
    pub base: i128,
    pub align: i128,
    pub data: Vec<AByte>,
    pub live: bool,
    pub nodes: Vec<TNode>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Model { Basic, Tree }

#[derive(Clone)]
pub struct RMem {
    pub tgt: Tgt,
    pub model: Model,
    pub allocs: Vec<RAlloc>,
    /// statistics: tree borrows transitions observed (state, local?, write?, protected?) -> count
    pub tb_trans: std::collections::BTreeMap<(u8, bool, bool, bool), u64>,
}

/// One byte's permission automaton. `Err` = aliasing violation.
pub fn step(p: Perm, protected: bool, local: bool, write: bool) -> Result<Perm, &'static str> {
    use St::*;
    let Perm { st, lread, fread } = p;
    if st == Cell { return Ok(p) }
    if !protected {
        let st2 = match (local, write) {
            (true, false) => if st == Dis { return Err("local read of disabled") } else { st },
            (true, true) => match st {
                Froz => return Err("local write of frozen"),
                Dis => return Err("local write of disabled"),
                _ => Uniq,
            },
            (false, false) => if st == Uniq { Froz } else { st },
            (false, true) => if st == ResIm { ResIm } else { Dis },
        };
        return Ok(Perm { st: st2, lread: false, fread: false });
    }
    match (local, write) {
        (true, false) => match st {
            Dis => Err("protected: local read of disabled"),
            Res | Froz => Ok(Perm { st, lread: true, fread }),
            _ => Ok(p),
        },
        (true, true) => match st {
            Dis | Froz => Err("protected: local write"),
            Res if fread => Err("protected: local write after foreign read"),
            _ => Ok(Perm { st: Uniq, lread: false, fread: false }),
        },
        (false, false) => match st {
            Uniq => Err("protected: foreign read of unique"),
            Res => Ok(Perm { st, lread, fread: true }),
            _ => Ok(p),
        },
        (false, true) => match st {
            Uniq => Err("protected: foreign write of unique"),
            Res | Froz if lread => Err("protected: foreign write after local read"),
            _ => Ok(Perm { st: Dis, lread: false, fread: false }),
        },
    }
}

impl RMem {
    pub fn new(tgt: Tgt, model: Model) -> Self { RMem { tgt, model, allocs: vec![], tb_trans: Default::default() } }

    /// Is `addr` a legal base address for a new allocation?
    pub fn addr_legal(&self, addr: i128, size: i128, align: i128) -> Result<(), String> {
        if addr <= 0 { return Err(format!("base address {addr} is not positive")) }
        if addr % align != 0 { return Err(format!("base address {addr} not aligned to {align}")) }
        if addr + size >= self.tgt.umax() { return Err(format!("allocation [{addr}, +{size}) exceeds the address space")) }
        for a in &self.allocs {
            if !a.live { continue }
            let (b, s) = (a.base, a.data.len() as i128);
            if b == addr || (addr < b + s && b < addr + size) {
                return Err(format!("allocation [{addr}, +{size}) collides with live allocation [{b}, +{s})"));
            }
        }
        Ok(())
    }

    pub fn alloc_at(&mut self, kind: Kind, size: i128, align: i128, addr: i128) -> R<Thin> {
        if let Err(e) = self.addr_legal(addr, size, align) { return Err(Stop::Mismatch(e)) }
        let nodes = match self.model {
            Model::Basic => vec![],
            Model::Tree => vec![TNode { parent: None, perms: vec![Perm { st: St::Uniq, lread: false, fread: false }; size as usize], prot: Protector::None }],
        };
        self.allocs.push(RAlloc { kind, base: addr, align, data: vec![AByte::Uninit; size as usize], live: true, nodes });
        Ok(Thin { addr, prov: Some(Prov { alloc: self.allocs.len() - 1, tag: 0 }) })
    }

    /// size limit check preceding allocation
    pub fn alloc_ok(&self, size: i128) -> R { if size > self.tgt.imax() { ub("allocation too large") } else { Ok(()) } }

    fn is_anc(nodes: &[TNode], anc: usize, mut n: usize) -> bool {
        loop {
            if n == anc { return true }
            match nodes[n].parent { Some(p) => n = p, None => return false }
        }
    }

    fn tb_access(&mut self, p: Prov, write: bool, off: usize, len: usize) -> R {
        if self.model == Model::Basic { return Ok(()) }
        let a = &mut self.allocs[p.alloc];
        let locals: Vec<bool> = (0..a.nodes.len()).map(|i| Self::is_anc(&a.nodes, i, p.tag)).collect();
        for (i, n) in a.nodes.iter_mut().enumerate() {
            let prot = n.prot != Protector::None;
            for b in off..off + len {
                let old = n.perms[b];
                *self.tb_trans.entry((old.st as u8, locals[i], write, prot)).or_default() += 1;
                match step(old, prot, locals[i], write) {
                    Ok(q) => n.perms[b] = q,
                    Err(e) => return ub(e),
                }
            }
        }
        Ok(())
    }

    pub fn check_access(&self, p: Thin, len: i128) -> R<Option<(Prov, usize)>> {
        if len == 0 { return Ok(None) }
        let Some(prov) = p.prov else { return ub("no provenance") };
        let a = &self.allocs[prov.alloc];
        if !a.live { return ub("dead allocation") }
        let off = p.addr - a.base;
        if off < 0 || off + len > a.data.len() as i128 { return ub("out of bounds") }
        Ok(Some((prov, off as usize)))
    }
    /// signed-length variant
    pub fn check_signed(&self, p: Thin, len: i128) -> R {
        if len >= 0 { self.check_access(p, len)?; } else { self.check_access(Thin { addr: p.addr + len, prov: p.prov }, -len)?; }
        Ok(())
    }

    pub fn load(&mut self, p: Thin, len: i128, align: i128) -> R<Vec<AByte>> {
        if p.addr % align != 0 { return ub("misaligned load") }
        let Some((prov, off)) = self.check_access(p, len)? else { return Ok(vec![]) };
        self.tb_access(prov, false, off, len as usize)?;
        Ok(self.allocs[prov.alloc].data[off..off + len as usize].to_vec())
    }
    pub fn store(&mut self, p: Thin, bytes: &[AByte], align: i128) -> R {
        if p.addr % align != 0 { return ub("misaligned store") }
        let Some((prov, off)) = self.check_access(p, bytes.len() as i128)? else { return Ok(()) };
        self.tb_access(prov, true, off, bytes.len())?;
        self.allocs[prov.alloc].data[off..off + bytes.len()].copy_from_slice(bytes);
        Ok(())
    }
    pub fn dealloc(&mut self, p: Thin, kind: Kind, size: i128, align: i128) -> R {
        let Some(prov) = p.prov else { return ub("dealloc without provenance") };
        let a = &self.allocs[prov.alloc];
        if !a.live { return ub("double free") }
        if a.base != p.addr { return ub("dealloc not at start") }
        if a.kind != kind { return ub("dealloc kind") }
        if a.data.len() as i128 != size { return ub("dealloc size") }
        if a.align != align { return ub("dealloc align") }
        let len = a.data.len();
        self.tb_access(prov, true, 0, len)?;
        let a = &mut self.allocs[prov.alloc];
        for n in &a.nodes {
            // A strong protector forbids deallocation if some byte would reject a foreign write.
            if n.prot == Protector::Strong && n.perms.iter().any(|q| step(*q, true, false, true).is_err()) {
                return ub("deallocating strongly protected memory");
            }
        }
        a.live = false;
        Ok(())
    }
    pub fn leaks(&self) -> bool { self.allocs.iter().any(|a| a.live && a.kind == Kind::Heap) }

    /// Reborrow: `inside` are the initial (unaccessed) permissions of the pointee bytes.
    pub fn reborrow(&mut self, p: Thin, inside: &[St], outside: St, prot: Protector) -> R<(Thin, Option<Prov>)> {
        assert!(self.model == Model::Tree);
        self.check_access(p, inside.len() as i128)?;
        let Some(prov) = p.prov else { return Ok((p, None)) };
        let a = &mut self.allocs[prov.alloc];
        let off = p.addr - a.base;
        let mk = |st| Perm { st, lread: false, fread: false };
        let mut perms = vec![mk(outside); a.data.len()];
        for (i, st) in inside.iter().enumerate() { perms[off as usize + i] = mk(*st) }
        a.nodes.push(TNode { parent: Some(prov.tag), perms, prot });
        let new = Prov { alloc: prov.alloc, tag: a.nodes.len() - 1 };
        for (i, st) in inside.iter().enumerate() {
            if *st != St::Cell { self.tb_access(new, false, off as usize + i, 1)? }
        }
        Ok((Thin { addr: p.addr, prov: Some(new) }, if prot != Protector::None { Some(new) } else { None }))
    }

    pub fn release(&mut self, p: Prov) -> R {
        let a = &mut self.allocs[p.alloc];
        let n = &mut a.nodes[p.tag];
        assert!(n.prot != Protector::None);
        n.prot = Protector::None;
        let mut acc = vec![];
        for q in n.perms.iter_mut() {
            acc.push(match q.st {
                St::Uniq => Some(true),
                St::Res | St::Froz if q.lread => Some(false),
                _ => None,
            });
            q.lread = false;
            q.fread = false;
        }
        if !a.live { return Ok(()) }
        // the implicit access hits everything that is not in the subtree of `p`
        let rel: Vec<Option<bool>> = (0..a.nodes.len()).map(|i| {
            if Self::is_anc(&a.nodes, p.tag, i) { None } else { Some(Self::is_anc(&a.nodes, i, p.tag)) }
        }).collect();
        for (i, n) in a.nodes.iter_mut().enumerate() {
            let Some(local) = rel[i] else { continue };
            let prot = n.prot != Protector::None;
            for (b, w) in acc.iter().enumerate() {
                let Some(w) = *w else { continue };
                match step(n.perms[b], prot, local, w) {
                    Ok(q) => n.perms[b] = q,
                    Err(e) => return ub(format!("protector end: {e}")),
                }
            }
        }
        Ok(())
    }
}
