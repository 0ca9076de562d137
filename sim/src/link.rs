//! The link world: the two ends of connections exchange packets over a faulty network.
//!
//! Real: connection state, packet numbers, packet and frame building and decoding, key
//! derivation and AEAD of each end that is not the reference peer. Simulated: network,
//! acknowledgements (the library has no code that processes them), the reference peer.
use crate::alloc;
use crate::gen::Mutation;
use crate::oracle::*;
use crate::refquic::*;
use crate::rng::{hash_bytes, mix};
use crate::sched::{guarded, Violation};
use crate::server::{keys, secret, Outcome};
use quic_sea::sim::access::{self, Endpoint, FrameSpec, PacketView};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub const CLIENT: usize = 0;
pub const SERVER: usize = 1;

/// packet numbers of one direction of one space before the simulation starts
#[derive(Debug, Clone, Copy, Default, Serialize, Deserialize)]
pub struct Start {
    /// last number sent, largest of them received by the peer, and known to be received
    pub sent: Option<u64>,
    pub received: Option<u64>,
    pub acked: Option<u64>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Conn {
    pub dcid: Vec<u8>,
    pub scid: [Vec<u8>; 2],
    /// which ends are the library, client first
    pub real: [bool; 2],
    /// whether an end has the keys of handshake and application
    pub keyed: [[bool; 3]; 2],
    /// by sending end and space
    pub start: [[Start; 3]; 2],
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum KeySel {
    Right,
    Space(Space),
    Conn(usize),
    Direction,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Pkt {
    pub kind: Kind,
    /// numbers left out before it (reference sender only)
    pub skip: u64,
    /// may use fewer bytes for the number than allowed (reference sender only)
    pub short: bool,
    pub style: WireStyle,
    pub frames: Vec<Frame>,
    pub fstyle: Style,
    /// hand the frames to the library as decoded from bytes instead of constructed
    pub wire: bool,
    /// frame bytes from the library, which is told that nothing follows (reference sender)
    pub by_library: bool,
    /// payload that is no frames (reference sender only)
    pub bytes: Option<Vec<u8>>,
    pub token: Vec<u8>,
    pub dcid: Option<Vec<u8>>,
    pub keys: KeySel,
    pub versions: Vec<u32>,
    /// a frame that cannot be encoded is added (library only)
    pub fail: bool,
    /// protected with the right keys in the wrong way (reference sender only)
    pub forge: Option<Forge>,
    /// these bytes instead of number and payload (reference sender only)
    pub stub: Option<Vec<u8>>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Copy {
    pub delay: u64,
    pub mutation: Option<Mutation>,
    /// to this end of this connection instead
    pub divert: Option<(usize, usize)>,
    /// the acknowledgement comes back this much later
    pub ack: Option<u64>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Send {
    pub at: u64,
    pub conn: usize,
    pub side: usize,
    pub packets: Vec<Pkt>,
    pub trailing: Vec<u8>,
    pub raw: Option<Vec<u8>>,
    pub copies: Vec<Copy>,
}

/// a hostile peer acknowledges a packet that was not sent yet, `ahead` of the last one
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Lie {
    pub at: u64,
    pub conn: usize,
    pub side: usize,
    pub space: Space,
    pub ahead: u64,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Plan {
    pub hash_seed: u64,
    #[serde(default)]
    pub lies: Vec<Lie>,
    pub conns: Vec<Conn>,
    pub sends: Vec<Send>,
    pub lost: u32,
    pub partitioned: u32,
}

#[derive(Debug, Clone)]
struct Part {
    start: usize,
    pn_at: usize,
    end: usize,
    plain: Plain,
    frames: Option<Vec<Frame>>,
    versions: Vec<u32>,
    pn_len: usize,
    /// what it is protected with
    key: Option<Keys>,
    must: bool,
    loose: bool,
    /// of the library, and known to be readable at best by the library
    opaque: bool,
}

#[derive(Debug, Clone)]
struct Sent {
    conn: usize,
    side: usize,
    data: Vec<u8>,
    parts: Vec<Part>,
}

struct End {
    real: Option<Endpoint>,
    sent: [Option<u64>; 3],
    fails: [u64; 3],
    acked: [Option<u64>; 3],
    /// largest received from the peer
    received: [Option<u64>; 3],
}

enum Ev {
    Send(usize),
    Arrive { send: usize, data: Vec<u8>, intact: bool, to: (usize, usize), copy: usize },
    Ack { conn: usize, side: usize, space: Space, pn: u64 },
    Lie(usize),
}

struct World<'a> {
    plan: &'a Plan,
    ends: Vec<[End; 2]>,
    sent: Vec<Option<Sent>>,
    events: BTreeMap<(u64, u64), Ev>,
    seq: u64,
    now: u64,
    out: Outcome,
    trace: bool,
    stop: bool,
}

fn merge(a: &mut Option<u64>, b: u64) {
    *a = Some(a.map_or(b, |x| x.max(b)));
}

fn pn_offset(wire: &[u8]) -> Option<usize> {
    let h = read_header(wire)?;
    let mut r = Reader::new(wire);
    r.pos = h.end;
    if h.kind == Kind::Initial {
        let n = r.varint()?;
        r.take(n)?;
    }
    if h.kind.is_long() {
        r.varint()?;
    }
    Some(r.pos)
}

fn contains_at(data: &[u8], wire: &[u8], short: bool) -> Option<usize> {
    if wire.is_empty() || wire.len() > data.len() {
        return None;
    }
    if short {
        return data.ends_with(wire).then(|| data.len() - wire.len());
    }
    (0..=data.len() - wire.len()).find(|i| data[*i] == wire[0] && data[*i..*i + wire.len()] == *wire)
}

fn name(side: usize) -> &'static str {
    ["client", "server"][side]
}

impl World<'_> {
    fn note(&mut self, f: impl FnOnce() -> String) {
        if self.trace {
            let s = format!("t={} {}", self.now, f());
            self.out.trace.push(s);
        }
    }
    fn fold(&mut self, x: u64) {
        self.out.hash = mix(self.out.hash ^ x);
    }
    fn at(&mut self, delay: u64, ev: Ev) {
        self.seq += 1;
        self.events.insert((self.now + delay, self.seq), ev);
    }
    fn fail(&mut self, class: &str, detail: String) {
        self.note(|| format!("VIOLATION {class}: {detail}"));
        self.out.fail(class, detail);
    }
    fn crash(&mut self, what: String) {
        self.fail("panic", what);
        self.stop = true;
    }
    fn keys_for(&self, p: &Pkt, conn: usize, side: usize) -> Option<Keys> {
        let space = p.kind.space()?;
        let dcid = &self.plan.conns[conn].dcid;
        let from_client = side == CLIENT;
        Some(match &p.keys {
            KeySel::Right => keys(dcid, space, from_client),
            KeySel::Space(s) => keys(dcid, *s, from_client),
            KeySel::Conn(c) => keys(&self.plan.conns[*c % self.plan.conns.len()].dcid, space, from_client),
            KeySel::Direction => keys(dcid, space, !from_client),
        })
    }
    /// a packet of the reference peer
    fn ref_packet(&mut self, p: &Pkt, conn: usize, side: usize) -> Option<(Vec<u8>, Part)> {
        let c = &self.plan.conns[conn];
        let mut style = p.style;
        style.pn_len = style.pn_len.clamp(1, 4);
        let mut pn = 0;
        if let Some(space) = p.kind.space() {
            let end = &self.ends[conn][side];
            let next = end.sent[space as usize].map_or(0, |x| x.saturating_add(1));
            pn = next.saturating_add(p.skip);
            if pn >= PN_LIMIT {
                return None;
            }
            let need = |len: u8| match end.acked[space as usize] {
                Some(a) => 1u128 << (8 * len) > 2 * u128::from(pn - a),
                None => pn >> (8 * len) == 0,
            };
            if !p.short {
                while style.pn_len < 4 && !need(style.pn_len) {
                    style.pn_len += 1;
                }
                if !need(style.pn_len) {
                    return None;
                }
            }
            self.ends[conn][side].sent[space as usize] = Some(pn);
        }
        let mut dcid = p.dcid.clone().unwrap_or_else(|| if side == CLIENT { c.dcid.clone() } else { c.scid[CLIENT].clone() });
        if p.kind == Kind::OneRtt {
            dcid.resize(8, 0);
        }
        let mut must = p.keys == KeySel::Right && p.bytes.is_none();
        if p.kind == Kind::Vn {
            must = dcid.len() <= 20 && p.token.is_empty() && !p.versions.is_empty();
        }
        let mut payload = match &p.bytes {
            Some(b) => b.clone(),
            None if p.by_library => {
                let specs: Vec<FrameSpec> = p.frames.iter().map(|f| spec(f, p.fstyle, p.wire)).collect();
                match guarded(|| access::serialize_frames(&specs, true)) {
                    Err(e) => {
                        self.crash(format!("serializing {} frames panicked: {e}", specs.len()));
                        return None;
                    }
                    Ok(Err(e)) => {
                        self.fail("build-failed", format!("{} frames: {e}", specs.len()));
                        return None;
                    }
                    Ok(Ok(b)) => b,
                }
            }
            None => write_frames(&p.frames, p.fstyle),
        };
        let mut loose = false;
        if p.kind.space().is_some() && payload.len() + usize::from(style.pn_len) < 4 {
            // at the front, where it cannot become part of a stream frame
            let n = 4 - usize::from(style.pn_len) - payload.len();
            payload.splice(0..0, vec![0; n]);
            loose = p.by_library;
        }
        if payload.is_empty() && p.kind.space().is_some() {
            must = false;
        }
        let frames = if p.by_library && !loose && p.bytes.is_none() { Some(p.frames.clone()) } else { read_frames(&payload) };
        let plain = Plain {
            kind: p.kind,
            version: if p.kind == Kind::Vn { 0 } else { V1 },
            dcid,
            scid: if p.kind == Kind::Vn && !p.token.is_empty() { p.token.clone() } else { c.scid[side].clone() },
            token: p.token.clone(),
            pn,
            payload,
        };
        let mut k = self.keys_for(p, conn, side);
        let (mut wire, mut pn_at) = protect(&plain, k.as_ref(), style, &p.versions);
        if let (Some(how), Some(keys)) = (p.forge, k.as_ref()) {
            let forged = protect_wrongly(&plain, keys, style, how);
            if forged != wire {
                self.out.fault("protected in a wrong way", 1);
                wire = forged;
                k = None;
                must = false;
            }
        }
        if let (Some(stub), true) = (&p.stub, p.kind.is_long() && p.kind.space().is_some()) {
            let h = read_header(&wire).unwrap();
            let mut v = wire[..h.end].to_vec();
            if p.kind == Kind::Initial {
                varint_into(&mut v, p.token.len() as u64, style.token_width);
                v.extend_from_slice(&p.token);
            }
            varint_into(&mut v, stub.len() as u64, style.length_width);
            pn_at = v.len();
            v.extend_from_slice(stub);
            wire = v;
            k = None;
            must = false;
            self.out.fault("packet too short", 1);
        }
        // another key may happen to be the right one
        let end = wire.len();
        let part = Part {
            start: 0,
            pn_at,
            end,
            key: k,
            plain,
            frames,
            versions: p.versions.clone(),
            pn_len: usize::from(style.pn_len),
            must,
            loose,
            opaque: false,
        };
        Some((wire, part))
    }
    /// a packet of the library, checked as it leaves
    fn real_packet(&mut self, p: &Pkt, conn: usize, side: usize) -> Option<(Vec<u8>, Part)> {
        let plan = self.plan;
        let c = &plan.conns[conn];
        let kind = if p.kind == Kind::Initial { Kind::Initial } else { Kind::Handshake };
        let space = kind.space().unwrap();
        let s = space as usize;
        if space != Space::Initial && !c.keyed[side][s] {
            return None;
        }
        let end = &self.ends[conn][side];
        if end.sent[s].map_or(0, |x| x + 1) + end.fails[s] >= PN_LIMIT {
            // no numbers are left
            return None;
        }
        let mut specs: Vec<FrameSpec> = p.frames.iter().map(|f| spec(f, p.fstyle, p.wire)).collect();
        if p.fail {
            specs.push(FrameSpec::MaxData(1 << 62));
        }
        let token = (kind == Kind::Initial && !p.token.is_empty()).then(|| p.token.clone());
        let end = &mut self.ends[conn][side];
        let real = end.real.as_mut().unwrap();
        let r = guarded(|| if kind == Kind::Initial { real.build_initial(&specs, token) } else { real.build_handshake(&specs) });
        let (last, acked) = (end.sent[s], end.acked[s]);
        // which number it has, or would have had
        let low = last.map_or(0, |x| x + 1);
        let high = last.map_or(1, |x| x + 1) + end.fails[s];
        let fits = |pn: u64, len: u32| match acked {
            Some(a) => pn > a && 1u128 << (8 * len) > 2 * u128::from(pn - a),
            None => u128::from(pn) < 1u128 << (8 * len) && (len == 4 || 1u128 << (8 * len) > 2 * (u128::from(pn) + 1)),
        };
        let what = format!("{kind:?} packet {low}..={high} of the {} of connection {conn}, {acked:?} acknowledged", name(side));
        self.out.probe("packets built", 1);
        let wire = match r {
            Err(e) => {
                self.crash(format!("building a {what} panicked: {e}"));
                return None;
            }
            Ok(Err(e)) => {
                self.ends[conn][side].fails[s] += 1;
                if p.fail {
                    self.out.fault("failing build", 1);
                } else if fits(low, 4) && fits(high, 4) {
                    self.fail("build-failed", format!("{what}: {e}"));
                } else {
                    self.out.probe("packet numbers refused", 1);
                }
                return None;
            }
            Ok(Ok(x)) => x,
        };
        if p.fail {
            // not encodable, yet a packet came out
            self.ends[conn][side].fails[s] += 1;
            return None;
        }
        let k = keys(&c.dcid, space, side == CLIENT);
        let Some((plain, pn_len, rest)) = unprotect(&wire, &|_| Some(k.clone()), &|_| last) else {
            self.fail("wire-unreadable", format!("{what} is not readable: {} bytes", wire.len()));
            self.ends[conn][side].fails[s] += 1;
            // whether it may be altered on the way can still be judged
            let pn_at = pn_offset(&wire).unwrap_or(0);
            let plain = Plain { kind, version: V1, dcid: vec![], scid: vec![], token: vec![], pn: 0, payload: vec![] };
            let end = wire.len();
            let part = Part { start: 0, pn_at, end, plain, frames: None, versions: vec![], pn_len: 0, key: None, must: false, loose: true, opaque: true };
            return Some((wire, part));
        };
        let pn = plain.pn;
        self.fold(pn ^ (pn_len as u64) << 60);
        if !rest.is_empty() {
            self.fail("wire", format!("{what} has a length that is {} bytes short", rest.len()));
        }
        if last.map_or(false, |x| pn <= x) {
            self.fail("pn-reuse", format!("{what} has number {pn}"));
        }
        if pn > high && acked.map_or(true, |a| low > a) {
            self.fail("pn-count", format!("{what} has number {pn}"));
        }
        // after a lie of the peer there is no distance to go by
        if acked.map_or(true, |a| pn > a) && !fits(pn, pn_len as u32) {
            self.fail("pn-length", format!("{what} has number {pn} in {pn_len} bytes"));
        }
        let want_dcid = &c.dcid;
        if plain.kind != kind
            || plain.version != V1
            || plain.dcid != *want_dcid
            || plain.scid != c.scid[side]
            || (kind == Kind::Initial && plain.token != p.token)
        {
            self.fail("wire", format!("{what} reads differently: {:?}", Plain { payload: vec![], ..plain.clone() }));
        }
        let frames = read_frames(&plain.payload);
        match &frames {
            Some(f) if strip_padding(f) == strip_padding(&p.frames) => {}
            Some(f) => {
                let i = f.iter().zip(&p.frames).take_while(|(a, b)| a == b).count();
                self.fail("wire", format!("{what}: frame {i} reads as {:?} instead of {:?}", f.get(i), p.frames.get(i)));
            }
            None => self.fail("wire", format!("{what}: frames are not readable: {:02x?}", &plain.payload[..plain.payload.len().min(64)])),
        }
        let end = &mut self.ends[conn][side];
        end.sent[s] = Some(end.sent[s].map_or(pn, |x| x.max(pn)));
        end.fails[s] = 0;
        let part = Part {
            start: 0,
            pn_at: pn_offset(&wire).unwrap_or(0),
            end: wire.len(),
            plain,
            frames: Some(p.frames.clone()),
            versions: vec![],
            pn_len,
            key: Some(k),
            must: true,
            loose: true,
            opaque: false,
        };
        Some((wire, part))
    }
    fn send(&mut self, index: usize) {
        let plan = self.plan;
        let s = &plan.sends[index];
        let mut sent = Sent { conn: s.conn, side: s.side, data: vec![], parts: vec![] };
        if let Some(raw) = &s.raw {
            sent.data = raw.clone();
        } else {
            for p in &s.packets {
                let made = if plan.conns[s.conn].real[s.side] { self.real_packet(p, s.conn, s.side) } else { self.ref_packet(p, s.conn, s.side) };
                if self.stop {
                    return;
                }
                if let Some((wire, mut part)) = made {
                    if !sent.parts.is_empty() && sent.data.len() + wire.len() > 65507 {
                        // no datagram is larger, it is lost
                        break;
                    }
                    part.start = sent.data.len();
                    if part.plain.kind == Kind::Vn && part.start > 0 {
                        part.must = false;
                    }
                    part.pn_at += part.start;
                    part.end += part.start;
                    sent.data.extend_from_slice(&wire);
                    let last = !part.plain.kind.is_long() || part.plain.kind.space().is_none();
                    sent.parts.push(part);
                    if last {
                        break;
                    }
                }
            }
            if sent.parts.last().map_or(false, |x| x.plain.kind.is_long() && x.plain.kind.space().is_some()) {
                sent.data.extend_from_slice(&s.trailing);
            }
        }
        let what: Vec<_> = sent.parts.iter().map(|p| format!("{:?} {} in {} bytes", p.plain.kind, p.plain.pn, p.pn_len)).collect();
        let len = sent.data.len();
        self.note(|| format!("{} of connection {} sends datagram {index} ({len} bytes): {}", name(s.side), s.conn, what.join(", ")));
        self.out.hash = hash_bytes(self.out.hash, &sent.data);
        let base = sent.data.clone();
        // an alteration might make good what is wrong with a forged packet
        let forged = !plan.conns[s.conn].real[s.side] && s.packets.iter().any(|p| p.forge.is_some());
        self.sent[index] = Some(sent);
        if base.is_empty() && s.raw.is_none() {
            return;
        }
        for (n, c) in s.copies.iter().enumerate() {
            let mut data = base.clone();
            if let Some(m) = c.mutation.as_ref().filter(|_| !forged) {
                let other = match m {
                    Mutation::Splice { from, .. } => self.sent[*from as usize % self.sent.len()].as_ref().map(|x| x.data.clone()),
                    _ => None,
                };
                m.apply(&mut data, other.as_deref());
                if data != base {
                    self.out.fault(m.name(), 1);
                }
            }
            if n > 0 {
                self.out.fault("duplication", 1);
            }
            let to = match c.divert {
                Some((conn, side)) => {
                    let to = (conn % plan.conns.len(), side % 2);
                    if to.0 != s.conn {
                        self.out.fault("diverted to another connection", 1);
                    } else if to.1 == s.side {
                        self.out.fault("reflected to its sender", 1);
                    }
                    to
                }
                None => (s.conn, 1 - s.side),
            };
            if c.delay > 50 {
                self.out.fault("long delay", 1);
            }
            let intact = data == base;
            self.at(c.delay, Ev::Arrive { send: index, data, intact, to, copy: n });
        }
    }
    fn decode(&mut self, to: (usize, usize), data: &[u8]) -> Option<access::Outcome<Vec<PacketView>>> {
        let real = self.ends[to.0][to.1].real.as_ref().unwrap();
        alloc::reset_peak();
        let r = guarded(|| real.decode(data));
        let peak = alloc::peak();
        self.out.max_peak = self.out.max_peak.max(peak);
        if peak > alloc::limit(data.len()) {
            self.fail("memory", format!("decoding a datagram of {} bytes allocated {peak} bytes", data.len()));
        }
        match r {
            Ok(x) => Some(x),
            Err(e) => {
                self.crash(format!("decoding a datagram of {} bytes panicked: {e}", data.len()));
                None
            }
        }
    }
    fn arrive(&mut self, index: usize, data: Vec<u8>, intact: bool, to: (usize, usize), copy: usize) {
        let plan = self.plan;
        let (conn, side) = to;
        let sent = self.sent[index].clone().unwrap();
        self.note(|| format!("{} of connection {conn} receives copy {copy} of datagram {index} ({} bytes{})", name(side), data.len(), if intact { "" } else { ", altered" }));
        self.fold(index as u64 ^ (copy as u64) << 20 ^ (conn as u64) << 40 ^ (side as u64) << 50);
        let direct = to == (sent.conn, 1 - sent.side);
        let ack = plan.sends[index].copies[copy].ack;
        let received = self.ends[conn][side].received;
        let keyed = &plan.conns[conn].keyed[side];
        // protected for this end, with keys it has
        let right = |p: &Part| {
            p.plain.kind.space().map_or(false, |s| {
                (s == Space::Initial || keyed[s as usize])
                    && p.key.as_ref() == Some(&keys(&plan.conns[conn].dcid, s, side == SERVER))
            })
        };
        let readable = |p: &Part| {
            right(p) && p.frames.is_some() && p.plain.kind.space().map_or(false, |s| recoverable(received[s as usize], p.plain.pn, p.pn_len))
        };
        if !plan.conns[conn].real[side] {
            // the reference peer reads it
            if direct {
                let mut got = Vec::new();
                for p in &sent.parts {
                    let there = data.get(p.start..p.end).map_or(false, |x| *x == sent.data[p.start..p.end]);
                    if there && readable(p) {
                        got.push((p.plain.kind.space().unwrap(), p.plain.pn));
                    }
                }
                self.out.probe("packets read by the reference peer", got.len() as u64);
                self.accepted(to, &got, ack);
            }
            return;
        }
        let Some(r) = self.decode(to, &data) else { return };
        let got: &[PacketView] = r.as_deref().unwrap_or(&[]);
        self.out.probe("datagrams decoded", 1);
        self.fold(got.len() as u64);
        let note = match &r {
            Err(x) => format!(" [{x}]"),
            Ok(_) => String::new(),
        };
        let whole = direct && intact && plan.sends[index].raw.is_none() && plan.sends[index].trailing.is_empty();
        // genuine packets of this connection and direction that are there bit for bit
        let mut expects: Vec<(usize, Expect)> = Vec::new();
        if direct && intact {
            for p in &sent.parts {
                if p.plain.kind == Kind::Vn {
                    if !whole {
                        continue;
                    }
                    expects.push((p.start, self.expect(p, p.must)));
                } else if right(p) {
                    expects.push((p.start, self.expect(p, p.must && readable(p))));
                }
            }
        } else {
            let hit = plan.sends[index].copies[copy].mutation.as_ref().and_then(|m| match m {
                Mutation::Flip { at, .. } | Mutation::Set { at, .. } => Some(Mutation::place(*at, sent.data.len())),
                _ => None,
            });
            let cut = plan.sends[index].copies[copy].mutation.as_ref().map_or(false, |m| matches!(m, Mutation::Cut { .. } | Mutation::Append { .. }));
            let part_hit = hit.and_then(|h| sent.parts.iter().position(|p| h >= p.pn_at && h < p.end && p.plain.kind.space().is_some()));
            for (j, s) in self.sent.iter().enumerate() {
                let Some(s) = s else { continue };
                for (n, p) in s.parts.iter().enumerate() {
                    if !right(p) {
                        continue;
                    }
                    let short = !p.plain.kind.is_long();
                    if let Some(at) = contains_at(&data, &s.data[p.start..p.end], short) {
                        let same = j == index && direct && at == p.start;
                        let must = p.must && readable(p) && same && ((part_hit.is_some() && part_hit != Some(n)) || (cut && at + (p.end - p.start) <= data.len()));
                        expects.push((at, self.expect(p, must)));
                    }
                }
            }
            expects.sort_by_key(|x| x.0);
        }
        let expects: Vec<Expect> = expects.into_iter().map(|x| x.1).collect();
        let genuine = |v: &PacketView| {
            matches!(v.kind, access::Kind::VersionNegotiation | access::Kind::Retry)
                || expects.iter().any(|e| kind_of(v.kind) == e.plain.kind && v.packet_number == e.plain.pn)
        };
        let from_real = plan.conns[sent.conn].real[sent.side];
        let who = if from_real { "library" } else { "reference peer" };
        // version negotiation and retry are not authenticated
        let judged: Vec<PacketView> = got
            .iter()
            .filter(|v| v.kind != access::Kind::Retry && (v.kind != access::Kind::VersionNegotiation || whole))
            .cloned()
            .collect();
        let opaque = self.sent.iter().flatten().any(|s| {
            (s.conn, 1 - s.side) == to && s.parts.iter().any(|p| p.opaque && contains_at(&data, &s.data[p.start..p.end], false).is_some())
        });
        if opaque {
            // what it holds is not known
        } else if let Some(v) = got.iter().find(|v| !genuine(v)) {
            let how = match (direct, intact) {
                (true, true) => "as sent",
                (true, false) => "altered",
                _ => "misdirected",
            };
            let detail = format!("{:?} packet {} was accepted from a datagram {how}, no such packet was sent to this end", v.kind, v.packet_number);
            self.fail("forged", detail);
        } else {
            match compare(&judged, &expects) {
                Verdict::Fine => {}
                Verdict::Missing(x) => self.fail("decode-missing", format!("from the {who}: {x}; largest received {received:?}{note}")),
                Verdict::Wrong(x) => self.fail("decode-wrong", format!("from the {who}: {x}{note}")),
            }
        }
        self.out.probe("packets decoded", got.len() as u64);
        self.out.probe("datagrams rejected", u64::from(r.is_err()));
        // coalesced packets decode as they do alone
        if direct && sent.parts.len() > 1 {
            let mut alone = Vec::new();
            let mut sure = intact;
            for p in &sent.parts {
                let Some(bytes) = data.get(p.start..p.end).map(|x| x.to_vec()) else { continue };
                let same = bytes == sent.data[p.start..p.end];
                let lengths_same = data.get(p.start..p.pn_at).map_or(false, |x| x == &sent.data[p.start..p.pn_at]);
                if !intact && p.start == 0 {
                    sure = data.len() == sent.data.len();
                }
                // the protected part alone may differ, or the boundaries are not known
                sure &= same || (lengths_same && p.plain.kind.space().is_some());
                let Some(r) = self.decode(to, &bytes) else { return };
                alone.extend(r.unwrap_or_default());
                if p.plain.kind.space().is_none() {
                    break;
                }
            }
            if sure && !opaque && self.plan.sends[index].trailing.is_empty() {
                self.out.probe("coalesced datagrams compared with their packets alone", 1);
                if got != &alone[..] {
                    self.fail(
                        "coalesce",
                        format!(
                            "{} packets were decoded, alone they give {}: {:?} instead of {:?}{note}",
                            got.len(),
                            alone.len(),
                            got.iter().map(|x| (x.kind, x.packet_number, x.frames.len())).collect::<Vec<_>>(),
                            alone.iter().map(|x| (x.kind, x.packet_number, x.frames.len())).collect::<Vec<_>>()
                        ),
                    );
                }
            }
        }
        let ok: Vec<(Space, u64)> = got
            .iter()
            .filter(|v| genuine(v))
            .filter_map(|v| kind_of(v.kind).space().map(|s| (s, v.packet_number)))
            .collect();
        self.accepted(to, &ok, ack);
    }
    fn expect(&self, p: &Part, must: bool) -> Expect {
        Expect { plain: p.plain.clone(), frames: p.frames.clone(), versions: p.versions.clone(), must, loose_padding: p.loose }
    }
    fn accepted(&mut self, to: (usize, usize), pns: &[(Space, u64)], ack: Option<u64>) {
        for (space, pn) in pns {
            let e = &mut self.ends[to.0][to.1];
            if e.received[*space as usize].map_or(false, |x| x > *pn) {
                self.out.probe("packets decoded out of order", 1);
            }
            let e = &mut self.ends[to.0][to.1];
            merge(&mut e.received[*space as usize], *pn);
            if let Some(r) = e.real.as_mut() {
                let (space, pn) = (space_of(*space), *pn);
                let _ = guarded(|| r.note_received(space, pn));
            }
            match ack {
                Some(d) => self.at(d, Ev::Ack { conn: to.0, side: 1 - to.1, space: *space, pn: *pn }),
                None => self.out.fault("acknowledgement lost", 1),
            }
        }
    }
    fn acked(&mut self, conn: usize, side: usize, space: Space, pn: u64) {
        self.fold(pn ^ 0x61636b);
        self.note(|| format!("{} of connection {conn} learns that its {space:?} packet {pn} arrived", name(side)));
        let e = &mut self.ends[conn][side];
        if e.sent[space as usize].map_or(true, |x| x < pn) {
            // of another connection with the same keys
            return;
        }
        merge(&mut e.acked[space as usize], pn);
        if let Some(r) = e.real.as_mut() {
            let _ = guarded(|| r.note_acked(space_of(space), pn));
        }
    }
    fn lie(&mut self, index: usize) {
        let l = &self.plan.lies[index];
        let s = l.space as usize;
        let Some(e) = self.ends.get_mut(l.conn).map(|x| &mut x[l.side]) else { return };
        let pn = e.sent[s].map_or(0, |x| x + 1).saturating_add(e.fails[s]).saturating_add(l.ahead).min(PN_LIMIT - 1);
        let Some(r) = e.real.as_mut() else { return };
        let _ = guarded(|| r.note_acked(space_of(l.space), pn));
        merge(&mut e.acked[s], pn);
        self.fold(pn ^ 0x6c6965);
        self.out.fault("acknowledgement of a packet not sent", 1);
        self.note(|| format!("{} of connection {} is told that its {:?} packet {pn} arrived, which it has not sent", name(l.side), l.conn, l.space));
    }
}

/// the library may keep the last number it used, or the next one it is going to use
fn last_pn_offset() -> u64 {
    static OFFSET: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    *OFFSET.get_or_init(|| {
        let dcid = [7u8; 8];
        let built = guarded(|| -> access::Outcome<Vec<u8>> {
            let mut e = Endpoint::new(false, &dcid)?;
            e.set_scid(&[]);
            e.set_last_pn(space_of(Space::Initial), 1000);
            e.build_initial(&vec![FrameSpec::Ping; 8], None)
        });
        let Ok(Ok(wire)) = built else { return 0 };
        let k = keys(&dcid, Space::Initial, true);
        match unprotect(&wire, &|_| Some(k.clone()), &|_| Some(1000)) {
            Some((plain, _, _)) if plain.pn == 1000 => 1,
            _ => 0,
        }
    })
}

fn open(plan: &Plan, c: &Conn, side: usize) -> Result<End, Violation> {
    let mut end = End { real: None, sent: [None; 3], fails: [0; 3], acked: [None; 3], received: [None; 3] };
    for s in SPACES {
        let own = &c.start[side][s as usize];
        end.sent[s as usize] = own.sent;
        end.acked[s as usize] = own.acked;
        end.received[s as usize] = c.start[1 - side][s as usize].received;
    }
    let _ = plan;
    if c.real[side] {
        let made = guarded(|| -> access::Outcome<Endpoint> {
            let mut e = Endpoint::new(side == SERVER, &c.dcid)?;
            e.set_scid(&c.scid[side]);
            Ok(e)
        });
        let mut e = match made {
            Ok(Ok(x)) => x,
            Ok(Err(x)) => return Err(Violation { class: "wire".into(), detail: format!("cannot open a connection: {x}") }),
            Err(x) => return Err(Violation { class: "panic".into(), detail: format!("opening a connection panicked: {x}") }),
        };
        for s in SPACES {
            if s != Space::Initial && c.keyed[side][s as usize] {
                let (l, r) = (secret(&c.dcid, s, side == CLIENT), secret(&c.dcid, s, side != CLIENT));
                e.install_secrets(space_of(s), &l, &r);
            }
            if let Some(x) = end.sent[s as usize] {
                e.set_last_pn(space_of(s), x + last_pn_offset());
            }
            if let Some(x) = end.acked[s as usize] {
                e.note_acked(space_of(s), x);
            }
            if let Some(x) = end.received[s as usize] {
                e.note_received(space_of(s), x);
            }
        }
        end.real = Some(e);
    }
    Ok(end)
}

pub fn run(plan: &Plan, trace: bool) -> Outcome {
    alloc::new_run();
    crate::set_hash_seed(plan.hash_seed);
    let mut w = World {
        plan,
        ends: vec![],
        sent: vec![None; plan.sends.len()],
        events: BTreeMap::new(),
        seq: 0,
        now: 0,
        out: Outcome::default(),
        trace,
        stop: false,
    };
    for c in &plan.conns {
        match (open(plan, c, CLIENT), open(plan, c, SERVER)) {
            (Ok(a), Ok(b)) => w.ends.push([a, b]),
            (Err(v), _) | (_, Err(v)) => {
                w.out.violations.push(v);
                return w.out;
            }
        }
    }
    for (i, s) in plan.sends.iter().enumerate() {
        w.at(s.at, Ev::Send(i));
    }
    for (i, l) in plan.lies.iter().enumerate() {
        w.at(l.at, Ev::Lie(i));
    }
    while let Some(((at, _), ev)) = w.events.pop_first() {
        w.now = at;
        w.out.steps += 1;
        match ev {
            Ev::Send(i) => w.send(i),
            Ev::Arrive { send, data, intact, to, copy } => w.arrive(send, data, intact, to, copy),
            Ev::Ack { conn, side, space, pn } => w.acked(conn, side, space, pn),
            Ev::Lie(i) => w.lie(i),
        }
        if w.stop {
            break;
        }
    }
    w.out.sim_time = w.now;
    w.out.fault("loss", u64::from(plan.lost));
    w.out.fault("partition", u64::from(plan.partitioned));
    w.out
}
