//! The server world: a real socket with its threads, many simulated clients.
//!
//! Real: QuicSocket, QuicStream, routing, connection table, inbound queues, connection
//! state, packet and frame decoding and building, key derivation and AEAD.
//! Simulated: udp socket, network, clients, scheduling of threads at every lock, channel
//! and socket operation, random source.
use crate::alloc;
use crate::gen::Mutation;
use crate::oracle::{compare, kind_of, space_of, spec, Expect, Verdict};
use crate::refquic::*;
use crate::rng::{hash_bytes, Rng};
use crate::sched::*;
use quic_sea::{QuicSocket, QuicStream};
use quic_sea::sim::access::{stream_id, FrameSpec, Outcome as Decoded, PacketView, Probe};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Client {
    pub dcid: Vec<u8>,
    pub port: u16,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum IdRef {
    /// chosen by the client
    Orig,
    /// issued by the server
    Issued,
    /// the issued one with zero bytes in front
    Padded(u8),
    /// the issued one without its leading zero bytes, or without its first byte
    Stripped,
    /// the issued one with one bit changed
    Near(u8),
    Fixed(Vec<u8>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Payload {
    Frames(Vec<Frame>, Style),
    Bytes(Vec<u8>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Pkt {
    pub kind: Kind,
    pub dst: IdRef,
    pub scid: Vec<u8>,
    pub token: Vec<u8>,
    pub pn: u64,
    pub style: WireStyle,
    pub payload: Payload,
    /// client whose keys protect it
    pub keys_of: usize,
    pub version: u32,
    pub versions: Vec<u32>,
    /// zero bytes (padding frames) after the payload
    pub pad: u32,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CopyPlan {
    pub delay: u64,
    pub mutation: Option<Mutation>,
    pub port: Option<u16>,
    pub next_epoch: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Send {
    pub epoch: usize,
    pub client: usize,
    pub at: u64,
    pub after_learn: bool,
    pub packets: Vec<Pkt>,
    pub trailing: Vec<u8>,
    pub raw: Option<Vec<u8>>,
    pub copies: Vec<CopyPlan>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Acceptor {
    pub limit: Option<u32>,
    pub install: bool,
    pub respond: bool,
    pub learn_delay: u64,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum AppOp {
    Sleep(u64),
    WaitOpen(usize),
    Close(usize),
    TakeClose(usize),
    Take(usize, u32),
    DecodeTaken(u32),
    Build { client: usize, space: Space, frames: Vec<Frame>, fail: bool },
    Ack { client: usize, space: Space },
    Log(bool),
    ListIds,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct App {
    pub ops: Vec<AppOp>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Epoch {
    pub acceptors: Vec<Acceptor>,
    pub apps: Vec<App>,
    pub errors: Vec<(u64, i32)>,
    pub log: bool,
    /// what each address to bind to meets, one more works
    #[serde(default)]
    pub binds: Vec<Option<i32>>,
    /// close the socket before its streams
    pub streams_last: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Plan {
    pub rand_seed: u64,
    pub rand_repeat: u64,
    #[serde(default)]
    pub rand_fails: u64,
    /// every so manieth stream is dropped by a thread that is panicking, 0 for none
    #[serde(default)]
    pub unwind: usize,
    pub rand_bits: u32,
    pub rand_near: u64,
    #[serde(default)]
    pub clock_scale: u64,
    #[serde(default)]
    pub wall_jumps: u64,
    #[serde(default)]
    pub output_fails: Option<(u8, u64, i32)>,
    pub hash_seed: u64,
    pub writers_first: bool,
    pub clients: Vec<Client>,
    pub epochs: Vec<Epoch>,
    pub sends: Vec<Send>,
    pub lost: u32,
    pub partitioned: u32,
}

#[derive(Debug, Clone, Default)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    pub deviations: Vec<(u32, u16)>,
    pub hash: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub sim_time: u64,
    pub steps: u64,
    pub switches: u64,
    pub max_peak: i64,
    pub trace: Vec<String>,
    pub leaked: bool,
}

impl Outcome {
    pub fn probe(&mut self, name: &str, n: u64) {
        if n > 0 {
            *self.probes.entry(name.into()).or_insert(0) += n;
        }
    }
    pub fn fault(&mut self, name: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(name.into()).or_insert(0) += n;
        }
    }
    pub fn fail(&mut self, class: &str, detail: String) {
        if self.violations.len() < 50 {
            self.violations.push(Violation { class: class.into(), detail });
        }
    }
}

/// secret of one direction of a space of a connection, agreed out of band
pub fn secret(dcid: &[u8], space: Space, from_client: bool) -> Vec<u8> {
    let h = hash_bytes(u64::from(from_client) * 8 + space as u64, dcid);
    Rng::new(h).bytes(32)
}

pub fn keys(dcid: &[u8], space: Space, from_client: bool) -> Keys {
    match space {
        Space::Initial => {
            let (c, s) = Keys::initial(dcid);
            if from_client {
                c
            } else {
                s
            }
        }
        _ => Keys::from_secret(&secret(dcid, space, from_client)),
    }
}

#[derive(Debug, Clone)]
struct SentPkt {
    plain: Plain,
    frames: Option<Vec<Frame>>,
    versions: Vec<u32>,
    exact: bool,
    keys_dcid: Vec<u8>,
    wire: Vec<u8>,
}

#[derive(Debug, Clone)]
struct Sent {
    packets: Vec<SentPkt>,
    genuine_initial: bool,
    /// nothing but these packets
    whole: bool,
    data: Arc<Vec<u8>>,
}

struct Inst {
    epoch: usize,
    id20: [u8; 20],
    id8: [u8; 8],
    orig: Vec<u8>,
    scid: Vec<u8>,
    opener: Option<RecvRec>,
    open_start: u64,
    open_done: u64,
    close_start: u64,
    close_end: u64,
    installed: u64,
    stream: Option<QuicStream>,
    taken: Vec<(Vec<u8>, SocketAddr)>,
    // taken completely, from the beginning
    drained: bool,
    // calls through its stream that have not returned
    users: u32,
    taking: bool,
    acked: HashMap<Space, u64>,
}

struct BuildRec {
    inst: usize,
    space: Space,
    call: u64,
    ret: u64,
    pn: Option<u64>,
}

struct Listing {
    epoch: usize,
    before: u64,
    after: u64,
    ids: Vec<[u8; 20]>,
}

struct DecodeRec {
    epoch: usize,
    thread: usize,
    from: usize,
    data: Vec<u8>,
    call: u64,
    ret: u64,
    result: Decoded<Vec<PacketView>>,
}

/// a call that turns the logging of traffic on or off
struct Toggle {
    epoch: usize,
    call: u64,
    ret: u64,
    on: bool,
}

struct AcceptRec {
    thread: usize,
    last: Option<RecvRec>,
    result: Result<usize, Option<i32>>,
}

#[derive(Default)]
struct World {
    epoch: usize,
    giveup: bool,
    learned: HashMap<Vec<u8>, [u8; 8]>,
    sent: Vec<Option<Sent>>,
    carry: Vec<(usize, CopyPlan)>,
    insts: Vec<Inst>,
    accepts: Vec<AcceptRec>,
    builds: Vec<BuildRec>,
    decodes: Vec<DecodeRec>,
    listings: Vec<Listing>,
    toggles: Vec<Toggle>,
    taken: Vec<(usize, Vec<u8>, SocketAddr)>,
    next_decode: usize,
    probes: BTreeMap<&'static str, u64>,
}

#[derive(Clone)]
struct Ctx {
    sim: Arc<Sim>,
    plan: Arc<Plan>,
    w: Arc<Mutex<World>>,
}

const LEARN: u64 = 1;
const OPEN_KEY: usize = 0;
const USE_KEY: usize = 1;

fn client_addr(port: u16) -> SocketAddr {
    use std::net::{Ipv6Addr, SocketAddrV6};
    let link_local = Ipv6Addr::new(0xfe80, 0, 0, 0, 0, 0, 0, 1);
    match port % 5 {
        // one host, told apart by port
        0 => SocketAddr::from(([10, 0, 0, 1], port)),
        // one port, told apart by address
        1 => SocketAddr::from(([10, 0, (port >> 8) as u8, port as u8], 4433)),
        // one address and port, told apart by interface
        2 => SocketAddrV6::new(link_local, 4433, 0, u32::from(port)).into(),
        3 => SocketAddrV6::new(Ipv6Addr::new(0x2001, 0xdb8, port, 0, 0, 0, 0, port), port, 0, 0).into(),
        // the ipv4 address of the first kind, mapped
        _ => SocketAddrV6::new(Ipv6Addr::new(0, 0, 0, 0, 0, 0xffff, 0x0a00, port), 4433, 0, 0).into(),
    }
}

fn pad_payload(mut v: Vec<u8>, pn_len: u8) -> Vec<u8> {
    while v.len() + usize::from(pn_len) < 4 {
        v.push(0);
    }
    v
}

/// largest udp payload
const MAX_DATAGRAM: usize = 65527;

fn materialize(plan: &Plan, send: &Send, learned: &HashMap<Vec<u8>, [u8; 8]>) -> Sent {
    let sent = materialize_trimmed(plan, send, learned, 0);
    let sent = match sent.data.len().saturating_sub(MAX_DATAGRAM) {
        0 => sent,
        excess => materialize_trimmed(plan, send, learned, excess + 16),
    };
    if sent.data.len() <= MAX_DATAGRAM {
        return sent;
    }
    // what does not fit is cut off
    let mut data = (*sent.data).clone();
    data.truncate(MAX_DATAGRAM);
    let mut left = MAX_DATAGRAM;
    let packets = sent
        .packets
        .into_iter()
        .take_while(|p| {
            let fits = p.wire.len() <= left;
            left = left.saturating_sub(p.wire.len());
            fits
        })
        .collect();
    Sent { packets, genuine_initial: false, whole: false, data: Arc::new(data) }
}

fn materialize_trimmed(plan: &Plan, send: &Send, learned: &HashMap<Vec<u8>, [u8; 8]>, mut trim: usize) -> Sent {
    if let Some(raw) = &send.raw {
        return Sent { packets: vec![], genuine_initial: false, whole: false, data: Arc::new(raw.clone()) };
    }
    let client = &plan.clients[send.client];
    let issued = learned.get(&client.dcid).copied();
    let mut data = Vec::new();
    let mut packets = Vec::new();
    for p in &send.packets {
        let mut dcid = match (&p.dst, issued) {
            (IdRef::Fixed(x), _) => x.clone(),
            (IdRef::Orig, _) | (_, None) => client.dcid.clone(),
            (IdRef::Issued, Some(x)) => x.to_vec(),
            (IdRef::Padded(n), Some(x)) => {
                let mut v = vec![0; usize::from(*n).clamp(1, 12)];
                v.extend(x);
                v
            }
            (IdRef::Stripped, Some(x)) => {
                let k = x.iter().position(|b| *b != 0).unwrap_or(7).max(1);
                x[k..].to_vec()
            }
            (IdRef::Near(bit), Some(x)) => {
                let mut v = x.to_vec();
                v[usize::from(bit / 8) % 8] ^= 1 << (bit % 8);
                v
            }
        };
        if p.kind == Kind::OneRtt {
            dcid.resize(8, 0);
        }
        let mut style = p.style;
        style.pn_len = style.pn_len.clamp(1, 4);
        let (mut payload, exact) = match &p.payload {
            Payload::Frames(f, s) => (write_frames(f, *s), true),
            Payload::Bytes(b) => (b.clone(), false),
        };
        let cut = trim.min(p.pad as usize);
        trim -= cut;
        payload.extend(std::iter::repeat(0).take(p.pad as usize - cut));
        let payload = if p.kind.space().is_some() { pad_payload(payload, style.pn_len) } else { payload };
        let plain = Plain {
            kind: p.kind,
            version: if p.kind == Kind::Vn { 0 } else { p.version },
            dcid,
            scid: p.scid.clone(),
            token: p.token.clone(),
            pn: truncate(p.pn, usize::from(style.pn_len)),
            payload,
        };
        let keys_dcid = plan.clients[p.keys_of].dcid.clone();
        let k = p.kind.space().map(|s| keys(&keys_dcid, s, true));
        let (wire, _) = protect(&plain, k.as_ref(), style, &p.versions);
        data.extend_from_slice(&wire);
        let frames = read_frames(&plain.payload);
        packets.push(SentPkt { plain, frames, versions: p.versions.clone(), exact, keys_dcid, wire });
    }
    let genuine_initial = packets.first().map_or(false, |p| {
        p.plain.kind == Kind::Initial
            && p.plain.version == V1
            && p.exact
            && p.keys_dcid == client.dcid
            && p.plain.dcid == client.dcid
    });
    data.extend_from_slice(&send.trailing);
    Sent { packets, genuine_initial, whole: send.trailing.is_empty(), data: Arc::new(data) }
}

impl Ctx {
    fn w(&self) -> MutexGuard<'_, World> {
        self.w.lock().unwrap_or_else(|x| x.into_inner())
    }
    fn probe(&self, name: &'static str) {
        *self.w().probes.entry(name).or_insert(0) += 1;
    }
    /// sends one of the planned datagrams, with all its copies
    fn launch(&self, inner: &mut Inner, index: usize) {
        let send = &self.plan.sends[index];
        let mut w = self.w();
        let sent = materialize(&self.plan, send, &w.learned);
        for (n, c) in send.copies.iter().enumerate() {
            if c.next_epoch {
                w.carry.push((index, c.clone()));
                inner.count("stale from before a restart");
            } else {
                self.launch_copy(inner, &w, index, &sent, c, send.at);
            }
            if n > 0 {
                inner.count("duplication");
            }
        }
        w.sent[index] = Some(sent);
    }
    fn launch_copy(&self, inner: &mut Inner, w: &World, index: usize, sent: &Sent, c: &CopyPlan, base: u64) {
        let mut data = sent.data.clone();
        if let Some(m) = &c.mutation {
            let other = match m {
                Mutation::Splice { from, .. } => w.sent[*from as usize % w.sent.len()].as_ref().map(|x| x.data.clone()),
                _ => None,
            };
            let mut v = (*data).clone();
            m.apply(&mut v, other.as_ref().map(|x| &x[..]));
            v.truncate(MAX_DATAGRAM);
            if v != *data {
                inner.count(m.name());
            }
            data = Arc::new(v);
        }
        let intact = data == sent.data;
        let port = c.port.unwrap_or(self.plan.clients[self.plan.sends[index].client].port);
        if c.port.is_some() {
            inner.count("address change");
        }
        if c.delay > 200 {
            inner.count("long delay");
        }
        inner.send_copy(base + c.delay, CopyRec { data, addr: client_addr(port), origin: index, intact });
    }
    fn open_inst(&self, client: usize) -> Option<usize> {
        let w = self.w();
        let dcid = &self.plan.clients[client].dcid;
        w.insts.iter().rposition(|x| x.epoch == w.epoch && x.orig == *dcid && x.close_start == u64::MAX)
    }
    /// Somebody who owns or borrows the stream uses it: it cannot be dropped meanwhile.
    fn begin_use(&self, i: usize) -> bool {
        let mut w = self.w();
        let ok = w.insts[i].stream.is_some();
        if ok {
            w.insts[i].users += 1;
        }
        ok
    }
    fn end_use(&self, i: usize) {
        self.w().insts[i].users -= 1;
        self.sim.wake(world_key(USE_KEY));
    }
    /// Takes ownership of the stream.
    fn own(&self, i: usize) -> Option<QuicStream> {
        let stream = self.w().insts[i].stream.take()?;
        while self.w().insts[i].users > 0 {
            self.sim.block_on(world_key(USE_KEY), "wait for other users of a stream");
        }
        Some(stream)
    }
    fn close(&self, i: usize) {
        if let Some(stream) = self.own(i) {
            self.close_owned(i, stream);
        }
    }
    fn close_owned(&self, i: usize, stream: QuicStream) {
        let t = self.sim.tick();
        self.w().insts[i].close_start = t;
        self.sim.trace(|| format!("closes connection {i}"));
        if self.plan.unwind != 0 && i % self.plan.unwind == 0 {
            self.sim.count("stream dropped by a panicking thread");
            crate::sched::while_unwinding(|| alloc::product(|| drop(stream)));
        } else {
            alloc::product(|| drop(stream));
        }
        let t = self.sim.tick();
        self.w().insts[i].close_end = t;
        self.probe("connections closed");
    }
    /// Takes datagrams from the queue of a connection.
    fn take(&self, probe: &Probe, i: usize, max: u32) {
        if !self.begin_use(i) {
            return;
        }
        let first = !std::mem::replace(&mut self.w().insts[i].taking, true);
        if first {
            self.take_owned(probe, i, max);
            self.w().insts[i].taking = false;
        }
        self.end_use(i);
    }
    fn take_owned(&self, probe: &Probe, i: usize, max: u32) {
        let id = self.w().insts[i].id20;
        let mut n = 0;
        while n < max {
            match alloc::product(|| probe.take_datagram(id)) {
                Some((original, addr)) => {
                    // a copy: what the library allocated is accounted as its own
                    let data = original.clone();
                    alloc::product(|| drop(original));
                    let mut w = self.w();
                    w.insts[i].taken.push((data.clone(), addr));
                    w.taken.push((i, data, addr));
                    n += 1;
                }
                None => break,
            }
        }
        if n > 0 {
            self.probe("datagrams taken from queues");
        }
    }
    fn build(&self, probe: &Probe, i: usize, space: Space, frames: &[Frame], fail: bool) {
        if self.begin_use(i) {
            self.build_borrowed(probe, i, space, frames, fail);
            self.end_use(i);
        }
    }
    fn build_borrowed(&self, probe: &Probe, i: usize, space: Space, frames: &[Frame], fail: bool) {
        let (id, orig, installed) = {
            let w = self.w();
            (w.insts[i].id20, w.insts[i].orig.clone(), w.insts[i].installed != u64::MAX)
        };
        if space != Space::Initial && !installed {
            return;
        }
        let space = if space == Space::App { Space::Handshake } else { space };
        let mut specs: Vec<FrameSpec> = frames.iter().map(|f| spec(f, Style::default(), false)).collect();
        if fail {
            specs.push(FrameSpec::MaxData(1 << 62));
            self.sim.count("failing build");
        }
        let call = self.sim.tick();
        let r = alloc::product(|| probe.build(id, space_of(space), &specs));
        let ret = self.sim.tick();
        let mut rec = BuildRec { inst: i, space, call, ret, pn: None };
        match r {
            None => {
                self.sim.fail("lost-connection", format!("connection {i} is open but cannot be used to send"));
                return;
            }
            Some(Err(e)) => {
                if !fail {
                    self.sim.fail("build-failed", format!("{space:?} packet with {} frames: {e}", frames.len()));
                }
            }
            Some(Ok(_)) if fail => {}
            Some(Ok(wire)) => {
                let largest = self.w().builds.iter().filter(|x| x.inst == i && x.space == space).filter_map(|x| x.pn).max();
                let k = keys(&orig, space, false);
                match unprotect(&wire, &|_| Some(k.clone()), &|_| largest) {
                    None => self.sim.fail(
                        "wire-unreadable",
                        format!("{space:?} packet sent by the server is not readable by its client: {} bytes", wire.len()),
                    ),
                    Some((plain, _, _)) => {
                        rec.pn = Some(plain.pn);
                        if plain.scid != self.w().insts[i].id8 {
                            self.sim.fail("issued-id", format!("packet carries source id {:02x?}", plain.scid));
                        }
                        match read_frames(&plain.payload) {
                            Some(f) if strip_padding(&f) == strip_padding(frames) => {}
                            _ => self.sim.fail("wire", format!("{space:?} packet sent by the server reads differently")),
                        }
                        self.probe("packets built");
                    }
                }
            }
        }
        self.w().builds.push(rec);
    }
    fn decode(&self, probe: &Probe, from: usize, data: &[u8], addr: SocketAddr) {
        let call = self.sim.tick();
        alloc::harness(alloc::reset_peak);
        let r: Decoded<Vec<PacketView>> = alloc::product(|| probe.decode(data, addr));
        let peak = alloc::peak();
        let ret = self.sim.tick();
        if peak > alloc::limit(data.len()) {
            self.sim.fail("memory", format!("decoding a datagram of {} bytes allocated {peak} bytes", data.len()));
        }
        self.probe("datagrams decoded");
        let mut w = self.w();
        let epoch = w.epoch;
        // a copy: what the library allocated is accounted as its own
        let thread = self.sim.thread_id();
        w.decodes.push(DecodeRec { epoch, thread, from, data: data.to_vec(), call, ret, result: r.clone() });
    }
    fn acceptor(&self, socket: Arc<QuicSocket>, probe: Probe, a: Acceptor) {
        let mut left = a.limit.unwrap_or(u32::MAX);
        while left > 0 {
            let r = alloc::product(|| socket.accept::<()>());
            let last = self.sim.last_receive();
            self.sim.end_of_receive();
            let now = self.sim.tick();
            let thread = self.sim.thread_id();
            match r {
                Err(e) => {
                    let errno = e.raw_os_error();
                    self.sim.trace(|| format!("accept fails: {e}"));
                    self.w().accepts.push(AcceptRec { thread, last, result: Err(errno) });
                    if errno == Some(SHUTDOWN_ERRNO) {
                        return;
                    }
                    drop(e);
                }
                Ok(stream) => {
                    left -= 1;
                    self.sim.lock().accepted += 1;
                    let id20 = stream_id(&stream);
                    let mut id8 = [0; 8];
                    id8.copy_from_slice(&id20[12..]);
                    let ids = alloc::product(|| probe.connection_ids(id20));
                    // the id the client chose is that of the datagram this accept received
                    let asked = match &last {
                        Some(RecvRec { got: Ok(c), .. }) => {
                            let data = self.sim.lock().copies[*c].data.clone();
                            read_header(&data).filter(|h| h.kind == Kind::Initial).map(|h| h.dcid)
                        }
                        _ => None,
                    };
                    let i = {
                        let mut w = self.w();
                        let (scid, used) = ids.clone().unwrap_or_default();
                        let orig = asked.clone().unwrap_or_else(|| used.clone());
                        if ids.is_some() && used != orig {
                            self.sim.fail("open-cause", format!("a connection uses id {used:02x?}, its client chose {orig:02x?}"));
                        }
                        let inst = Inst {
                            epoch: w.epoch,
                            id20,
                            id8,
                            orig,
                            scid,
                            open_start: last.as_ref().map_or(now, |x| x.seq),
                            opener: last.clone(),
                            open_done: now,
                            close_start: u64::MAX,
                            close_end: u64::MAX,
                            installed: u64::MAX,
                            stream: Some(stream),
                            taken: vec![],
                            drained: false,
                            users: 0,
                            taking: false,
                            acked: HashMap::new(),
                        };
                        w.insts.push(inst);
                        let i = w.insts.len() - 1;
                        w.accepts.push(AcceptRec { thread, last, result: Ok(i) });
                        i
                    };
                    if ids.is_none() {
                        self.sim.fail("lost-connection", format!("connection {i} is not open after its accept returned"));
                    }
                    self.sim.trace(|| format!("accepts connection {i} id {id8:02x?}"));
                    let (orig, scid) = {
                        let w = self.w();
                        (w.insts[i].orig.clone(), w.insts[i].scid.clone())
                    };
                    if ids.is_some() && (scid.len() != 8 || scid[..] != id8 || id20[..12] != [0; 12]) {
                        self.sim.fail("issued-id", format!("connection {i} issued {scid:02x?}, known as {id20:02x?}"));
                    }
                    if a.install && self.begin_use(i) {
                        for s in [Space::Handshake, Space::App] {
                            let (l, r) = (secret(&orig, s, false), secret(&orig, s, true));
                            alloc::product(|| probe.install_secrets(id20, space_of(s), &l, &r));
                        }
                        let t = self.sim.tick();
                        self.w().insts[i].installed = t;
                        self.end_use(i);
                    }
                    if a.respond {
                        self.build(&probe, i, Space::Initial, &[Frame::Crypto(0, vec![i as u8; 20])], false);
                    }
                    let mut v = vec![orig.len() as u8];
                    v.extend(&orig);
                    v.extend(id8);
                    self.sim.schedule(a.learn_delay, Ev::Custom(LEARN, v));
                    self.sim.wake(world_key(OPEN_KEY));
                }
            }
        }
    }
    fn app(&self, socket: Arc<QuicSocket>, probe: Probe, key: usize, ops: Vec<AppOp>) {
        for op in ops {
            match op {
                AppOp::Sleep(t) => {
                    let until = self.sim.now() + t;
                    self.sim.schedule(t, Ev::Wake { key: world_key(key) });
                    while self.sim.now() < until {
                        self.sim.block_on(world_key(key), "sleep");
                    }
                }
                AppOp::WaitOpen(c) => loop {
                    if self.open_inst(c).is_some() || self.w().giveup {
                        break;
                    }
                    self.sim.block_on(world_key(OPEN_KEY), "wait for a connection");
                },
                AppOp::Close(c) => {
                    if let Some(i) = self.open_inst(c) {
                        self.close(i);
                    }
                }
                AppOp::TakeClose(c) => {
                    if let Some(i) = self.open_inst(c) {
                        if let Some(stream) = self.own(i) {
                            self.take_owned(&probe, i, 1000);
                            self.close_owned(i, stream);
                        }
                    }
                }
                AppOp::Take(c, n) => {
                    if let Some(i) = self.open_inst(c) {
                        self.take(&probe, i, n);
                    }
                }
                AppOp::DecodeTaken(n) => {
                    for _ in 0..n {
                        let next = {
                            let mut w = self.w();
                            if w.taken.is_empty() {
                                None
                            } else {
                                let k = w.next_decode % w.taken.len();
                                w.next_decode += 1;
                                Some(w.taken[k].clone())
                            }
                        };
                        match next {
                            Some((i, data, addr)) => {
                                let same = {
                                    let w = self.w();
                                    w.insts[i].epoch == w.epoch
                                };
                                if same {
                                    self.decode(&probe, i, &data, addr)
                                }
                            }
                            None => break,
                        }
                    }
                }
                AppOp::Build { client, space, frames, fail } => {
                    if let Some(i) = self.open_inst(client) {
                        self.build(&probe, i, space, &frames, fail);
                    }
                }
                AppOp::Ack { client, space } => {
                    if let Some(i) = self.open_inst(client) {
                        let pn = {
                            let w = self.w();
                            w.builds.iter().filter(|x| x.inst == i && x.space == space).filter_map(|x| x.pn).max()
                        };
                        if let Some(pn) = pn.filter(|_| self.begin_use(i)) {
                            let id = {
                                let mut w = self.w();
                                w.insts[i].acked.insert(space, pn);
                                w.insts[i].id20
                            };
                            alloc::product(|| probe.note_acked(id, space_of(space), pn));
                            self.end_use(i);
                        }
                    }
                }
                AppOp::Log(on) => self.log_traffic(&socket, on),
                AppOp::ListIds => {
                    let before = self.sim.tick();
                    let ids = alloc::product(|| probe.open_ids());
                    let after = self.sim.tick();
                    let mut w = self.w();
                    let epoch = w.epoch;
                    w.listings.push(Listing { epoch, before, after, ids: ids.to_vec() });
                }
            }
        }
    }
    fn log_traffic(&self, socket: &QuicSocket, on: bool) {
        let call = self.sim.tick();
        self.sim.trace(|| format!("turns logging {}", if on { "on" } else { "off" }));
        alloc::product(|| socket.set_log_traffic(on));
        let ret = self.sim.tick();
        self.probe("logging turned on or off");
        let mut w = self.w();
        let epoch = w.epoch;
        w.toggles.push(Toggle { epoch, call, ret, on });
    }
    fn controller(&self) {
        for e in 0..self.plan.epochs.len() {
            self.epoch(e);
        }
    }
    /// Binds a socket, some of the addresses may not work.
    fn bind(&self, binds: &[Option<i32>]) -> Option<QuicSocket> {
        let addr = |n: usize| SocketAddr::from(([127, 0, 0, 1], 4433 + n as u16));
        if !binds.is_empty() {
            let addrs: Vec<SocketAddr> = (0..binds.len()).map(addr).collect();
            self.sim.lock().bind_plan = binds.iter().copied().collect();
            let r = alloc::product(|| QuicSocket::bind(&addrs[..]));
            let bound = {
                let mut g = self.sim.lock();
                g.bind_plan.clear();
                g.bound.pop()
            };
            match (r, binds.iter().position(|x| x.is_none())) {
                (Ok(x), Some(n)) => {
                    if bound != Some(addr(n)) {
                        self.sim.fail("bind", format!("bound to {bound:?}, not to the first address that works"));
                    }
                    return Some(x);
                }
                (Ok(_), None) => {
                    self.sim.fail("bind", "succeeds although no address works".into());
                    return None;
                }
                (Err(x), Some(_)) => {
                    self.sim.fail("bind", format!("fails although an address works: {x}"));
                    return None;
                }
                (Err(x), None) => {
                    if x.raw_os_error().map_or(true, |x| !binds.contains(&Some(x))) {
                        self.sim.fail("bind", format!("fails with {x}, which is none of the errors met"));
                    }
                }
            }
        }
        match alloc::product(|| QuicSocket::bind(addr(0))) {
            Ok(x) => Some(x),
            Err(x) => {
                self.sim.fail("bind", format!("{x}"));
                None
            }
        }
    }
    fn epoch(&self, e: usize) {
        let epoch = self.plan.epochs[e].clone();
        {
            let mut w = self.w();
            w.epoch = e;
            w.giveup = false;
            w.learned.clear();
        }
        let Some(socket) = self.bind(&epoch.binds) else { return };
        let socket = Arc::new(socket);
        let probe = Probe::new(&socket);
        let baseline = alloc::live();
        if epoch.log {
            self.log_traffic(&socket, true);
        }
        {
            let mut g = self.sim.lock();
            let carried = std::mem::take(&mut self.w().carry);
            for (i, c) in carried {
                let w = self.w();
                let sent = w.sent[i].clone().unwrap();
                self.launch_copy(&mut g, &w, i, &sent, &c, 0);
            }
            for (i, s) in self.plan.sends.iter().enumerate() {
                if s.epoch == e && !s.after_learn {
                    self.launch(&mut g, i);
                }
            }
            for (at, errno) in &epoch.errors {
                g.schedule(*at, Ev::RecvError { errno: *errno });
            }
        }
        let mut handles = Vec::new();
        let mut acceptors = BTreeSet::new();
        for (n, a) in epoch.acceptors.iter().enumerate() {
            let (ctx, socket, probe, a) = (self.clone(), socket.clone(), probe.clone(), a.clone());
            let (id, h) = self.sim.spawn(format!("acceptor {n}"), move || ctx.acceptor(socket, probe, a));
            acceptors.insert(id);
            handles.push(h);
        }
        for (n, a) in epoch.apps.iter().enumerate() {
            let (ctx, socket, probe, ops) = (self.clone(), socket.clone(), probe.clone(), a.ops.clone());
            let (_, h) = self.sim.spawn(format!("app {n}"), move || ctx.app(socket, probe, 10 + n, ops));
            handles.push(h);
        }
        self.sim.wait_idle();
        self.w().giveup = true;
        self.sim.wake(world_key(OPEN_KEY));
        self.sim.wait_idle();
        // nothing can happen any more: who waits now waits for ever
        let waiting = self.sim.waiting();
        for (id, name, what) in &waiting {
            if !acceptors.contains(id) {
                self.sim.fail("deadlock", format!("{name} waits for ever ({what}) on a silent network"));
            }
        }
        if waiting.iter().any(|(id, _, _)| acceptors.contains(id)) && self.sim.unreceived() > 0 {
            self.sim.fail("deadlock", format!("{} datagrams wait while threads are accepting", self.sim.unreceived()));
        }
        for r in self.sim.settle_receives() {
            let Ok(c) = r.got else { continue };
            let lost = {
                let g = self.sim.lock();
                let rec = &g.copies[c];
                let w = self.w();
                let genuine = rec.intact && w.sent[rec.origin].as_ref().map_or(false, |s| s.genuine_initial);
                let known = read_header(&rec.data).map_or(true, |h| {
                    w.insts.iter().any(|x| x.epoch == e && x.close_end >= r.seq && (x.orig == h.dcid || x.id8[..] == h.dcid[..]))
                });
                genuine && !known && !r.rand_failed
            };
            if lost {
                self.sim.fail("deadlock", "an accept that received an initial packet does not return on a silent network".into());
            }
        }
        let live: Vec<usize> = {
            let w = self.w();
            (0..w.insts.len()).filter(|i| w.insts[*i].epoch == e && w.insts[*i].close_start == u64::MAX).collect()
        };
        let mut want: Vec<[u8; 20]> = {
            let w = self.w();
            live.iter().map(|i| w.insts[*i].id20).collect()
        };
        want.sort();
        let ids = alloc::product(|| probe.open_ids());
        if ids != want {
            let class = if ids.iter().any(|x| !want.contains(x)) { "not-closed" } else { "lost-connection" };
            self.sim.fail(class, format!("open: {:02x?}, expected: {:02x?}", short(&ids), short(&want)));
        }
        let held = alloc::live() - baseline;
        let taken_before: usize = self.w().insts.iter().map(|x| x.taken.len()).sum();
        for i in &live {
            let (id, orig, scid) = {
                let w = self.w();
                (w.insts[*i].id20, w.insts[*i].orig.clone(), w.insts[*i].scid.clone())
            };
            if alloc::product(|| probe.connection_ids(id)) != Some((scid, orig)) {
                self.sim.fail("lost-connection", format!("connection {i} was replaced or altered"));
            }
            self.take(&probe, *i, u32::MAX);
            self.w().insts[*i].drained = true;
        }
        {
            // what was held for the connections, against what was queued for them
            let w = self.w();
            let taken: usize = w.insts.iter().map(|x| x.taken.len()).sum();
            let queued = &w.taken[w.taken.len() - (taken - taken_before)..];
            let bytes: i64 = queued.iter().map(|x| x.1.len() as i64).sum();
            let count = queued.len() as i64;
            if held > 8 * bytes + 4096 * count + (16 << 10) * live.len() as i64 + (96 << 10) {
                self.sim.fail("memory", format!("{held} bytes are held for {count} queued datagrams of {bytes} bytes in all, {} connections", live.len()));
            }
        }
        // everything that is queued decodes as sent
        let all: Vec<_> = {
            let w = self.w();
            w.taken.iter().filter(|(i, _, _)| w.insts[*i].epoch == e).cloned().collect()
        };
        let step = (all.len() / 60).max(1);
        for (i, data, addr) in all.iter().step_by(step) {
            self.decode(&probe, *i, data, *addr);
        }
        drop(all);
        let max_open = live.len().max(1) as i64;
        if !epoch.streams_last {
            for i in &live {
                self.close(*i);
            }
            let ids = alloc::product(|| probe.open_ids());
            if !ids.is_empty() {
                self.sim.fail("not-closed", format!("open after all streams are closed: {:02x?}", short(&ids)));
            }
        }
        self.sim.shut_sockets();
        self.sim.wait_idle();
        let waiting = self.sim.waiting();
        for (_, name, what) in &waiting {
            self.sim.fail("deadlock", format!("{name} does not come back from the socket ({what})"));
        }
        if !waiting.is_empty() {
            // its threads cannot be joined
            self.sim.abandon();
        }
        for h in handles {
            let _ = h.join();
        }
        let closed = {
            let mut w = self.w();
            w.taken.retain(|(i, _, _)| *i == usize::MAX);
            w.insts.iter().filter(|x| x.epoch == e && x.close_end != u64::MAX).count() as i64
        };
        if !epoch.streams_last {
            let now = alloc::live() - baseline;
            if now > (128 << 10) + 4096 * (max_open + closed) {
                self.sim.fail("retained", format!("{now} bytes are held after all {closed} streams were closed"));
            }
        }
        alloc::product(|| drop(probe));
        alloc::product(|| drop(socket));
        if epoch.streams_last {
            for i in &live {
                self.close(*i);
            }
        }
        if !self.sim.all_sockets_closed() {
            self.sim.fail("retained", "the socket stays open after it and all its streams are gone".into());
        }
    }
}

fn short(ids: &[[u8; 20]]) -> Vec<&[u8]> {
    ids.iter().map(|x| if x[..12] == [0; 12] { &x[12..] } else { &x[..] }).collect()
}

fn expect_of(p: &SentPkt, must: bool) -> Expect {
    Expect { plain: p.plain.clone(), frames: p.frames.clone(), versions: p.versions.clone(), must, loose_padding: false }
}

/// what a connection makes of a datagram; `installed`: 0 only initial keys, 1 perhaps all, 2 all
fn expects(sent: &Sent, orig: &[u8], installed: u8) -> Vec<Expect> {
    let mut v = Vec::new();
    for p in &sent.packets {
        let k = p.plain.kind;
        match k.space() {
            None => {
                if k == Kind::Vn {
                    v.push(expect_of(p, false));
                }
                break;
            }
            Some(s) => {
                let have = if s == Space::Initial { 2 } else { installed };
                if p.keys_dcid == orig && have > 0 && p.frames.is_some() {
                    let must = have == 2 && p.exact && (!k.is_long() || p.plain.version == V1);
                    v.push(expect_of(p, must));
                }
                if k == Kind::OneRtt {
                    break;
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- checks over the history

struct Addr {
    header: Option<Header>,
    odd: bool,
}

fn classify(data: &[u8]) -> Addr {
    let header = read_header(data);
    let odd = header.as_ref().map_or(true, |h| h.kind == Kind::Vn || !h.fixed_bit || (h.kind.is_long() && h.version != V1));
    Addr { header, odd }
}

#[derive(PartialEq, Clone, Copy)]
enum How {
    No,
    May,
    Must,
}

fn addresses(a: &Addr, x: &Inst) -> How {
    let Some(h) = &a.header else { return How::No };
    let strength = if a.odd { How::May } else { How::Must };
    if h.dcid == x.id8 {
        return strength;
    }
    if h.dcid == x.orig {
        return match h.kind {
            Kind::Initial | Kind::ZeroRtt => strength,
            Kind::OneRtt | Kind::Handshake | Kind::Retry | Kind::Vn => How::May,
        };
    }
    How::No
}

/// packets that were sent at any time to a connection and lie, unchanged, in a datagram
fn contained(w: &World, data: &[u8], orig: &[u8]) -> Vec<Expect> {
    let mut found = Vec::new();
    for p in w.sent.iter().flatten().flat_map(|s| &s.packets) {
        let k = p.plain.kind;
        let fits = p.keys_dcid == orig && p.frames.is_some();
        if k.space().is_none() || !fits || p.wire.len() > data.len() || p.wire.is_empty() {
            continue;
        }
        for at in 0..=data.len() - p.wire.len() {
            if data[at] == p.wire[0] && data[at..at + p.wire.len()] == p.wire[..] {
                let e = (at, expect_of(p, false));
                if !found.contains(&e) {
                    found.push(e);
                }
            }
        }
    }
    found.sort_by_key(|x| x.0);
    found.into_iter().map(|x| x.1).collect()
}

/// whether traffic is logged all the time between two moments, if that is certain
fn logging(w: &World, epoch: usize, from: u64, to: u64) -> Option<bool> {
    let calls = || w.toggles.iter().filter(|t| t.epoch == epoch && t.call <= to);
    let over = |t: &Toggle| t.ret < from && calls().any(|u| u.call > t.ret && u.ret < from);
    let mut state = None;
    let mut settled = false;
    for t in calls().filter(|t| !over(t)) {
        if state == Some(!t.on) {
            return None;
        }
        state = Some(t.on);
        settled |= t.ret < from;
    }
    match state {
        // as it was before the first call
        Some(true) if !settled => None,
        x => Some(x.unwrap_or(false)),
    }
}

/// What arrives and what is decoded is reported while logging is on, and only then.
fn check_log(w: &World, g: &Inner, out: &mut Outcome) {
    let mut written: HashMap<usize, Vec<(u64, u64)>> = HashMap::new();
    for (thread, t, text) in &g.written {
        written.entry(*thread).or_default().push((*t, *text));
    }
    // how many, and a hash of all their text
    let reports = |thread: usize, from: u64, to: u64| {
        let v = written.get(&thread).map_or(&[][..], |x| &x[..]);
        let v = &v[v.partition_point(|x| x.0 < from)..v.partition_point(|x| x.0 <= to)];
        (v.len(), v.iter().fold(0u64, |h, x| h.rotate_left(5).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ x.1))
    };
    let mut headers: HashMap<u64, (Kind, &[u8])> = HashMap::new();
    let mut decoded: HashMap<u64, &[PacketView]> = HashMap::new();
    let sane = |p: &SentPkt| p.plain.kind.space().is_some() && p.plain.dcid.len() <= 20 && p.plain.scid.len() <= 20;
    for r in &g.recvs {
        let Ok(c) = r.got else { continue };
        let copy = &g.copies[c];
        let (n, text) = reports(r.thread, r.seq, r.end);
        let state = logging(w, r.sock as usize, r.seq, r.end);
        // what cannot be read may be reported at any time
        let first = w.sent[copy.origin].as_ref().and_then(|s| s.packets.first()).filter(|p| copy.intact && sane(p));
        let readable = first.is_some();
        match state {
            Some(true) if n == 0 => {
                out.fail("log", format!("a datagram of {} bytes received while traffic is logged is not reported", copy.data.len()));
            }
            Some(false) if n > 0 && readable => {
                out.fail("log", format!("a datagram of {} bytes received while traffic is not logged is reported", copy.data.len()));
            }
            Some(true) => {
                out.probe("datagrams received with logging on", 1);
                if let Some(p) = first {
                    let this = (p.plain.kind, &p.plain.dcid[..]);
                    let other = *headers.entry(text).or_insert(this);
                    if other != this {
                        out.fail("log", format!("datagrams with different headers are reported alike: {other:02x?} and {this:02x?}"));
                    }
                }
            }
            Some(false) if readable => out.probe("datagrams received with logging off", 1),
            _ => {}
        }
    }
    for d in &w.decodes {
        let Ok(got) = &d.result else { continue };
        let (n, text) = reports(d.thread, d.call, d.ret);
        match logging(w, d.epoch, d.call, d.ret) {
            Some(true) if n == 0 && !got.is_empty() => {
                out.fail("log", format!("{} packets decoded while traffic is logged are not reported", got.len()));
            }
            Some(true) => {
                out.probe("datagrams decoded with logging on", 1);
                if !got.is_empty() && **decoded.entry(text).or_insert(got) != got[..] {
                    out.fail("log", "datagrams with different packets are reported alike when decoded".into());
                }
            }
            Some(false) if n > 0 => {
                // only if nothing in it can be unreadable
                let clean = g.copies.iter().filter(|c| c.intact && *c.data == d.data).any(|c| {
                    w.sent[c.origin].as_ref().map_or(false, |s| {
                        s.whole && s.packets.len() == got.len() && s.packets.iter().all(|p| sane(p) && p.exact)
                    })
                });
                if clean {
                    out.fail("log", format!("{} packets decoded while traffic is not logged are reported", got.len()));
                }
            }
            _ => {}
        }
    }
}

/// Decoding a queued datagram gives what was sent to the connection it addresses.
fn check_decode(w: &World, g: &Inner, d: &DecodeRec, out: &mut Outcome) {
    let DecodeRec { epoch, from, data, call, ret, result: r, .. } = d;
    let (call, ret) = (*call, *ret);
    // what it was sent as
    let origin = g.copies.iter().filter(|c| *c.data == *data).max_by_key(|c| c.intact).map(|c| (c.origin, c.intact));
    let Some((origin, intact)) = origin else {
        out.fail("delivery", format!("connection {from} got a datagram of {} bytes nobody sent", data.len()));
        return;
    };
    let sent = w.sent[origin].as_ref().unwrap();
    let Some(h) = read_header(data) else { return };
    let near = |x: &&Inst| x.epoch == *epoch && x.open_start <= ret && x.close_end >= call;
    let sure = |x: &Inst| x.open_done < call && x.close_start > ret;
    let issued: Vec<&Inst> = w.insts.iter().filter(near).filter(|x| h.dcid == x.id8).collect();
    let by_orig: Vec<&Inst> = w
        .insts
        .iter()
        .filter(near)
        .filter(|x| matches!(h.kind, Kind::Initial | Kind::ZeroRtt) && h.dcid == x.orig)
        .collect();
    let exact = match (&issued[..], &by_orig[..]) {
        ([x], _) if sure(x) => Some(*x),
        ([], [x]) if sure(x) => Some(*x),
        _ => None,
    };
    // anybody can make up a version negotiation packet
    let whole = intact && sent.whole;
    let got: Vec<PacketView> = r.iter().flatten().filter(|x| whole || kind_of(x.kind) != Kind::Vn).cloned().collect();
    let got = &got[..];
    let odd = h.kind == Kind::Vn || !h.fixed_bit || (h.kind.is_long() && h.version != V1);
    let allowed = |x: &Inst, sure: bool| {
        if !intact {
            return contained(w, data, &x.orig);
        }
        let mut e = expects(sent, &x.orig, if sure && x.installed < call { 2 } else { 1 });
        if !whole {
            e.retain(|x| x.plain.kind != Kind::Vn);
        }
        if !sure || odd {
            e.iter_mut().for_each(|x| x.must = false);
        }
        e
    };
    let verdict = match exact {
        Some(x) => compare(got, &allowed(x, true)),
        None => {
            let mut best = if got.is_empty() { Verdict::Fine } else { Verdict::Wrong("no open connection is addressed, yet packets came out".into()) };
            for x in issued.iter().chain(by_orig.iter()) {
                best = compare(got, &allowed(x, false));
                if let Verdict::Fine = best {
                    break;
                }
            }
            best
        }
    };
    let note = match &r {
        Err(x) => format!(" [{x}]"),
        Ok(_) => String::new(),
    };
    match verdict {
        Verdict::Fine => {}
        Verdict::Missing(x) => out.fail("decode-missing", format!("queued datagram: {x}{note}")),
        Verdict::Wrong(x) => out.fail(if intact { "decode-wrong" } else { "forged" }, format!("queued datagram: {x}{note}")),
    }
}

fn check_history(plan: &Plan, w: &World, g: &Inner, out: &mut Outcome, complete: bool) {
    let class: Vec<Addr> = g.copies.iter().map(|c| classify(&c.data)).collect();
    // accepts and the receives they rest on
    for a in &w.accepts {
        match &a.result {
            Err(e) => {
                let cause = a.last.as_ref().and_then(|x| x.got.err());
                // what a failing random source looks like is left open
                let random = a.last.as_ref().map_or(false, |x| x.rand_failed);
                if (*e != cause || e.is_none()) && !random {
                    out.fail("error-report", format!("accept failed with {e:?} after a receive that gave {:?}", a.last.as_ref().map(|x| x.got)));
                }
            }
            Ok(i) => match a.last.as_ref().map(|x| x.got) {
                Some(Ok(c)) => {
                    let inst = &w.insts[*i];
                    let ok = class[c].header.as_ref().map_or(false, |h| h.kind == Kind::Initial && h.dcid == inst.orig);
                    if !ok {
                        out.fail("open-cause", format!("connection {i} was opened by {:?}", class[c].header.as_ref().map(|h| h.kind)));
                    }
                }
                x => out.fail("open-cause", format!("connection {i} was opened after a receive that gave {x:?}")),
            },
        }
    }
    // receive errors come back from the accept that met them
    for r in &g.recvs {
        if let Err(e) = r.got {
            let reported = w.accepts.iter().any(|a| a.result.is_err() && a.last.as_ref().map_or(false, |x| x.seq == r.seq));
            if !reported && r.end != u64::MAX {
                out.fail("error-report", format!("the receive error {e} was not returned by the accept that met it"));
            }
        }
    }
    // ids
    for (i, x) in w.insts.iter().enumerate() {
        for (j, y) in w.insts.iter().enumerate().skip(i + 1) {
            let together = x.epoch == y.epoch && x.open_done < y.close_start && y.open_done < x.close_start;
            if together && x.id20 == y.id20 {
                out.fail("issued-id", format!("connections {i} and {j} share an id"));
            }
            for (a, b) in [(x, y), (y, x)] {
                if x.epoch == y.epoch && a.orig[..] == b.id8 && a.open_done < b.open_start && a.close_start > b.open_done {
                    out.fail("issued-id", format!("an id was issued that the client of an open connection had chosen: {:02x?}", b.id8));
                }
            }
            if together && x.orig == y.orig {
                out.fail("double-open", format!("connections {i} and {j} are the same attempt {:02x?}", x.orig));
            }
        }
    }
    // initials open connections
    let openers: HashSet<u64> = w.insts.iter().filter_map(|y| y.opener.as_ref().map(|o| o.seq)).collect();
    for r in &g.recvs {
        let Ok(c) = r.got else { continue };
        if r.end == u64::MAX {
            continue;
        }
        let rec = &g.copies[c];
        let genuine = rec.intact && w.sent[rec.origin].as_ref().map_or(false, |s| s.genuine_initial);
        if openers.contains(&r.seq) || !genuine {
            continue;
        }
        let epoch_of = |x: &Inst| x.opener.as_ref().map_or(true, |o| o.sock == r.sock);
        let dcid = &class[c].header.as_ref().unwrap().dcid;
        let known = w
            .insts
            .iter()
            .any(|x| epoch_of(x) && x.open_start <= r.end && x.close_end >= r.seq && (x.orig == *dcid || x.id8[..] == dcid[..]));
        if r.rand_failed {
            let reported = w.accepts.iter().any(|a| a.result.is_err() && a.last.as_ref().map_or(false, |x| x.seq == r.seq));
            if !known && !reported {
                out.fail("error-report", "an accept could not open a connection for want of random bytes and did not return".into());
            }
        } else if !known {
            out.fail("initial-lost", format!("an initial packet for {dcid:02x?} opened no connection"));
        }
    }
    // delivery
    let mut groups: HashMap<(&[u8], SocketAddr), Vec<(usize, &RecvRec)>> = HashMap::new();
    for r in &g.recvs {
        if let Ok(c) = r.got {
            groups.entry((&g.copies[c].data, g.copies[c].addr)).or_default().push((c, r));
        }
    }
    let mut seen: HashMap<(usize, (&[u8], SocketAddr)), u64> = HashMap::new();
    for (i, x) in w.insts.iter().enumerate() {
        for (data, addr) in &x.taken {
            *seen.entry((i, (data, *addr))).or_insert(0) += 1;
            if !groups.contains_key(&(&data[..], *addr)) {
                let near = groups.keys().find(|k| k.0 == &data[..]);
                out.fail(
                    "delivery",
                    match near {
                        Some(k) => format!("connection {i} has a datagram from {addr} that came from {}", k.1),
                        None => format!("connection {i} has a datagram of {} bytes that was never received", data.len()),
                    },
                );
            }
        }
    }
    let mut keys: Vec<_> = groups.keys().copied().collect();
    keys.sort();
    for key in keys {
        let recvs = &groups[&key];
        let mut total = 0;
        for (i, x) in w.insts.iter().enumerate() {
            let d = seen.get(&(i, key)).copied().unwrap_or(0);
            total += d;
            let (mut most, mut least) = (0u64, 0u64);
            for (c, r) in recvs {
                if x.opener.as_ref().map_or(false, |o| o.sock != r.sock) {
                    continue;
                }
                let own = x.opener.as_ref().map_or(false, |o| o.seq == r.seq);
                if own {
                    most += 1;
                    least += 1;
                    continue;
                }
                let how = addresses(&class[*c], x);
                if how == How::No || openers.contains(&r.seq) {
                    continue;
                }
                if r.seq <= x.close_end && r.end >= x.open_start {
                    most += 1;
                    let sure = r.seq > x.open_done && r.end < x.close_start;
                    // an id of another connection takes precedence over one a client chose
                    let h = class[*c].header.as_ref().unwrap();
                    let rival = h.dcid != x.id8
                        && w.insts.iter().any(|y| y.id8[..] == h.dcid[..] && r.seq <= y.close_end && r.end >= y.open_start);
                    // a copy that arrives while the connection is being opened joins it too:
                    // there was none to join only if it opened one itself
                    let genuine = g.copies[*c].intact && w.sent[g.copies[*c].origin].as_ref().map_or(false, |s| s.genuine_initial);
                    let joins = genuine
                        && h.kind == Kind::Initial
                        && h.dcid == x.orig
                        && r.end < x.close_start
                        && !w.insts.iter().enumerate().any(|(j, y)| {
                            j != i && (y.orig == h.dcid || y.id8[..] == h.dcid[..]) && r.seq <= y.close_end && r.end >= y.open_start
                        });
                    if how == How::Must && (sure || joins) && !rival && !r.rand_failed {
                        least += 1;
                    }
                }
            }
            if d > most {
                let class = if most == 0 { "delivery" } else { "duplicate-delivery" };
                out.fail(class, format!("connection {i} has {d} of a datagram of {} bytes, at most {most} are for it", key.0.len()));
            }
            if x.drained && d < least {
                let first = x.opener.as_ref().map_or(false, |o| o.got.map_or(false, |c| &g.copies[c].data[..] == key.0));
                out.fail(
                    if first { "opener-lost" } else { "undelivered" },
                    format!("connection {i} has {d} of a datagram of {} bytes, at least {least} were for it", key.0.len()),
                );
            }
        }
        if total > recvs.len() as u64 {
            out.fail("duplicate-delivery", format!("{} datagrams of {} bytes were received, {total} delivered", recvs.len(), key.0.len()));
        }
    }
    for (i, x) in w.insts.iter().enumerate() {
        // begins with what opened it
        if let (Some((data, _)), Some(Ok(c))) = (x.taken.first(), x.opener.as_ref().map(|o| o.got)) {
            if **data != **g.copies[c].data {
                out.fail("opener-lost", format!("the queue of connection {i} does not begin with the datagram that opened it"));
            }
        }
        // arrival order
        if plan.epochs[x.epoch].acceptors.len() == 1 && x.drained {
            let sock = x.opener.as_ref().map(|o| o.sock);
            let mut it = g.recvs.iter().filter(|r| Some(r.sock) == sock).filter_map(|r| r.got.ok());
            for (data, addr) in &x.taken {
                if !it.any(|c| *g.copies[c].data == *data && g.copies[c].addr == *addr) {
                    out.fail("order", format!("the queue of connection {i} is not in arrival order"));
                    break;
                }
            }
        }
    }
    for l in w.listings.iter().filter(|_| complete) {
        for (i, x) in w.insts.iter().enumerate().filter(|(_, x)| x.epoch == l.epoch) {
            if x.open_done < l.before && x.close_start > l.after && !l.ids.contains(&x.id20) {
                out.fail("lost-connection", format!("connection {i} is open but not listed"));
            }
        }
        for id in &l.ids {
            let known = w.insts.iter().any(|x| x.epoch == l.epoch && x.id20 == *id && x.open_start <= l.after && x.close_end >= l.before);
            if !known {
                out.fail("not-closed", format!("id {:02x?} is listed but no connection is open under it", short(&[*id])));
            }
        }
    }
    for d in &w.decodes {
        check_decode(w, g, d, out);
    }
    if complete {
        check_log(w, g, out);
    }
    // packet numbers
    for (n, a) in w.builds.iter().enumerate() {
        let Some(pa) = a.pn else { continue };
        let before = w.builds.iter().filter(|b| b.inst == a.inst && b.space == a.space && b.call <= a.ret).count() as u64;
        if pa > before {
            out.fail("pn-count", format!("connection {} {:?}: number {pa} after {before} packets", a.inst, a.space));
        }
        for b in &w.builds[..n] {
            let Some(pb) = b.pn else { continue };
            if a.inst != b.inst || a.space != b.space {
                continue;
            }
            if pa == pb {
                out.fail("pn-reuse", format!("connection {} {:?}: number {pa} used twice", a.inst, a.space));
            } else if (b.ret < a.call && pb > pa) || (a.ret < b.call && pa > pb) {
                out.fail("pn-order", format!("connection {} {:?}: number {pa} and {pb} out of order", a.inst, a.space));
            }
        }
    }
    if complete {
        let overlap = g.recvs.iter().enumerate().filter(|(i, r)| {
            g.recvs[..*i].iter().rev().take(8).any(|q| q.thread != r.thread && q.end > r.seq && q.sock == r.sock)
        });
        out.probe("datagrams handled by two threads at once", overlap.count() as u64);
    }
    out.probe("connections accepted", w.insts.len() as u64);
    out.probe("clock readings", g.clock_readings);
    out.probe("datagrams received", g.recvs.iter().filter(|r| r.got.is_ok()).count() as u64);
    out.probe(
        "initial copies joining a connection",
        w.insts.iter().map(|x| x.taken.iter().skip(1).filter(|t| read_header(&t.0).map_or(false, |h| h.kind == Kind::Initial)).count() as u64).sum(),
    );
    let reused = w.insts.iter().enumerate().filter(|(i, x)| w.insts[..*i].iter().any(|y| y.epoch == x.epoch && y.id20 == x.id20)).count();
    out.probe("ids issued again after a close", reused as u64);
    let reopened = w.insts.iter().enumerate().filter(|(i, x)| w.insts[..*i].iter().any(|y| y.epoch == x.epoch && y.orig == x.orig)).count();
    out.probe("attempts opened again after a close", reopened as u64);
    out.probe("restarts", w.insts.iter().map(|x| x.epoch as u64).max().unwrap_or(0));
    out.probe("datagrams over 4096 bytes", g.recvs.iter().filter(|r| r.got.map_or(false, |c| g.copies[c].data.len() > 4096)).count() as u64);
}

pub fn run(plan: &Plan, schedule: Schedule, trace: bool) -> Outcome {
    let datagrams: u64 = plan.sends.iter().map(|x| x.copies.len() as u64).sum();
    alloc::new_run();
    crate::set_hash_seed(plan.hash_seed);
    let sim = Sim::new(Setup {
        schedule,
        writers_first: plan.writers_first,
        rand_seed: plan.rand_seed,
        rand_repeat: plan.rand_repeat,
        rand_bits: plan.rand_bits,
        rand_near: plan.rand_near,
        clock_scale: plan.clock_scale,
        wall_jumps: plan.wall_jumps,
        output_fails: plan.output_fails,
        rand_pool: plan.clients.iter().filter_map(|c| c.dcid[..].try_into().ok().map(u64::from_be_bytes)).collect(),
        max_yields: 100_000 + 800 * datagrams,
        trace,
    });
    sim.lock().rand_fails = plan.rand_fails;
    let mut world = World::default();
    world.sent = vec![None; plan.sends.len()];
    let ctx = Ctx { sim: sim.clone(), plan: Arc::new(plan.clone()), w: Arc::new(Mutex::new(world)) };
    {
        let ctx = ctx.clone();
        sim.set_handler(Box::new(move |inner, code, data| {
            if code == LEARN {
                let n = usize::from(data[0]);
                let dcid = data[1..1 + n].to_vec();
                let id: [u8; 8] = data[1 + n..].try_into().unwrap();
                let epoch = {
                    let mut w = ctx.w();
                    w.learned.insert(dcid.clone(), id);
                    w.epoch
                };
                for (i, s) in ctx.plan.sends.iter().enumerate() {
                    if s.epoch == epoch && s.after_learn && ctx.plan.clients[s.client].dcid == dcid {
                        let first = ctx.w().sent[i].is_none();
                        if first {
                            ctx.launch(inner, i);
                        }
                    }
                }
            }
        }));
    }
    let c = ctx.clone();
    let complete = sim.run(move || c.controller());
    sim.set_handler(Box::new(|_, _, _| {}));
    let mut out = Outcome::default();
    let mut g = sim.lock();
    let w = ctx.w();
    out.violations = std::mem::take(&mut g.violations);
    check_history(plan, &w, &g, &mut out, complete);
    out.deviations = std::mem::take(&mut g.deviations);
    out.hash = g.hash;
    out.sim_time = g.now;
    out.steps = g.yields;
    out.switches = g.switches;
    out.max_peak = g.max_peak;
    out.trace = g.trace.take().unwrap_or_default();
    for (k, v) in g.faults.clone() {
        out.fault(k, v);
    }
    out.fault("loss", u64::from(plan.lost));
    out.fault("partition", u64::from(plan.partitioned));
    for (k, v) in &w.probes {
        out.probe(k, *v);
    }
    out.leaked = !complete;
    out
}
