//! Reference peer: the packet and frame formats of RFC 9000 and the packet protection of
//! RFC 9001 (AES-128-GCM), written from the RFCs and independently of the code under
//! simulation. Only the primitives (HKDF, AES) come from libraries.
use hkdf::Hkdf;
use openssl::symm::{decrypt_aead, encrypt_aead, Cipher, Crypter, Mode};
use serde::{Deserialize, Serialize};
use sha2::Sha256;
use std::cell::RefCell;
use std::collections::HashMap;

pub const V1: u32 = 1;
pub const PN_LIMIT: u64 = 1 << 62;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Space {
    Initial,
    Handshake,
    App,
}

pub const SPACES: [Space; 3] = [Space::Initial, Space::Handshake, Space::App];

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Kind {
    Initial,
    ZeroRtt,
    Handshake,
    Retry,
    OneRtt,
    Vn,
}

impl Kind {
    pub fn space(self) -> Option<Space> {
        match self {
            Kind::Initial => Some(Space::Initial),
            Kind::Handshake => Some(Space::Handshake),
            Kind::ZeroRtt | Kind::OneRtt => Some(Space::App),
            Kind::Retry | Kind::Vn => None,
        }
    }
    pub fn is_long(self) -> bool {
        self != Kind::OneRtt
    }
}

// ---------------------------------------------------------------- integers

/// encodes with the shortest width, or a longer one if asked (`width` in 0..=3 as log2)
pub fn varint_into(out: &mut Vec<u8>, value: u64, width: u8) {
    let least = match value {
        0..=0x3f => 0,
        0x40..=0x3fff => 1,
        0x4000..=0x3fff_ffff => 2,
        _ => 3,
    };
    let log2 = least.max(width.min(3));
    let bytes = value.to_be_bytes();
    let n = 1usize << log2;
    let at = out.len();
    out.extend_from_slice(&bytes[8 - n..]);
    out[at] |= log2 << 6;
}

pub fn varint(value: u64) -> Vec<u8> {
    let mut v = Vec::new();
    varint_into(&mut v, value, 0);
    v
}

#[derive(Clone)]
pub struct Reader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
}

impl<'a> Reader<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Self { data, pos: 0 }
    }
    pub fn left(&self) -> usize {
        self.data.len() - self.pos
    }
    pub fn take(&mut self, n: u64) -> Option<&'a [u8]> {
        if n > self.left() as u64 {
            return None;
        }
        let r = &self.data[self.pos..self.pos + n as usize];
        self.pos += n as usize;
        Some(r)
    }
    pub fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|x| x[0])
    }
    pub fn varint(&mut self) -> Option<u64> {
        let first = self.u8()?;
        let n = (1u64 << (first >> 6)) - 1;
        let rest = self.take(n)?;
        Some(rest.iter().fold(u64::from(first & 0x3f), |a, b| (a << 8) | u64::from(*b)))
    }
}

// ---------------------------------------------------------------- frames

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Frame {
    Padding,
    Ping,
    Ack { largest: u64, delay: u64, first: u64, ranges: Vec<(u64, u64)>, ecn: Option<(u64, u64, u64)> },
    ResetStream(u64, u64, u64),
    StopSending(u64, u64),
    Crypto(u64, Vec<u8>),
    NewToken(Vec<u8>),
    Stream { id: u64, offset: u64, data: Vec<u8>, fin: bool },
    MaxData(u64),
    MaxStreamData(u64, u64),
    MaxStreams(u64, bool),
    DataBlocked(u64),
    StreamDataBlocked(u64, u64),
    StreamsBlocked(u64, bool),
    NewConnectionId { seq: u64, retire: u64, id: Vec<u8>, token: Vec<u8> },
    RetireConnectionId(u64),
    PathChallenge(u64),
    PathResponse(u64),
    Close { code: u64, frame_type: u64, reason: Vec<u8> },
    CloseApp { code: u64, reason: Vec<u8> },
    HandshakeDone,
}

/// how to write what the RFC leaves open
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Style {
    /// two bits per integer, cycled: the least width in which it is written
    pub widths: u32,
    /// stream frames: write a zero offset, and leave out the length of the last frame
    pub zero_offset: bool,
    pub no_length: bool,
}

struct Writer {
    out: Vec<u8>,
    widths: u32,
    at: u32,
}

impl Writer {
    fn int(&mut self, v: u64) {
        let w = (self.widths >> (2 * (self.at % 16))) & 3;
        self.at += 1;
        varint_into(&mut self.out, v, w as u8);
    }
    fn bytes(&mut self, b: &[u8]) {
        self.out.extend_from_slice(b);
    }
}

pub fn write_frames(frames: &[Frame], style: Style) -> Vec<u8> {
    let mut w = Writer { out: Vec::new(), widths: style.widths, at: 0 };
    for (i, f) in frames.iter().enumerate() {
        write_frame(&mut w, f, style, i + 1 == frames.len());
    }
    w.out
}

fn write_frame(w: &mut Writer, f: &Frame, style: Style, last: bool) {
    // frame types are always written in the shortest form (RFC 9000 section 12.4)
    match f {
        Frame::Padding => w.bytes(&[0x00]),
        Frame::Ping => w.bytes(&[0x01]),
        Frame::Ack { largest, delay, first, ranges, ecn } => {
            w.bytes(&[if ecn.is_some() { 0x03 } else { 0x02 }]);
            w.int(*largest);
            w.int(*delay);
            w.int(ranges.len() as u64);
            w.int(*first);
            for (a, b) in ranges {
                w.int(*a);
                w.int(*b);
            }
            if let Some((a, b, c)) = ecn {
                w.int(*a);
                w.int(*b);
                w.int(*c);
            }
        }
        Frame::ResetStream(a, b, c) => {
            w.bytes(&[0x04]);
            w.int(*a);
            w.int(*b);
            w.int(*c);
        }
        Frame::StopSending(a, b) => {
            w.bytes(&[0x05]);
            w.int(*a);
            w.int(*b);
        }
        Frame::Crypto(o, d) => {
            w.bytes(&[0x06]);
            w.int(*o);
            w.int(d.len() as u64);
            w.bytes(d);
        }
        Frame::NewToken(d) => {
            w.bytes(&[0x07]);
            w.int(d.len() as u64);
            w.bytes(d);
        }
        Frame::Stream { id, offset, data, fin } => {
            let off = *offset != 0 || style.zero_offset;
            let len = !(last && style.no_length);
            w.bytes(&[0x08 | u8::from(off) << 2 | u8::from(len) << 1 | u8::from(*fin)]);
            w.int(*id);
            if off {
                w.int(*offset);
            }
            if len {
                w.int(data.len() as u64);
            }
            w.bytes(data);
        }
        Frame::MaxData(a) => {
            w.bytes(&[0x10]);
            w.int(*a);
        }
        Frame::MaxStreamData(a, b) => {
            w.bytes(&[0x11]);
            w.int(*a);
            w.int(*b);
        }
        Frame::MaxStreams(a, uni) => {
            w.bytes(&[0x12 | u8::from(*uni)]);
            w.int(*a);
        }
        Frame::DataBlocked(a) => {
            w.bytes(&[0x14]);
            w.int(*a);
        }
        Frame::StreamDataBlocked(a, b) => {
            w.bytes(&[0x15]);
            w.int(*a);
            w.int(*b);
        }
        Frame::StreamsBlocked(a, uni) => {
            w.bytes(&[0x16 | u8::from(*uni)]);
            w.int(*a);
        }
        Frame::NewConnectionId { seq, retire, id, token } => {
            w.bytes(&[0x18]);
            w.int(*seq);
            w.int(*retire);
            w.bytes(&[id.len() as u8]);
            w.bytes(id);
            w.bytes(token);
        }
        Frame::RetireConnectionId(a) => {
            w.bytes(&[0x19]);
            w.int(*a);
        }
        Frame::PathChallenge(a) => {
            w.bytes(&[0x1a]);
            w.bytes(&a.to_be_bytes());
        }
        Frame::PathResponse(a) => {
            w.bytes(&[0x1b]);
            w.bytes(&a.to_be_bytes());
        }
        Frame::Close { code, frame_type, reason } => {
            w.bytes(&[0x1c]);
            w.int(*code);
            w.int(*frame_type);
            w.int(reason.len() as u64);
            w.bytes(reason);
        }
        Frame::CloseApp { code, reason } => {
            w.bytes(&[0x1d]);
            w.int(*code);
            w.int(reason.len() as u64);
            w.bytes(reason);
        }
        Frame::HandshakeDone => w.bytes(&[0x1e]),
    }
}

pub fn read_frame(r: &mut Reader) -> Option<Frame> {
    let ty = r.varint()?;
    Some(match ty {
        0x00 => Frame::Padding,
        0x01 => Frame::Ping,
        0x02 | 0x03 => {
            let largest = r.varint()?;
            let delay = r.varint()?;
            let count = r.varint()?;
            let first = r.varint()?;
            let mut ranges = Vec::new();
            for _ in 0..count {
                ranges.push((r.varint()?, r.varint()?));
            }
            let ecn = match ty {
                0x03 => Some((r.varint()?, r.varint()?, r.varint()?)),
                _ => None,
            };
            Frame::Ack { largest, delay, first, ranges, ecn }
        }
        0x04 => Frame::ResetStream(r.varint()?, r.varint()?, r.varint()?),
        0x05 => Frame::StopSending(r.varint()?, r.varint()?),
        0x06 => {
            let o = r.varint()?;
            let n = r.varint()?;
            Frame::Crypto(o, r.take(n)?.to_vec())
        }
        0x07 => {
            let n = r.varint()?;
            Frame::NewToken(r.take(n)?.to_vec())
        }
        0x08..=0x0f => {
            let id = r.varint()?;
            let offset = if ty & 4 != 0 { r.varint()? } else { 0 };
            let n = if ty & 2 != 0 { r.varint()? } else { r.left() as u64 };
            Frame::Stream { id, offset, data: r.take(n)?.to_vec(), fin: ty & 1 != 0 }
        }
        0x10 => Frame::MaxData(r.varint()?),
        0x11 => Frame::MaxStreamData(r.varint()?, r.varint()?),
        0x12 | 0x13 => Frame::MaxStreams(r.varint()?, ty == 0x13),
        0x14 => Frame::DataBlocked(r.varint()?),
        0x15 => Frame::StreamDataBlocked(r.varint()?, r.varint()?),
        0x16 | 0x17 => Frame::StreamsBlocked(r.varint()?, ty == 0x17),
        0x18 => {
            let seq = r.varint()?;
            let retire = r.varint()?;
            let n = r.u8()?;
            if n == 0 || n > 20 {
                return None;
            }
            let id = r.take(u64::from(n))?.to_vec();
            let token = r.take(16)?.to_vec();
            Frame::NewConnectionId { seq, retire, id, token }
        }
        0x19 => Frame::RetireConnectionId(r.varint()?),
        0x1a => Frame::PathChallenge(u64::from_be_bytes(r.take(8)?.try_into().unwrap())),
        0x1b => Frame::PathResponse(u64::from_be_bytes(r.take(8)?.try_into().unwrap())),
        0x1c => {
            let code = r.varint()?;
            let frame_type = r.varint()?;
            let n = r.varint()?;
            Frame::Close { code, frame_type, reason: r.take(n)?.to_vec() }
        }
        0x1d => {
            let code = r.varint()?;
            let n = r.varint()?;
            Frame::CloseApp { code, reason: r.take(n)?.to_vec() }
        }
        0x1e => Frame::HandshakeDone,
        _ => return None,
    })
}

pub fn read_frames(data: &[u8]) -> Option<Vec<Frame>> {
    let mut r = Reader::new(data);
    let mut v = Vec::new();
    while r.left() > 0 {
        v.push(read_frame(&mut r)?);
    }
    Some(v)
}

pub fn strip_padding(frames: &[Frame]) -> &[Frame] {
    let n = frames.iter().rposition(|x| *x != Frame::Padding).map_or(0, |x| x + 1);
    &frames[..n]
}

// ---------------------------------------------------------------- keys

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Keys {
    key: [u8; 16],
    iv: [u8; 12],
    hp: [u8; 16],
}

fn expand_label(secret: &[u8], label: &str, out: &mut [u8]) {
    let full = format!("tls13 {label}");
    let mut info = (out.len() as u16).to_be_bytes().to_vec();
    info.push(full.len() as u8);
    info.extend_from_slice(full.as_bytes());
    info.push(0);
    Hkdf::<Sha256>::from_prk(secret).unwrap().expand(&info, out).unwrap();
}

impl Keys {
    pub fn from_secret(secret: &[u8]) -> Self {
        let mut k = Keys { key: [0; 16], iv: [0; 12], hp: [0; 16] };
        expand_label(secret, "quic key", &mut k.key);
        expand_label(secret, "quic iv", &mut k.iv);
        expand_label(secret, "quic hp", &mut k.hp);
        k
    }
    /// keys of the client and of the server
    pub fn initial(dcid: &[u8]) -> (Keys, Keys) {
        const SALT: [u8; 20] = [
            0x38, 0x76, 0x2c, 0xf7, 0xf5, 0x59, 0x34, 0xb3, 0x4d, 0x17, 0x9a, 0xe6, 0xa4, 0xc8, 0x0c,
            0xad, 0xcc, 0xbb, 0x7f, 0x0a,
        ];
        thread_local! {
            static CACHE: RefCell<HashMap<Vec<u8>, (Keys, Keys)>> = RefCell::new(HashMap::new());
        }
        if let Some(x) = CACHE.with(|c| c.borrow().get(dcid).cloned()) {
            return x;
        }
        let (prk, _) = Hkdf::<Sha256>::extract(Some(&SALT), dcid);
        let mut secret = [0u8; 32];
        expand_label(&prk, "client in", &mut secret);
        let client = Keys::from_secret(&secret);
        expand_label(&prk, "server in", &mut secret);
        let server = Keys::from_secret(&secret);
        CACHE.with(|c| {
            let mut c = c.borrow_mut();
            if c.len() > 256 {
                c.clear();
            }
            c.insert(dcid.to_vec(), (client.clone(), server.clone()))
        });
        (client, server)
    }
    fn nonce(&self, pn: u64) -> [u8; 12] {
        let mut n = self.iv;
        for (a, b) in n[4..].iter_mut().zip(pn.to_be_bytes()) {
            *a ^= b;
        }
        n
    }
    fn seal(&self, pn: u64, aad: &[u8], plain: &[u8]) -> Vec<u8> {
        let mut tag = [0u8; 16];
        let mut v =
            encrypt_aead(Cipher::aes_128_gcm(), &self.key, Some(&self.nonce(pn)), aad, plain, &mut tag)
                .unwrap();
        v.extend_from_slice(&tag);
        v
    }
    fn open(&self, pn: u64, aad: &[u8], data: &[u8]) -> Option<Vec<u8>> {
        if data.len() < 16 {
            return None;
        }
        let (body, tag) = data.split_at(data.len() - 16);
        decrypt_aead(Cipher::aes_128_gcm(), &self.key, Some(&self.nonce(pn)), aad, body, tag).ok()
    }
    fn mask(&self, sample: &[u8]) -> [u8; 5] {
        let mut c = Crypter::new(Cipher::aes_128_ecb(), Mode::Encrypt, &self.hp, None).unwrap();
        c.pad(false);
        let mut out = [0u8; 32];
        c.update(&sample[..16], &mut out).unwrap();
        out[..5].try_into().unwrap()
    }
}

// ---------------------------------------------------------------- packet numbers

/// RFC 9000 appendix A.3
pub fn decode_pn(largest: Option<u64>, truncated: u64, len: usize) -> u64 {
    let expected = i128::from(largest.map_or(0, |x| x + 1));
    let win = 1i128 << (8 * len);
    let hwin = win / 2;
    let candidate = (expected & !(win - 1)) | i128::from(truncated);
    let r = if candidate <= expected - hwin && candidate < (1i128 << 62) - win {
        candidate + win
    } else if candidate > expected + hwin && candidate >= win {
        candidate - win
    } else {
        candidate
    };
    r as u64
}

pub fn truncate(pn: u64, len: usize) -> u64 {
    if len >= 8 {
        pn
    } else {
        pn & ((1u64 << (8 * len)) - 1)
    }
}

/// whether a receiver that has seen `largest` recovers `pn` sent in `len` bytes
pub fn recoverable(largest: Option<u64>, pn: u64, len: usize) -> bool {
    decode_pn(largest, truncate(pn, len), len) == pn
}

// ---------------------------------------------------------------- packets

/// a packet as the sender means it
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Plain {
    pub kind: Kind,
    pub version: u32,
    pub dcid: Vec<u8>,
    pub scid: Vec<u8>,
    pub token: Vec<u8>,
    pub pn: u64,
    pub payload: Vec<u8>,
}

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct WireStyle {
    pub pn_len: u8,
    pub length_width: u8,
    pub token_width: u8,
    pub spin: bool,
    pub key_phase: bool,
    /// unused bits of the first byte of a version negotiation packet
    pub vn_bits: u8,
}

/// a departure from how packets are protected
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Forge {
    /// nothing but the payload is authenticated
    EmptyAad,
    /// this much of the end of the header is not authenticated: 0 is the packet number
    CutAad(u8),
    /// a byte of the header is not authenticated, by its place
    HoleAad(u8),
    NoToken,
    /// the header is authenticated as it looks on the wire
    MaskedAad,
    /// nonce of a number that differs in one bit
    Nonce(u8),
    /// nonce without a number
    PlainIv,
    /// bytes of the tag are zero, from this one on
    Tag(u8),
    /// not encrypted, without a tag
    Clear,
}

/// as [protect], departing from the procedure
pub fn protect_wrongly(p: &Plain, keys: &Keys, style: WireStyle, how: Forge) -> Vec<u8> {
    protect_with(p, Some(keys), style, &[], Some(how)).0
}

/// bytes of a packet, and where its protected part starts
pub fn protect(p: &Plain, keys: Option<&Keys>, style: WireStyle, versions: &[u32]) -> (Vec<u8>, usize) {
    protect_with(p, keys, style, versions, None)
}

fn protect_with(p: &Plain, keys: Option<&Keys>, style: WireStyle, versions: &[u32], forge: Option<Forge>) -> (Vec<u8>, usize) {
    let pn_len = style.pn_len.clamp(1, 4);
    let mut head = Vec::new();
    match p.kind {
        Kind::OneRtt => {
            head.push(0x40 | u8::from(style.spin) << 5 | u8::from(style.key_phase) << 2 | (pn_len - 1));
            head.extend_from_slice(&p.dcid);
        }
        _ => {
            let first = match p.kind {
                Kind::Vn => 0x80 | (style.vn_bits & 0x7f),
                Kind::Initial => 0xc0 | (pn_len - 1),
                Kind::ZeroRtt => 0xd0 | (pn_len - 1),
                Kind::Handshake => 0xe0 | (pn_len - 1),
                _ => 0xf0 | (style.vn_bits & 0x0f),
            };
            head.push(first);
            head.extend_from_slice(&p.version.to_be_bytes());
            head.push(p.dcid.len() as u8);
            head.extend_from_slice(&p.dcid);
            head.push(p.scid.len() as u8);
            head.extend_from_slice(&p.scid);
        }
    }
    match p.kind {
        Kind::Vn => {
            for v in versions {
                head.extend_from_slice(&v.to_be_bytes());
            }
            let n = head.len();
            return (head, n);
        }
        Kind::Retry => {
            head.extend_from_slice(&p.token);
            head.extend_from_slice(&p.payload);
            let n = head.len();
            return (head, n);
        }
        Kind::Initial => {
            varint_into(&mut head, p.token.len() as u64, style.token_width);
            head.extend_from_slice(&p.token);
        }
        _ => {}
    }
    let mut plain = p.payload.clone();
    // enough for the header protection sample
    while plain.len() + (pn_len as usize) < 4 {
        plain.push(0);
    }
    if p.kind.is_long() {
        varint_into(&mut head, (pn_len as usize + plain.len() + 16) as u64, style.length_width);
    }
    let pn_at = head.len();
    head.extend_from_slice(&p.pn.to_be_bytes()[8 - pn_len as usize..]);
    let keys = keys.unwrap();
    let mut aad = head.clone();
    let mut pn = p.pn;
    match forge {
        None | Some(Forge::Tag(_)) | Some(Forge::Clear) | Some(Forge::MaskedAad) => {}
        Some(Forge::EmptyAad) => aad.clear(),
        Some(Forge::CutAad(n)) => aad.truncate(head.len().saturating_sub(usize::from(pn_len) + usize::from(n))),
        Some(Forge::HoleAad(n)) => {
            aad.remove(usize::from(n) % aad.len());
        }
        Some(Forge::NoToken) => {
            let at = (0..=head.len() - p.token.len()).rev().find(|i| head[*i..].starts_with(&p.token)).unwrap();
            aad.drain(at..at + p.token.len());
        }
        Some(Forge::Nonce(bit)) => pn ^= 1 << (bit % (8 * pn_len)),
        // the number a receiver makes of it is never 0
        Some(Forge::PlainIv) if truncate(p.pn, usize::from(pn_len)) != 0 => pn = 0,
        Some(Forge::PlainIv) => {}
    }
    let mut sealed = keys.seal(pn, &aad, &plain);
    if forge == Some(Forge::MaskedAad) {
        // the mask depends on the sealed payload, which does not depend on the header
        let mut packet = head.clone();
        packet.extend_from_slice(&sealed);
        let mask = keys.mask(&packet[pn_at + 4..]);
        aad[0] ^= mask[0] & if p.kind.is_long() { 0x0f } else { 0x1f };
        for i in 0..pn_len as usize {
            aad[pn_at + i] ^= mask[1 + i];
        }
        sealed = keys.seal(pn, &aad, &plain);
    }
    let tag = sealed.len() - 16;
    match forge {
        Some(Forge::Tag(n)) => sealed[tag + usize::from(n % 16)..].iter_mut().for_each(|x| *x = 0),
        Some(Forge::Clear) => {
            sealed[..tag].copy_from_slice(&plain);
            sealed[tag..].iter_mut().for_each(|x| *x = 0);
        }
        _ => {}
    }
    let mut out = head;
    out.extend_from_slice(&sealed);
    let mask = keys.mask(&out[pn_at + 4..]);
    out[0] ^= mask[0] & if p.kind.is_long() { 0x0f } else { 0x1f };
    for i in 0..pn_len as usize {
        out[pn_at + i] ^= mask[1 + i];
    }
    (out, pn_at)
}

/// a header as far as it can be read without keys
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Header {
    pub kind: Kind,
    pub fixed_bit: bool,
    pub version: u32,
    pub dcid: Vec<u8>,
    pub scid: Vec<u8>,
    pub end: usize,
}

pub fn read_header(data: &[u8]) -> Option<Header> {
    let mut r = Reader::new(data);
    let first = r.u8()?;
    let fixed_bit = first & 0x40 != 0;
    if first & 0x80 == 0 {
        let dcid = r.take(8)?.to_vec();
        return Some(Header { kind: Kind::OneRtt, fixed_bit, version: 0, dcid, scid: vec![], end: r.pos });
    }
    let version = u32::from_be_bytes(r.take(4)?.try_into().unwrap());
    let kind = if version == 0 {
        Kind::Vn
    } else {
        [Kind::Initial, Kind::ZeroRtt, Kind::Handshake, Kind::Retry][usize::from(first >> 4 & 3)]
    };
    let n = r.u8()?;
    if version != 0 && n > 20 {
        return None;
    }
    let dcid = r.take(u64::from(n))?.to_vec();
    let n = r.u8()?;
    if version != 0 && n > 20 {
        return None;
    }
    let scid = r.take(u64::from(n))?.to_vec();
    Some(Header { kind, fixed_bit, version, dcid, scid, end: r.pos })
}

/// whether the first packet is complete as far as its length fields tell
pub fn is_whole_packet(data: &[u8]) -> bool {
    let Some(h) = read_header(data) else { return false };
    let mut r = Reader::new(data);
    r.pos = h.end;
    let mut f = || -> Option<()> {
        if h.kind == Kind::Initial {
            let n = r.varint()?;
            r.take(n)?;
        }
        if matches!(h.kind, Kind::Initial | Kind::ZeroRtt | Kind::Handshake) {
            let n = r.varint()?;
            if n < 20 {
                return None;
            }
            r.take(n)?;
        }
        Some(())
    };
    f().is_some()
}

/// removes protection from the packet at the start of `data`; returns the packet, the
/// length of its packet number and the rest of the datagram
pub fn unprotect<'a>(
    data: &'a [u8],
    keys: &dyn Fn(Space) -> Option<Keys>,
    largest: &dyn Fn(Space) -> Option<u64>,
) -> Option<(Plain, usize, &'a [u8])> {
    let h = read_header(data)?;
    let space = h.kind.space()?;
    let keys = keys(space)?;
    let mut r = Reader::new(data);
    r.pos = h.end;
    let mut token = vec![];
    if h.kind == Kind::Initial {
        let n = r.varint()?;
        token = r.take(n)?.to_vec();
    }
    let length = if h.kind.is_long() { r.varint()? } else { r.left() as u64 };
    let pn_at = r.pos;
    r.take(length)?;
    let (packet, rest) = data.split_at(r.pos);
    if packet.len() < pn_at + 20 {
        return None;
    }
    let mask = keys.mask(&packet[pn_at + 4..]);
    let mut head = packet[..pn_at].to_vec();
    head[0] ^= mask[0] & if h.kind.is_long() { 0x0f } else { 0x1f };
    let pn_len = usize::from(head[0] & 3) + 1;
    let mut truncated = 0u64;
    for i in 0..pn_len {
        let b = packet[pn_at + i] ^ mask[1 + i];
        head.push(b);
        truncated = truncated << 8 | u64::from(b);
    }
    let pn = decode_pn(largest(space), truncated, pn_len);
    let payload = keys.open(pn, &head, &packet[pn_at + pn_len..])?;
    Some((
        Plain { kind: h.kind, version: h.version, dcid: h.dcid, scid: h.scid, token, pn, payload },
        pn_len,
        rest,
    ))
}

// ---------------------------------------------------------------- self test against RFC 9001 appendix A

fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|b| !b.is_ascii_whitespace()).collect();
    s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}

/// checks the reference itself against the published examples
pub fn self_test() -> Result<(), String> {
    let dcid = unhex("8394c8f03e515708");
    let (client, server) = Keys::initial(&dcid);
    if client.key[..] != unhex("1f369613dd76d5467730efcbe3b1a22d")[..]
        || client.iv[..] != unhex("fa044b2f42a3fd3b46fb255c")[..]
        || client.hp[..] != unhex("9f50449e04a0e810283a1e9933adedd2")[..]
        || server.key[..] != unhex("cf3a5331653c364c88f0f379b6067e37")[..]
        || server.iv[..] != unhex("0ac1493ca1905853b0bba03e")[..]
        || server.hp[..] != unhex("c206b8d9b9f0f37644430b490eeaa314")[..]
    {
        return Err("initial keys of RFC 9001 A.1".into());
    }
    // RFC 9001 A.3, the server's Initial
    let payload = unhex(
        "02000000000600405a020000560303eefce7f7b37ba1d1632e96677825ddf73988cfc79825df566dc5430b9a04
         5a1200130100002e00330024001d00209d3c940d89690b84d08a60993c144eca684d1081287c834d5311bcf32bb9
         da1a002b00020304",
    );
    let wire = unhex(
        "cf000000010008f067a5502a4262b5004075c0d95a482cd0991cd25b0aac406a5816b6394100f37a1c69797554780b
         b38cc5a99f5ede4cf73c3ec2493a1839b3dbcba3f6ea46c5b7684df3548e7ddeb9c3bf9c73cc3f3bded74b562bfb19
         fb84022f8ef4cdd93795d77d06edbb7aaf2f58891850abbdca3d20398c276456cbc42158407dd074ee",
    );
    let p = Plain {
        kind: Kind::Initial,
        version: 1,
        dcid: vec![],
        scid: unhex("f067a5502a4262b5"),
        token: vec![],
        pn: 1,
        payload,
    };
    let style = WireStyle { pn_len: 2, length_width: 1, ..WireStyle::default() };
    if protect(&p, Some(&server), style, &[]).0 != wire {
        return Err("server initial of RFC 9001 A.3".into());
    }
    let s = server.clone();
    match unprotect(&wire, &move |_| Some(s.clone()), &|_| Some(0)) {
        Some((q, 2, rest)) if q == p && rest.is_empty() => {}
        x => return Err(format!("reading the server initial of RFC 9001 A.3: {x:?}")),
    }
    // RFC 9000 A.1 to A.3
    let ints: [(&str, u64); 4] =
        [("c2197c5eff14e88c", 151_288_809_941_952_652), ("9d7f3e7d", 494_878_333), ("7bbd", 15_293), ("25", 37)];
    for (hex, v) in ints {
        if varint(v) != unhex(hex) || Reader::new(&unhex(hex)).varint() != Some(v) {
            return Err("integers of RFC 9000 A.1".into());
        }
    }
    if Reader::new(&unhex("4025")).varint() != Some(37) {
        return Err("integers of RFC 9000 A.1".into());
    }
    if decode_pn(Some(0xa82f30ea), 0x9b32, 2) != 0xa82f9b32 {
        return Err("packet number of RFC 9000 A.3".into());
    }
    Ok(())
}
