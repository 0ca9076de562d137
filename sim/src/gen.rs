//! Generators shared by the worlds.
use crate::refquic::*;
use crate::rng::Rng;

pub fn int62(rng: &mut Rng) -> u64 {
    const EDGE: [u64; 14] = [
        0,
        1,
        62,
        63,
        64,
        255,
        256,
        16383,
        16384,
        65536,
        (1 << 30) - 1,
        1 << 30,
        (1 << 62) - 2,
        (1 << 62) - 1,
    ];
    match rng.below(4) {
        0 => *rng.pick(&EDGE),
        1 => rng.below(64),
        _ => {
            let bits = rng.range(1, 62);
            rng.next() >> (64 - bits)
        }
    }
}

pub fn data(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(12) {
        _ if rng.chance(8) => *rng.pick(&[1199u64, 1200, 1201, 2048, 4096, 8192, 16382, 16383, 16384, 16385, 20000, 40000, 60000]),
        0 => 0,
        1..=6 => rng.below(20),
        7..=9 => rng.below(100),
        10 => *rng.pick(&[63u64, 64, 65, 255, 256]),
        _ => rng.below(1100),
    };
    let mut v = rng.bytes(n as usize);
    if rng.chance(100) {
        v.iter_mut().for_each(|x| *x = 0);
    }
    v
}

pub fn frame(rng: &mut Rng) -> Frame {
    match rng.below(24) {
        0 => Frame::Padding,
        1 => Frame::Ping,
        2 | 3 => Frame::Ack {
            largest: int62(rng),
            delay: int62(rng),
            first: int62(rng),
            ranges: (0..if rng.chance(50) { rng.below(80) } else if rng.chance(3) { rng.below(700) } else { rng.below(4) })
                .map(|_| (int62(rng), int62(rng)))
                .collect(),
            ecn: rng.chance(400).then(|| (int62(rng), int62(rng), int62(rng))),
        },
        4 => Frame::ResetStream(int62(rng), int62(rng), int62(rng)),
        5 => Frame::StopSending(int62(rng), int62(rng)),
        6 => Frame::Crypto(if rng.chance(500) { 0 } else { int62(rng) }, data(rng)),
        7 => Frame::NewToken(data(rng)),
        8..=10 => Frame::Stream {
            id: int62(rng),
            offset: if rng.chance(500) { 0 } else { int62(rng) },
            data: data(rng),
            fin: rng.chance(500),
        },
        11 => Frame::MaxData(int62(rng)),
        12 => Frame::MaxStreamData(int62(rng), int62(rng)),
        13 => Frame::MaxStreams(int62(rng), rng.chance(500)),
        14 => Frame::DataBlocked(int62(rng)),
        15 => Frame::StreamDataBlocked(int62(rng), int62(rng)),
        16 => Frame::StreamsBlocked(int62(rng), rng.chance(500)),
        17 => {
            let n = if rng.chance(300) { 8 } else { rng.range(1, 20) };
            Frame::NewConnectionId {
                seq: int62(rng),
                retire: int62(rng),
                id: id_bytes(rng, n as usize),
                token: rng.bytes(16),
            }
        }
        18 => Frame::RetireConnectionId(int62(rng)),
        19 => Frame::PathChallenge(rng.next()),
        20 => Frame::PathResponse(rng.next()),
        21 => Frame::Close { code: int62(rng), frame_type: int62(rng), reason: data(rng) },
        22 => Frame::CloseApp { code: int62(rng), reason: data(rng) },
        _ => Frame::HandshakeDone,
    }
}

pub fn frames(rng: &mut Rng, max: u64) -> Vec<Frame> {
    let n = 1 + rng.below(max);
    let mut v: Vec<Frame> = (0..n).map(|_| frame(rng)).collect();
    if rng.chance(12) {
        // more frames than a packet usually has
        let most = if rng.chance(40) { 6000 } else { 400 };
        for _ in 0..rng.range(10, most) {
            let f = match rng.below(4) {
                0 => Frame::Ping,
                1 => Frame::Padding,
                2 => Frame::MaxData(rng.below(1 << 20)),
                _ => Frame::HandshakeDone,
            };
            v.push(f);
        }
        v.push(frame(rng));
    }
    if rng.chance(80) {
        let n = if rng.chance(100) { 1500 } else { 30 };
        for _ in 0..rng.range(1, n) {
            v.push(Frame::Padding);
        }
    }
    v
}

pub fn style(rng: &mut Rng) -> Style {
    Style {
        widths: if rng.chance(500) { 0 } else { rng.next() as u32 },
        zero_offset: rng.chance(300),
        no_length: rng.chance(300),
    }
}

pub fn wire_style(rng: &mut Rng) -> WireStyle {
    WireStyle {
        pn_len: rng.range(1, 4) as u8,
        length_width: if rng.chance(500) { 1 } else { rng.below(4) as u8 },
        token_width: if rng.chance(700) { 0 } else { rng.below(4) as u8 },
        spin: rng.chance(500),
        key_phase: rng.chance(300),
        vn_bits: rng.next() as u8,
    }
}

/// ids with leading and trailing zeros and high bits more often than by chance
pub fn id_bytes(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = rng.bytes(n);
    match rng.below(8) {
        0 => {
            let k = rng.below(n as u64 + 1) as usize;
            v[..k].iter_mut().for_each(|x| *x = 0);
        }
        1 => {
            let k = rng.below(n as u64 + 1) as usize;
            v[k..].iter_mut().for_each(|x| *x = 0);
        }
        2 => v.iter_mut().for_each(|x| *x = 0xff),
        _ => {}
    }
    v
}

pub fn id_len(rng: &mut Rng) -> usize {
    match rng.below(6) {
        0..=1 => 8,
        2 => *rng.pick(&[0usize, 1, 7, 9, 16, 17, 19, 20]),
        _ => rng.range(0, 20) as usize,
    }
}

/// frame bytes that lie about what follows, or make no sense
pub fn bad_frames(rng: &mut Rng) -> Vec<u8> {
    let mut v = if rng.chance(500) { write_frames(&frames(rng, 3), style(rng)) } else { vec![] };
    let big = match rng.below(5) {
        0 => rng.range(1, 3000),
        1 => (1 << 62) - 1 - rng.below(3),
        2 => *rng.pick(&[1u64 << 16, 1 << 20, 1 << 24, 1 << 29, 1 << 30, 1 << 32, 1 << 40]),
        _ => int62(rng),
    };
    match rng.below(12) {
        // lengths beyond the end
        0 => {
            v.push(0x06);
            varint_into(&mut v, int62(rng), 0);
            varint_into(&mut v, big, 0);
        }
        1 => {
            v.push(0x07);
            varint_into(&mut v, big, 0);
        }
        2 => {
            v.push(*rng.pick(&[0x0au8, 0x0b, 0x0e, 0x0f]));
            varint_into(&mut v, int62(rng), 0);
            if v[v.len() - 1] & 4 != 0 {
                varint_into(&mut v, int62(rng), 0);
            }
            varint_into(&mut v, big, 0);
        }
        3 => {
            // more ranges than there are
            v.push(0x02 | rng.below(2) as u8);
            varint_into(&mut v, int62(rng), 0);
            varint_into(&mut v, int62(rng), 0);
            varint_into(&mut v, big, 0);
        }
        4 => {
            v.push(0x1c | rng.below(2) as u8);
            varint_into(&mut v, int62(rng), 0);
            varint_into(&mut v, int62(rng), 0);
            varint_into(&mut v, big, 0);
        }
        5 => {
            // connection id of a bad length
            v.push(0x18);
            varint_into(&mut v, int62(rng), 0);
            varint_into(&mut v, int62(rng), 0);
            let length = *rng.pick(&[0u8, 0, 21, 21, 22, 32, 40, 64, 128, 160, 255]);
            v.push(length);
            let (n, more) = match rng.below(3) {
                // all there, apart from its length
                0 => (u64::from(length) + 16, vec![]),
                1 => (u64::from(length) + 16, write_frames(&frames(rng, 2), style(rng))),
                _ => (rng.below(60), vec![]),
            };
            v.extend(rng.bytes(n as usize));
            v.extend(more);
        }
        6 => {
            // unknown types
            varint_into(&mut v, 0x1f + int62(rng) % ((1 << 62) - 0x20), 0);
        }
        7 => {
            // types that are known if cut to a byte
            let f = write_frames(&[frame(rng)], style(rng));
            let n = 1usize << (f[0] >> 6);
            let known = f[..n].iter().skip(1).fold(u64::from(f[0] & 0x3f), |a, b| a << 8 | u64::from(*b));
            let bits = *rng.pick(&[5u32, 20, 50]);
            varint_into(&mut v, 0x100 * rng.range(1, 1 << bits) + known % 0x100, 0);
            v.extend_from_slice(&f[n..]);
        }
        8 => {
            // cut off
            let f = write_frames(&[frame(rng)], style(rng));
            let n = rng.below(f.len() as u64) as usize;
            v.extend_from_slice(&f[..n]);
        }
        9 => {
            let n = rng.below(200);
            v.extend(rng.bytes(n as usize));
        }
        10 => {
            let n = rng.below(64);
            v.extend(rng.bytes(n as usize).iter().map(|x| x & 0x1f));
        }
        _ => {
            let mut f = write_frames(&frames(rng, 4), style(rng));
            for _ in 0..rng.range(1, 4) {
                if !f.is_empty() {
                    let i = rng.below(f.len() as u64) as usize;
                    f[i] = rng.next() as u8;
                }
            }
            v.extend(f);
        }
    }
    v
}

/// a datagram of no particular meaning
pub fn junk(rng: &mut Rng) -> Vec<u8> {
    let mut v = Vec::new();
    match rng.below(9) {
        0 => {}
        1 => {
            let n = rng.range(1, 60);
            v = rng.bytes(n as usize);
        }
        2 => {
            let n = *rng.pick(&[1u64, 5, 6, 7, 8, 9, 10, 21, 26, 27, 100, 1200, 1500, 9000, 65507]);
            v = rng.bytes(n as usize);
            if rng.chance(300) {
                v.iter_mut().for_each(|x| *x = 0);
            }
        }
        _ => {
            // a long header that goes on strangely
            v.push(0xc0 | rng.next() as u8 & 0x3f);
            if rng.chance(100) {
                v[0] &= !0x40;
            }
            let version = match rng.below(8) {
                0 => 0,
                1 => rng.next() as u32,
                2 => 0x6b33_43cf,
                _ => 1,
            };
            v.extend(version.to_be_bytes());
            for _ in 0..2 {
                let n = match rng.below(6) {
                    0 => rng.next() as u8,
                    1 => 21,
                    2 => 20,
                    _ => rng.below(21) as u8,
                };
                v.push(n);
                let have = if rng.chance(150) { rng.below(u64::from(n) + 1) } else { u64::from(n) };
                v.extend(rng.bytes(have as usize));
            }
            if rng.chance(700) {
                // token and packet length
                if v[0] & 0x30 == 0 {
                    let t = if rng.chance(300) { int62(rng) } else { rng.below(20) };
                    varint_into(&mut v, t, rng.below(4) as u8);
                    let n = rng.below(40);
                    v.extend(rng.bytes(t.min(n) as usize));
                }
                let rest = rng.below(60);
                let n = match rng.below(5) {
                    0 => int62(rng),
                    1 => rng.below(24),
                    2 => rest + rng.below(3),
                    _ => rest,
                };
                varint_into(&mut v, n, rng.below(4) as u8);
                v.extend(rng.bytes(rest as usize));
            }
        }
    }
    if rng.chance(60) {
        let n = rng.below(v.len() as u64 + 1) as usize;
        v.truncate(n);
    }
    v
}

#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Mutation {
    Flip { at: u32, bit: u8 },
    Set { at: u32, to: u8 },
    Cut { keep: u32 },
    Append { bytes: Vec<u8> },
    Remove { at: u32 },
    Insert { at: u32, byte: u8 },
    /// everything from a place on comes from another datagram of the same plan
    Splice { at: u32, from: u32 },
}

impl Mutation {
    /// positions are per 2^32 of the length, so that they stay meaningful when the
    /// datagram changes; small values are offsets from the start
    pub fn place(at: u32, len: usize) -> usize {
        if len == 0 {
            return 0;
        }
        if at < 64 {
            (at as usize) % len
        } else {
            ((u64::from(at) * len as u64) >> 32) as usize
        }
    }
    pub fn apply(&self, v: &mut Vec<u8>, other: Option<&[u8]>) {
        let n = v.len();
        match self {
            Mutation::Flip { at, bit } if n > 0 => v[Self::place(*at, n)] ^= 1 << (bit & 7),
            Mutation::Set { at, to } if n > 0 => v[Self::place(*at, n)] = *to,
            Mutation::Cut { keep } => v.truncate(Self::place(*keep, n)),
            Mutation::Append { bytes } => v.extend_from_slice(bytes),
            Mutation::Remove { at } if n > 0 => {
                v.remove(Self::place(*at, n));
            }
            Mutation::Insert { at, byte } => v.insert(Self::place(*at, n), *byte),
            Mutation::Splice { at, .. } => {
                if let Some(o) = other {
                    let k = Self::place(*at, n.min(o.len()));
                    v.truncate(k);
                    v.extend_from_slice(&o[k.min(o.len())..]);
                }
            }
            _ => {}
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Mutation::Flip { .. } | Mutation::Set { .. } => "corruption",
            Mutation::Cut { .. } => "truncation",
            Mutation::Append { .. } | Mutation::Remove { .. } | Mutation::Insert { .. } => "bytes inserted or removed",
            Mutation::Splice { .. } => "splice",
        }
    }
}

pub fn mutation(rng: &mut Rng, others: u64) -> Mutation {
    let at = if rng.chance(500) { rng.below(60) as u32 } else { rng.next() as u32 };
    match rng.below(10) {
        0..=4 => Mutation::Flip { at, bit: rng.below(8) as u8 },
        5 => Mutation::Set { at, to: *rng.pick(&[0u8, 0xff, 0x80, 0x40, 0x3f, 20, 21, 8]) },
        6 => Mutation::Cut { keep: at },
        7 => {
            let n = rng.range(1, 40);
            Mutation::Append { bytes: rng.bytes(n as usize) }
        }
        8 => {
            if rng.chance(500) {
                Mutation::Remove { at }
            } else {
                Mutation::Insert { at, byte: rng.next() as u8 }
            }
        }
        _ => Mutation::Splice { at, from: rng.below(others.max(1)) as u32 },
    }
}
