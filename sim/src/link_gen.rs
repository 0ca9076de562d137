//! Plans for the link world.
use crate::gen::*;
use crate::link::*;
use crate::refquic::*;
use crate::rng::Rng;

#[derive(Debug, Clone)]
struct Mix {
    conns: u64,
    /// both ends the library, or one of them the reference peer
    both_real: u64,
    simple_frames: u64,
    sends: u64,
    coalesce: u64,
    far_numbers: u64,
    skip: u64,
    short: u64,
    bad_frames: u64,
    junk: u64,
    wrong_keys: u64,
    mutate: u64,
    divert: u64,
    dup: u64,
    delay: u64,
    loss: u64,
    ack_loss: u64,
    no_keys: u64,
    by_library: u64,
    fail: u64,
    app_kinds: u64,
    unreadable_kinds: u64,
    forge: u64,
    stub: u64,
    lie: u64,
}

fn mix(property: &str) -> Mix {
    let base = Mix {
        conns: 2,
        both_real: 300,
        simple_frames: 200,
        sends: 14,
        coalesce: 300,
        far_numbers: 300,
        skip: 200,
        short: 60,
        bad_frames: 0,
        junk: 0,
        wrong_keys: 0,
        mutate: 0,
        divert: 0,
        dup: 200,
        delay: 400,
        loss: 120,
        ack_loss: 300,
        no_keys: 60,
        by_library: 150,
        fail: 60,
        app_kinds: 500,
        unreadable_kinds: 40,
        forge: 0,
        stub: 0,
        lie: 0,
    };
    match property {
        "C01" | "C13" => Mix { lie: 40, stub: 60, forge: 20, bad_frames: 400, junk: 300, wrong_keys: 60, mutate: 400, divert: 80, both_real: 100, unreadable_kinds: 150, ..base },
        "C07" => Mix { lie: 30, both_real: 800, by_library: 300, ..base },
        "C08" => Mix { unreadable_kinds: 80, both_real: 0, by_library: 60, bad_frames: 50, ..base },
        "C09" => Mix { forge: 200, conns: 3, mutate: 600, divert: 250, wrong_keys: 200, simple_frames: 700, dup: 500, sends: 10, ..base },
        "C10" => Mix { lie: 250, both_real: 700, fail: 250, simple_frames: 900, far_numbers: 400, sends: 25, ..base },
        "C11" => Mix { lie: 60, far_numbers: 900, simple_frames: 970, skip: 500, short: 150, sends: 20, delay: 500, ack_loss: 450, coalesce: 100, by_library: 0, fail: 80, ..base },
        "C12" => Mix { stub: 150, forge: 30, coalesce: 950, both_real: 300, bad_frames: 100, wrong_keys: 150, mutate: 350, no_keys: 250, unreadable_kinds: 120, simple_frames: 500, ..base },
        _ => base,
    }
}

/// a distance at which something changes
fn distance(rng: &mut Rng) -> u64 {
    let bits = *rng.pick(&[0u32, 3, 7, 8, 9, 15, 16, 17, 23, 24, 25, 30, 31, 32, 33]);
    let edge = 1u64 << bits;
    match rng.below(4) {
        0 => edge,
        1 => edge + rng.below(6),
        2 => edge.saturating_sub(rng.below(6)).max(1),
        _ => rng.range(1, edge),
    }
}

fn start(rng: &mut Rng, m: &Mix) -> Start {
    if !rng.chance(m.far_numbers) {
        return Start::default();
    }
    let top = (1u64 << 62) - 300;
    if rng.chance(100) {
        // within the last window there is no number to mistake an early one for
        let b = *rng.pick(&[8u32, 8, 16, 24, 32]);
        let first = (1u64 << 62) - (1 << b);
        let sent = match rng.below(3) {
            0 => first - 1 - rng.below(4),
            1 => first + rng.below(1 << (b - 1)),
            _ => first.saturating_add(rng.below(1 << (b - 1))).saturating_sub(rng.below(300)),
        };
        return Start { sent: Some(sent), received: Some(sent), acked: Some(sent) };
    }
    let acked = match rng.below(6) {
        0 => rng.below(400),
        1 => {
            let b = *rng.pick(&[8u32, 16, 24, 31, 32, 40, 61]);
            (1u64 << b).saturating_sub(rng.below(300))
        }
        2 => top.saturating_sub(rng.below(1 << 33)),
        3 => rng.next() >> 2,
        _ => rng.below(1 << 34),
    }
    .min(top);
    match rng.below(8) {
        // nothing known to have arrived
        0 => {
            let sent = if rng.chance(300) { u64::from(u32::MAX) - rng.below(6) + rng.below(3) } else { acked % (1 << 32) };
            let received = rng.chance(500).then(|| rng.below(sent + 1));
            Start { sent: Some(sent), received, acked: None }
        }
        _ => {
            let d = if rng.chance(300) { rng.below(300) } else { distance(rng) };
            // the next packet is at this distance, or reaches it after a few
            let sent = (acked + d.saturating_sub(1 + rng.below(6))).min(top);
            let received = match rng.below(4) {
                0 => acked,
                1 => sent,
                2 => sent - rng.below((sent - acked).min(300) + 1),
                _ => rng.range(acked, sent),
            };
            Start { sent: Some(sent), received: Some(received), acked: Some(acked) }
        }
    }
}

pub fn plan(property: &str, rng: &mut Rng) -> Plan {
    let mut m = mix(property);
    for x in [&mut m.mutate, &mut m.divert, &mut m.dup, &mut m.delay, &mut m.loss, &mut m.wrong_keys, &mut m.bad_frames, &mut m.skip] {
        if rng.chance(150) {
            *x = 0;
        } else if rng.chance(150) {
            *x = (*x * 2).min(900);
        }
    }
    let mut n = rng.range(1, m.conns);
    if m.divert > 0 && rng.chance(700) {
        n = n.max(2);
    }
    let horizon = *rng.pick(&[20u64, 100, 400]);
    let mut conns: Vec<Conn> = Vec::new();
    for _ in 0..n {
        let dcid = loop {
            let k = id_len(rng);
            let mut d = id_bytes(rng, k);
            if !conns.is_empty() && rng.chance(250) {
                // differs from another one in very little
                d = rng.pick(&conns).dcid.clone();
                if d.len() < 20 && rng.chance(500) {
                    d.insert(0, 0);
                } else if !d.is_empty() {
                    let i = rng.below(d.len() as u64) as usize;
                    d[i] ^= 1 << rng.below(8);
                }
            }
            if conns.iter().all(|c| c.dcid != d) {
                break d;
            }
        };
        let real = if rng.chance(m.both_real) {
            [true, true]
        } else if rng.chance(500) {
            [true, false]
        } else {
            [false, true]
        };
        let mut scid = [0, 1].map(|_| {
            let k = id_len(rng);
            id_bytes(rng, k)
        });
        if rng.chance(600) {
            scid[SERVER] = id_bytes(rng, 8);
        }
        let mut starts = [[Start::default(); 3]; 2];
        for side in &mut starts {
            for s in side.iter_mut() {
                *s = start(rng, &m);
            }
        }
        let keyed = [0, 1].map(|_| [true, !rng.chance(m.no_keys), !rng.chance(m.no_keys)]);
        conns.push(Conn { dcid, scid, real, keyed, start: starts });
    }
    let mut sends = Vec::new();
    let (mut lost, mut partitioned) = (0, 0);
    let cut_off = rng.chance(150).then(|| {
        let a = rng.below(horizon);
        (a, a + rng.range(1, horizon))
    });
    let count = rng.range(1, m.sends);
    for _ in 0..count {
        let conn = rng.below(n) as usize;
        let mut side = rng.below(2) as usize;
        let c = &conns[conn];
        // towards the library rather than the reference peer when it comes to reading
        if (m.bad_frames + m.mutate > 0) && c.real[side] && !c.real[1 - side] && rng.chance(600) {
            side = 1 - side;
        }
        let real = c.real[side];
        let at = rng.below(horizon);
        let raw = rng.chance(m.junk).then(|| junk(rng));
        let many = rng.chance(m.coalesce / 40);
        let k = if many {
            if rng.chance(50) {
                rng.range(200, 700)
            } else {
                rng.range(6, 40)
            }
        } else if rng.chance(m.coalesce) {
            rng.range(2, 5)
        } else {
            1
        };
        let mut packets = Vec::new();
        for i in 0..k {
            let last = i + 1 == k;
            let kind = if real {
                *rng.pick(&[Kind::Initial, Kind::Handshake])
            } else if rng.chance(m.unreadable_kinds) && (last || rng.chance(300)) {
                *rng.pick(&[Kind::Vn, Kind::Retry])
            } else if rng.chance(m.app_kinds) {
                if last {
                    *rng.pick(&[Kind::OneRtt, Kind::OneRtt, Kind::ZeroRtt])
                } else {
                    Kind::ZeroRtt
                }
            } else {
                *rng.pick(&[Kind::Initial, Kind::Handshake])
            };
            let frames = if many || rng.chance(m.simple_frames) {
                match rng.below(3) {
                    0 => vec![Frame::Ping],
                    1 => {
                        let k = rng.below(40);
                        vec![Frame::Crypto(0, rng.bytes(k as usize))]
                    }
                    _ => vec![Frame::Ping, Frame::Ping],
                }
            } else {
                crate::gen::frames(rng, 6)
            };
            let skip = if rng.chance(m.skip) {
                if rng.chance(300) {
                    distance(rng)
                } else {
                    rng.below(300)
                }
            } else {
                0
            };
            let keys = if rng.chance(m.wrong_keys) {
                match rng.below(3) {
                    0 => KeySel::Space(*rng.pick(&SPACES)),
                    1 => KeySel::Conn(rng.below(n) as usize),
                    _ => KeySel::Direction,
                }
            } else {
                KeySel::Right
            };
            let bytes = match kind {
                Kind::Retry => Some(rng.bytes(16)),
                Kind::Vn => Some(vec![]),
                _ => rng.chance(m.bad_frames).then(|| bad_frames(rng)),
            };
            let dcid = match kind {
                Kind::OneRtt => Some(if c.scid[1 - side].len() == 8 { c.scid[1 - side].clone() } else { id_bytes(rng, 8) }),
                Kind::Vn if rng.chance(300) => {
                    let k = rng.range(21, 255);
                    Some(rng.bytes(k as usize))
                }
                _ if rng.chance(500) => Some(c.scid[1 - side].clone()),
                _ => None,
            };
            packets.push(Pkt {
                kind,
                skip,
                short: rng.chance(m.short),
                style: wire_style(rng),
                frames,
                fstyle: style(rng),
                wire: rng.chance(400),
                by_library: rng.chance(m.by_library),
                bytes,
                token: match kind {
                    Kind::Initial if rng.chance(300) => data(rng),
                    Kind::Retry => data(rng),
                    Kind::Vn if rng.chance(300) => {
                        let k = rng.range(21, 255);
                        rng.bytes(k as usize)
                    }
                    _ => vec![],
                },
                dcid,
                keys,
                versions: if kind == Kind::Vn {
                    let n = if rng.chance(100) { rng.below(400) } else { rng.below(6) };
                    (0..n).map(|_| if rng.chance(100) { V1 } else { rng.next() as u32 }).collect()
                } else {
                    vec![]
                },
                fail: rng.chance(m.fail),
                forge: rng.chance(m.forge).then(|| match rng.below(10) {
                    0 | 1 => Forge::EmptyAad,
                    2 => Forge::CutAad(if rng.chance(500) { 0 } else { rng.below(30) as u8 }),
                    3 => Forge::HoleAad(rng.below(60) as u8),
                    4 => Forge::NoToken,
                    5 => Forge::MaskedAad,
                    6 => Forge::Nonce(rng.below(32) as u8),
                    7 => Forge::PlainIv,
                    8 => Forge::Tag(rng.below(16) as u8),
                    _ => Forge::Clear,
                }),
                stub: rng.chance(m.stub).then(|| {
                    let k = rng.below(30);
                    rng.bytes(k as usize)
                }),
            });
        }
        let mut copies = Vec::new();
        let mut times = 1;
        while times < 6 && rng.chance(m.dup) {
            times += 1;
        }
        for _ in 0..times {
            let delay = if rng.chance(m.delay) { rng.below(2 * horizon) } else { rng.below(3) };
            if rng.chance(m.loss) {
                lost += 1;
                continue;
            }
            if let Some((a, b)) = cut_off {
                if at + delay >= a && at + delay < b {
                    partitioned += 1;
                    continue;
                }
            }
            let divert = rng.chance(m.divert).then(|| if rng.chance(400) { (conn, side) } else { (rng.below(n) as usize, rng.below(2) as usize) });
            copies.push(Copy {
                delay,
                mutation: rng.chance(m.mutate).then(|| mutation(rng, count)),
                divert,
                ack: (!rng.chance(m.ack_loss)).then(|| if rng.chance(300) { rng.below(horizon) } else { rng.below(4) }),
            });
        }
        let trailing = if rng.chance(30) && !real {
            let k = rng.range(1, 40);
            rng.bytes(k as usize)
        } else {
            vec![]
        };
        sends.push(Send { at, conn, side, packets, trailing, raw, copies });
    }
    let mut lies = vec![];
    if rng.chance(m.lie) {
        for _ in 0..rng.range(1, 2) {
            lies.push(Lie {
                at: rng.below(horizon),
                conn: rng.below(n) as usize,
                side: rng.below(2) as usize,
                space: *rng.pick(&[Space::Initial, Space::Handshake]),
                ahead: if rng.chance(700) { rng.below(6) } else { distance(rng) },
            });
        }
    }
    Plan { hash_seed: rng.next(), lies, conns, sends, lost, partitioned }
}
