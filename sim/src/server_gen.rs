//! Plans for the server world: who sends what when, what the network does to it, which
//! threads there are and what they do. Every property has its own mix.
use crate::gen::*;
use crate::refquic::*;
use crate::rng::Rng;
use crate::server::*;

const ERRNOS: [i32; 16] = [111, 4, 11, 104, 12, 105, 113, 100, 110, 90, 5, 9, 1, 13, 107, 32];

/// chances are per mille
#[derive(Debug, Clone)]
struct Mix {
    clients: u64,
    acceptors: u64,
    limits: u64,
    close: u64,
    take: u64,
    decode: u64,
    build: u64,
    log: u64,
    list: u64,
    attack: u64,
    bad_frames: u64,
    mutate: u64,
    dup: u64,
    delay: u64,
    loss: u64,
    partition: u64,
    errors: u64,
    weak_random: u64,
    flood: u64,
    crowd: u64,
    large: u64,
    restart: u64,
    lookalike: u64,
    traffic: u64,
    odd_ids: u64,
}

fn mix(property: &str) -> Mix {
    let base = Mix {
        clients: 5,
        acceptors: 3,
        limits: 60,
        close: 300,
        take: 250,
        decode: 250,
        build: 150,
        log: 60,
        list: 150,
        attack: 150,
        bad_frames: 80,
        mutate: 60,
        dup: 250,
        delay: 300,
        loss: 80,
        partition: 60,
        errors: 120,
        weak_random: 150,
        flood: 15,
        crowd: 2,
        large: 30,
        restart: 100,
        lookalike: 250,
        traffic: 4,
        odd_ids: 120,
    };
    match property {
        "C01" => Mix { attack: 900, bad_frames: 400, mutate: 350, clients: 3, log: 150, traffic: 3, ..base },
        "C02" => Mix { crowd: 4, lookalike: 450, large: 80, flood: 40, odd_ids: 300, traffic: 6, ..base },
        "C03" => Mix { crowd: 4, dup: 500, weak_random: 500, lookalike: 400, acceptors: 4, traffic: 2, limits: 120, ..base },
        "C04" => Mix { crowd: 5, close: 900, weak_random: 350, list: 300, delay: 400, ..base },
        "C05" => Mix { crowd: 3, close: 600, take: 400, decode: 400, build: 400, log: 400, list: 300, acceptors: 4, flood: 30, limits: 200, ..base },
        "C06" => Mix { errors: 1000, acceptors: 4, ..base },
        "C10" => Mix { build: 1000, close: 300, clients: 3, traffic: 2, attack: 40, ..base },
        "C13" => Mix { attack: 600, bad_frames: 500, mutate: 200, flood: 40, large: 60, close: 600, errors: 300, ..base },
        "C14" => Mix { crowd: 3, decode: 1000, take: 400, close: 400, log: 250, traffic: 5, mutate: 100, bad_frames: 150, ..base },
        "C17" => Mix { log: 600, decode: 600, take: 300, close: 250, acceptors: 4, traffic: 5, errors: 250, ..base },
        _ => base,
    }
}

struct Gen<'a> {
    rng: &'a mut Rng,
    m: Mix,
    pns: Vec<[u64; 3]>,
    clients: Vec<Client>,
    sends: Vec<Send>,
    lost: u32,
    partitioned: u32,
    /// per client, time during which nothing of it arrives
    cut_off: Vec<Option<(u64, u64)>>,
    horizon: u64,
}

fn small_frames(rng: &mut Rng) -> Vec<Frame> {
    let n = rng.range(1, 3);
    (0..n)
        .map(|_| match rng.below(4) {
            0 => Frame::Ping,
            1 => {
                let k = rng.below(30);
                Frame::Crypto(0, rng.bytes(k as usize))
            }
            2 => {
                let k = rng.below(30);
                Frame::Stream { id: rng.below(9), offset: rng.below(3) * 100, data: rng.bytes(k as usize), fin: rng.chance(300) }
            }
            _ => frame(rng),
        })
        .collect()
}

impl Gen<'_> {
    fn pkt(&mut self, client: usize, kind: Kind, dst: IdRef) -> Pkt {
        let rng = &mut *self.rng;
        let mut style = wire_style(rng);
        let pn = match kind.space() {
            Some(s) => {
                let p = &mut self.pns[client][s as usize];
                *p += 1 + if rng.chance(50) { rng.below(300) } else { 0 };
                *p - 1
            }
            None => 0,
        };
        while pn >> (8 * u32::from(style.pn_len)) != 0 && style.pn_len < 4 {
            style.pn_len += 1;
        }
        let n = id_len(rng);
        let payload = match kind {
            Kind::Retry => Payload::Bytes(rng.bytes(16)),
            Kind::Vn => Payload::Bytes(vec![]),
            _ => Payload::Frames(if rng.chance(300) { frames(rng, 4) } else { small_frames(rng) }, crate::gen::style(rng)),
        };
        let mut pad = 0;
        if rng.chance(self.m.large) {
            pad = *rng.pick(&[1400u32, 3000, 3980, 4096, 4200, 9000, 30_000, 65_000]) + rng.below(300) as u32;
        } else if kind == Kind::Initial && rng.chance(150) {
            pad = 1160;
        }
        if pad > 0 {
            // a stream frame without length would take the padding in
            if let Payload::Frames(_, s) = &payload {
                if s.no_length {
                    pad = 0;
                }
            }
        }
        Pkt {
            kind,
            dst,
            scid: id_bytes(rng, n),
            token: if kind == Kind::Initial && rng.chance(200) { crate::gen::data(rng) } else { vec![] },
            pn,
            style,
            payload,
            keys_of: client,
            version: V1,
            versions: if kind == Kind::Vn { (0..rng.below(4)).map(|_| rng.next() as u32).collect() } else { vec![] },
            pad,
        }
    }
    /// copies of a datagram sent at `at`
    fn copies(&mut self, client: usize, at: u64, sure: bool) -> Vec<CopyPlan> {
        let rng = &mut *self.rng;
        let mut n = 1;
        while n < 5 && rng.chance(self.m.dup) {
            n += 1;
        }
        let mut v = Vec::new();
        for _ in 0..n {
            let delay = if rng.chance(self.m.delay) {
                if rng.chance(200) {
                    rng.below(2 * self.horizon)
                } else {
                    rng.below(self.horizon / 4 + 1)
                }
            } else {
                rng.below(4)
            };
            let arrive = at + delay;
            if !sure {
                if rng.chance(self.m.loss) {
                    self.lost += 1;
                    continue;
                }
                if let Some((a, b)) = self.cut_off[client] {
                    if arrive >= a && arrive < b {
                        self.partitioned += 1;
                        continue;
                    }
                }
            }
            let mutation = (!sure && rng.chance(self.m.mutate)).then(|| mutation(rng, 20));
            let port = (!sure && rng.chance(30)).then(|| rng.range(1000, 1010) as u16);
            v.push(CopyPlan { delay, mutation, port, next_epoch: false });
        }
        v
    }
    fn send(&mut self, epoch: usize, client: usize, at: u64, after_learn: bool, packets: Vec<Pkt>, sure: bool) {
        let mut copies = self.copies(client, at, sure);
        if epoch == 0 && self.m.restart > 0 && !sure && self.rng.chance(120) {
            copies.push(CopyPlan { delay: self.rng.below(60), mutation: None, port: None, next_epoch: true });
        }
        if copies.is_empty() {
            return;
        }
        self.sends.push(Send { epoch, client, at, after_learn, packets, trailing: vec![], raw: None, copies });
    }
    fn time(&mut self) -> u64 {
        let h = self.horizon;
        if self.rng.chance(250) {
            // at the same moment as others
            *self.rng.pick(&[0, h / 4, h / 2])
        } else {
            self.rng.below(h)
        }
    }
    fn dst(&mut self) -> IdRef {
        if self.rng.chance(self.m.odd_ids) {
            match self.rng.below(5) {
                0 => IdRef::Padded(self.rng.range(1, 12) as u8),
                1 => IdRef::Stripped,
                2 => IdRef::Near(self.rng.below(64) as u8),
                3 => {
                    let c = self.rng.below(self.clients.len() as u64) as usize;
                    IdRef::Fixed(self.clients[c].dcid.clone())
                }
                _ => {
                    let n = id_len(self.rng);
                    IdRef::Fixed(id_bytes(self.rng, n))
                }
            }
        } else {
            IdRef::Issued
        }
    }
    fn client_traffic(&mut self, epoch: usize, c: usize) {
        let at = self.time();
        let n = 1 + if self.rng.chance(250) { self.rng.below(2) } else { 0 };
        for k in 0..n {
            let mut packets = vec![self.pkt(c, Kind::Initial, IdRef::Orig)];
            if self.rng.chance(200) {
                packets.push(self.pkt(c, Kind::ZeroRtt, IdRef::Orig));
            }
            // a retransmission differs in its packet number
            let later = at + k * self.rng.below(6);
            self.send(epoch, c, later, false, packets, false);
        }
        for _ in 0..self.rng.below(self.m.traffic + 1) {
            let at = self.time();
            let after_learn = self.rng.chance(700);
            let mut packets = Vec::new();
            if !after_learn {
                let kind = *self.rng.pick(&[Kind::Initial, Kind::ZeroRtt, Kind::ZeroRtt, Kind::Handshake, Kind::OneRtt]);
                let k = 1 + u64::from(self.rng.chance(200));
                for _ in 0..k {
                    packets.push(self.pkt(c, kind, IdRef::Orig));
                }
                packets.truncate(if kind == Kind::OneRtt { 1 } else { 3 });
            } else {
                let dst = self.dst();
                let n = 1 + if self.rng.chance(300) { self.rng.below(3) } else { 0 };
                for i in 0..n {
                    let last = i + 1 == n;
                    let kind = match self.rng.below(12) {
                        0..=3 => Kind::Handshake,
                        4..=5 => Kind::Initial,
                        6 => Kind::ZeroRtt,
                        7 if last && self.rng.chance(300) => Kind::Vn,
                        8 if last && self.rng.chance(300) => Kind::Retry,
                        _ if last => Kind::OneRtt,
                        _ => Kind::Handshake,
                    };
                    packets.push(self.pkt(c, kind, dst.clone()));
                }
            }
            self.send(epoch, c, at, after_learn, packets, false);
            if self.rng.chance(60) {
                let n = self.rng.range(1, 30) as usize;
                let b = self.rng.bytes(n);
                if let Some(s) = self.sends.last_mut() {
                    if s.packets.last().map_or(false, |p| p.kind.is_long() && p.kind.space().is_some()) {
                        s.trailing = b;
                    }
                }
            }
        }
    }
    fn attack(&mut self, epoch: usize) {
        let n = self.rng.range(1, 8);
        for _ in 0..n {
            let c = self.rng.below(self.clients.len() as u64) as usize;
            let at = self.time();
            match self.rng.below(8) {
                0..=2 => {
                    let raw = junk(self.rng);
                    let copies = self.copies(c, at, true);
                    self.sends.push(Send { epoch, client: c, at, after_learn: false, packets: vec![], trailing: vec![], raw: Some(raw), copies });
                }
                3 => {
                    // a well formed header of somebody else's connection, with the wrong keys
                    let d = self.dst();
                    let kind = *self.rng.pick(&[Kind::Initial, Kind::Handshake, Kind::OneRtt, Kind::ZeroRtt]);
                    let mut p = self.pkt(c, kind, d);
                    p.keys_of = self.rng.below(self.clients.len() as u64) as usize;
                    self.send(epoch, c, at, true, vec![p], false);
                }
                4 => {
                    let kind = *self.rng.pick(&[Kind::Initial, Kind::Handshake, Kind::ZeroRtt]);
                    let mut p = self.pkt(c, kind, IdRef::Orig);
                    p.version = if self.rng.chance(500) { 0x6b33_43cf } else { self.rng.next() as u32 | 2 };
                    self.send(epoch, c, at, false, vec![p], false);
                }
                5 => {
                    let kind = *self.rng.pick(&[Kind::Vn, Kind::Retry]);
                    let after = self.rng.chance(500);
                    let mut p = self.pkt(c, kind, if after { IdRef::Issued } else { IdRef::Orig });
                    p.token = crate::gen::data(self.rng);
                    self.send(epoch, c, at, after, vec![p], false);
                }
                _ => self.bad(epoch, c, at),
            }
        }
    }
    /// correctly protected, yet malformed
    fn bad(&mut self, epoch: usize, c: usize, at: u64) {
        let after = self.rng.chance(500);
        let kind = if after {
            *self.rng.pick(&[Kind::Initial, Kind::Handshake, Kind::OneRtt, Kind::ZeroRtt])
        } else {
            *self.rng.pick(&[Kind::Initial, Kind::Initial, Kind::ZeroRtt])
        };
        let dst = if after { IdRef::Issued } else { IdRef::Orig };
        let mut p = self.pkt(c, kind, dst.clone());
        p.payload = Payload::Bytes(bad_frames(self.rng));
        p.pad = 0;
        let mut packets = vec![p];
        if kind != Kind::OneRtt && self.rng.chance(400) {
            packets.push(self.pkt(c, Kind::Initial, dst));
        }
        self.send(epoch, c, at, after, packets, false);
    }
    fn apps(&mut self, weak: bool) -> Vec<App> {
        let n = self.clients.len() as u64;
        let mut v = Vec::new();
        let m = self.m.clone();
        let mut racing = true;
        if self.rng.chance(m.close) {
            if weak {
                racing = false;
            }
            for _ in 0..self.rng.range(1, 3) {
                let mut ops = Vec::new();
                for _ in 0..self.rng.range(1, 4) {
                    let c = self.rng.below(n) as usize;
                    if self.rng.chance(500) {
                        ops.push(AppOp::Sleep(self.rng.below(self.horizon)));
                    }
                    ops.push(AppOp::WaitOpen(c));
                    if self.rng.chance(400) {
                        ops.push(AppOp::Sleep(self.rng.below(60)));
                    }
                    ops.push(if self.rng.chance(400) { AppOp::TakeClose(c) } else { AppOp::Close(c) });
                }
                v.push(App { ops });
            }
        }
        if racing && self.rng.chance(m.take) {
            let mut ops = Vec::new();
            for _ in 0..self.rng.range(1, 5) {
                let c = self.rng.below(n) as usize;
                if self.rng.chance(300) {
                    ops.push(AppOp::Sleep(self.rng.below(self.horizon)));
                }
                ops.push(AppOp::WaitOpen(c));
                ops.push(AppOp::Take(c, self.rng.range(1, 6) as u32));
            }
            v.push(App { ops });
        }
        if racing && self.rng.chance(m.decode) {
            for _ in 0..self.rng.range(1, 2) {
                let mut ops = Vec::new();
                for _ in 0..self.rng.range(1, 5) {
                    let c = self.rng.below(n) as usize;
                    ops.push(AppOp::WaitOpen(c));
                    ops.push(AppOp::Take(c, self.rng.range(1, 4) as u32));
                    ops.push(AppOp::DecodeTaken(self.rng.range(1, 5) as u32));
                    if self.rng.chance(200) {
                        ops.push(AppOp::Sleep(self.rng.below(60)));
                    }
                }
                v.push(App { ops });
            }
        }
        if racing && self.rng.chance(m.build) {
            let shared = self.rng.chance(700).then(|| self.rng.below(n) as usize);
            for _ in 0..self.rng.range(1, 3) {
                let mut ops = Vec::new();
                for _ in 0..self.rng.range(2, 9) {
                    let c = shared.unwrap_or(self.rng.below(n) as usize);
                    let space = *self.rng.pick(&[Space::Initial, Space::Handshake]);
                    ops.push(AppOp::WaitOpen(c));
                    if self.rng.chance(250) {
                        ops.push(AppOp::Ack { client: c, space });
                    }
                    let fail = self.rng.chance(120);
                    ops.push(AppOp::Build { client: c, space, frames: small_frames(self.rng), fail });
                }
                v.push(App { ops });
            }
        }
        if self.rng.chance(m.log) {
            let mut ops = Vec::new();
            for i in 0..self.rng.range(1, 5) {
                if self.rng.chance(500) {
                    ops.push(AppOp::Sleep(self.rng.below(self.horizon / 2)));
                }
                ops.push(AppOp::Log(i % 2 == 0));
            }
            v.push(App { ops });
        }
        if self.rng.chance(m.list) {
            let mut ops = Vec::new();
            for _ in 0..self.rng.range(1, 6) {
                ops.push(AppOp::Sleep(self.rng.below(self.horizon / 3 + 1)));
                ops.push(AppOp::ListIds);
            }
            v.push(App { ops });
        }
        v
    }
}

pub fn plan(property: &str, rng: &mut Rng) -> Plan {
    let mut m = mix(property);
    // features are left out altogether now and then
    for x in [
        &mut m.close,
        &mut m.mutate,
        &mut m.dup,
        &mut m.delay,
        &mut m.loss,
        &mut m.partition,
        &mut m.attack,
        &mut m.lookalike,
        &mut m.large,
        &mut m.odd_ids,
    ] {
        if rng.chance(250) {
            *x = 0;
        } else if rng.chance(200) {
            *x = (*x * 2).min(900);
        }
    }
    let horizon = *rng.pick(&[20u64, 100, 100, 400, 1000]);
    let mut n = rng.range(1, m.clients);
    let crowd = rng.chance(m.crowd);
    if crowd {
        // more connections at a time, or one after the other, than fit a byte or a small table
        n = match rng.below(4) {
            0 => rng.range(20, 100),
            1 | 2 => rng.range(100, 320),
            _ => rng.range(320, 1100),
        };
        m.traffic = rng.below(2);
        m.dup /= 4;
        m.flood = 0;
        m.restart = 0;
    }
    let mut clients: Vec<Client> = Vec::new();
    for i in 0..n {
        let mut dcid = {
            let n = id_len(rng);
            id_bytes(rng, n)
        };
        if i > 0 && rng.chance(m.lookalike) {
            dcid = clients[rng.below(i) as usize].dcid.clone();
            match rng.below(7) {
                0 | 1 => {
                    let k = rng.range(1, 12);
                    for _ in 0..k {
                        if dcid.len() < 20 {
                            dcid.insert(0, 0);
                        }
                    }
                }
                2 => {
                    while dcid.first() == Some(&0) {
                        dcid.remove(0);
                    }
                }
                3 => {
                    dcid.pop();
                }
                4 if !dcid.is_empty() => {
                    let k = rng.below(dcid.len() as u64) as usize;
                    dcid[k] ^= 1 << rng.below(8);
                }
                5 if dcid.len() < 20 => dcid.push(rng.next() as u8),
                _ => {}
            }
        }
        let port = if i > 0 && rng.chance(200) { clients[rng.below(i) as usize].port } else { 2000 + 7 * i as u16 };
        clients.push(Client { dcid, port });
    }
    let restart = rng.chance(m.restart);
    if !restart {
        m.restart = 0;
    }
    let cut_off = (0..n)
        .map(|_| {
            rng.chance(m.partition).then(|| {
                let a = rng.below(horizon);
                (a, a + rng.range(1, horizon))
            })
        })
        .collect();
    let mut g = Gen { rng, m, pns: vec![[0; 3]; n as usize], clients: clients.clone(), sends: vec![], lost: 0, partitioned: 0, cut_off, horizon };
    let weak = g.rng.chance(g.m.weak_random);
    let n_epochs = if restart { 2 } else { 1 };
    let mut epochs = Vec::new();
    for e in 0..n_epochs {
        for c in 0..n as usize {
            g.client_traffic(e, c);
            if g.rng.chance(g.m.bad_frames) {
                let at = g.time();
                g.bad(e, c, at);
            }
        }
        if g.rng.chance(g.m.attack) {
            g.attack(e);
        }
        if g.rng.chance(g.m.flood) {
            let c = g.rng.below(n) as usize;
            let k = if g.rng.chance(150) { g.rng.range(2000, 4500) } else { g.rng.range(100, 400) };
            let at = g.time();
            let after = g.rng.chance(500);
            let dst = if after { IdRef::Issued } else { IdRef::Orig };
            let kind = if after { Kind::OneRtt } else { Kind::Initial };
            let mut p = g.pkt(c, kind, dst);
            p.pad = 0;
            p.payload = Payload::Frames(vec![Frame::Ping], Style::default());
            let copies = (0..k).map(|i| CopyPlan { delay: i % 50, mutation: None, port: None, next_epoch: false }).collect();
            g.sends.push(Send { epoch: e, client: c, at, after_learn: after, packets: vec![p], trailing: vec![], raw: None, copies });
        }
        // genuine traffic after all of that
        for c in 0..n as usize {
            if g.rng.chance(700) {
                let p = g.pkt(c, Kind::Initial, IdRef::Orig);
                let at = 4 * horizon + g.rng.below(horizon);
                g.send(e, c, at, false, vec![p], true);
            }
        }
        let mut errors = Vec::new();
        if g.rng.chance(g.m.errors) {
            for _ in 0..g.rng.range(1, 6) {
                let t = g.time();
                let e = *g.rng.pick(&ERRNOS);
                // now and then several at once
                let k = if g.rng.chance(150) { g.rng.range(2, 5) } else { 1 };
                for _ in 0..k {
                    errors.push((t, e));
                }
            }
        }
        let k = g.rng.range(1, g.m.acceptors);
        let acceptors = (0..k)
            .map(|_| Acceptor {
                limit: g.rng.chance(g.m.limits).then(|| g.rng.range(1, 4) as u32),
                install: g.rng.chance(800),
                respond: !weak && g.rng.chance(200),
                learn_delay: if g.rng.chance(600) { 0 } else { g.rng.below(horizon) },
            })
            .collect();
        let mut apps = g.apps(weak);
        if crowd && g.rng.chance(500) {
            let often = g.rng.range(100, 900);
            let mut ops = Vec::new();
            for c in 0..n as usize {
                if g.rng.chance(often) {
                    ops.push(AppOp::WaitOpen(c));
                    ops.push(AppOp::Close(c));
                }
            }
            if weak {
                apps.clear();
            }
            apps.push(App { ops });
        }
        let mut binds = Vec::new();
        if g.rng.chance(g.m.errors / 4) {
            for _ in 0..g.rng.range(1, 4) {
                let works = g.rng.chance(300);
                binds.push((!works).then(|| *g.rng.pick(&[98, 99, 13, 22, 24, 12, 97])));
            }
        }
        epochs.push(Epoch { acceptors, apps, errors, binds, log: g.rng.chance(g.m.log), streams_last: g.rng.chance(150) });
    }
    let total: u64 = g.sends.iter().map(|s| s.copies.len() as u64).sum();
    let mut rand_bits = 64;
    let mut rand_repeat = 0;
    let rand_fails = if g.rng.chance(g.m.errors / 4) { *g.rng.pick(&[50u64, 300, 900, 1000]) } else { 0 };
    if weak {
        if g.rng.chance(500) {
            rand_bits = 64 - (4 * total + 16).leading_zeros() + 1 + g.rng.below(4) as u32;
        }
        if rand_bits == 64 || g.rng.chance(400) {
            rand_repeat = *g.rng.pick(&[100u64, 500, 500, 800, 800, 985]);
        }
    }
    let rand_near = if weak && g.rng.chance(600) { *g.rng.pick(&[50u64, 200, 400]) } else { 0 };
    if rand_near > 0 {
        for c in clients.iter_mut() {
            if c.dcid.len() != 8 && g.rng.chance(300) {
                c.dcid = g.rng.next().max(1).to_be_bytes().to_vec();
            }
        }
    }
    if rand_bits < 64 {
        // clients that choose an id the server might issue
        for c in clients.iter_mut() {
            if g.rng.chance(200) {
                let x = (g.rng.next() & (u64::MAX >> (64 - rand_bits))) | 1;
                c.dcid = x.to_be_bytes().to_vec();
            }
        }
    }
    let (lost, partitioned, sends) = (g.lost, g.partitioned, g.sends);
    Plan {
        rand_seed: rng.next(),
        rand_repeat,
        rand_fails,
        unwind: if rng.chance(150) { rng.range(1, 3) as usize } else { 0 },
        rand_bits,
        rand_near,
        clock_scale: *rng.pick(&[1, 1, 1000, 60_000]),
        output_fails: rng.chance(100).then(|| (rng.range(1, 3) as u8, if rng.chance(500) { 0 } else { rng.below(20) }, *rng.pick(&[32, 28, 5]))),
        wall_jumps: if rng.chance(400) { rng.next() | 1 } else { 0 },
        hash_seed: rng.next(),
        writers_first: rng.chance(500),
        clients,
        epochs,
        sends,
        lost,
        partitioned,
    }
}
