//! The churn world: a real socket opens and closes connections round after round, with all
//! kinds of traffic in between; what it holds in the end must not depend on how long that
//! went on.
use crate::alloc;

use crate::refquic::*;
use crate::rng::Rng;
use crate::sched::*;
use crate::server::{keys, Outcome};
use quic_sea::sim::access::{stream_id, Probe};
use quic_sea::{QuicSocket, QuicStream};
use serde::{Deserialize, Serialize};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Plan {
    pub seed: u64,
    pub hash_seed: u64,
    pub rounds: u32,
    pub opens: u32,
    pub others: u32,
    pub decode: bool,
    pub take: bool,
    pub same_ids: bool,
}

pub fn plan(rng: &mut Rng) -> Plan {
    Plan {
        seed: rng.next(),
        hash_seed: rng.next(),
        rounds: rng.range(100, 200) as u32,
        opens: rng.range(1, 8) as u32,
        others: rng.range(0, 20) as u32,
        decode: rng.chance(600),
        take: rng.chance(600),
        same_ids: rng.chance(300),
    }
}

const END_OF_ROUND: i32 = 110;

struct State {
    out: Outcome,
}

fn initial(rng: &mut Rng, dcid: &[u8], pn: u64) -> Vec<u8> {
    let k = rng.below(20);
    let p = Plain {
        kind: Kind::Initial,
        version: V1,
        dcid: dcid.to_vec(),
        scid: rng.bytes(4),
        token: vec![],
        pn,
        payload: write_frames(&[Frame::Crypto(0, rng.bytes(k as usize)), Frame::Ping], Style::default()),
    };
    let style = WireStyle { pn_len: 4, length_width: 1, ..WireStyle::default() };
    protect(&p, Some(&keys(dcid, Space::Initial, true)), style, &[]).0
}

fn controller(sim: Arc<Sim>, plan: Plan, state: Arc<Mutex<State>>) {
    let mut rng = Rng::new(plan.seed);
    let Ok(socket) = alloc::product(|| QuicSocket::bind("127.0.0.1:4433")) else {
        sim.fail("bind", "bind failed".into());
        return;
    };
    let probe = Probe::new(&socket);
    let base = alloc::live();
    let mut first = 0;
    let fixed: Vec<Vec<u8>> = (0..plan.opens).map(|_| rng.bytes(8)).collect();
    let mut old: Vec<[u8; 20]> = Vec::new();
    let mut opened = 0u64;
    for round in 0..plan.rounds {
        let ids: Vec<Vec<u8>> = if plan.same_ids { fixed.clone() } else { (0..plan.opens).map(|_| rng.bytes(8)).collect() };
        {
            let mut g = sim.lock();
            let mut send = |data: Vec<u8>, rng: &mut Rng| {
                let addr = SocketAddr::from(([10, 1, rng.below(4) as u8, rng.below(200) as u8], 1000 + rng.below(4) as u16));
                g.send_copy(1, CopyRec { data: Arc::new(data), addr, origin: 0, intact: false });
            };
            for d in &ids {
                let p = initial(&mut rng, d, 0);
                send(p.clone(), &mut rng);
                if rng.chance(400) {
                    send(p, &mut rng);
                }
            }
            for _ in 0..plan.others {
                match rng.below(6) {
                    0 => {
                        // to a connection that is long closed
                        let mut v = vec![0x40];
                        v.extend(old.get(rng.below(old.len() as u64 + 1) as usize).map_or([7; 8], |x| x[12..].try_into().unwrap()));
                        v.extend(rng.bytes(30));
                        send(v, &mut rng);
                    }
                    1 => {
                        // handshake, 0-rtt and others that open nothing
                        let mut v = vec![*rng.pick(&[0xd0u8, 0xe0, 0xf0, 0xa0])];
                        v.extend(if rng.chance(800) { 1u32 } else { 0 }.to_be_bytes());
                        v.push(8);
                        v.extend(rng.bytes(8));
                        v.push(0);
                        v.extend(rng.bytes(40));
                        send(v, &mut rng);
                    }
                    2 => {
                        let n = rng.below(40);
                        let mut v = rng.bytes(n as usize);
                        if let Some(x) = v.first_mut() {
                            // no initial, which would open a connection
                            if *x & 0xb0 == 0x80 {
                                *x |= 0x20;
                            }
                        }
                        send(v, &mut rng);
                    }
                    _ => {
                        let d = rng.pick(&ids).clone();
                        let pn = rng.below(1000);
                        let p = initial(&mut rng, &d, pn);
                        send(p, &mut rng);
                    }
                }
            }
            g.schedule(2, Ev::RecvError { errno: END_OF_ROUND });
        }
        let mut streams: Vec<QuicStream> = Vec::new();
        loop {
            let r = alloc::product(|| socket.accept::<()>());
            sim.end_of_receive();
            match r {
                Ok(s) => {
                    streams.push(s);
                    opened += 1;
                }
                Err(_) => break,
            }
            if streams.len() > 200 {
                break;
            }
        }
        for s in &streams {
            let id = stream_id(s);
            if plan.take && rng.chance(700) {
                while let Some((data, addr)) = alloc::product(|| probe.take_datagram(id)) {
                    if plan.decode {
                        let _ = alloc::product(|| probe.decode(&data, addr));
                    }
                    if rng.chance(100) {
                        break;
                    }
                }
            }
            if old.len() < 64 {
                old.push(id);
            } else {
                let k = rng.below(64) as usize;
                old[k] = id;
            }
        }
        while !streams.is_empty() {
            let s = streams.swap_remove(rng.below(streams.len() as u64) as usize);
            alloc::product(|| drop(s));
        }
        {
            // what the simulator keeps of it
            let mut g = sim.lock();
            for c in g.copies.iter_mut() {
                c.data = Arc::new(vec![]);
            }
        }
        let held = alloc::live() - base;
        sim.trace(|| format!("round {round}: {held} bytes held"));
        if round < 3 {
            first = first.max(held);
        } else if held > 2 * first + 4096 {
            sim.fail(
                "retained",
                format!("{held} bytes are held after {opened} connections were closed in {} rounds, {first} after 3 rounds", round + 1),
            );
            break;
        }
    }
    {
        let mut s = state.lock().unwrap();
        s.out.probe("connections opened and closed in churn", opened);
        s.out.probe("rounds of churn", u64::from(plan.rounds));
    }
    alloc::product(|| drop(probe));
    alloc::product(|| drop(socket));
}

pub fn run(plan: &Plan, schedule: Schedule, trace: bool) -> Outcome {
    alloc::new_run();
    crate::set_hash_seed(plan.hash_seed);
    let sim = Sim::new(Setup {
        schedule,
        writers_first: plan.seed & 1 == 0,
        rand_seed: plan.seed,
        rand_repeat: 0,
        rand_bits: 64,
        rand_near: 0,
        clock_scale: [1, 1000, 60_000][(plan.seed % 3) as usize],
        wall_jumps: plan.seed & 4,
        output_fails: (plan.seed & 24 == 0).then(|| (3, 10, 32)),
        rand_pool: vec![],
        max_yields: 4_000_000,
        trace,
    });
    let state = Arc::new(Mutex::new(State { out: Outcome::default() }));
    let (s, p, st) = (sim.clone(), plan.clone(), state.clone());
    let complete = sim.run(move || controller(s, p, st));
    let mut out = std::mem::take(&mut state.lock().unwrap().out);
    let mut g = sim.lock();
    out.violations = std::mem::take(&mut g.violations);
    out.deviations = std::mem::take(&mut g.deviations);
    out.hash = g.hash;
    out.sim_time = g.now;
    out.steps = g.yields;
    out.switches = g.switches;
    out.max_peak = g.max_peak;
    out.trace = g.trace.take().unwrap_or_default();
    for (k, v) in g.faults.clone() {
        out.fault(k, v);
    }
    out.leaked = !complete;

    out
}
