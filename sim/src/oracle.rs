//! Comparison of what was decoded with what was sent.
use crate::refquic::*;
use quic_sea::sim::access::{self, FrameSpec, PacketView};

/// a packet that may or must come out of a datagram
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Expect {
    pub plain: Plain,
    /// None if the payload makes no sense as frames
    pub frames: Option<Vec<Frame>>,
    pub versions: Vec<u32>,
    pub must: bool,
    /// padding at the end may be added or left out
    pub loose_padding: bool,
}

pub fn kind_of(k: access::Kind) -> Kind {
    match k {
        access::Kind::VersionNegotiation => Kind::Vn,
        access::Kind::Initial => Kind::Initial,
        access::Kind::ZeroRtt => Kind::ZeroRtt,
        access::Kind::Handshake => Kind::Handshake,
        access::Kind::Retry => Kind::Retry,
        access::Kind::OneRtt => Kind::OneRtt,
    }
}

pub fn space_of(s: Space) -> access::Space {
    match s {
        Space::Initial => access::Space::Initial,
        Space::Handshake => access::Space::Handshake,
        Space::App => access::Space::Application,
    }
}

/// why a decoded packet is not the expected one, if it is not
pub fn mismatch(v: &PacketView, e: &Expect) -> Option<String> {
    let p = &e.plain;
    if kind_of(v.kind) != p.kind {
        return Some(format!("type {:?} instead of {:?}", v.kind, p.kind));
    }
    if p.kind.is_long() && v.version != p.version {
        return Some(format!("version {} instead of {}", v.version, p.version));
    }
    if v.dcid != p.dcid {
        return Some(format!("destination id {:02x?} instead of {:02x?}", v.dcid, p.dcid));
    }
    if p.kind.is_long() && v.scid != p.scid {
        return Some(format!("source id {:02x?} instead of {:02x?}", v.scid, p.scid));
    }
    if p.kind == Kind::Vn {
        return (v.supported_versions != e.versions)
            .then(|| format!("versions {:?} instead of {:?}", v.supported_versions, e.versions));
    }
    if p.kind == Kind::Initial && v.token != p.token {
        return Some(format!("token {:02x?} instead of {:02x?}", v.token, p.token));
    }
    if v.packet_number != p.pn {
        return Some(format!("packet number {} instead of {}", v.packet_number, p.pn));
    }
    let Some(want) = &e.frames else {
        return Some("malformed frames accepted".into());
    };
    let mut got = Vec::new();
    for f in &v.frames {
        match read_frames(f) {
            Some(x) if x.len() == 1 => got.extend(x),
            _ => return Some(format!("frame reads as {f:02x?}")),
        }
    }
    let (a, b) = if e.loose_padding {
        (strip_padding(&got), strip_padding(want))
    } else {
        (&got[..], &want[..])
    };
    if a != b {
        let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
        return Some(format!(
            "frame {i} of {} is {} instead of {} of {}",
            a.len(),
            brief(a.get(i)),
            brief(b.get(i)),
            b.len()
        ));
    }
    None
}

fn brief(f: Option<&Frame>) -> String {
    let mut s = format!("{f:?}");
    if s.len() > 200 {
        s.truncate(200);
        s.push_str("...");
    }
    s
}

pub enum Verdict {
    Fine,
    /// a packet that was sent, and has to be decoded, was not
    Missing(String),
    /// something was decoded that was not sent, or differently from how it was sent
    Wrong(String),
}

/// Compares decoded packets with the expected ones: all that must come, in order, and none
/// but those that may.
pub fn compare(got: &[PacketView], expects: &[Expect]) -> Verdict {
    let mut i = 0;
    let mut missing = None;
    for v in got {
        let mut why = None;
        loop {
            if i == expects.len() {
                return Verdict::Wrong(format!(
                    "decoded a packet that was not sent, or not as sent: {:?} number {}{}",
                    v.kind,
                    v.packet_number,
                    why.map_or(String::new(), |x| format!(" ({x})"))
                ));
            }
            match mismatch(v, &expects[i]) {
                None => {
                    i += 1;
                    break;
                }
                Some(x) => {
                    if why.is_none() || expects[i].must {
                        why = Some(x);
                    }
                    if expects[i].must && missing.is_none() {
                        missing = Some(i);
                    }
                }
            }
            i += 1;
        }
    }
    let missing = missing.or_else(|| (i..expects.len()).find(|i| expects[*i].must));
    match missing {
        Some(i) => {
            let p = &expects[i].plain;
            Verdict::Missing(format!("{:?} packet number {} was not decoded", p.kind, p.pn))
        }
        None => Verdict::Fine,
    }
}

/// the frame as the library is asked to send it: by its constructor where there is one that
/// can express it, unless `wire`
pub fn spec(f: &Frame, style: Style, wire: bool) -> FrameSpec {
    let by_wire = || FrameSpec::Wire(write_frames(&[f.clone()], Style { no_length: false, ..style }));
    if wire {
        return by_wire();
    }
    match f.clone() {
        Frame::Padding => FrameSpec::Padding,
        Frame::Ping => FrameSpec::Ping,
        Frame::Ack { .. } => by_wire(),
        Frame::ResetStream(a, b, c) => FrameSpec::ResetStream(a, b, c),
        Frame::StopSending(a, b) => FrameSpec::StopSending(a, b),
        Frame::Crypto(0, d) => FrameSpec::Crypto(d),
        Frame::Crypto(..) => by_wire(),
        Frame::NewToken(d) => FrameSpec::NewToken(d),
        Frame::Stream { id, offset: 0, data, fin } => FrameSpec::Stream(id, data, fin),
        Frame::Stream { .. } => by_wire(),
        Frame::MaxData(a) => FrameSpec::MaxData(a),
        Frame::MaxStreamData(a, b) => FrameSpec::MaxStreamData(a, b),
        Frame::MaxStreams(a, b) => FrameSpec::MaxStreams(a, b),
        Frame::DataBlocked(a) => FrameSpec::DataBlocked(a),
        Frame::StreamDataBlocked(a, b) => FrameSpec::StreamDataBlocked(a, b),
        Frame::StreamsBlocked(a, b) => FrameSpec::StreamsBlocked(a, b),
        Frame::NewConnectionId { seq, retire, id, token } if id.len() == 8 => FrameSpec::NewConnectionId(
            seq,
            retire,
            id.try_into().unwrap(),
            u128::from_be_bytes(token.try_into().unwrap()),
        ),
        Frame::NewConnectionId { .. } => by_wire(),
        Frame::RetireConnectionId(a) => FrameSpec::RetireConnectionId(a),
        Frame::PathChallenge(a) => FrameSpec::PathChallenge(a),
        Frame::PathResponse(a) => FrameSpec::PathResponse(a),
        Frame::Close { code, frame_type, reason } => FrameSpec::Close(code, frame_type, reason),
        Frame::CloseApp { code, reason } => FrameSpec::CloseApplication(code, reason),
        Frame::HandshakeDone => FrameSpec::HandshakeDone,
    }
}
