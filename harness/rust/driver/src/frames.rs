use crate::alloc::measure;
use crate::{hex, unhex};
use bytes::Bytes;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use wasmrs::{Frame, OperationList, OperationType, Payload};

const FOLLOWS: u16 = 1 << 7;
const COMPLETE: u16 = 1 << 6;
const NEXT: u16 = 1 << 5;

#[derive(Serialize, Deserialize, Default, Clone)]
#[serde(default)]
pub struct F {
  pub kind: u8,
  pub id: u32,
  pub n: u32,
  pub code: u32,
  pub next: bool,
  pub complete: bool,
  pub follows: bool,
  pub md: String,
  pub data: String,
}

pub fn build(f: &F) -> Frame {
  let payload = Payload::new(unhex(&f.md).into(), unhex(&f.data).into());
  let mut flags = 0;
  for (set, flag) in [(f.next, NEXT), (f.complete, COMPLETE), (f.follows, FOLLOWS)] {
    if set {
      flags |= flag;
    }
  }
  let mut frame = match f.kind {
    4 => Frame::new_request_response(f.id, payload, flags),
    5 => Frame::new_request_fnf(f.id, payload, flags),
    6 => Frame::new_request_stream(f.id, payload, flags),
    7 => Frame::new_request_channel(f.id, payload, flags, f.n),
    8 => Frame::new_request_n(f.id, f.n, flags),
    9 => Frame::new_cancel(f.id),
    10 => Frame::new_payload(f.id, payload, flags),
    11 => Frame::new_error(f.id, f.code, String::from_utf8(unhex(&f.data)).expect("a valid message")),
    k => panic!("kind {k}"),
  };
  if let Frame::RequestStream(r) = &mut frame {
    r.0.initial_n = f.n;
  }
  frame
}

pub fn show(frame: &Frame) -> F {
  let mut f = F { id: frame.stream_id(), ..F::default() };
  let request = match frame {
    Frame::RequestResponse(r) => Some((4, &r.0)),
    Frame::RequestFnF(r) => Some((5, &r.0)),
    Frame::RequestStream(r) => Some((6, &r.0)),
    Frame::RequestChannel(r) => Some((7, &r.0)),
    _ => None,
  };
  if let Some((kind, r)) = request {
    f.kind = kind;
    f.n = r.initial_n;
    f.follows = r.follows;
    f.complete = r.complete;
    f.md = hex(&r.metadata);
    f.data = hex(&r.data);
    assert_eq!(r.stream_id, f.id, "stream ids of the frame");
  }
  match frame {
    Frame::RequestN(r) => {
      f.kind = 8;
      f.n = r.n;
    }
    Frame::Cancel(_) => f.kind = 9,
    Frame::PayloadFrame(p) => {
      f.kind = 10;
      f.next = p.next;
      f.complete = p.complete;
      f.follows = p.follows;
      f.md = hex(&p.metadata);
      f.data = hex(&p.data);
    }
    Frame::ErrorFrame(e) => {
      f.kind = 11;
      f.code = e.code;
      f.data = hex(e.data.as_bytes());
    }
    _ => {}
  }
  f
}

pub fn encode(arg: Value) -> Value {
  let f: F = serde_json::from_value(arg).expect("a frame");
  let frame = build(&f);
  let kind: u32 = frame.frame_type().into();
  json!({"bytes": hex(&frame.encode()), "kind": kind})
}

pub fn decode(arg: Value) -> Value {
  let raw: Bytes = unhex(arg.as_str().expect("bytes")).into();
  let result = measure(|| Frame::decode(raw));
  match result {
    Ok(frame) => {
      let f = show(&frame);
      // The payload of a request is looked at for the operation it is for.
      let payload = match frame {
        Frame::RequestResponse(r) => Some(Payload::from(r)),
        Frame::RequestFnF(r) => Some(Payload::from(r)),
        Frame::RequestStream(r) => Some(Payload::from(r)),
        Frame::RequestChannel(r) => Some(Payload::from(r)),
        Frame::PayloadFrame(r) => Some(Payload::from(r)),
        _ => None,
      };
      let index = payload.and_then(|p| p.parse_metadata().ok()).map(|m| m.index);
      json!({"frame": f, "index": index})
    }
    Err((id, e)) => json!({"error": e.to_string(), "id": id}),
  }
}

/// Reads frame after frame of a buffer.
pub fn read(arg: Value) -> Value {
  let raw = unhex(arg.as_str().expect("bytes"));
  let mut frames = Vec::new();
  let error = measure(|| {
    let mut rest: &[u8] = &raw;
    while !rest.is_empty() {
      match wasmrs::util::read_frame(&mut rest) {
        Ok(f) => frames.push(f),
        Err(_) => return true,
      }
    }
    false
  });
  let lens: Vec<String> = [1u32, 255, 256, 65536, 0xffffff].iter().map(|n| hex(&wasmrs::util::to_u24_bytes(*n))).collect();
  json!({"frames": frames.iter().map(|f| hex(f)).collect::<Vec<_>>(), "error": error, "u24": lens})
}

#[derive(Deserialize)]
struct Op {
  kind: u8,
  dir: u8,
  index: u32,
  ns: String,
  name: String,
}

#[derive(Deserialize)]
struct Table {
  ops: Vec<Op>,
  lookups: Vec<(u8, String, String)>,
}

fn lookups(t: &OperationList, l: &[(u8, String, String)]) -> Vec<Option<u32>> {
  l.iter().map(|(dir, ns, name)| if *dir == 1 { t.get_export(ns, name) } else { t.get_import(ns, name) }).collect()
}

/// Registers operations, encodes the table, decodes it, looks operations up
/// in both.
pub fn ops(arg: Value) -> Value {
  let arg: Table = serde_json::from_value(arg).expect("a table");
  let mut t = OperationList::default();
  for o in &arg.ops {
    let kind = match o.kind {
      1 => OperationType::RequestResponse,
      2 => OperationType::RequestFnF,
      3 => OperationType::RequestStream,
      4 => OperationType::RequestChannel,
      k => panic!("kind {k}"),
    };
    if o.dir == 1 {
      t.add_export(o.index, kind, &o.ns, &o.name);
    } else {
      t.add_import(o.index, kind, &o.ns, &o.name);
    }
  }
  let raw = t.encode();
  let found = lookups(&t, &arg.lookups);
  match OperationList::decode(raw.clone()) {
    Ok(d) => {
      json!({"bytes": hex(&raw), "found": found, "decoded": hex(&d.encode()), "found_decoded": lookups(&d, &arg.lookups)})
    }
    Err(e) => json!({"bytes": hex(&raw), "found": found, "error": e.to_string()}),
  }
}

pub fn decode_ops(arg: Value) -> Value {
  let raw: Bytes = unhex(arg.as_str().expect("bytes")).into();
  match measure(|| OperationList::decode(raw)) {
    Ok(t) => json!({"encoded": hex(&t.encode())}),
    Err(e) => json!({"error": e.to_string()}),
  }
}
