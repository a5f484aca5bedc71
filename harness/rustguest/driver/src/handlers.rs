//! Handlers that follow a script.
use crate::hexed::Hexed;
use crate::log;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use wasmrs_guest::*;

#[derive(Deserialize, Clone)]
pub struct Script {
  /// The kind of the operation, as in operation tables.
  kind: u8,
  ns: String,
  name: String,
  mode: String,
  items: Vec<Hexed>,
  /// How the output ends, if not well.
  error: Option<String>,
  /// Whether the output comes from a task of its own.
  task: bool,
}

/// Something that a handler observes.
#[derive(Serialize, Clone)]
pub struct Event {
  kind: u8,
  handler: usize,
  /// Which call of a handler it is.
  call: usize,
  what: &'static str,
  index: u32,
  data: Hexed,
}

/// How many handlers of a kind there may be.
const MAX: usize = 4;

thread_local! {
  static SCRIPTS: RefCell<[Vec<Script>; 5]> = RefCell::default();
  static CALLS: Cell<usize> = Cell::new(0);
}

/// One call of a handler.
#[derive(Clone)]
struct Call {
  kind: u8,
  handler: usize,
  call: usize,
  script: Script,
}

impl Call {
  fn new(kind: u8, handler: usize) -> Call {
    let call = CALLS.with(|c| c.replace(c.get() + 1));
    let script = SCRIPTS.with(|s| s.borrow()[kind as usize][handler].clone());
    Call { kind, handler, call, script }
  }

  fn see(&self, what: &'static str, index: u32, data: &[u8]) {
    let (kind, handler, call) = (self.kind, self.handler, self.call);
    log(Event { kind, handler, call, what, index, data: Hexed(data.to_vec()) });
  }

  fn saw(&self, p: &ParsedPayload) {
    self.see("item", p.metadata.index, &p.data);
  }

  fn fails(&self) -> Result<(), GenericError> {
    if self.script.mode == "fail" {
      return Err(self.script.error.clone().unwrap_or_default().into());
    }
    Ok(())
  }

  /// What the handler asks of the host: an operation with an index of its own.
  fn request(&self, data: Bytes) -> Payload {
    Payload::new(Metadata::new(1000 + self.handler as u32).encode(), data)
  }

  fn items(&self, out: &Flux<Payload, PayloadError>) {
    for item in &self.script.items {
      let _ = out.send(Payload::new_data(None, Some(item.0.clone().into())));
    }
    match &self.script.error {
      Some(e) => drop(out.error(PayloadError::application_error(e))),
      None => out.complete(),
    }
  }
}

fn rr<const I: usize>(input: IncomingMono) -> Result<OutgoingMono, GenericError> {
  let c = Call::new(1, I);
  c.fails()?;
  Ok(Mono::from_future(async move {
    let p = input.await?;
    c.saw(&p);
    match (c.script.mode.as_str(), &c.script.error) {
      ("forward", _) => Host::default().request_response(c.request(p.data)).await,
      (_, Some(e)) => Err(PayloadError::application_error(e)),
      ("echo", _) => Ok(Payload::new_data(None, Some(p.data))),
      _ => Ok(Payload::new_data(None, c.script.items.first().map(|i| i.0.clone().into()))),
    }
  }))
}

fn fnf<const I: usize>(input: IncomingMono) -> Result<(), GenericError> {
  let c = Call::new(2, I);
  c.fails()?;
  spawn(async move {
    if let Ok(p) = input.await {
      c.saw(&p);
      if c.script.mode == "forward" {
        let _ = Host::default().fire_and_forget(c.request(p.data)).await;
      }
    }
  });
  Ok(())
}

fn rs<const I: usize>(input: IncomingMono) -> Result<OutgoingStream, GenericError> {
  let c = Call::new(3, I);
  c.fails()?;
  let (out, rx) = Flux::new_channels();
  let now = c.script.mode == "reply" && !c.script.task;
  if now {
    c.items(&out);
  }
  spawn(async move {
    let Ok(p) = input.await else { return };
    c.saw(&p);
    match c.script.mode.as_str() {
      _ if now => (),
      "forward" => {
        let mut from = Host::default().request_stream(c.request(p.data));
        while let Some(next) = from.next().await {
          let _ = out.send_result(next);
        }
        out.complete();
      }
      "echo" => {
        let _ = out.send(Payload::new_data(None, Some(p.data)));
        out.complete();
      }
      _ => c.items(&out),
    }
  });
  Ok(rx)
}

fn rc<const I: usize>(mut input: IncomingStream) -> Result<OutgoingStream, GenericError> {
  let c = Call::new(4, I);
  c.fails()?;
  let (out, rx) = Flux::new_channels();
  match c.script.mode.as_str() {
    "reply" if c.script.task => spawn(async move { c.items(&out) }),
    "reply" => c.items(&out),
    "forward" => {
      let (to, from) = Flux::new_channels();
      spawn(async move {
        let mut first = true;
        while let Some(next) = input.next().await {
          match next {
            Ok(p) => {
              c.saw(&p);
              let data = p.data;
              let _ = to.send(if std::mem::take(&mut first) { c.request(data) } else { Payload::new_data(None, Some(data)) });
            }
            Err(e) => {
              c.see("error", 0, e.msg.as_bytes());
              let _ = to.error(e);
              return;
            }
          }
        }
        c.see("end", 0, &[]);
        to.complete();
      });
      return Ok(Host::default().request_channel(from));
    }
    mode => {
      let collect = mode == "collect";
      spawn(async move {
        let mut all = Vec::new();
        while let Some(next) = input.next().await {
          match next {
            Ok(p) => {
              c.saw(&p);
              if collect {
                all.extend_from_slice(&p.data);
              } else {
                let _ = out.send(Payload::new_data(None, Some(p.data)));
              }
            }
            Err(e) => {
              c.see("error", 0, e.msg.as_bytes());
              let _ = out.error(e);
              return;
            }
          }
        }
        c.see("end", 0, &[]);
        if collect {
          let _ = out.send(Payload::new_data(None, Some(all.into())));
        }
        out.complete();
      })
    }
  }
  Ok(rx)
}

pub fn register(scripts: Vec<Script>) {
  let rrs: [ProcessFactory<IncomingMono, OutgoingMono>; MAX] = [rr::<0>, rr::<1>, rr::<2>, rr::<3>];
  let fnfs: [ProcessFactory<IncomingMono, ()>; MAX] = [fnf::<0>, fnf::<1>, fnf::<2>, fnf::<3>];
  let rss: [ProcessFactory<IncomingMono, OutgoingStream>; MAX] = [rs::<0>, rs::<1>, rs::<2>, rs::<3>];
  let rcs: [ProcessFactory<IncomingStream, OutgoingStream>; MAX] = [rc::<0>, rc::<1>, rc::<2>, rc::<3>];
  for script in scripts {
    let i = SCRIPTS.with(|s| s.borrow()[script.kind as usize].len());
    let (ns, name) = (script.ns.clone(), script.name.clone());
    match script.kind {
      1 => register_request_response(ns, name, rrs[i]),
      2 => register_fire_and_forget(ns, name, fnfs[i]),
      3 => register_request_stream(ns, name, rss[i]),
      _ => register_request_channel(ns, name, rcs[i]),
    }
    SCRIPTS.with(|s| s.borrow_mut()[script.kind as usize].push(script));
  }
}
