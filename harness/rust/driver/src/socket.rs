//! Two sockets, the frames between them, their callers and their handlers.
use crate::frames::{build, show, F};
use crate::{hex, unhex};
use bytes::Bytes;
use futures::StreamExt;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use wasmrs::{Frame, Payload, PayloadError, RSocket, SocketSide, WasmSocket};
use wasmrs_runtime::UnboundedReceiver;
use wasmrs_rx::{Flux, FluxReceiver, Mono, Observer};

#[derive(Deserialize, Default)]
#[serde(default)]
struct Step {
  op: String,
  side: usize,
  call: usize,
  kind: u8,
  n: usize,
  data: String,
  md: String,
  frame: F,
}

#[derive(Deserialize)]
struct Case {
  steps: Vec<Step>,
  single: bool,
}

#[derive(Serialize, Clone)]
struct Event {
  what: &'static str,
  data: String,
}

#[derive(Serialize, Default)]
struct Invocation {
  side: usize,
  kind: u8,
  md: String,
  data: String,
  events: Vec<Event>,
}

#[derive(Default)]
struct World {
  calls: Mutex<Vec<Vec<Event>>>,
  handled: Mutex<Vec<Invocation>>,
  trace: Mutex<Vec<(usize, F)>>,
  activity: std::sync::atomic::AtomicUsize,
  slow: bool, // what goes on forever takes its time
}

impl World {
  fn active(&self) {
    self.activity.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
  }
  fn seen(&self, call: usize, what: &'static str, data: &[u8]) {
    self.active();
    self.calls.lock().unwrap()[call].push(Event { what, data: hex(data) });
  }
  fn handling(&self, side: usize, kind: u8, p: &Payload) -> usize {
    self.active();
    let mut h = self.handled.lock().unwrap();
    h.push(Invocation { side, kind, md: opt(&p.metadata), data: opt(&p.data), events: Vec::new() });
    h.len() - 1
  }
  fn note(&self, i: usize, what: &'static str, data: &[u8]) {
    self.active();
    self.handled.lock().unwrap()[i].events.push(Event { what, data: hex(data) });
  }
}

fn opt(b: &Option<Bytes>) -> String {
  b.as_ref().map(|b| hex(b)).unwrap_or_default()
}

/// What a request asks of its handler: the first bytes of its data.
#[derive(Clone, Copy)]
struct Ask {
  tag: u32,
  items: u16,
  end: u8, // 0: completes, 1: fails, 2: goes on forever
  mode: u8,
  k: u8,
  pause: u8,
}

impl Ask {
  fn of(p: &Payload) -> Ask {
    let mut b = [0u8; 10];
    let d = p.data.clone().unwrap_or_default();
    let n = d.len().min(10);
    b[..n].copy_from_slice(&d[..n]);
    Ask {
      tag: u32::from_be_bytes([b[0], b[1], b[2], b[3]]),
      items: u16::from_be_bytes([b[4], b[5]]),
      end: b[6],
      mode: b[7],
      k: b[8],
      pause: b[9],
    }
  }
  fn error(&self) -> PayloadError {
    PayloadError::application_error(format!("error {}", self.tag))
  }
  fn item(&self, i: u16) -> Payload {
    let mut d = self.tag.to_be_bytes().to_vec();
    d.extend(i.to_be_bytes());
    d.resize(6 + (i as usize * 7) % 40, self.k);
    Payload::new_data(None, Some(d.into()))
  }
}

async fn pause(n: u8) {
  for _ in 0..n {
    tokio::task::yield_now().await;
  }
}

struct Server {
  side: usize,
  world: Arc<World>,
}

/// Sends the items asked for, then ends.
async fn emit(world: Arc<World>, i: usize, a: Ask, tx: Flux<Payload, PayloadError>) {
  let mut n = 0;
  while n < a.items || a.end == 2 {
    pause(a.pause).await;
    if tx.send(a.item(n)).is_err() {
      world.note(i, "cancelled", &n.to_be_bytes());
      return;
    }
    n = n.wrapping_add(1);
    if a.end == 2 {
      pause(if world.slow { 12 } else { 1 }).await;
      if n == 2000 {
        world.note(i, "never cancelled", &[]);
        return;
      }
    }
  }
  pause(a.pause).await;
  if a.end == 1 {
    let _ = tx.error(a.error());
  }
  tx.complete();
  world.note(i, "ends", &n.to_be_bytes());
}

impl RSocket for Server {
  fn fire_and_forget(&self, p: Payload) -> Mono<(), PayloadError> {
    self.world.handling(self.side, 5, &p);
    Mono::new_success(())
  }

  fn request_response(&self, p: Payload) -> Mono<Payload, PayloadError> {
    self.world.handling(self.side, 4, &p);
    let a = Ask::of(&p);
    if a.mode == 0 && a.end == 0 {
      return Mono::new_success(p);
    }
    if a.mode == 0 {
      return Mono::new_error(a.error());
    }
    Mono::from_future(async move {
      pause(a.pause).await;
      if a.end == 1 {
        Err(a.error())
      } else {
        Ok(p)
      }
    })
  }

  fn request_stream(&self, p: Payload) -> FluxReceiver<Payload, PayloadError> {
    let i = self.world.handling(self.side, 6, &p);
    let a = Ask::of(&p);
    let (tx, rx) = Flux::new_channels();
    let task = emit(self.world.clone(), i, a, tx);
    if a.mode == 0 && a.pause == 0 && a.end != 2 {
      futures::executor::block_on(task);
    } else {
      tokio::spawn(task);
    }
    rx
  }

  fn request_channel(&self, mut input: FluxReceiver<Payload, PayloadError>) -> FluxReceiver<Payload, PayloadError> {
    let (tx, rx) = Flux::new_channels();
    let (world, side) = (self.world.clone(), self.side);
    tokio::spawn(async move {
      let first = match input.next().await {
        Some(Ok(p)) => p,
        other => {
          let i = world.handling(side, 7, &Payload::empty());
          world.note(i, if other.is_some() { "first fails" } else { "nothing" }, &[]);
          tx.complete();
          return;
        }
      };
      let i = world.handling(side, 7, &first);
      let a = Ask::of(&first);
      let hear = |r: &Option<Result<Payload, PayloadError>>| match r {
        Some(Ok(p)) => world.note(i, "item", &p.data.clone().unwrap_or_default()),
        Some(Err(e)) => world.note(i, "fails", e.msg.as_bytes()),
        None => world.note(i, "completes", &[]),
      };
      match a.mode {
        // echoes each item
        0 => {
          if tx.send(first.clone()).is_err() {
            world.note(i, "cancelled", &[]);
            return;
          }
          loop {
            let r = input.next().await;
            hear(&r);
            match r {
              Some(Ok(p)) => {
                pause(a.pause).await;
                if tx.send(p).is_err() {
                  world.note(i, "cancelled", &[]);
                  return;
                }
              }
              _ => break,
            }
          }
          if a.end == 1 {
            let _ = tx.error(a.error());
          }
          tx.complete();
          world.note(i, "ends", &[]);
        }
        // sends items of its own while it reads
        1 => {
          tokio::spawn(emit(world.clone(), i, a, tx));
          loop {
            let r = input.next().await;
            hear(&r);
            if !matches!(r, Some(Ok(_))) {
              break;
            }
          }
        }
        // reads k items at most, then has no more use for them, then sends its own
        2 => {
          for _ in 0..a.k {
            let r = input.next().await;
            hear(&r);
            if !matches!(r, Some(Ok(_))) {
              break;
            }
          }
          drop(input);
          world.note(i, "enough", &[]);
          emit(world.clone(), i, a, tx).await;
        }
        // reads all, then sends its own
        _ => {
          loop {
            let r = input.next().await;
            hear(&r);
            if !matches!(r, Some(Ok(_))) {
              break;
            }
          }
          emit(world.clone(), i, a, tx).await;
        }
      }
    });
    rx
  }
}

enum Call {
  Task(tokio::task::JoinHandle<()>),
  None,
}

struct Ends {
  sockets: [Arc<WasmSocket>; 2],
  rx: [Option<UnboundedReceiver<Frame>>; 2],
  world: Arc<World>,
}

impl Ends {
  /// Takes a frame of a side to the other. False if there is none.
  fn deliver(&mut self, side: usize) -> bool {
    let mut cx = std::task::Context::from_waker(futures::task::noop_waker_ref());
    let Some(rx) = self.rx[side].as_mut() else {
      return false;
    };
    let std::task::Poll::Ready(Some(frame)) = rx.poll_recv(&mut cx) else {
      return false;
    };
    self.world.active();
    self.world.trace.lock().unwrap().push((side, show(&frame)));
    match Frame::decode(frame.encode()) {
      Ok(f) => {
        let _ = self.sockets[1 - side].process_once(f);
      }
      Err((_, e)) => panic!("a frame of side {side} is not decoded: {e}"),
    }
    true
  }
}

async fn settle(ends: &mut Ends) {
  let mut idle = 0;
  while idle < 40 {
    let before = ends.world.activity.load(std::sync::atomic::Ordering::SeqCst);
    while ends.deliver(0) {}
    while ends.deliver(1) {}
    tokio::task::yield_now().await;
    if ends.world.activity.load(std::sync::atomic::Ordering::SeqCst) == before {
      idle += 1;
    } else {
      idle = 0;
    }
  }
}

type Input = Option<(Flux<Payload, PayloadError>, Vec<u8>)>;

/// What a script has begun.
#[derive(Default)]
struct Begun {
  tasks: Vec<Call>,
  inputs: Vec<Input>,
}

async fn step(s: &Step, ends: &mut Ends, begun: &mut Begun) {
  let world = ends.world.clone();
  let Begun { tasks, inputs } = begun;
  match s.op.as_str() {
    "call" => {
      let i = tasks.len();
      world.calls.lock().unwrap().push(Vec::new());
      let socket = &ends.sockets[s.side];
      let payload = Payload::new(unhex(&s.md).into(), unhex(&s.data).into());
      let w = world.clone();
      let mut input = None;
      let task = match s.kind {
        4 => {
          let m = socket.request_response(payload);
          Call::Task(tokio::spawn(async move {
            match m.await {
              Ok(p) => w.seen(i, "item", &p.data.unwrap_or_default()),
              Err(e) => w.seen(i, "fails", e.msg.as_bytes()),
            }
          }))
        }
        5 => {
          let m = socket.fire_and_forget(payload);
          Call::Task(tokio::spawn(async move {
            match m.await {
              Ok(()) => w.seen(i, "completes", &[]),
              Err(e) => w.seen(i, "fails", e.msg.as_bytes()),
            }
          }))
        }
        k => {
          let mut out = if k == 6 {
            socket.request_stream(payload)
          } else {
            let (tx, rx) = Flux::new_channels();
            input = Some((tx, unhex(&s.md)));
            socket.request_channel(rx)
          };
          Call::Task(tokio::spawn(async move {
            loop {
              match out.next().await {
                Some(Ok(p)) => w.seen(i, "item", &p.data.unwrap_or_default()),
                Some(Err(e)) => w.seen(i, "fails", e.msg.as_bytes()),
                None => {
                  w.seen(i, "completes", &[]);
                  return;
                }
              }
            }
          }))
        }
      };
      tasks.push(task);
      inputs.push(input);
    }
    // pushes an item to the input of a channel
    "push" => {
      if let Some(Some((tx, md))) = inputs.get(s.call) {
        let _ = tx.send(Payload::new(md.clone().into(), unhex(&s.data).into()));
      }
    }
    "finish" => {
      if let Some(Some((tx, _))) = inputs.get(s.call) {
        match s.n {
          1 => {
            let _ = tx.error(PayloadError::application_error("the input fails"));
            tx.complete();
          }
          _ => tx.complete(),
        }
        inputs[s.call] = None;
      }
    }
    // the caller has no more use for the call
    "drop" => {
      if let Some(Call::Task(t)) = tasks.get(s.call) {
        t.abort();
        tasks[s.call] = Call::None;
      }
    }
    "deliver" => {
      for _ in 0..s.n {
        ends.deliver(s.side);
      }
    }
    "yield" => {
      for _ in 0..s.n {
        tokio::task::yield_now().await;
      }
    }
    "inject" => {
      if let Ok(f) = Frame::decode(build(&s.frame).encode()) {
        let _ = ends.sockets[s.side].process_once(f);
      }
    }
    // nobody takes the frames of a side any more
    "close" => ends.rx[s.side] = None,
    "settle" => settle(ends).await,
    o => panic!("step {o}"),
  }
}

impl Ends {
  fn new(world: Arc<World>) -> Ends {
    let mut host = WasmSocket::new(Server { side: 0, world: world.clone() }, SocketSide::Host);
    let mut guest = WasmSocket::new(Server { side: 1, world: world.clone() }, SocketSide::Guest);
    let rx = [host.take_rx().ok(), guest.take_rx().ok()];
    Ends { sockets: [Arc::new(host), Arc::new(guest)], rx, world }
  }
}

async fn play(case: Case, world: Arc<World>) {
  let mut ends = Ends::new(world);
  let mut begun = Begun::default();
  for s in &case.steps {
    step(s, &mut ends, &mut begun).await;
  }
  settle(&mut ends).await;
  begun.inputs.clear();
  settle(&mut ends).await;
}

/// One Rust endpoint whose peer is elsewhere.
struct Peer {
  rt: tokio::runtime::Runtime,
  side: usize,
  ends: Ends,
  begun: Begun,
  undecoded: Vec<String>,
}

thread_local! {
  static PEER: std::cell::RefCell<Option<Peer>> = const { std::cell::RefCell::new(None) };
}

#[derive(Deserialize)]
#[serde(default)]
#[derive(Default)]
struct PeerArg {
  open: bool,
  report: bool,
  side: usize,
  steps: Vec<Step>,
  frames: Vec<String>,
}

/// Hands frames to the endpoint and has it take steps; returns the frames it sends.
pub fn peer(arg: Value) -> Value {
  let arg: PeerArg = serde_json::from_value(arg).expect("a peer's steps");
  PEER.with(|cell| {
    let mut cell = cell.borrow_mut();
    if arg.open {
      let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().expect("a runtime");
      *cell = Some(Peer { rt, side: arg.side, ends: Ends::new(Arc::new(World { slow: true, ..World::default() })), begun: Begun::default(), undecoded: Vec::new() });
    }
    let Peer { rt, side, ends, begun, undecoded } = cell.as_mut().expect("an open peer");
    let mut out = Vec::new();
    rt.block_on(async {
      for f in &arg.frames {
        match Frame::decode(unhex(f).into()) {
          Ok(f) => {
            let _ = ends.sockets[*side].process_once(f);
          }
          Err((_, e)) => undecoded.push(format!("{f}: {e}")),
        }
        tokio::task::yield_now().await;
      }
      for s in &arg.steps {
        step(s, ends, begun).await;
      }
      let mut idle = 0;
      for _ in 0..60 {
        let before = ends.world.activity.load(std::sync::atomic::Ordering::SeqCst);
        let sent = out.len();
        let mut cx = std::task::Context::from_waker(futures::task::noop_waker_ref());
        while let Some(std::task::Poll::Ready(Some(frame))) = ends.rx[*side].as_mut().map(|rx| rx.poll_recv(&mut cx)) {
          out.push(hex(&frame.encode()));
        }
        tokio::task::yield_now().await;
        let now = ends.world.activity.load(std::sync::atomic::Ordering::SeqCst);
        idle = if now == before && out.len() == sent { idle + 1 } else { 0 };
        if idle > 12 {
          break;
        }
      }
    });
    let world = ends.world.clone();
    let mut v = json!({"frames": out, "undecoded": undecoded});
    if arg.report {
      v["calls"] = json!(*world.calls.lock().unwrap_or_else(|e| e.into_inner()));
      v["handled"] = json!(*world.handled.lock().unwrap_or_else(|e| e.into_inner()));
    }
    v
  })
}

/// Runs both sides, with nothing but the runtime deciding what happens when.
async fn free(case: Case, world: Arc<World>) {
  let mut host = WasmSocket::new(Server { side: 0, world: world.clone() }, SocketSide::Host);
  let mut guest = WasmSocket::new(Server { side: 1, world: world.clone() }, SocketSide::Guest);
  let rx = [host.take_rx().unwrap(), guest.take_rx().unwrap()];
  let sockets = [Arc::new(host), Arc::new(guest)];
  for (side, mut rx) in rx.into_iter().enumerate() {
    let (to, w) = (sockets[1 - side].clone(), world.clone());
    tokio::spawn(async move {
      while let Some(f) = rx.recv().await {
        w.trace.lock().unwrap().push((side, show(&f)));
        if let Ok(f) = Frame::decode(f.encode()) {
          let _ = to.process_once(f);
        }
      }
    });
  }
  let mut tasks = Vec::new();
  let n = case.steps.iter().filter(|s| s.op == "call").count();
  *world.calls.lock().unwrap() = vec![Vec::new(); n];
  let mut inputs: Vec<Vec<Vec<u8>>> = Vec::new();
  for s in case.steps.iter() {
    match s.op.as_str() {
      "call" => inputs.push(Vec::new()),
      "push" => inputs[s.call].push(unhex(&s.data)),
      _ => {}
    }
  }
  for (i, s) in case.steps.into_iter().filter(|s| s.op == "call").enumerate() {
    let socket = sockets[s.side].clone();
    let w = world.clone();
    let items = std::mem::take(&mut inputs[i]);
    tasks.push(tokio::spawn(async move {
      let payload = Payload::new(unhex(&s.md).into(), unhex(&s.data).into());
      match s.kind {
        4 => match socket.request_response(payload).await {
          Ok(p) => w.seen(i, "item", &p.data.unwrap_or_default()),
          Err(e) => w.seen(i, "fails", e.msg.as_bytes()),
        },
        5 => match socket.fire_and_forget(payload).await {
          Ok(()) => w.seen(i, "completes", &[]),
          Err(e) => w.seen(i, "fails", e.msg.as_bytes()),
        },
        k => {
          let mut out = if k == 6 {
            socket.request_stream(payload)
          } else {
            let (tx, rx) = Flux::new_channels();
            let md = unhex(&s.md);
            tokio::spawn(async move {
              for d in items {
                let _ = tx.send(Payload::new(md.clone().into(), d.into()));
                tokio::task::yield_now().await;
              }
              tx.complete();
            });
            socket.request_channel(rx)
          };
          loop {
            match out.next().await {
              Some(Ok(p)) => w.seen(i, "item", &p.data.unwrap_or_default()),
              Some(Err(e)) => w.seen(i, "fails", e.msg.as_bytes()),
              None => {
                w.seen(i, "completes", &[]);
                return;
              }
            }
          }
        }
      }
    }));
  }
  for t in tasks {
    if tokio::time::timeout(std::time::Duration::from_secs(20), t).await.is_err() {
      world.trace.lock().unwrap().push((9, F::default()));
      return;
    }
  }
  // Let the handlers see the end of what they read.
  let mut last = 0;
  let mut idle = 0;
  while idle < 8 {
    tokio::time::sleep(std::time::Duration::from_micros(500)).await;
    let now = world.activity.load(std::sync::atomic::Ordering::SeqCst) + world.trace.lock().unwrap().len();
    idle = if now == last { idle + 1 } else { 0 };
    last = now;
  }
}

pub fn run(arg: Value) -> Value {
  let case: Case = serde_json::from_value(arg).expect("a case");
  let world = Arc::new(World::default());
  if case.single {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().expect("a runtime");
    rt.block_on(play(case, world.clone()));
    drop(rt);
  } else {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_time().build().expect("a runtime");
    rt.block_on(free(case, world.clone()));
    rt.shutdown_timeout(std::time::Duration::from_secs(1));
  }
  let calls = world.calls.lock().unwrap_or_else(|e| e.into_inner()).clone();
  let trace: Vec<Value> =
    world.trace.lock().unwrap_or_else(|e| e.into_inner()).iter().map(|(s, f)| json!({"side": s, "frame": f})).collect();
  let handled: Vec<Value> = world.handled.lock().unwrap_or_else(|e| e.into_inner()).iter().map(|h| json!(h)).collect();
  json!({"calls": calls, "handled": handled, "trace": trace})
}
