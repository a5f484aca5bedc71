use futures::task::{waker, ArcWake};
use futures::{Future, Stream, StreamExt};
use serde::Deserialize;
use serde_json::{json, Value};
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use wasmrs_rx::{Flux, FluxReceiver, Mono, Observable, Observer, Signal};

struct Counter(AtomicUsize);
impl ArcWake for Counter {
  fn wake_by_ref(c: &Arc<Self>) {
    c.0.fetch_add(1, SeqCst);
  }
}

#[derive(Deserialize)]
#[serde(default)]
#[derive(Default)]
struct Step {
  op: String,
  a: usize,
  b: usize,
  v: u32,
}

type F = Flux<u32, u32>;
type Boxed = Pin<Box<dyn Stream<Item = Result<u32, u32>> + Send + Sync>>;
type Recv = Pin<Box<dyn Future<Output = Result<Option<Result<u32, u32>>, wasmrs_rx::Error>> + Send + Sync>>;

enum Rx {
  Plain(FluxReceiver<u32, u32>),
  Other(Boxed),
}

fn item(p: Option<Result<u32, u32>>) -> String {
  match p {
    None => "end".into(),
    Some(Ok(v)) => format!("item {v}"),
    Some(Err(v)) => format!("error {v}"),
  }
}

fn polled(p: Poll<Option<Result<u32, u32>>>) -> String {
  match p {
    Poll::Pending => "pending".into(),
    Poll::Ready(p) => item(p),
  }
}

fn sent(r: Result<(), wasmrs_rx::Error>) -> String {
  if r.is_ok() { "ok" } else { "refused" }.into()
}

pub fn run(arg: Value) -> Value {
  let steps: Vec<Step> = serde_json::from_value(arg).expect("steps");
  let mut fluxes: Vec<Option<F>> = Vec::new();
  let mut rxs: Vec<Option<Rx>> = Vec::new();
  let mut recvs: Vec<Option<Recv>> = Vec::new();
  let mut results = Vec::new();
  let mut wakers = Vec::new();
  let n = steps.len();
  for s in steps {
    let absent = match s.op.as_str() {
      "clone rx" | "eject" | "pipe" | "map" | "poll" | "recv" => rxs[s.a].is_none(),
      "poll recv" => recvs[s.a].is_none(),
      _ => false,
    };
    if absent {
      // An earlier step has not given what it should have given.
      results.resize(n, "absent".to_string());
      wakers.resize_with(n, || Arc::new(Counter(AtomicUsize::new(0))));
      break;
    }
    let counter = Arc::new(Counter(AtomicUsize::new(0)));
    let w = waker(counter.clone());
    let mut cx = Context::from_waker(&w);
    wakers.push(counter);
    let result: String = match s.op.as_str() {
      "new" => {
        fluxes.push(Some(Flux::new()));
        "ok".into()
      }
      "channels" => {
        let (tx, rx) = Flux::new_channels();
        fluxes.push(Some(tx));
        rxs.push(Some(Rx::Plain(rx)));
        "ok".into()
      }
      "none" => {
        rxs.push(Some(Rx::Plain(FluxReceiver::none())));
        "ok".into()
      }
      "clone flux" => {
        let f = fluxes[s.a].clone();
        fluxes.push(f);
        "ok".into()
      }
      "take" => match fluxes[s.a].as_ref().unwrap().take_rx() {
        Ok(rx) => {
          rxs.push(Some(Rx::Plain(rx)));
          "ok".into()
        }
        Err(_) => {
          rxs.push(None);
          "gone".into()
        }
      },
      "clone rx" => {
        let rx = match rxs[s.a].as_ref().unwrap() {
          Rx::Plain(r) => Some(Rx::Plain(r.clone())),
          Rx::Other(_) => None,
        };
        rxs.push(rx);
        "ok".into()
      }
      "eject" => {
        let rx = match rxs[s.a].as_ref().unwrap() {
          Rx::Plain(r) => r.eject().map(Rx::Plain),
          Rx::Other(_) => None,
        };
        let r = if rx.is_some() { "ok" } else { "gone" };
        rxs.push(rx);
        r.into()
      }
      "pipe" => {
        let to = fluxes[s.b].take().unwrap();
        let rx = match rxs[s.a].take().unwrap() {
          Rx::Plain(r) => Rx::Other(Box::pin(r.pipe(to))),
          Rx::Other(r) => {
            drop(to);
            Rx::Other(r)
          }
        };
        rxs.push(Some(rx));
        "ok".into()
      }
      "map" => {
        let rx: Boxed = match rxs[s.a].take().unwrap() {
          Rx::Plain(r) => Box::pin(r.map(|r| r.map(|v| v ^ 0x5555).map_err(|v| v ^ 0xaaaa))),
          Rx::Other(r) => Box::pin(r.map(|r| r.map(|v| v ^ 0x5555).map_err(|v| v ^ 0xaaaa))),
        };
        rxs.push(Some(Rx::Other(rx)));
        "ok".into()
      }
      "send" => sent(fluxes[s.a].as_ref().unwrap().send(s.v)),
      "error" => sent(fluxes[s.a].as_ref().unwrap().error(s.v)),
      "send result" => sent(fluxes[s.a].as_ref().unwrap().send_result(if s.b == 0 { Ok(s.v) } else { Err(s.v) })),
      "send signal" => sent(fluxes[s.a].as_ref().unwrap().send_signal(match s.b {
        0 => Signal::Ok(s.v),
        1 => Signal::Err(s.v),
        _ => Signal::Complete,
      })),
      "complete" => {
        fluxes[s.a].as_ref().unwrap().complete();
        "ok".into()
      }
      "closed" => fluxes[s.a].as_ref().unwrap().is_closed().to_string(),
      "drop flux" => {
        fluxes[s.a] = None;
        "ok".into()
      }
      "drop rx" => {
        rxs[s.a] = None;
        "ok".into()
      }
      "poll" => polled(match rxs[s.a].as_mut().unwrap() {
        Rx::Plain(r) => Pin::new(r).poll_next(&mut cx),
        Rx::Other(r) => r.as_mut().poll_next(&mut cx),
      }),
      "poll flux" => polled(Pin::new(fluxes[s.a].as_mut().unwrap()).poll_next(&mut cx)),
      "recv" => {
        recvs.push(match rxs[s.a].as_ref().unwrap() {
          Rx::Plain(r) => Some(r.recv()),
          Rx::Other(_) => None,
        });
        "ok".into()
      }
      "recv flux" => {
        recvs.push(Some(fluxes[s.a].as_ref().unwrap().recv()));
        "ok".into()
      }
      "poll recv" => match recvs[s.a].as_mut().unwrap().as_mut().poll(&mut cx) {
        Poll::Pending => "pending".into(),
        Poll::Ready(r) => {
          recvs[s.a] = None;
          match r {
            Ok(p) => item(p),
            Err(_) => "gone".into(),
          }
        }
      },
      "drop recv" => {
        recvs[s.a] = None;
        "ok".into()
      }
      o => panic!("step {o}"),
    };
    results.push(result);
  }
  let wakes: Vec<usize> = wakers.iter().map(|w| w.0.load(SeqCst)).collect();
  json!({"results": results, "wakes": wakes})
}

#[derive(Deserialize)]
struct MonoCase {
  how: String,
  ok: bool,
  v: u32,
  after: usize,
}

struct After(usize, Option<Result<u32, u32>>);
impl Future for After {
  type Output = Result<u32, u32>;
  fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
    if self.0 > 0 {
      self.0 -= 1;
      cx.waker().wake_by_ref();
      return Poll::Pending;
    }
    Poll::Ready(self.1.take().expect("polled once more"))
  }
}

/// Makes a mono, says how often it is pending before it resolves, and to what.
pub fn mono(arg: Value) -> Value {
  let c: MonoCase = serde_json::from_value(arg).expect("a mono");
  let value = if c.ok { Ok(c.v) } else { Err(c.v) };
  let mut m: Mono<u32, u32> = match (c.how.as_str(), value) {
    ("ready", Ok(v)) => Mono::new_success(v),
    ("ready", Err(v)) => Mono::new_error(v),
    ("future", r) => Mono::from_future(After(c.after, Some(r))),
    _ => Mono::new(),
  };
  let counter = Arc::new(Counter(AtomicUsize::new(0)));
  let w = waker(counter.clone());
  let mut cx = Context::from_waker(&w);
  let mut pending = 0;
  let mut woken = 0;
  for i in 0..c.after + 10 {
    if c.how == "later" && i == c.after {
      match value {
        Ok(v) => m.success(v),
        Err(v) => m.error(v),
      }
    }
    // A future need not wake its task while it has no value.
    if i > 0 && (c.how != "later" || i == c.after) && counter.0.load(SeqCst) == woken {
      return json!({"pending": pending, "result": "never polled again"});
    }
    woken = counter.0.load(SeqCst);
    match Pin::new(&mut m).poll(&mut cx) {
      Poll::Ready(r) => return json!({"pending": pending, "result": item(Some(r))}),
      Poll::Pending => pending += 1,
    }
  }
  json!({"pending": pending, "result": "unresolved"})
}

#[derive(Deserialize)]
struct Threads {
  senders: Vec<u32>,
  complete: bool,
}

/// Has several threads push to clones of one flux.
pub fn threads(arg: Value) -> Value {
  let c: Threads = serde_json::from_value(arg).expect("threads");
  let (tx, rx) = Flux::<u32, u32>::new_channels();
  let got = Arc::new(Mutex::new(Vec::new()));
  let out = got.clone();
  let reader = std::thread::spawn(move || {
    let mut rx = rx;
    futures::executor::block_on(async {
      while let Some(r) = rx.next().await {
        out.lock().unwrap().push(r.unwrap_or_else(|e| e | 1 << 31));
      }
    });
  });
  let workers: Vec<_> = c
    .senders
    .iter()
    .enumerate()
    .map(|(i, n)| {
      let (tx, n) = (tx.clone(), *n);
      std::thread::spawn(move || {
        (0..n)
          .filter(|k| {
            let v = (i as u32) << 16 | k;
            if k % 7 == 3 { tx.error(v) } else { tx.send(v) }.is_err()
          })
          .count()
      })
    })
    .collect();
  let mut refused = 0;
  for w in workers {
    refused += w.join().unwrap_or(1 << 20);
  }
  if c.complete {
    tx.complete();
  } else {
    drop(tx);
  }
  let _ = reader.join();
  let got = got.lock().unwrap().clone();
  json!({"got": got, "refused": refused})
}
