//! Plays WebAssembly guests that are built with the guest library, on behalf
//! of the checks: reads requests (u32 length, JSON) from descriptor 3 and
//! answers them on descriptor 4. A guest lives in a thread of its own, as all
//! of the library's state is the thread's.
mod handlers;
mod hexed;

use hexed::Hexed;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::mpsc::{channel, Receiver, Sender};

#[derive(Deserialize)]
struct Request {
  cmd: String,
  arg: Arg,
}

#[derive(Deserialize, Default)]
#[serde(default)]
struct Arg {
  guest: u32,
  host: u32,
  handlers: Vec<handlers::Script>,
  /// What the host writes to the guest's buffer.
  data: Hexed,
}

/// What came of a request.
#[derive(Serialize, Default, Clone)]
struct Outcome {
  /// What the guest sent, in the host's buffer.
  sent: Vec<Hexed>,
  /// The size of what the guest said to have sent that the buffer cannot hold.
  overflow: Option<usize>,
  table: Option<Hexed>,
  log: Vec<handlers::Event>,
}

thread_local! {
  static OUTCOME: RefCell<Outcome> = RefCell::default();
  static BUFFERS: RefCell<(usize, usize)> = RefCell::default();
  static HOST_SIZE: RefCell<usize> = RefCell::default();
}

pub fn log(e: handlers::Event) {
  OUTCOME.with(|o| o.borrow_mut().log.push(e));
}

// The functions of the host.

#[no_mangle]
extern "C" fn __init_buffers(guest: usize, host: usize) {
  BUFFERS.with(|b| *b.borrow_mut() = (guest, host));
}

#[no_mangle]
extern "C" fn __send(size: usize) {
  OUTCOME.with(|o| {
    if size > HOST_SIZE.with(|s| *s.borrow()) {
      o.borrow_mut().overflow = Some(size);
      return;
    }
    let at = BUFFERS.with(|b| b.borrow().1) as *const u8;
    let sent = unsafe { std::slice::from_raw_parts(at, size) }.to_vec();
    o.borrow_mut().sent.push(Hexed(sent));
  });
}

#[no_mangle]
extern "C" fn __op_list(at: usize, size: usize) {
  let table = unsafe { std::slice::from_raw_parts(at as *const u8, size) }.to_vec();
  OUTCOME.with(|o| o.borrow_mut().table = Some(Hexed(table)));
}

// The functions of the guest.
extern "C" {
  fn __wasmrs_send(size: u32);
  fn __wasmrs_op_list_request();
}

fn guest(first: Arg, requests: Receiver<Arg>, answers: Sender<Outcome>) {
  HOST_SIZE.with(|s| *s.borrow_mut() = first.host as usize);
  wasmrs_guest::init(first.guest, first.host, first.host);
  handlers::register(first.handlers);
  unsafe { __wasmrs_op_list_request() };
  let outcome = || OUTCOME.with(|o| std::mem::take(&mut *o.borrow_mut()));
  answers.send(outcome()).expect("somebody waiting");
  while let Ok(arg) = requests.recv() {
    let data = arg.data.0;
    assert!(data.len() <= first.guest as usize, "the host writes beyond the buffer");
    let at = BUFFERS.with(|b| b.borrow().0) as *mut u8;
    unsafe {
      std::ptr::copy(data.as_ptr(), at, data.len());
      __wasmrs_send(data.len() as u32);
    }
    answers.send(outcome()).expect("somebody waiting");
  }
}

fn main() {
  // The guest's standard output is of no interest.
  let mut input = unsafe { File::from_raw_fd(3) };
  let mut output = unsafe { File::from_raw_fd(4) };
  let mut current: Option<(Sender<Arg>, Receiver<Outcome>)> = None;
  loop {
    let mut len = [0; 4];
    if input.read_exact(&mut len).is_err() {
      return;
    }
    let mut body = vec![0; u32::from_le_bytes(len) as usize];
    input.read_exact(&mut body).expect("a request");
    let request: Request = serde_json::from_slice(&body).expect("a request");
    if request.cmd == "new" {
      let (to, requests) = channel();
      let (answers, from) = channel();
      std::thread::spawn(move || {
        // There is no unwinding in a guest: a panic is the end.
        if std::panic::catch_unwind(move || guest(request.arg, requests, answers)).is_err() {
          std::process::abort();
        }
      });
      current = Some((to, from));
    } else {
      let (to, _) = current.as_ref().expect("a guest");
      to.send(request.arg).expect("a guest");
    }
    let outcome = current.as_ref().expect("a guest").1.recv().expect("an outcome");
    let body = serde_json::to_vec(&serde_json::json!({
      "value": outcome, "panics": [], "peak": 0,
    }))
    .expect("JSON");
    output.write_all(&(body.len() as u32).to_le_bytes()).expect("a reader");
    output.write_all(&body).expect("a reader");
  }
}
