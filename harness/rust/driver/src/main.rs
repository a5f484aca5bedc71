//! Runs the Rust implementation on behalf of the checks: reads requests
//! (u32 length, JSON) from descriptor 3 and answers them on descriptor 4.
mod alloc;
mod flux;
mod frames;
mod socket;

use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::Mutex;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// Takes the panics there were since the last call.
pub fn panics() -> Vec<String> {
  std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner()))
}

#[derive(Deserialize)]
struct Request {
  cmd: String,
  arg: Value,
}

#[derive(Serialize)]
struct Answer {
  value: Value,
  panics: Vec<String>,
  peak: usize,
}

pub fn hex(b: &[u8]) -> String {
  let mut s = String::with_capacity(b.len() * 2);
  for x in b {
    s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
    s.push(char::from_digit((x & 15) as u32, 16).unwrap());
  }
  s
}

pub fn unhex(s: &str) -> Vec<u8> {
  let d = |c: u8| (c as char).to_digit(16).expect("a hex digit") as u8;
  s.as_bytes().chunks(2).map(|c| d(c[0]) << 4 | d(c[1])).collect()
}

fn main() {
  std::panic::set_hook(Box::new(|info| {
    let msg = info
      .payload()
      .downcast_ref::<&str>()
      .map(|s| s.to_string())
      .or_else(|| info.payload().downcast_ref::<String>().cloned())
      .unwrap_or_default();
    let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(format!("{msg} at {at}"));
  }));
  let mut input = unsafe { File::from_raw_fd(3) };
  let mut output = unsafe { File::from_raw_fd(4) };
  loop {
    let mut len = [0; 4];
    if input.read_exact(&mut len).is_err() {
      return;
    }
    let mut body = vec![0; u32::from_le_bytes(len) as usize];
    input.read_exact(&mut body).expect("a request");
    let request: Request = serde_json::from_slice(&body).expect("a request");
    drop(body);
    panics();
    let value = std::panic::catch_unwind(|| match request.cmd.as_str() {
      "encode" => frames::encode(request.arg),
      "decode" => frames::decode(request.arg),
      "read" => frames::read(request.arg),
      "ops" => frames::ops(request.arg),
      "decode_ops" => frames::decode_ops(request.arg),
      "flux" => flux::run(request.arg),
      "mono" => flux::mono(request.arg),
      "threads" => flux::threads(request.arg),
      "socket" => socket::run(request.arg),
      "peer" => socket::peer(request.arg),
      c => unimplemented!("command {c}"),
    })
    .unwrap_or(Value::Null);
    let answer = Answer { value, panics: panics(), peak: alloc::last_peak() };
    let body = serde_json::to_vec(&answer).expect("JSON");
    output.write_all(&(body.len() as u32).to_le_bytes()).expect("a reader");
    output.write_all(&body).expect("a reader");
  }
}
