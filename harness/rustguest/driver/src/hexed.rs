//! Byte strings, in hexadecimal in JSON.
use serde::{Deserialize, Deserializer, Serialize, Serializer};

#[derive(Default, Clone)]
pub struct Hexed(pub Vec<u8>);

impl Serialize for Hexed {
  fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
    s.serialize_str(&self.0.iter().map(|b| format!("{b:02x}")).collect::<String>())
  }
}

impl<'de> Deserialize<'de> for Hexed {
  fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let s = String::deserialize(d)?;
    let digit = |c: u8| (c as char).to_digit(16).expect("a hex digit") as u8;
    Ok(Hexed(s.as_bytes().chunks(2).map(|c| digit(c[0]) << 4 | digit(c[1])).collect()))
  }
}
