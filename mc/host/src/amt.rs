use serde::{Deserialize, Deserializer, Serialize, Serializer};
/// a u128 that travels through JSON as a string
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct U(pub u128);
impl Serialize for U {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0.to_string())
    }
}
impl<'de> Deserialize<'de> for U {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<U, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map(U).map_err(serde::de::Error::custom)
    }
}
impl From<u128> for U {
    fn from(x: u128) -> U {
        U(x)
    }
}
