use serde::{de::Error as _, Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;
use std::ops::{Deref, DerefMut};

/// A map that can be (de)serialized with any format (as a sequence of pairs).
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct SerializableMap<K, V>(BTreeMap<K, V>);

impl<K: Ord, V> SerializableMap<K, V> {
    pub fn new() -> Self {
        Self(BTreeMap::new())
    }
}
impl<K, V> From<BTreeMap<K, V>> for SerializableMap<K, V> {
    fn from(m: BTreeMap<K, V>) -> Self {
        Self(m)
    }
}
impl<K, V> From<SerializableMap<K, V>> for BTreeMap<K, V> {
    fn from(m: SerializableMap<K, V>) -> Self {
        m.0
    }
}
impl<K, V> Deref for SerializableMap<K, V> {
    type Target = BTreeMap<K, V>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<K, V> DerefMut for SerializableMap<K, V> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl<K, V> IntoIterator for SerializableMap<K, V> {
    type Item = (K, V);
    type IntoIter = std::collections::btree_map::IntoIter<K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<K: Ord, V> FromIterator<(K, V)> for SerializableMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        Self(it.into_iter().collect())
    }
}
impl<K: Serialize, V: Serialize> Serialize for SerializableMap<K, V> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(self.0.iter())
    }
}
impl<'de, K: Ord + Deserialize<'de>, V: Deserialize<'de>> Deserialize<'de> for SerializableMap<K, V> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let pairs = Vec::<(K, V)>::deserialize(d)?;
        let mut map = BTreeMap::new();
        for (k, v) in pairs {
            if map.insert(k, v).is_some() {
                return Err(D::Error::custom("duplicate key in a serialized map"));
            }
        }
        Ok(Self(map))
    }
}
