//! A provider that emits exactly the data it is given.
use figment::value::{Dict, Map, Value};
use figment::{Error, Metadata, Profile, Provider};

#[derive(Clone)]
pub struct P { pub name: String, pub data: Map<Profile, Dict>, pub profile: Option<Profile>, pub fail: Option<String>, pub source: Option<figment::Source> }

pub fn p(name: &str) -> P { P { name: name.to_string(), data: Map::new(), profile: None, fail: None, source: None } }

impl P {
    /// add `value` under `key` (a single top-level key) in `profile`
    pub fn put<Q: Into<Profile>, V: Into<Value>>(mut self, profile: Q, key: &str, value: V) -> P {
        self.data.entry(profile.into()).or_insert_with(Dict::new).insert(key.to_string(), value.into());
        self
    }
    pub fn dict<Q: Into<Profile>>(mut self, profile: Q, d: Dict) -> P { self.data.insert(profile.into(), d); self }
    pub fn selects<Q: Into<Profile>>(mut self, profile: Q) -> P { self.profile = Some(profile.into()); self }
    pub fn fails(mut self, msg: &str) -> P { self.fail = Some(msg.to_string()); self }
    pub fn from_source<S: Into<figment::Source>>(mut self, s: S) -> P { self.source = Some(s.into()); self }
}

impl Provider for P {
    fn metadata(&self) -> Metadata {
        let m = Metadata::named(self.name.clone());
        match &self.source { Some(s) => m.source(s.clone()), None => m }
    }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> {
        match &self.fail { Some(m) => Err(Error::from(m.clone())), None => Ok(self.data.clone()) }
    }
    fn profile(&self) -> Option<Profile> { self.profile.clone() }
}
