//! What the contracts have published, in the form of the specification's events.
use crate::model::event;
use crate::world::{World, POOLS};
use soroban_env_host::xdr::{ContractEventBody, ContractEventType, ScAddress, ScMap, ScVal, ScVec};

struct Reader<'a> {
    w: &'a World,
    s: Vec<String>,
    n: Vec<i128>,
    /// fields that map addresses to numbers
    maps: Vec<(String, Vec<(String, i128)>)>,
}
impl<'a> Reader<'a> {
    fn name(&self, a: &ScAddress) -> String {
        self.w.sc.get(a).cloned().unwrap_or_else(|| "?".into())
    }
    fn value(&mut self, field: &str, v: &ScVal) {
        match v {
            ScVal::Address(a) => {
                let a = self.name(a);
                self.s.push(a)
            }
            ScVal::Bool(b) => self.n.push(*b as i128),
            ScVal::U32(x) => self.n.push(*x as i128),
            ScVal::I32(x) => self.n.push(*x as i128),
            ScVal::U64(x) => self.n.push(*x as i128),
            ScVal::I64(x) => self.n.push(*x as i128),
            ScVal::U128(x) => self.n.push(((x.hi as i128) << 64) | x.lo as i128),
            ScVal::I128(x) => self.n.push(((x.hi as i128) << 64) | x.lo as i128),
            ScVal::Vec(Some(ScVec(l))) => l.iter().for_each(|x| self.value("", x)),
            ScVal::Map(Some(ScMap(m))) => {
                if field != "" {
                    let l = m.iter().map(|e| {
                        let k = if let ScVal::Address(a) = &e.key { self.name(a) } else { "?".into() };
                        let x = if let ScVal::I128(x) = &e.val { ((x.hi as i128) << 64) | x.lo as i128 } else { 0 };
                        (k, x)
                    }).collect();
                    self.maps.push((field.to_string(), l));
                } else {
                    // a structure: its fields in the order of their names
                    for e in m.iter() {
                        let f = if let ScVal::Symbol(f) = &e.key { f.to_string() } else { "?".into() };
                        self.value(&f, &e.val);
                    }
                }
            }
            ScVal::Void => {}
            x => self.s.push(format!("{x:?}")),
        }
    }
}

impl World {
    /// everything published so far, in order
    pub fn events(&self) -> Vec<String> {
        let mut out = vec![];
        for e in self.env.host().get_events().unwrap().0 {
            if e.failed_call || e.event.type_ != ContractEventType::Contract {
                continue;
            }
            let ContractEventBody::V0(b) = &e.event.body;
            let c = match e.event.contract_id.as_ref().and_then(|h| self.sc.get(&ScAddress::Contract(h.clone()))) {
                Some(c) if POOLS.contains(&c.as_str()) || ["poolN", "backstop", "emitter", "factory"].contains(&c.as_str()) => c,
                _ => continue,
            };
            let mut r = Reader { w: self, s: vec![], n: vec![], maps: vec![] };
            let t = match b.topics.first() {
                Some(ScVal::Symbol(t)) => t.to_string(),
                x => format!("{x:?}").replace(' ', ""),
            };
            b.topics.iter().skip(1).for_each(|x| r.value("", x));
            r.value("", &b.data);
            out.push(event(c, &t, &r.s, &r.n));
            for (f, l) in r.maps {
                for (a, x) in l {
                    out.push(event(c, &format!("auction.{f}"), &[a], &[x]));
                }
            }
        }
        out
    }
}
