//! C08: loading documents into the caller's types. The types are drawn like everything else: what
//! they ask for, where they give up, stop or panic.
use crate::api::{cut, guard, tree_stream, with_hash_seed};
use crate::ctx::{fail, Ctx, R};
use crate::docp::{self, El, Ex, Key};
use crate::env::{inject_panic, lib, out, Panicked};
use crate::reader::{Plan, SimReader};
use crate::src::Src;
use crate::text::{show, Cfg, Out};
use ferrous_chloride::parser::block::Blocks;
use ferrous_chloride::parser::body::BodyElement;
use ferrous_chloride::serde::de::body::{from_str, Deserializer as BodyDe};
use serde::de::{self, DeserializeSeed, Deserialize, Deserializer, EnumAccess, MapAccess, SeqAccess, Visitor};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::sync::Arc;

/// What arrived. Maps are kept in key order.
#[derive(Clone, Debug)]
pub enum Cap {
    Unit,
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    Seq(Vec<Cap>),
    Map(Vec<(String, Cap)>),
    None,
    Some(Box<Cap>),
    New(Box<Cap>),
    Ignored,
    Gone,
    /// Only expected, never captured: so many of these entries
    Part(usize, Vec<(String, Cap)>),
}

impl PartialEq for Cap {
    fn eq(&self, o: &Cap) -> bool {
        use Cap::*;
        match (self, o) {
            (Unit, Unit) | (None, None) | (Ignored, Ignored) | (Gone, Gone) => true,
            (Bool(a), Bool(b)) => a == b,
            (Int(a), Int(b)) => a == b,
            (Float(a), Float(b)) => a.to_bits() == b.to_bits(),
            (Str(a), Str(b)) => a == b,
            (Seq(a), Seq(b)) => a == b,
            (Map(a), Map(b)) => a == b,
            (Some(a), Some(b)) | (New(a), New(b)) => a == b,
            (Part(n, a), Map(b)) => b.len() == a.len().min(*n) && b.iter().all(|x| a.contains(x)),
            _ => false,
        }
    }
}

/// What a type asks for
#[derive(Clone, Debug)]
pub enum Want {
    Any,
    Bool,
    I8,
    I16,
    I32,
    I64,
    I128,
    U128,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
    Str,
    Char,
    Unit,
    Opt(Box<Want>),
    New(Box<Want>),
    Vec(Box<Want>),
    Tup(Vec<Want>),
    TupStruct(Vec<Want>),
    Map(Box<Want>),
    /// Fields by name; the others are ignored; missing ones are an error unless optional
    Struct(Vec<(String, Want)>),
    Ignore,
    /// A sequence of which only so many elements are taken
    Take(usize, Box<Want>),
    /// A map of which only so many entries are taken
    TakeMap(usize, Box<Want>),
    Fail(u64),
    Panic(u64),
    Enum,
}

thread_local! {
    // what a derived type would have as constants
    static FIELDS: RefCell<Vec<(Box<[&'static str]>, Vec<Box<str>>)>> = const { RefCell::new(Vec::new()) };
}

/// The names of the fields, until the next run on this thread
fn fields(f: &[(String, Want)]) -> &'static [&'static str] {
    out(|| {
        let names: Vec<Box<str>> = f.iter().map(|x| x.0.clone().into_boxed_str()).collect();
        // both stay where they are until `forget_fields`, when nothing uses them any more
        let list: Box<[&'static str]> = names.iter().map(|n| unsafe { &*(&**n as *const str) }).collect();
        let r: &'static [&'static str] = unsafe { &*(&*list as *const [&'static str]) };
        FIELDS.with(|x| x.borrow_mut().push((list, names)));
        r
    })
}
fn forget_fields() {
    FIELDS.with(|x| x.borrow_mut().clear());
}

struct Seed<'w>(&'w Want);

/// Called whenever a receiving type is reached; C09 nests calls here
pub type OnVisit = std::rc::Rc<dyn Fn()>;
thread_local! {
    static ON_VISIT: RefCell<Option<OnVisit>> = const { RefCell::new(None) };
}
pub fn on_visit(f: Option<OnVisit>) -> Option<OnVisit> {
    ON_VISIT.with(|x| x.replace(f))
}
fn visited() {
    out(|| {
        if let Some(f) = ON_VISIT.with(|x| x.borrow().clone()) {
            f()
        }
    })
}

thread_local! {
    static WANT: RefCell<Option<Want>> = const { RefCell::new(None) };
    static FIRED: RefCell<(u64, u64)> = const { RefCell::new((0, 0)) };
}

/// The type failed or panicked
fn fired() {
    out(|| FIRED.with(|f| f.borrow_mut().0 += 1));
}
/// The type took no more
fn stopped() {
    out(|| FIRED.with(|f| f.borrow_mut().1 += 1));
}

fn cap_prim<'de, T: Deserialize<'de>, D: Deserializer<'de>>(d: D, f: impl FnOnce(T) -> Cap) -> Result<Cap, D::Error> {
    T::deserialize(d).map(f)
}

impl<'de, 'w> DeserializeSeed<'de> for Seed<'w> {
    type Value = Cap;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Cap, D::Error> {
        visited();
        match self.0 {
            Want::Any => d.deserialize_any(AnyV),
            Want::Bool => cap_prim::<bool, _>(d, Cap::Bool),
            Want::I8 => cap_prim::<i8, _>(d, |v| Cap::Int(v.into())),
            Want::I16 => cap_prim::<i16, _>(d, |v| Cap::Int(v.into())),
            Want::I32 => cap_prim::<i32, _>(d, |v| Cap::Int(v.into())),
            Want::I64 => cap_prim::<i64, _>(d, |v| Cap::Int(v.into())),
            Want::I128 => cap_prim::<i128, _>(d, Cap::Int),
            Want::U128 => cap_prim::<u128, _>(d, |v| Cap::Int(v as i128)),
            Want::U8 => cap_prim::<u8, _>(d, |v| Cap::Int(v.into())),
            Want::U16 => cap_prim::<u16, _>(d, |v| Cap::Int(v.into())),
            Want::U32 => cap_prim::<u32, _>(d, |v| Cap::Int(v.into())),
            Want::U64 => cap_prim::<u64, _>(d, |v| Cap::Int(v.into())),
            Want::F32 => cap_prim::<f32, _>(d, |v| Cap::Float(v.into())),
            Want::F64 => cap_prim::<f64, _>(d, Cap::Float),
            Want::Str => cap_prim::<String, _>(d, Cap::Str),
            Want::Char => cap_prim::<char, _>(d, |v| Cap::Str(v.to_string())),
            Want::Unit => cap_prim::<(), _>(d, |_| Cap::Unit),
            Want::Ignore => cap_prim::<de::IgnoredAny, _>(d, |_| Cap::Ignored),
            Want::Opt(w) => d.deserialize_option(OptV(w)),
            Want::New(w) => d.deserialize_newtype_struct("N", NewV(w)),
            Want::Vec(w) => d.deserialize_seq(SeqV { each: Some(w), items: &[], take: None }),
            Want::Take(n, w) => d.deserialize_seq(SeqV { each: Some(w), items: &[], take: Some(*n) }),
            Want::Tup(w) => d.deserialize_tuple(w.len(), SeqV { each: None, items: w, take: None }),
            Want::TupStruct(w) => d.deserialize_tuple_struct("T", w.len(), SeqV { each: None, items: w, take: None }),
            Want::Map(w) => d.deserialize_map(MapV { each: Some(w), fields: &[], take: None }),
            Want::TakeMap(n, w) => d.deserialize_map(MapV { each: Some(w), fields: &[], take: Some(*n) }),
            Want::Struct(f) => d.deserialize_struct("S", fields(f), MapV { each: None, fields: f, take: None }),
            Want::Fail(id) => {
                fired();
                Err(de::Error::custom(failure(*id)))
            }
            Want::Panic(id) => {
                fired();
                inject_panic(*id)
            }
            Want::Enum => d.deserialize_enum("E", &["a", "b"], EnumV),
        }
    }
}

/// What a type that fails says
fn failure(id: u64) -> String {
    match id % 5 {
        0 => format!("injected failure {}:\n  \"é\" is not\n\tknown\n", id),
        1 => format!("  injected failure {}{}", id, " and so on".repeat(id as usize % 300)),
        _ => format!("injected failure {}", id),
    }
}

struct AnyV;
macro_rules! int {
    ($n:ident, $t:ty) => {
        fn $n<E>(self, v: $t) -> Result<Cap, E> {
            Ok(Cap::Int(v as i128))
        }
    };
}
impl<'de> Visitor<'de> for AnyV {
    type Value = Cap;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    int!(visit_i8, i8);
    int!(visit_i16, i16);
    int!(visit_i32, i32);
    int!(visit_i64, i64);
    int!(visit_i128, i128);
    int!(visit_u8, u8);
    int!(visit_u16, u16);
    int!(visit_u32, u32);
    int!(visit_u64, u64);
    fn visit_bool<E>(self, v: bool) -> Result<Cap, E> {
        Ok(Cap::Bool(v))
    }
    fn visit_f32<E>(self, v: f32) -> Result<Cap, E> {
        Ok(Cap::Float(v.into()))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Cap, E> {
        Ok(Cap::Float(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<Cap, E> {
        Ok(Cap::Str(v.to_string()))
    }
    fn visit_unit<E>(self) -> Result<Cap, E> {
        Ok(Cap::Unit)
    }
    fn visit_none<E>(self) -> Result<Cap, E> {
        Ok(Cap::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Cap, D::Error> {
        Seed(&Want::Any).deserialize(d).map(|c| Cap::Some(Box::new(c)))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Cap, D::Error> {
        Seed(&Want::Any).deserialize(d).map(|c| Cap::New(Box::new(c)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Cap, A::Error> {
        SeqV { each: Some(&Want::Any), items: &[], take: None }.visit_seq(a)
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Cap, A::Error> {
        MapV { each: Some(&Want::Any), fields: &[], take: None }.visit_map(a)
    }
}

struct OptV<'w>(&'w Want);
impl<'de, 'w> Visitor<'de> for OptV<'w> {
    type Value = Cap;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("option")
    }
    fn visit_unit<E>(self) -> Result<Cap, E> {
        Ok(Cap::None)
    }
    fn visit_none<E>(self) -> Result<Cap, E> {
        Ok(Cap::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Cap, D::Error> {
        Seed(self.0).deserialize(d).map(|c| Cap::Some(Box::new(c)))
    }
}

struct NewV<'w>(&'w Want);
impl<'de, 'w> Visitor<'de> for NewV<'w> {
    type Value = Cap;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("newtype")
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Cap, D::Error> {
        Seed(self.0).deserialize(d).map(|c| Cap::New(Box::new(c)))
    }
    // as derived types have it
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Cap, A::Error> {
        match a.next_element_seed(Seed(self.0))? {
            Some(c) => Ok(Cap::New(Box::new(c))),
            None => Err(de::Error::invalid_length(0, &self)),
        }
    }
}

/// How many elements were said to remain before each one and at the end
fn judge_hints<E: de::Error>(h: &[Option<usize>]) -> Result<(), E> {
    let n = h.len();
    match h.iter().enumerate().find(|(i, h)| h.map_or(false, |h| h != n - 1 - i)) {
        Some((i, h)) => Err(E::custom(format!("HINT: {:?} of {} elements are said to remain behind {}", h, n - 1, i))),
        None => Ok(()),
    }
}

struct SeqV<'w> {
    each: Option<&'w Want>,
    items: &'w [Want],
    take: Option<usize>,
}
impl<'de, 'w> Visitor<'de> for SeqV<'w> {
    type Value = Cap;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("sequence")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Cap, A::Error> {
        let mut v = Vec::new();
        let mut hints = Vec::new();
        match self.each {
            Some(w) => loop {
                hints.push(a.size_hint());
                if self.take == Some(v.len()) {
                    stopped();
                    return Ok(Cap::Seq(v));
                }
                match a.next_element_seed(Seed(w))? {
                    Some(c) => v.push(c),
                    None => {
                        judge_hints(&hints)?;
                        break;
                    }
                }
            },
            None => {
                for (i, w) in self.items.iter().enumerate() {
                    match a.next_element_seed(Seed(w))? {
                        Some(c) => v.push(c),
                        None => return Err(de::Error::invalid_length(i, &self)),
                    }
                }
            }
        }
        Ok(Cap::Seq(v))
    }
}

struct MapV<'w> {
    each: Option<&'w Want>,
    fields: &'w [(String, Want)],
    take: Option<usize>,
}
impl<'de, 'w> Visitor<'de> for MapV<'w> {
    type Value = Cap;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("map")
    }
    // as derived types have it
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Cap, A::Error> {
        if self.each.is_some() {
            return Err(de::Error::invalid_type(de::Unexpected::Seq, &self));
        }
        let mut v = Vec::new();
        for (i, (k, w)) in self.fields.iter().enumerate() {
            match a.next_element_seed(Seed(w))? {
                Some(c) => v.push((k.clone(), c)),
                None => return Err(de::Error::invalid_length(i, &self)),
            }
        }
        v.sort_by(|a, b| a.0.cmp(&b.0));
        Ok(Cap::Map(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Cap, A::Error> {
        let mut v: Vec<(String, Cap)> = Vec::new();
        let mut n = 0;
        let mut hints = Vec::new();
        loop {
            hints.push(a.size_hint());
            if self.take == Some(n) {
                stopped();
                break;
            }
            let k = match a.next_key::<String>()? {
                Some(k) => k,
                None => {
                    judge_hints(&hints)?;
                    break;
                }
            };
            n += 1;
            if out(|| v.iter().any(|x| x.0 == k)) {
                return Err(de::Error::custom("TWICE: a name is handed over twice"));
            }
            match self.each {
                Some(w) => {
                    let c = a.next_value_seed(Seed(w))?;
                    v.push((k, c));
                }
                None => match self.fields.iter().find(|f| f.0 == k) {
                    Some((_, w)) => {
                        let c = a.next_value_seed(Seed(w))?;
                        v.push((k, c));
                    }
                    None => {
                        a.next_value::<de::IgnoredAny>()?;
                    }
                },
            }
        }
        for (k, w) in self.fields {
            if !out(|| v.iter().any(|x| x.0 == *k)) {
                match w {
                    Want::Opt(_) => v.push((k.clone(), Cap::None)),
                    _ => return Err(de::Error::custom(format!("missing field {}", k))),
                }
            }
        }
        v.sort_by(|a, b| a.0.cmp(&b.0));
        Ok(Cap::Map(v))
    }
}

struct EnumV;
impl<'de> Visitor<'de> for EnumV {
    type Value = Cap;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("enum")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Cap, A::Error> {
        let (k, _) = a.variant::<String>()?;
        Ok(Cap::Str(k))
    }
}

/// A type whose wishes are drawn at run time
struct Dyn(Cap);
impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Dyn, D::Error> {
        let w = out(|| WANT.with(|w| w.borrow().clone()).unwrap_or(Want::Any));
        Seed(&w).deserialize(d).map(Dyn)
    }
}

pub struct Free(pub Cap);
impl<'de> Deserialize<'de> for Free {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Free, D::Error> {
        d.deserialize_any(AnyV).map(Free)
    }
}

/// Load anything
pub fn load(t: &str) -> Result<Result<Cap, String>, Panicked> {
    lib(|| from_str::<Free>(t).map(|f| f.0).map_err(|e| format!("{}", e)))
}

// ---------------------------------------------------------------------------------------------
// What must come out

/// What the type must be given
#[derive(Clone, Debug)]
enum Exp {
    Val(Cap),
    /// This, or an error
    Maybe(Cap),
    Err,
    /// Either is right: an error that is only found if someone looks
    Any,
}

/// Which entries a document's names lead to
enum Entry<'e> {
    Ex(&'e Ex),
    Bodies(Vec<&'e [El]>),
}

fn all(v: Vec<Exp>, f: impl FnOnce(Vec<Cap>) -> Cap) -> Exp {
    if v.iter().any(|e| matches!(e, Exp::Err)) {
        return Exp::Err;
    }
    if v.iter().any(|e| matches!(e, Exp::Any)) {
        return Exp::Any;
    }
    let maybe = v.iter().any(|e| matches!(e, Exp::Maybe(_)));
    let c = f(v.into_iter()
        .map(|e| match e {
            Exp::Val(c) | Exp::Maybe(c) => c,
            _ => unreachable!(),
        })
        .collect());
    if maybe {
        Exp::Maybe(c)
    } else {
        Exp::Val(c)
    }
}

/// The same, but an error is as good
fn perhaps(e: Exp) -> Exp {
    match e {
        Exp::Val(c) => Exp::Maybe(c),
        e => e,
    }
}

/// What a struct makes of a sequence: one element for every field, or an error
fn positional(f: &[(String, Want)], v: Vec<Exp>) -> Exp {
    if v.len() != f.len() {
        return Exp::Err;
    }
    perhaps(all(v, |v| {
        let mut m: Vec<_> = f.iter().map(|x| x.0.clone()).zip(v).collect();
        m.sort_by(|a, b| a.0.cmp(&b.0));
        Cap::Map(m)
    }))
}

fn num(t: &str) -> Result<Result<i128, f64>, ()> {
    if t.contains(|c| c == '.' || c == 'e' || c == 'E') {
        return t.parse::<f64>().map(Err).map_err(|_| ());
    }
    let d = t.trim_start_matches(|c| c == '+' || c == '-');
    let v: i128 = d.parse().map_err(|_| ())?;
    let v = if t.starts_with('-') { -v } else { v };
    if v < i64::MIN as i128 || v > u64::MAX as i128 {
        return Err(());
    }
    Ok(Ok(v))
}

/// A whole number with more than 64 bits as a type that may hold it
fn wide<T: std::str::FromStr>(e: &Ex) -> Option<T> {
    match e {
        Ex::Num(t) if num(t).is_err() => t.parse().ok(),
        _ => None,
    }
}

fn ex(e: &Ex, w: &Want) -> Exp {
    let int = |lo: i128, hi: i128| match e {
        Ex::Num(t) => match num(t) {
            Ok(Ok(v)) if v >= lo && v <= hi => Exp::Val(Cap::Int(v)),
            _ => Exp::Err,
        },
        _ => Exp::Err,
    };
    match w {
        Want::Fail(_) | Want::Panic(_) => Exp::Err,
        Want::Enum => Exp::Any,
        Want::Ignore => match ex(e, &Want::Any) {
            Exp::Val(_) => Exp::Val(Cap::Ignored),
            _ => Exp::Any,
        },
        Want::Opt(w) => match e {
            Ex::Null => Exp::Val(Cap::None),
            e => all(vec![ex(e, w)], |mut v| Cap::Some(Box::new(v.remove(0)))),
        },
        Want::New(w) => all(vec![ex(e, w)], |mut v| Cap::New(Box::new(v.remove(0)))),
        Want::Any => match e {
            Ex::Null => Exp::Val(Cap::Unit),
            Ex::Bool(b) => Exp::Val(Cap::Bool(*b)),
            Ex::Str(s) => Exp::Val(Cap::Str(s.clone())),
            Ex::Num(t) => match num(t) {
                Ok(Ok(v)) => Exp::Val(Cap::Int(v)),
                Ok(Err(f)) => Exp::Val(Cap::Float(f)),
                Err(()) => Exp::Err,
            },
            Ex::Tuple(_) => ex(e, &Want::Vec(Box::new(Want::Any))),
            Ex::Obj(_) => ex(e, &Want::Map(Box::new(Want::Any))),
        },
        Want::Bool => match e {
            Ex::Bool(b) => Exp::Val(Cap::Bool(*b)),
            _ => Exp::Err,
        },
        Want::I8 => int(i8::MIN.into(), i8::MAX.into()),
        Want::I16 => int(i16::MIN.into(), i16::MAX.into()),
        Want::I32 => int(i32::MIN.into(), i32::MAX.into()),
        Want::I64 => int(i64::MIN.into(), i64::MAX.into()),
        Want::I128 => wide(e).map_or_else(|| int(i128::MIN, i128::MAX), |v| Exp::Val(Cap::Int(v))),
        // kept as the same bits
        Want::U128 => wide::<u128>(e).map_or_else(|| int(0, i128::MAX), |v| Exp::Val(Cap::Int(v as i128))),
        Want::U8 => int(0, u8::MAX.into()),
        Want::U16 => int(0, u16::MAX.into()),
        Want::U32 => int(0, u32::MAX.into()),
        Want::U64 => int(0, u64::MAX.into()),
        Want::F32 | Want::F64 => match e {
            Ex::Num(t) => {
                let single = matches!(w, Want::F32);
                match num(t) {
                    Ok(Ok(v)) => Exp::Val(Cap::Float(if single {
                        if v > i64::MAX as i128 { (v as u64 as f32).into() } else { (v as i64 as f32).into() }
                    } else if v > i64::MAX as i128 {
                        v as u64 as f64
                    } else {
                        v as i64 as f64
                    })),
                    Ok(Err(f)) => Exp::Val(Cap::Float(if single { (f as f32).into() } else { f })),
                    Err(()) if single => Exp::Val(Cap::Float(t.parse::<f32>().map_or(f64::NAN, f64::from))),
                    Err(()) => Exp::Val(Cap::Float(t.parse().unwrap_or(f64::NAN))),
                }
            }
            _ => Exp::Err,
        },
        Want::Str => match e {
            Ex::Str(s) => Exp::Val(Cap::Str(s.clone())),
            _ => Exp::Err,
        },
        Want::Char => match e {
            Ex::Str(s) if s.chars().count() == 1 => Exp::Val(Cap::Str(s.clone())),
            _ => Exp::Err,
        },
        Want::Unit => match e {
            Ex::Null => Exp::Val(Cap::Unit),
            _ => Exp::Err,
        },
        Want::Vec(w) => match e {
            Ex::Tuple(v) => all(v.iter().map(|e| ex(e, w)).collect(), Cap::Seq),
            _ => Exp::Err,
        },
        Want::Take(n, w) => match e {
            Ex::Tuple(v) => {
                let rest = v.iter().skip(*n).any(|e| !matches!(ex(e, &Want::Any), Exp::Val(_)));
                let r = all(v.iter().take(*n).map(|e| ex(e, w)).collect(), Cap::Seq);
                match r {
                    r if rest => perhaps(r),
                    r => r,
                }
            }
            _ => Exp::Err,
        },
        Want::Tup(ws) | Want::TupStruct(ws) => match e {
            Ex::Tuple(v) if v.len() == ws.len() => {
                all(v.iter().zip(ws).map(|(e, w)| ex(e, w)).collect(), Cap::Seq)
            }
            _ => Exp::Err,
        },
        Want::Map(_) | Want::Struct(_) | Want::TakeMap(..) => match e {
            Ex::Obj(v) => {
                let mut bad = false;
                let mut es: Vec<(String, Entry)> = Vec::new();
                for (k, e) in v {
                    match k {
                        Key::Raw(_) => bad = true,
                        Key::Id(k) => {
                            bad |= es.iter().any(|x| x.0 == *k);
                            es.push((k.clone(), Entry::Ex(e)));
                        }
                    }
                }
                map(es, bad, w, false)
            }
            Ex::Tuple(v) => match w {
                Want::Struct(f) if f.len() == v.len() => positional(f, v.iter().zip(f).map(|(e, f)| ex(e, &f.1)).collect()),
                _ => Exp::Err,
            },
            _ => Exp::Err,
        },
    }
}

fn map(es: Vec<(String, Entry)>, bad: bool, w: &Want, body: bool) -> Exp {
    match w {
        Want::TakeMap(..) if bad => return Exp::Any,
        Want::TakeMap(n, w) => {
            let part = |c: Vec<Cap>| es.iter().map(|e| e.0.clone()).zip(c).collect::<Vec<_>>();
            if body {
                // in no particular order
                return match all(es.iter().map(|e| entry(&e.1, w)).collect(), |c| Cap::Part(*n, part(c))) {
                    Exp::Err | Exp::Maybe(_) => Exp::Any,
                    r => r,
                };
            }
            let rest = es.iter().skip(*n).any(|e| !matches!(entry(&e.1, &Want::Any), Exp::Val(_)));
            let r = all(es.iter().take(*n).map(|e| entry(&e.1, w)).collect(), |c| Cap::Part(*n, part(c)));
            return if rest { perhaps(r) } else { r };
        }
        _ if bad => return Exp::Err,
        _ => {}
    }
    let mut keys = Vec::new();
    let mut vals = Vec::new();
    let mut maybe = false;
    for (k, e) in &es {
        let w = match w {
            Want::Map(w) => Some(&**w),
            Want::Struct(f) => f.iter().find(|x| x.0 == *k).map(|x| &x.1),
            _ => unreachable!(),
        };
        match w {
            Some(w) => {
                keys.push(k.clone());
                vals.push(entry(e, w));
            }
            None => maybe |= !matches!(entry(e, &Want::Any), Exp::Val(_)),
        }
    }
    if let Want::Struct(f) = w {
        for (k, w) in f {
            if !keys.contains(k) {
                keys.push(k.clone());
                vals.push(match w {
                    Want::Opt(_) => Exp::Val(Cap::None),
                    _ => Exp::Err,
                });
            }
        }
    }
    let r = all(vals, |v| {
        let mut m: Vec<_> = keys.into_iter().zip(v).collect();
        m.sort_by(|a, b| a.0.cmp(&b.0));
        Cap::Map(m)
    });
    if maybe {
        perhaps(r)
    } else {
        r
    }
}

fn entry(e: &Entry, w: &Want) -> Exp {
    match e {
        Entry::Ex(e) => ex(e, w),
        Entry::Bodies(b) => bodies(b, w),
    }
}

/// Unlabelled blocks of one type
fn bodies(b: &[&[El]], w: &Want) -> Exp {
    match w {
        Want::Fail(_) | Want::Panic(_) => Exp::Err,
        Want::Any if b.len() == 1 => body(b[0], w),
        Want::Any | Want::Vec(_) => {
            let each = match w {
                Want::Vec(w) => w,
                w => w,
            };
            all(b.iter().map(|b| body(b, each)).collect(), Cap::Seq)
        }
        Want::Take(n, w) => {
            let rest = b.iter().skip(*n).any(|b| !matches!(body(b, &Want::Any), Exp::Val(_)));
            match all(b.iter().take(*n).map(|b| body(b, w)).collect(), Cap::Seq) {
                r if rest => perhaps(r),
                r => r,
            }
        }
        Want::Opt(w) => all(vec![bodies(b, w)], |mut v| Cap::Some(Box::new(v.remove(0)))),
        Want::Map(_) | Want::Struct(_) if b.len() == 1 => body(b[0], w),
        Want::TakeMap(..) if b.len() == 1 => body(b[0], w),
        Want::TakeMap(..) => Exp::Any,
        Want::Ignore => match bodies(b, &Want::Any) {
            Exp::Val(_) => Exp::Val(Cap::Ignored),
            _ => Exp::Any,
        },
        // not what blocks must become: never the wrong data, at most an error
        Want::New(w) => perhaps(all(vec![bodies(b, w)], |mut v| Cap::New(Box::new(v.remove(0))))),
        Want::Tup(ws) | Want::TupStruct(ws) if ws.len() == b.len() => {
            perhaps(all(b.iter().zip(ws).map(|(b, w)| body(b, w)).collect(), Cap::Seq))
        }
        Want::Struct(f) if f.len() == b.len() => positional(f, b.iter().zip(f).map(|(b, f)| body(b, &f.1)).collect()),
        Want::Enum => Exp::Any,
        _ => Exp::Err,
    }
}

fn body(b: &[El], w: &Want) -> Exp {
    match w {
        Want::Fail(_) | Want::Panic(_) => return Exp::Err,
        Want::Any => return body(b, &Want::Map(Box::new(Want::Any))),
        Want::Map(_) | Want::Struct(_) | Want::TakeMap(..) => {}
        Want::Ignore => {
            return match body(b, &Want::Any) {
                Exp::Val(_) => Exp::Val(Cap::Ignored),
                _ => Exp::Any,
            }
        }
        Want::Enum => return Exp::Any,
        Want::New(w) => return perhaps(all(vec![body(b, w)], |mut v| Cap::New(Box::new(v.remove(0))))),
        Want::Opt(w) => return perhaps(all(vec![body(b, w)], |mut v| Cap::Some(Box::new(v.remove(0))))),
        _ => return Exp::Err,
    }
    let mut bad = false;
    let mut es: Vec<(String, Entry)> = Vec::new();
    for e in b {
        match e {
            El::Attr(n, x) => {
                bad |= es.iter().any(|y| y.0 == *n);
                es.push((n.clone(), Entry::Ex(x)));
            }
            El::Block { ty, labels, body } => {
                match es.iter_mut().find(|y| y.0 == *ty) {
                    Some((_, Entry::Bodies(v))) => v.push(body),
                    Some(_) => bad = true,
                    None => es.push((ty.clone(), Entry::Bodies(vec![body]))),
                }
                // labelled blocks are not supported, wherever a type looks at them
                bad |= !labels.is_empty() && !matches!(w, Want::Struct(_));
            }
        }
    }
    // only looked at if a field asks for it
    let labelled = |t: &str| b.iter().any(|e| matches!(e, El::Block { ty, labels, .. } if ty == t && !labels.is_empty()));
    if let Want::Struct(f) = w {
        for e in b {
            if let El::Block { ty, .. } = e {
                if labelled(ty) && !bad {
                    return match f.iter().find(|x| x.0 == *ty).map(|x| &x.1) {
                        None | Some(Want::Ignore) | Some(Want::Enum) | Some(Want::TakeMap(..)) => Exp::Any,
                        Some(_) => Exp::Err,
                    };
                }
            }
        }
    }
    map(es, bad, w, true)
}

// ---------------------------------------------------------------------------------------------
// What types ask for: mostly what is there

fn want_ex(s: &Src, e: &Ex, depth: usize) -> Want {
    if s.chance(1, 6) {
        return Want::Any;
    }
    if s.chance(1, 24) {
        return wrong(s);
    }
    if depth < 6 && s.chance(1, 8) {
        let w = Box::new(want_ex(s, e, depth + 1));
        return if s.chance(1, 2) { Want::Opt(w) } else { Want::New(w) };
    }
    match e {
        Ex::Null => s.pick(&[Want::Unit, Want::Opt(Box::new(Want::Any)), Want::Ignore]).clone(),
        Ex::Bool(_) => Want::Bool,
        Ex::Str(t) => {
            if t.chars().count() == 1 && s.chance(1, 2) {
                Want::Char
            } else {
                Want::Str
            }
        }
        Ex::Num(_) => s
            .pick(&[
                Want::I64,
                Want::U64,
                Want::F64,
                Want::I128,
                Want::U128,
                Want::I32,
                Want::U32,
                Want::I16,
                Want::U16,
                Want::I8,
                Want::U8,
                Want::F32,
            ])
            .clone(),
        Ex::Tuple(v) => match s.below(6) {
            0 | 1 => Want::Vec(Box::new(v.first().map_or(Want::Any, |e| want_ex(s, e, depth + 1)))),
            2 => Want::Take(s.usize(v.len() + 2), Box::new(Want::Any)),
            k => {
                let mut w: Vec<Want> = v.iter().map(|e| want_ex(s, e, depth + 1)).collect();
                if s.chance(1, 6) {
                    // or nothing else may be wrong
                    if s.chance(1, 2) {
                        w = vec![Want::Any; v.len()];
                    }
                    if s.chance(1, 2) {
                        w.push(Want::Any);
                    } else {
                        w.truncate(w.len().saturating_sub(1 + s.small(2)));
                    }
                }
                if s.chance(1, 6) {
                    Want::Struct(w.into_iter().enumerate().map(|(i, w)| (format!("f{}", i), w)).collect())
                } else if k < 5 {
                    Want::Tup(w)
                } else {
                    Want::TupStruct(w)
                }
            }
        },
        Ex::Obj(v) => match s.below(4) {
            0 => Want::Map(Box::new(v.first().map_or(Want::Any, |e| want_ex(s, &e.1, depth + 1)))),
            1 => Want::TakeMap(s.usize(v.len() + 2), Box::new(Want::Any)),
            _ => {
                let mut f: Vec<(String, Want)> = Vec::new();
                for (k, e) in v {
                    if let Key::Id(k) = k {
                        if !f.iter().any(|x| x.0 == *k) && !s.chance(1, 8) {
                            f.push((k.clone(), want_ex(s, e, depth + 1)));
                        }
                    }
                }
                extra_field(s, &mut f);
                Want::Struct(f)
            }
        },
    }
}

fn extra_field(s: &Src, f: &mut Vec<(String, Want)>) {
    if s.chance(1, 8) && !f.iter().any(|x| x.0 == "missing") {
        f.push(("missing".into(), if s.chance(2, 3) { Want::Opt(Box::new(Want::Str)) } else { Want::Str }));
    }
}

/// Something else than what is there
fn wrong(s: &Src) -> Want {
    let any = || Box::new(Want::Any);
    match s.below(16) {
        0 => Want::Bool,
        1 => Want::I8,
        2 => Want::U64,
        3 => Want::F64,
        4 => Want::Str,
        5 => Want::Char,
        6 => Want::Unit,
        7 => Want::Ignore,
        8 => Want::Enum,
        9 => Want::Vec(any()),
        10 => Want::Map(any()),
        11 => Want::Take(s.usize(3), any()),
        12 => Want::TakeMap(s.usize(3), any()),
        13 => Want::Struct((0..s.usize(4)).map(|i| (format!("f{}", i), Want::Any)).collect()),
        14 => Want::Tup(vec![Want::Any; s.usize(4)]),
        _ => Want::TupStruct(vec![Want::Any; s.usize(4)]),
    }
}

fn want_body(s: &Src, b: &[El], depth: usize) -> Want {
    match s.below(6) {
        0 => return Want::Any,
        1 => return Want::Map(Box::new(Want::Any)),
        2 if s.chance(1, 3) => return Want::TakeMap(s.usize(b.len() + 1), Box::new(Want::Any)),
        _ => {}
    }
    let mut f: Vec<(String, Want)> = Vec::new();
    for e in b {
        let (k, w) = match e {
            El::Attr(k, e) => (k, want_ex(s, e, depth + 1)),
            El::Block { ty, body, .. } => {
                let inner = want_body(s, body, depth + 1);
                let n = b.iter().filter(|x| matches!(x, El::Block { ty: t, .. } if t == ty)).count();
                let w = match s.below(11) {
                    8 => Want::New(Box::new(if n == 1 || s.chance(1, 2) { inner } else { Want::Vec(Box::new(Want::Any)) })),
                    9 => wrong(s),
                    10 => {
                        let k = if s.chance(1, 2) { n } else { s.usize(n + 2) };
                        let mut v = vec![Want::Any; k];
                        if k > 0 {
                            v[0] = inner;
                        }
                        match s.below(3) {
                            0 => Want::Tup(v),
                            1 => Want::TupStruct(v),
                            _ => Want::Struct(v.into_iter().enumerate().map(|(i, w)| (format!("f{}", i), w)).collect()),
                        }
                    }
                    0 => Want::Any,
                    1 => Want::Ignore,
                    2 => Want::Take(s.usize(n + 1), Box::new(inner)),
                    3 | 4 if n == 1 => inner,
                    _ => Want::Vec(Box::new(if n == 1 { inner } else { Want::Any })),
                };
                (ty, if s.chance(1, 6) { Want::Opt(Box::new(w)) } else { w })
            }
        };
        if !f.iter().any(|x| x.0 == *k) && !s.chance(1, 10) {
            f.push((k.clone(), w));
        }
    }
    extra_field(s, &mut f);
    Want::Struct(f)
}

/// Make the type fail or panic at one of its places
fn break_at(s: &Src, w: &mut Want, how: Want) {
    let go = s.chance(3, 4);
    match w {
        Want::Opt(x) | Want::New(x) | Want::Vec(x) | Want::Map(x) if go => break_at(s, x, how),
        Want::Tup(v) | Want::TupStruct(v) if go && !v.is_empty() => {
            let i = s.usize(v.len());
            break_at(s, &mut v[i], how)
        }
        Want::Struct(f) if go && !f.is_empty() => {
            let i = s.usize(f.len());
            break_at(s, &mut f[i].1, how)
        }
        w => *w = how,
    }
}

fn judge(what: &str, exp: &Exp, broken: Option<&Want>, fired: bool, got: Result<Result<Cap, String>, Panicked>) -> R {
    match (exp, broken, got) {
        (_, Some(Want::Panic(a)), Err(Panicked::Injected(b))) if *a == b => Ok(()),
        (_, _, Err(p)) => fail("panic", format!("{} panics: {:?}", what, p)),
        (_, Some(Want::Panic(_)), Ok(Ok(c))) if fired => fail(
            "swallowed",
            format!("{} gives {} although the type panicked", what, cut(&format!("{:?}", c), 200)),
        ),
        (_, Some(Want::Fail(id)), Ok(Ok(c))) if fired => fail(
            "swallowed",
            format!("{} gives {} although the type failed with {}", what, cut(&format!("{:?}", c), 200), id),
        ),
        (_, Some(Want::Fail(id)), Ok(Err(e))) if fired => {
            if e == failure(*id) {
                Ok(())
            } else {
                fail("other failure", format!("{}: the type failed with {}, the call reports {:?}", what, id, e))
            }
        }
        (_, Some(Want::Panic(_)), Ok(Err(e))) if fired => {
            fail("other failure", format!("{}: the type panicked, the call reports {:?}", what, e))
        }
        (_, _, Ok(Err(e))) if e.contains("TWICE: ") || e.contains("HINT: ") => {
            fail("contract", format!("{}: {}", what, e))
        }
        (Exp::Any, _, Ok(_)) => Ok(()),
        (Exp::Val(w), _, Ok(Ok(c))) | (Exp::Maybe(w), _, Ok(Ok(c))) if *w == c => Ok(()),
        (Exp::Maybe(_), _, Ok(Err(_))) => Ok(()),
        (Exp::Val(w), _, r) | (Exp::Maybe(w), _, r) => fail(
            "mismatch",
            format!("{}: expected {}, got {}", what, cut(&format!("{:?}", w), 300), cut(&format!("{:?}", r), 300)),
        ),
        (Exp::Err, _, Ok(Err(_))) => Ok(()),
        (Exp::Err, _, Ok(Ok(c))) => {
            fail("accepted", format!("{} gives {} where only an error is right", what, cut(&format!("{:?}", c), 300)))
        }
    }
}

/// The result, and whether the type broke
fn run_fired<T>(c: &Ctx, f: impl FnOnce() -> T) -> (T, bool) {
    FIRED.with(|x| *x.borrow_mut() = (0, 0));
    let r = f();
    let (broke, stops) = FIRED.with(|x| *x.borrow());
    if stops > 0 {
        c.count("fault: type stopped early");
    }
    (r, broke > 0)
}

pub fn c08(c: &Ctx) -> R {
    let s = &c.s;
    forget_fields();
    if s.chance(1, 5) {
        return if s.chance(1, 4) { flat(c) } else { derived(c) };
    }
    let mut cfg = Cfg::draw(s);
    cfg.big &= s.chance(1, 4);
    cfg.labels &= s.chance(1, 6);
    cfg.exprkeys &= s.chance(1, 6);
    cfg.names = *s.pick(&[21, 40, 6]);
    if s.chance(1, 12) {
        cfg.width = 24;
        cfg.depth = cfg.depth.min(2);
    }
    let mut o = Out::new(cfg.clone());
    let d = if s.chance(2, 3) { distinct(s, cfg) } else { docp::draw_with(s, cfg) };
    o.t.clear();
    c.ev(|| format!("document {}", show(&d.text)));
    let mut loads = 1 + s.usize(3);
    let mut any = false;
    while loads > 0 {
        loads -= 1;
        c.tick();
        let mut w = want_body(s, &d.body, 0);
        let broken = match s.below(6) {
            4 => Some(Want::Fail(1 + s.below(1_000_000))),
            5 => Some(Want::Panic(1 + s.below(1_000_000))),
            _ => None,
        };
        // what must come out if the type went along
        let whole = body(&d.body, &w);
        if let Some(b) = &broken {
            break_at(s, &mut w, b.clone());
        }
        let seed = s.below(1 << 16);
        let route = s.below(4);
        c.ev(|| format!("hash seed {}, route {}, type {:?}", seed, route, w));
        let p = Plan::draw(s, d.text.len());
        let exp = if broken.is_some() { body(&d.body, &w) } else { whole };
        let exp = match (&broken, exp) {
            // broken where the document never gets: nothing is known
            (Some(_), _) => Exp::Any,
            (_, e) => e,
        };
        match &exp {
            Exp::Val(_) => c.count("loads that must succeed"),
            Exp::Err => c.count("loads that must fail"),
            Exp::Any | Exp::Maybe(_) => {}
        }
        any = true;
        let (fired, _) = with_hash_seed(seed, || -> R<(bool, ())> {
            let (got, fired) = match route {
                0 | 1 => {
                    WANT.with(|x| *x.borrow_mut() = Some(w.clone()));
                    run_fired(c, || lib(|| from_str::<Dyn>(&d.text).map(|d| d.0).map_err(|e| format!("{}", e))))
                }
                2 => {
                    let b = match tree_stream(SimReader::new(c, &Arc::new(d.text.clone().into_bytes()), &p)) {
                        Ok(Ok(b)) => b,
                        r => return fail("rejected", format!("parse_reader: {:?}", r)),
                    };
                    run_fired(c, || lib(|| Seed(&w).deserialize(BodyDe::new(b)).map_err(|e| format!("{}", e))))
                }
                _ => run_fired(c, || {
                    lib(|| match BodyDe::from_str(&d.text) {
                        Ok(b) => Seed(&w).deserialize(b).map_err(|e| format!("{}", e)),
                        Err(e) => Err(format!("{}", e)),
                    })
                }),
            };
            judge("loading", &exp, broken.as_ref(), fired, got)?;
            Ok((fired, ()))
        })?;
        if fired {
            c.count(match &broken {
                Some(Want::Fail(_)) => "fault: type failed",
                _ => "fault: type panicked",
            });
        }
        // parts on their own
        if s.chance(1, 2) {
            parts(c, &d)?;
        }
    }
    let mut sh = String::new();
    docp::shape(&d.body, &mut sh);
    c.sig(sh.as_bytes());
    if any && !d.body.is_empty() {
        c.nontrivial();
    }
    c.sample(|| format!("document {}", show(&d.text)));
    Ok(())
}

/// A document in which no name is used twice for different things, so that loading gets somewhere
fn distinct(s: &Src, cfg: Cfg) -> docp::Doc {
    let mut d = docp::draw_with(s, cfg);
    let mut n = 0;
    // by rewriting the tree and spelling it out again plainly
    fn fix(b: &mut Vec<El>, n: &mut u64, s: &Src) {
        let mut seen: Vec<(String, bool)> = Vec::new();
        for e in b.iter_mut() {
            let (name, block) = match e {
                El::Attr(k, _) => (k, false),
                El::Block { ty, .. } => (ty, true),
            };
            if seen.iter().any(|x| x.0 == *name && !(block && x.1)) {
                *n += 1;
                *name = format!("{}_{}", name, n);
            }
            seen.push((name.clone(), block));
            match e {
                El::Attr(_, x) => fix_ex(x, n),
                El::Block { body, .. } => fix(body, n, s),
            }
        }
    }
    fn fix_ex(e: &mut Ex, n: &mut u64) {
        match e {
            Ex::Tuple(v) => v.iter_mut().for_each(|e| fix_ex(e, n)),
            Ex::Obj(v) => {
                let mut seen: Vec<String> = Vec::new();
                for (k, e) in v.iter_mut() {
                    if let Key::Id(k) = k {
                        if seen.contains(k) {
                            *n += 1;
                            *k = format!("{}_{}", k, n);
                        }
                        seen.push(k.clone());
                    }
                    fix_ex(e, n);
                }
            }
            _ => {}
        }
    }
    fix(&mut d.body, &mut n, s);
    let mut t = String::new();
    spell_body(&d.body, &mut t);
    d.text = t;
    d.ends.clear();
    d
}

pub fn spell_str(v: &str, t: &mut String) {
    t.push('"');
    for ch in v.chars() {
        match ch {
            '"' => t.push_str("\\\""),
            '\\' => t.push_str("\\\\"),
            '\n' => t.push_str("\\n"),
            '\r' => t.push_str("\\r"),
            c => t.push(c),
        }
    }
    t.push('"');
}

fn spell_body(b: &[El], t: &mut String) {
    for e in b {
        match e {
            El::Attr(k, e) => {
                t.push_str(k);
                t.push_str(" = ");
                spell_ex(e, t);
            }
            El::Block { ty, labels, body } => {
                t.push_str(ty);
                for (l, q) in labels {
                    t.push(' ');
                    if *q {
                        spell_str(l, t)
                    } else {
                        t.push_str(l)
                    }
                }
                t.push_str(" {\n");
                spell_body(body, t);
                t.push('}');
            }
        }
        t.push('\n');
    }
}

fn spell_ex(e: &Ex, t: &mut String) {
    match e {
        Ex::Null => t.push_str("null"),
        Ex::Bool(b) => t.push_str(if *b { "true" } else { "false" }),
        Ex::Num(n) => t.push_str(n),
        Ex::Str(v) => spell_str(v, t),
        Ex::Tuple(v) => {
            t.push('[');
            v.iter().for_each(|e| {
                spell_ex(e, t);
                t.push_str(", ");
            });
            t.push(']');
        }
        Ex::Obj(v) => {
            t.push('{');
            v.iter().for_each(|(k, e)| {
                match k {
                    Key::Id(k) | Key::Raw(k) => t.push_str(k),
                }
                t.push_str(" = ");
                spell_ex(e, t);
                t.push_str(", ");
            });
            t.push('}');
        }
    }
}

/// Expressions and blocks deserialized on their own
fn parts(c: &Ctx, d: &docp::Doc) -> R {
    let s = &c.s;
    let real = match lib(|| ferrous_chloride::parse_str(&d.text)) {
        Ok(Ok(b)) => b,
        r => return fail("rejected", format!("parse_str: {:?}", r)),
    };
    if d.body.is_empty() {
        return Ok(());
    }
    let i = s.usize(d.body.len());
    match (&d.body[i], &real[i]) {
        (El::Attr(_, e), BodyElement::Attribute((_, x))) => {
            let w = want_ex(s, e, 0);
            c.ev(|| format!("expression {} as {:?}", i, w));
            let x = x.clone();
            let (got, fired) = run_fired(c, || lib(|| Seed(&w).deserialize(x).map_err(|e| format!("{}", e))));
            judge("an expression", &ex(e, &w), None, fired, got)
        }
        (El::Block { ty, .. }, _) => {
            let mut bs: Vec<&[El]> = Vec::new();
            for e in &d.body {
                if let El::Block { ty: t, labels, body } = e {
                    if t == ty {
                        if !labels.is_empty() {
                            return Ok(());
                        }
                        bs.push(body);
                    }
                }
            }
            let index: Blocks = guard(
                "Blocks",
                lib(|| real.iter().filter(|e| e.is_block()).cloned().map(|e| e.unwrap_block()).collect()),
            )?;
            let none: &[&str] = &[];
            let x = match index.get(ty, none) {
                Some(x) => x.clone(),
                None => return fail("mismatch", format!("block type {:?} is not indexed", ty)),
            };
            let w = match s.below(4) {
                0 => Want::Any,
                1 => Want::Take(s.usize(bs.len() + 1), Box::new(Want::Any)),
                2 => want_body(s, bs[0], 0),
                _ => Want::Vec(Box::new(Want::Any)),
            };
            c.ev(|| format!("block {:?} as {:?}", ty, w));
            let (got, fired) = run_fired(c, || lib(|| Seed(&w).deserialize(x).map_err(|e| format!("{}", e))));
            judge("a block", &bodies(&bs, &w), None, fired, got)
        }
        _ => fail("mismatch", format!("element {} is of the wrong kind", i)),
    }
}

// ---------------------------------------------------------------------------------------------
// Types as users write them

#[derive(serde::Deserialize, Debug, PartialEq, Clone)]
struct Server {
    name: String,
    port: u16,
    ratio: f64,
    on: bool,
    tags: Vec<String>,
    pair: (i8, u64),
    limit: Option<i64>,
    #[serde(default)]
    more: Option<String>,
    map: BTreeMap<String, i64>,
    wrap: Meters,
    disk: Vec<Disk>,
    net: Net,
}
#[derive(serde::Deserialize, Debug, PartialEq, Clone)]
struct Meters(i32);
#[derive(serde::Deserialize, Debug, PartialEq, Clone)]
struct Disk {
    id: u32,
    kind: String,
    #[serde(default)]
    part: Vec<Part>,
}
#[derive(serde::Deserialize, Debug, PartialEq, Clone)]
struct Part {
    size: u64,
}
#[derive(serde::Deserialize, Debug, PartialEq, Clone)]
struct Net {
    addr: [u8; 4],
    up: Option<bool>,
}

/// One wide value, asked for in as many ways as there are
fn flat(c: &Ctx) -> R {
    let s = &c.s;
    let n = s.count(12, 300);
    let blocks = s.chance(1, 3);
    let mut v: Vec<(String, Ex)> = Vec::new();
    for i in 0..n {
        let e = match s.below(5) {
            0 => Ex::Num(s.below(100).to_string()),
            1 => Ex::Str(format!("s{}", i)),
            2 => Ex::Bool(s.chance(1, 2)),
            3 => Ex::Null,
            _ => Ex::Tuple(vec![Ex::Num(i.to_string())]),
        };
        v.push((format!("k{}", i), e));
    }
    let again = n > 0 && s.chance(1, 8);
    if again {
        let i = s.usize(n);
        v[i].0 = format!("k{}", s.usize(n));
    }
    fn spell(e: &Ex) -> String {
        match e {
            Ex::Num(t) => t.clone(),
            Ex::Str(t) => format!("\"{}\"", t),
            Ex::Bool(b) => b.to_string(),
            Ex::Null => "null".into(),
            Ex::Tuple(v) => format!("[{}]", v.iter().map(spell).collect::<Vec<_>>().join(", ")),
            Ex::Obj(_) => unreachable!(),
        }
    }
    let mut text = String::new();
    let mut doc: Vec<El> = Vec::new();
    let top = !blocks && s.chance(1, 3);
    let clash = s.chance(1, 2);
    if blocks {
        for (k, e) in &v {
            text.push_str(&format!("v {{\n  {} = {}\n}}\n", k, spell(e)));
            doc.push(El::Block { ty: "v".into(), labels: vec![], body: vec![El::Attr(k.clone(), e.clone())] });
        }
    } else if top {
        for (k, e) in &v {
            text.push_str(&format!("{} = {}\n", k, spell(e)));
            doc.push(El::Attr(k.clone(), e.clone()));
            // and blocks between them, some of a name that is taken
            if clash && s.chance(1, 1 + n as u64 / 2) {
                let i = s.usize(n + 3);
                text.push_str(&format!("k{} {{\n}}\n", i));
                doc.push(El::Block { ty: format!("k{}", i), labels: vec![], body: vec![] });
            }
        }
    } else if s.chance(1, 2) {
        let t: Vec<Ex> = v.iter().map(|x| x.1.clone()).collect();
        text.push_str(&format!("v = {}\n", spell(&Ex::Tuple(t.clone()))));
        doc.push(El::Attr("v".into(), Ex::Tuple(t)));
    } else {
        text.push_str("v = {\n");
        for (k, e) in &v {
            text.push_str(&format!("  {} = {}\n", k, spell(e)));
        }
        text.push_str("}\n");
        doc.push(El::Attr("v".into(), Ex::Obj(v.iter().map(|x| (Key::Id(x.0.clone()), x.1.clone())).collect())));
    }
    c.ev(|| format!("document {}", show(&text)));
    for _ in 0..1 + s.usize(3) {
        let k = if s.chance(1, 2) { n } else { (n + s.usize(4)).saturating_sub(s.usize(4)) };
        let any = || Box::new(Want::Any);
        let fields = |k: usize| -> Vec<(String, Want)> { (0..k).map(|i| (format!("k{}", i), Want::Any)).collect() };
        let mut w = match s.below(10) {
            0 => Want::Any,
            1 => Want::Vec(any()),
            2 => Want::Take(k, any()),
            3 => Want::Map(any()),
            4 => Want::TakeMap(k, any()),
            5 | 6 => Want::Tup(vec![Want::Any; k]),
            7 => Want::TupStruct(vec![Want::Any; k]),
            8 => Want::Struct(fields(k)),
            _ => wrong(s),
        };
        if s.chance(1, 4) {
            w = if s.chance(1, 2) { Want::New(Box::new(w)) } else { Want::Opt(Box::new(w)) };
        }
        let w = if !top {
            Want::Struct(vec![("v".into(), w)])
        } else {
            match s.below(4) {
                0 => Want::Any,
                1 => Want::Map(any()),
                2 => Want::TakeMap(k, any()),
                _ => Want::Struct(fields(k)),
            }
        };
        c.ev(|| format!("type {:?}", w));
        WANT.with(|x| *x.borrow_mut() = Some(w.clone()));
        let (got, fired) = run_fired(c, || lib(|| from_str::<Dyn>(&text).map(|d| d.0).map_err(|e| format!("{}", e))));
        judge("loading", &body(&doc, &w), None, fired, got)?;
    }
    c.sig(format!("flat {} {} {} {}", n, blocks, again, top).as_bytes());
    c.nontrivial();
    Ok(())
}

fn derived(c: &Ctx) -> R {
    let s = &c.s;
    let mut cfg = Cfg::draw(s);
    cfg.big &= s.chance(1, 4);
    let mut o = Out::new(cfg);
    let word = |s: &Src| {
        let mut o2 = Out::new(o.cfg.clone());
        let v = o2.quoted(s, true);
        (o2.t, v)
    };
    let mut items: Vec<String> = Vec::new();
    let (t, name) = word(s);
    items.push(format!("name = {}", t));
    let port = s.below(65536) as u16;
    items.push(format!("port = {}", port));
    let ratio = s.below(1000) as f64 / 8.0;
    items.push(format!("ratio = {:?}", ratio));
    let on = s.chance(1, 2);
    items.push(format!("on = {}", on));
    let mut tags = Vec::new();
    let mut t = String::from("tags = [");
    for _ in 0..s.small(5) {
        let (x, v) = word(s);
        t.push_str(&x);
        t.push_str(", ");
        tags.push(v);
    }
    items.push(t + "]");
    let pair = (s.below(256) as u8 as i8, s.below(u64::MAX));
    items.push(format!("pair = [{}, {}]", pair.0, pair.1));
    let limit = if s.chance(1, 2) { Some(s.below(u64::MAX) as i64) } else { None };
    items.push(match limit {
        Some(v) => format!("limit = {}", v),
        None => "limit = null".into(),
    });
    let mut more = None;
    if s.chance(1, 2) {
        let (t, v) = word(s);
        items.push(format!("more = {}", t));
        more = Some(v);
    }
    let mut map = BTreeMap::new();
    let mut t = String::from("map = {\n");
    for i in 0..s.small(5) {
        let v = s.below(1000) as i64;
        t.push_str(&format!("k{} = {}\n", i, v));
        map.insert(format!("k{}", i), v);
    }
    items.push(t + "}");
    let wrap = Meters(s.below(1 << 20) as i32);
    items.push(format!("wrap = {}", wrap.0));
    let addr: [u8; 4] = [s.below(256) as u8, s.below(256) as u8, 0, 1];
    let up = *s.pick(&[None, Some(true), Some(false)]);
    items.push(format!(
        "net {{\naddr = {:?}\n{}}}",
        addr,
        match up {
            None => "".into(),
            Some(b) => format!("up = {}\n", b),
        }
    ));
    if s.chance(1, 3) {
        items.push("unknown = { a = [1, \"x\"] }".into());
    }
    if s.chance(1, 3) {
        items.push("other {\n a = 1\n}".into());
    }
    // attributes and blocks in any order; repeated blocks keep theirs
    let mut order: Vec<String> = Vec::new();
    while !items.is_empty() {
        order.push(items.remove(s.usize(items.len())));
    }
    let mut disk = Vec::new();
    let mut at = 0;
    for i in 0..1 + s.small(5) {
        let kind = s.pick(&["ssd", "hdd"]).to_string();
        let mut part = Vec::new();
        let mut t = format!("disk {{\nid = {}\n", i);
        for _ in 0..s.small(3) {
            let size = s.below(u64::MAX);
            t.push_str(&if s.chance(1, 2) { format!("part {{ size = {} }}\n", size) } else { format!("part {{\nsize = {}\n}}\n", size) });
            part.push(Part { size });
        }
        t.push_str(&format!("kind = \"{}\"\n}}", kind));
        disk.push(Disk { id: i as u32, kind, part });
        at = at + s.usize(order.len() - at + 1);
        order.insert(at, t);
        at += 1;
    }
    for (i, t) in order.iter().enumerate() {
        if i > 0 {
            o.nl(s);
        }
        o.iw(s);
        o.push(t);
        o.iw(s);
    }
    let want = Server {
        name,
        port,
        ratio,
        on,
        tags,
        pair,
        limit,
        more,
        map,
        wrap,
        disk,
        net: Net { addr, up },
    };
    let text = o.t;
    c.ev(|| format!("document {}", show(&text)));
    for _ in 0..1 + s.usize(2) {
        c.tick();
        let seed = s.below(1 << 16);
        let got = with_hash_seed(seed, || lib(|| from_str::<Server>(&text)));
        match got {
            Ok(Ok(g)) if g == want => {}
            Ok(r) => {
                return fail(
                    "mismatch",
                    format!("expected {}, got {}", cut(&format!("{:?}", want), 400), cut(&format!("{:?}", r), 400)),
                )
            }
            Err(p) => return fail("panic", format!("loading panics: {:?}", p)),
        }
    }
    c.count("loads that must succeed");
    c.sig(text.as_bytes());
    c.nontrivial();
    c.sample(|| format!("document {}", show(&text)));
    Ok(())
}
