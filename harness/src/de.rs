//! C24: deserialisation of bounded quantities, through a minimal self-contained serde format that presents arbitrary numbers.
use crate::*;
use serde::de::{self, DeserializeSeed, EnumAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Impossible};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

#[derive(Debug)]
pub struct E;
impl std::fmt::Display for E { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for E {}
impl de::Error for E { fn custom<T: std::fmt::Display>(_: T) -> Self { E } }
impl ser::Error for E { fn custom<T: std::fmt::Display>(_: T) -> Self { E } }

/// A stored value: its numbers and enum variants, in order.
#[derive(Default, Clone, Copy)]
pub struct Stored { pub num: [i64; 4], pub nums: usize, pub tag: [u32; 3], pub tags: usize }

impl Stored {
    pub fn one(x: i64) -> Self { Stored { num: [x, 0, 0, 0], nums: 1, ..Default::default() } }
    pub fn four(x: [i64; 4]) -> Self { Stored { num: x, nums: 4, ..Default::default() } }
    pub fn load<'de, T: Deserialize<'de>>(&self) -> Result<T, E> {
        let mut p = Play { s: *self, n: 0, t: 0 };
        T::deserialize(&mut p)
    }
    pub fn save<T: Serialize>(x: &T) -> Self {
        let mut s = Stored::default();
        match x.serialize(&mut s) { Ok(()) => s, Err(_) => panic!("a valid value cannot be stored") }
    }
}

pub struct Play { s: Stored, n: usize, t: usize }

impl Play {
    fn next(&mut self) -> Result<i64, E> {
        if self.n < self.s.nums { self.n += 1; Ok(self.s.num[self.n - 1]) } else { Err(E) }
    }
}

macro_rules! ints { ($($f:ident)*) => { $( fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let x = self.next()?; v.visit_i64(x) } )* } }
macro_rules! no { ($($f:ident)*) => { $( fn $f<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> { Err(E) } )* } }

impl<'de> Deserializer<'de> for &mut Play {
    type Error = E;
    ints! { deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 }
    no! { deserialize_any deserialize_bool deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes
        deserialize_byte_buf deserialize_option deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, E> { Err(E) }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { v.visit_newtype_struct(self) }
    fn deserialize_tuple<V: Visitor<'de>>(self, len: usize, v: V) -> Result<V::Value, E> { v.visit_seq(Seq { p: self, left: len }) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, len: usize, v: V) -> Result<V::Value, E> { v.visit_seq(Seq { p: self, left: len }) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(Seq { p: self, left: f.len() })
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> { v.visit_enum(self) }
}

struct Seq<'a> { p: &'a mut Play, left: usize }
impl<'de, 'a> SeqAccess<'de> for Seq<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.left == 0 { return Ok(None); }
        self.left -= 1;
        seed.deserialize(&mut *self.p).map(Some)
    }
}

struct Tag(u32);
impl<'de> Deserializer<'de> for Tag {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_u64(self.0 as u64) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'de> EnumAccess<'de> for &mut Play {
    type Error = E;
    type Variant = Unit;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, Unit), E> {
        if self.t >= self.s.tags { return Err(E); }
        self.t += 1;
        Ok((seed.deserialize(Tag(self.s.tag[self.t - 1]))?, Unit))
    }
}
pub struct Unit;
impl<'de> VariantAccess<'de> for Unit {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> { Ok(()) }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, _: T) -> Result<T::Value, E> { Err(E) }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, E> { Err(E) }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, E> { Err(E) }
}

macro_rules! put { ($($f:ident $t:ty),*) => { $( fn $f(self, x: $t) -> Result<(), E> {
    if self.nums == 4 { return Err(E); }
    self.num[self.nums] = x as i64; self.nums += 1; Ok(())
} )* } }
macro_rules! nos { ($($f:ident $t:ty),*) => { $( fn $f(self, _: $t) -> Result<(), E> { Err(E) } )* } }

impl<'a> Serializer for &'a mut Stored {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Impossible<(), E>;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Impossible<(), E>;
    type SerializeMap = Impossible<(), E>;
    type SerializeStruct = Self;
    type SerializeStructVariant = Impossible<(), E>;
    put! { serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64 }
    nos! { serialize_bool bool, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8], serialize_unit_struct &'static str }
    fn serialize_none(self) -> Result<(), E> { Err(E) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), E> { Err(E) }
    fn serialize_unit(self) -> Result<(), E> { Err(E) }
    fn serialize_unit_variant(self, _: &'static str, v: u32, _: &'static str) -> Result<(), E> {
        if self.tags == 3 { return Err(E); }
        self.tag[self.tags] = v; self.tags += 1; Ok(())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, x: &T) -> Result<(), E> { x.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), E> { Err(E) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> { Err(E) }
    fn serialize_tuple(self, _: usize) -> Result<Self, E> { Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, E> { Ok(self) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> { Err(E) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> { Err(E) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, E> { Ok(self) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> { Err(E) }
}
impl<'a> ser::SerializeTuple for &'a mut Stored {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), E> { x.serialize(&mut **self) }
    fn end(self) -> Result<(), E> { Ok(()) }
}
impl<'a> ser::SerializeTupleStruct for &'a mut Stored {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), E> { x.serialize(&mut **self) }
    fn end(self) -> Result<(), E> { Ok(()) }
}
impl<'a> ser::SerializeStruct for &'a mut Stored {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, x: &T) -> Result<(), E> { x.serialize(&mut **self) }
    fn end(self) -> Result<(), E> { Ok(()) }
}

/// Any stored number is loaded as a value in lo..=hi or rejected; one in range is loaded as itself, and a loaded value survives being stored.
fn bounded<'de, S: Src, T: Deserialize<'de> + Serialize>(s: &mut S, lo: i64, hi: i64, get: impl Fn(&T) -> i64) {
    let x = if s.bool() { s.i64() } else { s.in_i32(lo - 70000, hi.min(1 << 30) + 70000) as i64 };
    let r: Result<T, E> = Stored::one(x).load();
    s.reached();
    match r {
        Ok(v) => {
            assert!(lo <= get(&v) && get(&v) <= hi, "a stored number was loaded as an out-of-range value");
            assert!(!(lo <= x && x <= hi) || get(&v) == x, "a stored number was loaded as another value");
            let back: Result<T, E> = Stored::save(&v).load();
            assert!(match back { Ok(w) => get(&w) == get(&v), Err(_) => false }, "a loaded value does not survive storing");
        }
        Err(_) => assert!(!(lo <= x && x <= hi), "a valid stored number was rejected"),
    }
}

pub mod c24 {
    use super::*;
    use klavier_core::percent::PercentU16;
    use klavier_core::pitch::Pitch;
    use klavier_core::trimmer::{RateTrimmer, Trimmer};
    harnesses! { "C24";
        velocity [kani::proof] |s| { bounded::<S, klavier_core::velocity::Velocity>(s, 0, 127, |v| v.as_u8() as i64); }
        tempo [kani::proof] |s| { bounded::<S, klavier_core::tempo::TempoValue>(s, 1, 999, |v| v.value() as i64); }
        channel [kani::proof] |s| { bounded::<S, klavier_core::channel::Channel>(s, 0, 15, |v| v.as_u8() as i64); }
        dots [kani::proof] |s| { bounded::<S, klavier_core::duration::Dots>(s, 0, 7, |v| v.value() as i64); }
        tuplet [kani::proof] |s| { bounded::<S, klavier_core::duration::Denominator>(s, 2, 255, |v| v.value() as i64); }
        numerator [kani::proof] |s| { bounded::<S, klavier_core::rhythm::Numerator>(s, 1, 99, |v| v.value() as i64); }
        grid [kani::proof] |s| { bounded::<S, klavier_core::grid::Grid>(s, 1, u32::MAX as i64, |v| v.as_u32() as i64); }
        key [kani::proof] |s| { bounded::<S, klavier_core::key::Key>(s, -7, 7, |v| v.offset() as i64); }
        percent [kani::proof] |s| {
            let x = if s.bool() { s.i64() } else { s.in_i32(-3000, 70000) as i64 };
            let r: Result<PercentU16, E> = Stored::one(x).load();
            s.reached();
            match r {
                Ok(v) => {
                    assert!(0 <= x && x <= 2000 && v == PercentU16::from_value(x as u16));
                    let back: Result<PercentU16, E> = Stored::save(&v).load();
                    assert!(match back { Ok(w) => w == v, Err(_) => false });
                }
                Err(_) => assert!(x < 0 || 2000 < x),
            }
        }
        trimmer [kani::proof] |s| {
            let v = [s.i16(), s.i16(), s.i16(), s.i16()];
            let stored = Stored::four([v[0] as i64, v[1] as i64, v[2] as i64, v[3] as i64]);
            let r: Result<Trimmer, E> = stored.load();
            s.reached();
            match r { Ok(t) => assert!(c::trimmer_is(&t, v) && Stored::save(&t).num == stored.num), Err(_) => assert!(false) }
        }
        rate_trimmer [kani::proof, kani::solver(cvc5)] |s| {
            let v = [s.in_u16(0, 2000), s.in_u16(0, 2000), s.in_u16(0, 2000), s.in_u16(0, 2000)];
            let stored = Stored::four([v[0] as i64, v[1] as i64, v[2] as i64, v[3] as i64]);
            let r: Result<RateTrimmer, E> = stored.load();
            s.reached();
            match r {
                Ok(t) => {
                    assert!(c::rate_trimmer_is(&t, [t.value(0), t.value(1), t.value(2), t.value(3)]));
                }
                Err(_) => assert!(false),
            }
        }
        rate_trimmer_parts [kani::proof] |s| {
            let v = [s.in_u16(0, 2000), s.in_u16(0, 2000), s.in_u16(0, 2000), s.in_u16(0, 2000)];
            let stored = Stored::four([v[0] as i64, v[1] as i64, v[2] as i64, v[3] as i64]);
            let r: Result<RateTrimmer, E> = stored.load();
            s.reached();
            match r {
                Ok(t) => {
                    let mut i = 0;
                    while i < 4 { assert!(t.value(i) == PercentU16::from_value(v[i])); i += 1; }
                    assert!(Stored::save(&t).num == stored.num);
                }
                Err(_) => assert!(false),
            }
        }
        rate_trimmer_rejects [kani::proof] |s| {
            let bad = s.in_u16(2001, u16::MAX);
            let i = s.below(4) as usize;
            let mut v = [1000i64; 4];
            v[i] = bad as i64;
            let r: Result<RateTrimmer, E> = Stored::four(v).load();
            s.reached();
            assert!(r.is_err());
        }
        pitch [kani::proof] |s| {
            let (n, o, a) = (gen::solfa(s), gen::octave(s), gen::sharp_flat(s));
            let stored = Stored { tag: [Stored::save(&n).tag[0], Stored::save(&o).tag[0], Stored::save(&a).tag[0]], tags: 3, ..Default::default() };
            let r: Result<Pitch, E> = stored.load();
            s.reached();
            match r {
                Ok(p) => {
                    assert!(c::in_range(n, o, a) && c::is_pitch(p, n, o, a));
                    let back: Result<Pitch, E> = Stored::save(&p).load();
                    assert!(match back { Ok(q) => q == p, Err(_) => false });
                }
                Err(_) => assert!(!c::in_range(n, o, a)),
            }
        }
    }
}
