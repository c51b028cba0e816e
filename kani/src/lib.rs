//! Proof harnesses over the real `axmosdb::types` (built from /repo as a dependency). Every harness
//! ranges over all values of its datatypes: the functions below are free of loops for them, so the
//! exploration is complete (`unwind` is checked by unwinding assertions, never assumed).
#![allow(dead_code)]
#[cfg(kani)]
mod p {
    use axmosdb::types::*;
    use std::cmp::Ordering;
    use std::hash::{Hash, Hasher};
    use std::mem::ManuallyDrop as MD;

    fn int() -> DataType {
        match kani::any::<u8>() {
            0 => DataType::Int(Int32(kani::any())), 1 => DataType::BigInt(Int64(kani::any())),
            2 => DataType::UInt(UInt32(kani::any())), _ => DataType::BigUInt(UInt64(kani::any())),
        }
    }
    fn float() -> DataType { if kani::any() { DataType::Float(Float32(kani::any())) } else { DataType::Double(Float64(kani::any())) } }
    fn num() -> DataType { if kani::any() { int() } else { float() } }

    const LIMIT: f64 = 170_141_183_460_469_231_731_687_303_715_884_105_728.0;
    /// Order-embedding of the numbers into (class, whole part, fraction): whole parts below 2^127
    /// are integers of i128 and the fraction of a double is a double, both exactly.
    #[derive(Clone, Copy)]
    struct Key(i8, i128, f64);
    fn key(d: &DataType) -> Key {
        let f = match d {
            DataType::Int(v) => return Key(0, v.0 as i128, 0.0), DataType::BigInt(v) => return Key(0, v.0 as i128, 0.0),
            DataType::UInt(v) => return Key(0, v.0 as i128, 0.0), DataType::BigUInt(v) => return Key(0, v.0 as i128, 0.0),
            DataType::Float(v) => v.0 as f64, DataType::Double(v) => v.0, _ => unreachable!(),
        };
        if f != f { return Key(2, 0, 0.0) }
        if f >= LIMIT { return Key(1, 0, f) }
        if f <= -LIMIT { return Key(-1, 0, f) }
        let w = f as i128;
        Key(0, w, f - w as f64)
    }
    fn key_cmp(a: Key, b: Key) -> Ordering {
        if a.0 != b.0 { return a.0.cmp(&b.0) }
        if a.1 != b.1 { return a.1.cmp(&b.1) }
        if a.2 < b.2 { Ordering::Less } else if a.2 > b.2 { Ordering::Greater } else { Ordering::Equal }
    }
    fn order(a: DataType, b: DataType) {
        let (a, b) = (MD::new(a), MD::new(b));
        let want = key_cmp(key(&a), key(&b));
        assert!((*a).partial_cmp(&*b) == Some(want), "C19: numbers are ordered by their mathematical value");
        assert!((*a == *b) == (want == Ordering::Equal), "C19: equality agrees with the order");
    }
    #[kani::proof] #[kani::unwind(3)] fn order_int_int() { order(int(), int()) }
    #[kani::proof] #[kani::unwind(3)] fn order_int_float() { order(int(), float()) }
    #[kani::proof] #[kani::unwind(3)] fn order_float_int() { order(float(), int()) }
    fn reals(a: DataType, b: DataType) {
        let (a, b) = (MD::new(a), MD::new(b));
        let v = |d: &DataType| match d { DataType::Float(v) => v.0 as f64, DataType::Double(v) => v.0, _ => unreachable!() };
        let (x, y) = (v(&a), v(&b));
        let want = if x < y { Ordering::Less } else if x > y { Ordering::Greater } else if x == y { Ordering::Equal } else { (x != x).cmp(&(y != y)) };
        assert!((*a).partial_cmp(&*b) == Some(want), "C19: numbers are ordered by their mathematical value, NaN last");
        assert!((*a == *b) == (want == Ordering::Equal), "C19: equality agrees with the order");
    }
    fn f32_() -> DataType { DataType::Float(Float32(kani::any())) }
    fn f64_() -> DataType { DataType::Double(Float64(kani::any())) }
    #[kani::proof] #[kani::unwind(3)] fn order_f32_f32() { reals(f32_(), f32_()) }
    #[kani::proof] #[kani::unwind(3)] fn order_f32_f64() { reals(f32_(), f64_()) }
    #[kani::proof] #[kani::unwind(3)] fn order_f64_f32() { reals(f64_(), f32_()) }
    #[kani::proof] #[kani::unwind(3)] fn order_f64_f64() { reals(f64_(), f64_()) }

    /// Records what a value feeds to a hasher.
    #[derive(Clone, Copy)]
    struct Feed(u8, [u128; 3], [u8; 3]);
    impl Feed { fn put(&mut self, x: u128, w: u8) { if self.0 < 3 { self.1[self.0 as usize] = x; self.2[self.0 as usize] = w; } self.0 += 1; } }
    impl Hasher for Feed {
        fn finish(&self) -> u64 { 0 }
        fn write(&mut self, _: &[u8]) { self.put(0, 99) }
        fn write_u8(&mut self, x: u8) { self.put(x as u128, 1) }
        fn write_u32(&mut self, x: u32) { self.put(x as u128, 4) }
        fn write_u64(&mut self, x: u64) { self.put(x as u128, 8) }
        fn write_i64(&mut self, x: i64) { self.put(x as u64 as u128, 8) }
        fn write_u128(&mut self, x: u128) { self.put(x, 16) }
        fn write_i128(&mut self, x: i128) { self.put(x as u128, 16) }
    }
    fn feed(d: &DataType) -> Feed { let mut f = Feed(0, [0; 3], [0; 3]); d.hash(&mut f); f }
    fn hashes(a: DataType, b: DataType) {
        let (a, b) = (MD::new(a), MD::new(b));
        kani::assume(*a == *b);
        let (x, y) = (feed(&a), feed(&b));
        assert!(x.0 <= 3 && x.0 == y.0 && x.1[0] == y.1[0] && x.1[1] == y.1[1] && x.1[2] == y.1[2] && x.2[0] == y.2[0] && x.2[1] == y.2[1] && x.2[2] == y.2[2], "C19: equal values hash alike");
    }
    #[kani::proof] #[kani::unwind(4)] fn hash_int_int() { hashes(int(), int()) }
    #[kani::proof] #[kani::unwind(4)] fn hash_int_float() { hashes(int(), float()) }
    #[kani::proof] #[kani::unwind(4)] fn hash_f32_f32() { hashes(f32_(), f32_()) }
    #[kani::proof] #[kani::unwind(4)] fn hash_f32_f64() { hashes(f32_(), f64_()) }
    #[kani::proof] #[kani::unwind(4)] fn hash_f64_f64() { hashes(f64_(), f64_()) }

    fn kind() -> DataTypeKind {
        match kani::any::<u8>() { 0 => DataTypeKind::Int, 1 => DataTypeKind::BigInt, 2 => DataTypeKind::UInt, _ => DataTypeKind::BigUInt }
    }
    fn range(k: DataTypeKind) -> (i128, i128) {
        match k { DataTypeKind::Int => (i32::MIN as i128, i32::MAX as i128), DataTypeKind::BigInt => (i64::MIN as i128, i64::MAX as i128),
            DataTypeKind::UInt => (0, u32::MAX as i128), _ => (0, u64::MAX as i128) }
    }
    /// Integer casts keep the value exactly, or refuse it when the target cannot hold it.
    #[kani::proof] #[kani::unwind(3)] fn cast_int() {
        let a = MD::new(int());
        let k = kind();
        let v = key(&a).1;
        match a.try_cast(k) {
            Ok(r) => { let r = MD::new(r); assert!(r.kind() == k, "C19: a cast gives the type asked for"); assert!(key(&r).1 == v, "C19: a cast keeps the value"); }
            Err(e) => { std::mem::forget(e); let (lo, hi) = range(k); assert!(v < lo || v > hi, "C19: a cast refuses only what does not fit"); }
        }
    }
    /// A cast to the type a value has is the identity, bit for bit.
    #[kani::proof] #[kani::unwind(3)] fn cast_same() {
        let a = MD::new(num());
        match a.try_cast(a.kind()) {
            Ok(r) => { let r = MD::new(r); assert!(match (&*a, &*r) {
                (DataType::Int(x), DataType::Int(y)) => x.0 == y.0, (DataType::BigInt(x), DataType::BigInt(y)) => x.0 == y.0,
                (DataType::UInt(x), DataType::UInt(y)) => x.0 == y.0, (DataType::BigUInt(x), DataType::BigUInt(y)) => x.0 == y.0,
                (DataType::Float(x), DataType::Float(y)) => x.0.to_bits() == y.0.to_bits(), (DataType::Double(x), DataType::Double(y)) => x.0.to_bits() == y.0.to_bits(),
                _ => false }, "C19: a cast to the same type is the identity") }
            Err(e) => { std::mem::forget(e); assert!(false, "C19: a cast to the same type succeeds") }
        }
    }
    /// Storing a value at any (aligned by the writer) cursor and loading it there gives it back.
    #[repr(align(16))] struct Buf([u8; 48]);
    #[kani::proof] #[kani::unwind(20)] fn roundtrip() {
        let a = MD::new(match kani::any::<u8>() { 0 => DataType::Bool(axmosdb::types::bool::Bool(kani::any())), 1 => int(), _ => float() });
        let cursor: usize = kani::any();
        kani::assume(cursor <= 24);
        let mut buf = Buf(kani::any());
        let before = buf.0;
        let end = match a.write_to(&mut buf.0, cursor) { Ok(n) => n, Err(e) => { std::mem::forget(e); assert!(false, "C19: values can be stored"); return } };
        assert!(end > cursor && end <= cursor + 16);
        let i: usize = kani::any();
        kani::assume(i < 48 && (i < cursor || i >= end));
        assert!(buf.0[i] == before[i], "C19: storing a value touches its own bytes only");
        match a.kind().deserialize(&buf.0, cursor) {
            Ok((r, n)) => {
                assert!(n == end, "C19: a value takes the room it was given");
                assert!(match (&*a, &r) {
                    (DataType::Bool(x), DataTypeRef::Bool(y)) => x.value() == y.value(),
                    (DataType::Int(x), DataTypeRef::Int(y)) => x.0 == y.get().0, (DataType::BigInt(x), DataTypeRef::BigInt(y)) => x.0 == y.get().0,
                    (DataType::UInt(x), DataTypeRef::UInt(y)) => x.0 == y.get().0, (DataType::BigUInt(x), DataTypeRef::BigUInt(y)) => x.0 == y.get().0,
                    (DataType::Float(x), DataTypeRef::Float(y)) => x.0.to_bits() == y.get().0.to_bits(), (DataType::Double(x), DataTypeRef::Double(y)) => x.0.to_bits() == y.get().0.to_bits(),
                    _ => false }, "C19: a stored value is loaded unchanged");
                std::mem::forget(r);
            }
            Err(e) => { std::mem::forget(e); assert!(false, "C19: stored values can be loaded") }
        }
    }
}
