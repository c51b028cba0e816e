// Queries: LIKE, three-valued expression evaluation, and the row operators.
#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, irrefutable_let_patterns, unreachable_code, unreachable_patterns)]
use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
fn main(){}
global size_of usize == 8;
// ------------------------------------------------------------------ LIKE
/// the text from i on matches the pattern from j on
pub open spec fn m(d: Seq<char>, i: int, p: Seq<char>, j: int) -> bool decreases (p.len() - j) + (d.len() - i)
{
    if i < 0 || j < 0 || i > d.len() { false }
    else if j >= p.len() { i == d.len() }
    else if p[j] == '\\' { j + 1 < p.len() && i < d.len() && d[i] == p[j + 1] && m(d, i + 1, p, j + 2) }
    else if p[j] == '%' { m(d, i, p, j + 1) || (i < d.len() && m(d, i + 1, p, j)) }
    else if p[j] == '_' { i < d.len() && m(d, i + 1, p, j + 1) }
    else { i < d.len() && d[i] == p[j] && m(d, i + 1, p, j + 1) }
}
/// the same from within an escape
pub open spec fn cur(d: Seq<char>, i: int, p: Seq<char>, j: int, esc: bool) -> bool {
    if esc { j < p.len() && i < d.len() && d[i] == p[j] && m(d, i + 1, p, j + 1) } else { m(d, i, p, j) }
}
pub open spec fn like(d: Seq<char>, p: Seq<char>) -> bool { m(d, 0, p, 0) }
/// some later start of the text matches the rest of the pattern after the last wildcard
pub open spec fn later(d: Seq<char>, a: int, p: Seq<char>, b: int) -> bool { exists|s: int| a < s <= d.len() && #[trigger] m(d, s, p, b) }
pub open spec fn dominates(d: Seq<char>, a: int, p: Seq<char>, b: int, i: int, j: int, esc: bool) -> bool {
    forall|s: int| a <= s <= d.len() && #[trigger] m(d, s, p, b) ==> s + (i - a) <= d.len() && cur(d, s + (i - a), p, j, esc)
}
pub proof fn lemma_percent(d: Seq<char>, p: Seq<char>, i: int, j: int)
    requires 0 <= i <= d.len(), 0 <= j < p.len(), p[j] == '%'
    ensures m(d, i, p, j) == (exists|s: int| i <= s <= d.len() && #[trigger] m(d, s, p, j + 1))
    decreases d.len() - i
{
    if i < d.len() {
        lemma_percent(d, p, i + 1, j);
        if m(d, i, p, j) {
            if m(d, i, p, j + 1) {} else { let s = choose|s: int| i + 1 <= s <= d.len() && #[trigger] m(d, s, p, j + 1); assert(i <= s <= d.len() && m(d, s, p, j + 1)); }
        }
        if exists|s: int| i <= s <= d.len() && #[trigger] m(d, s, p, j + 1) {
            let s = choose|s: int| i <= s <= d.len() && #[trigger] m(d, s, p, j + 1);
            if s == i {} else { assert(i + 1 <= s <= d.len() && m(d, s, p, j + 1)); }
        }
    } else {
        if m(d, i, p, j) { assert(m(d, i, p, j + 1)); }
    }
}
/// a wildcard absorbs whatever stands before the place it matches at
pub proof fn lemma_absorb(d: Seq<char>, p: Seq<char>, i: int, u: int, j: int)
    requires 0 <= i <= u <= d.len(), 0 <= j < p.len(), p[j] == '%', m(d, u, p, j)
    ensures m(d, i, p, j)
{ lemma_percent(d, p, i, j); lemma_percent(d, p, u, j); let s = choose|s: int| u <= s <= d.len() && #[trigger] m(d, s, p, j + 1); assert(i <= s <= d.len() && m(d, s, p, j + 1)); }
/// seeing a wildcard, everything rests on where its remainder matches
pub proof fn lemma_new(d: Seq<char>, p: Seq<char>, a: int, b: int, i: int, j: int)
    requires 0 <= a <= i <= d.len(), 0 <= j < p.len(), p[j] == '%', b > 0 ==> dominates(d, a, p, b, i, j, false)
    ensures (m(d, i, p, j) || (b > 0 && later(d, a, p, b))) == (m(d, i, p, j + 1) || later(d, i, p, j + 1)), dominates(d, i, p, j + 1, i, j + 1, false)
{
    lemma_percent(d, p, i, j);
    if b > 0 && later(d, a, p, b) {
        let s = choose|s: int| a < s <= d.len() && #[trigger] m(d, s, p, b);
        assert(cur(d, s + (i - a), p, j, false));
        lemma_absorb(d, p, i, s + (i - a), j);
    }
    if m(d, i, p, j) { let s = choose|s: int| i <= s <= d.len() && #[trigger] m(d, s, p, j + 1); if s != i { assert(later(d, i, p, j + 1)); } }
    if later(d, i, p, j + 1) { let s = choose|s: int| i < s <= d.len() && #[trigger] m(d, s, p, j + 1); assert(i <= s <= d.len() && m(d, s, p, j + 1)); }
}
/// the wildcard takes one more character
pub proof fn lemma_back(d: Seq<char>, p: Seq<char>, a: int, b: int)
    requires 0 <= a < d.len()
    ensures later(d, a, p, b) == (m(d, a + 1, p, b) || later(d, a + 1, p, b)), dominates(d, a + 1, p, b, a + 1, b, false)
{
    if later(d, a, p, b) { let s = choose|s: int| a < s <= d.len() && #[trigger] m(d, s, p, b); if s != a + 1 { assert(a + 1 < s <= d.len() && m(d, s, p, b)); } }
    if later(d, a + 1, p, b) { let s = choose|s: int| a + 1 < s <= d.len() && #[trigger] m(d, s, p, b); assert(a < s <= d.len() && m(d, s, p, b)); }
}
pub proof fn lemma_step(d: Seq<char>, p: Seq<char>, a: int, b: int, i: int, j: int, esc: bool, i2: int, j2: int, esc2: bool)
    requires 0 <= a <= i < d.len(), 0 <= j < p.len(), dominates(d, a, p, b, i, j, esc),
        esc ==> !esc2 && i2 == i + 1 && j2 == j + 1,
        !esc && p[j] == '\\' ==> esc2 && i2 == i && j2 == j + 1,
        !esc && p[j] != '\\' ==> p[j] != '%' && !esc2 && i2 == i + 1 && j2 == j + 1
    ensures dominates(d, a, p, b, i2, j2, esc2)
{
    assert forall|s: int| a <= s <= d.len() && #[trigger] m(d, s, p, b) implies s + (i2 - a) <= d.len() && cur(d, s + (i2 - a), p, j2, esc2) by { assert(cur(d, s + (i - a), p, j, esc)); }
}
pub proof fn lemma_over(d: Seq<char>, p: Seq<char>, a: int, b: int, j: int)
    requires 0 <= a <= d.len(), dominates(d, a, p, b, d.len() as int, j, false)
    ensures !later(d, a, p, b)
{ if later(d, a, p, b) { let s = choose|s: int| a < s <= d.len() && #[trigger] m(d, s, p, b); assert(s + (d.len() - a) <= d.len()); } }
pub struct BlobRef<'a>(pub &'a [u8]);
//@extract crates/axmos-db/src/types/blob.rs : impl<'a> BlobRef<'a> / fn match_pattern
//@header impl<'a> BlobRef<'a>
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)]
//@ret r
//@spec
    requires data@.len() < usize::MAX, pattern@.len() < usize::MAX
    ensures r == like(data@, pattern@)
//@loop 0
    invariant
        data_idx <= data@.len(), pattern_idx <= pattern@.len(), backtrack_data_idx <= data_idx, backtrack_pattern_idx <= pattern_idx,
        in_escape ==> data_idx < data@.len(),
        backtrack_pattern_idx == 0 ==> backtrack_data_idx == 0,
        like(data@, pattern@) == (cur(data@, data_idx as int, pattern@, pattern_idx as int, in_escape) || (backtrack_pattern_idx > 0 && later(data@, backtrack_data_idx as int, pattern@, backtrack_pattern_idx as int))),
        backtrack_pattern_idx > 0 ==> dominates(data@, backtrack_data_idx as int, pattern@, backtrack_pattern_idx as int, data_idx as int, pattern_idx as int, in_escape),
    decreases pattern@.len() - backtrack_pattern_idx, data@.len() - backtrack_data_idx, pattern@.len() - pattern_idx
//@loop 1
    invariant pattern_idx <= pattern@.len(), data_idx == data@.len(), like(data@, pattern@) == m(data@, data@.len() as int, pattern@, pattern_idx as int)
    decreases pattern@.len() - pattern_idx
//@at loop 0 body-start
proof {
    let (d, p, a, b, i, j, e) = (data@, pattern@, backtrack_data_idx as int, backtrack_pattern_idx as int, data_idx as int, pattern_idx as int, in_escape);
    lemma_back(d, p, a, b);
    if j < p.len() {
        if !e && p[j] == '%' { lemma_new(d, p, a, b, i, j); }
        else if b > 0 { if e || p[j] != '\\' { lemma_step(d, p, a, b, i, j, e, i + 1, j + 1, false); } else { lemma_step(d, p, a, b, i, j, e, i, j + 1, true); } }
    }
}
//@at loop 1 before
proof { if backtrack_pattern_idx > 0 { lemma_over(data@, pattern@, backtrack_data_idx as int, backtrack_pattern_idx as int, pattern_idx as int); } }
//@end
// ------------------------------------------------------------------ values
pub struct Bool(pub bool);
#[derive(Clone, Copy)] pub struct Int32(pub i32);
#[derive(Clone, Copy)] pub struct Int64(pub i64);
#[derive(Clone, Copy)] pub struct UInt32(pub u32);
#[derive(Clone, Copy)] pub struct UInt64(pub u64);
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Float32 { v: f32 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Float64 { v: f64 }
#[verifier::external_body] pub struct Blob { v: Vec<u8> }
#[verifier::external_body] #[derive(Clone, Copy, PartialEq, Eq)] pub struct DataTypeKind { v: u8 }
#[verifier::external_body] pub struct SerializationError { v: u8 }
pub enum TypeSystemError { UnexpectedDataType(DataTypeKind), Other }
pub type TypeSystemResult<T> = Result<T, TypeSystemError>;
pub enum DataType { Null, Bool(Bool), Int(Int32), BigInt(Int64), UInt(UInt32), BigUInt(UInt64), Float(Float32), Double(Float64), Blob(Blob) }
impl Clone for DataType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// the order and equality of values (decided by the contracts of C19), casts and floating point
pub uninterp spec fn dt_cmp(a: DataType, b: DataType) -> Option<Ordering>;
pub uninterp spec fn dt_eq(a: DataType, b: DataType) -> bool;
pub uninterp spec fn cast(a: DataType, k: DataTypeKind) -> Option<DataType>;
pub uninterp spec fn neg32(a: Float32) -> Float32;
pub uninterp spec fn neg64(a: Float64) -> Float64;
pub uninterp spec fn real_arith(op: BinaryOperator, a: DataType, b: DataType) -> Option<DataType>;
/// the characters of a text (invalid bytes replaced), and the same if it is valid UTF-8
pub uninterp spec fn blob_text(b: Blob) -> Seq<char>;
pub uninterp spec fn blob_str(b: Blob) -> Option<Seq<char>>;
pub uninterp spec fn blob_cat(a: Blob, b: Blob) -> Blob;
pub uninterp spec fn abs_of(a: DataType) -> DataType;
pub open spec fn dt_lt(a: DataType, b: DataType) -> bool { dt_cmp(a, b) == Some(Ordering::Less) }
pub open spec fn dt_gt(a: DataType, b: DataType) -> bool { dt_cmp(a, b) == Some(Ordering::Greater) }
pub open spec fn dt_le(a: DataType, b: DataType) -> bool { dt_lt(a, b) || dt_cmp(a, b) == Some(Ordering::Equal) }
pub open spec fn dt_ge(a: DataType, b: DataType) -> bool { dt_gt(a, b) || dt_cmp(a, b) == Some(Ordering::Equal) }
#[verifier::external_body] pub fn eq(a: &DataType, b: &DataType) -> (r: bool) ensures r == dt_eq(*a, *b) { unimplemented!() }
#[verifier::external_body] pub fn lt(a: &DataType, b: &DataType) -> (r: bool) ensures r == dt_lt(*a, *b) { unimplemented!() }
#[verifier::external_body] pub fn le(a: &DataType, b: &DataType) -> (r: bool) ensures r == dt_le(*a, *b) { unimplemented!() }
#[verifier::external_body] pub fn gt(a: &DataType, b: &DataType) -> (r: bool) ensures r == dt_gt(*a, *b) { unimplemented!() }
#[verifier::external_body] pub fn ge(a: &DataType, b: &DataType) -> (r: bool) ensures r == dt_ge(*a, *b) { unimplemented!() }
// Vec comparison of one-element lists is comparison of the elements (std contract)
#[verifier::external_body] pub fn vec_eq(a: &Vec<DataType>, b: &Vec<DataType>) -> (r: bool) requires a@.len() == 1, b@.len() == 1 ensures r == dt_eq(a@[0], b@[0]) { unimplemented!() }
#[verifier::external_body] pub fn vec_lt(a: &Vec<DataType>, b: &Vec<DataType>) -> (r: bool) requires a@.len() == 1, b@.len() == 1 ensures r == dt_lt(a@[0], b@[0]) { unimplemented!() }
#[verifier::external_body] pub fn vec_le(a: &Vec<DataType>, b: &Vec<DataType>) -> (r: bool) requires a@.len() == 1, b@.len() == 1 ensures r == dt_le(a@[0], b@[0]) { unimplemented!() }
#[verifier::external_body] pub fn vec_gt(a: &Vec<DataType>, b: &Vec<DataType>) -> (r: bool) requires a@.len() == 1, b@.len() == 1 ensures r == dt_gt(a@[0], b@[0]) { unimplemented!() }
#[verifier::external_body] pub fn vec_ge(a: &Vec<DataType>, b: &Vec<DataType>) -> (r: bool) requires a@.len() == 1, b@.len() == 1 ensures r == dt_ge(a@[0], b@[0]) { unimplemented!() }
#[verifier::external_body] pub fn extend_vec<T>(a: &mut Vec<T>, b: Vec<T>) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
pub open spec fn has_null(s: Seq<DataType>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == DataType::Null }
#[verifier::external_body] pub fn any_null(v: &Vec<DataType>) -> (r: bool) ensures r == has_null(v@) { unimplemented!() }
#[verifier::external_body] pub fn text() -> String { unimplemented!() }
impl DataType {
    pub fn is_null(&self) -> (r: bool) ensures r == (*self == DataType::Null) { matches!(self, DataType::Null) }
    #[verifier::external_body] pub fn kind(&self) -> DataTypeKind { unimplemented!() }
    pub fn as_bool(&self) -> (r: Option<&Bool>) ensures match *self { DataType::Bool(b) => r == Some(&b), _ => r is None } { match self { DataType::Bool(b) => Some(b), _ => None } }
    pub fn as_blob(&self) -> (r: Option<&Blob>) ensures match *self { DataType::Blob(b) => r == Some(&b), _ => r is None } { match self { DataType::Blob(b) => Some(b), _ => None } }
    pub fn is_numeric(&self) -> (r: bool) ensures r == numeric(*self) { match self { DataType::Null | DataType::Bool(_) | DataType::Blob(_) => false, _ => true } }
    #[verifier::external_body] pub fn try_cast(&self, k: DataTypeKind) -> (r: TypeSystemResult<DataType>) ensures match cast(*self, k) { Some(v) => r == TypeSystemResult::Ok(v), None => r is Err } { unimplemented!() }
    #[verifier::external_body] pub fn abs(&self) -> (r: DataType) requires numeric(*self), *self != DataType::Int(Int32(i32::MIN)), *self != DataType::BigInt(Int64(i64::MIN)) ensures r == abs_of(*self) { unimplemented!() }
    #[verifier::external_body] pub fn add(&self, o: &DataType) -> (r: TypeSystemResult<DataType>) requires !(is_int(*self) && is_int(*o)) ensures match real_arith(BinaryOperator::Plus, *self, *o) { Some(v) => r == TypeSystemResult::Ok(v), None => r is Err } { unimplemented!() }
    #[verifier::external_body] pub fn sub(&self, o: &DataType) -> (r: TypeSystemResult<DataType>) requires !(is_int(*self) && is_int(*o)) ensures match real_arith(BinaryOperator::Minus, *self, *o) { Some(v) => r == TypeSystemResult::Ok(v), None => r is Err } { unimplemented!() }
    #[verifier::external_body] pub fn mul(&self, o: &DataType) -> (r: TypeSystemResult<DataType>) requires !(is_int(*self) && is_int(*o)) ensures match real_arith(BinaryOperator::Multiply, *self, *o) { Some(v) => r == TypeSystemResult::Ok(v), None => r is Err } { unimplemented!() }
    #[verifier::external_body] pub fn div(&self, o: &DataType) -> (r: TypeSystemResult<DataType>) requires !(is_int(*self) && is_int(*o)) ensures match real_arith(BinaryOperator::Divide, *self, *o) { Some(v) => r == TypeSystemResult::Ok(v), None => r is Err } { unimplemented!() }
    #[verifier::external_body] pub fn rem(&self, o: &DataType) -> (r: TypeSystemResult<DataType>) requires !(is_int(*self) && is_int(*o)) ensures match real_arith(BinaryOperator::Modulo, *self, *o) { Some(v) => r == TypeSystemResult::Ok(v), None => r is Err } { unimplemented!() }
}
pub open spec fn numeric(v: DataType) -> bool { match v { DataType::Null | DataType::Bool(_) | DataType::Blob(_) => false, _ => true } }
impl Bool { pub fn value(&self) -> (r: bool) ensures r == self.0 { self.0 } }
#[verifier::external_body] pub fn neg_f32(a: Float32) -> (r: Float32) ensures r == neg32(a) { unimplemented!() }
#[verifier::external_body] pub fn neg_f64(a: Float64) -> (r: Float64) ensures r == neg64(a) { unimplemented!() }
pub uninterp spec fn str_chars(s: &str) -> Seq<char>;
impl Blob {
    #[verifier::external_body] pub fn as_str(&self) -> (r: TypeSystemResult<&str>) ensures match blob_str(*self) { Some(c) => r is Ok && str_chars(r->Ok_0) == c, None => r is Err } { unimplemented!() }
    #[verifier::external_body] pub fn like(&self, p: &str) -> (r: TypeSystemResult<bool>) ensures r == TypeSystemResult::Ok(like(blob_text(*self), str_chars(p))) { unimplemented!() }
}
// exact integer operations of std
pub open spec fn trunc_div(a: int, b: int) -> int { if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn trunc_rem(a: int, b: int) -> int { a - b * trunc_div(a, b) }
pub open spec fn in_i128(v: int) -> bool { i128::MIN <= v <= i128::MAX }
#[verifier::external_body] pub fn checked_add(a: i128, b: i128) -> (r: Option<i128>) ensures match r { Some(v) => v == a + b, None => !in_i128(a + b) } { unimplemented!() }
#[verifier::external_body] pub fn checked_sub(a: i128, b: i128) -> (r: Option<i128>) ensures match r { Some(v) => v == a - b, None => !in_i128(a - b) } { unimplemented!() }
#[verifier::external_body] pub fn checked_mul(a: i128, b: i128) -> (r: Option<i128>) ensures match r { Some(v) => v == a * b, None => !in_i128(a * b) } { unimplemented!() }
#[verifier::external_body] pub fn checked_div(a: i128, b: i128) -> (r: Option<i128>) ensures match r { Some(v) => b != 0 && v == trunc_div(a as int, b as int), None => b == 0 || !in_i128(trunc_div(a as int, b as int)) } { unimplemented!() }
#[verifier::external_body] pub fn checked_rem(a: i128, b: i128) -> (r: Option<i128>) ensures match r { Some(v) => b != 0 && v == trunc_rem(a as int, b as int), None => b == 0 || !in_i128(trunc_div(a as int, b as int)) } { unimplemented!() }
pub fn narrow_u64(r: Option<i128>) -> (o: Option<u64>) ensures match r { Some(v) => o == if 0 <= v <= u64::MAX { Some(v as u64) } else { None::<u64> }, None => o is None } { match r { Some(v) => if 0 <= v && v <= u64::MAX as i128 { Some(v as u64) } else { None }, None => None } }
pub fn narrow_i64(r: Option<i128>) -> (o: Option<i64>) ensures match r { Some(v) => o == if i64::MIN <= v <= i64::MAX { Some(v as i64) } else { None::<i64> }, None => o is None } { match r { Some(v) => if i64::MIN as i128 <= v && v <= i64::MAX as i128 { Some(v as i64) } else { None }, None => None } }
pub fn big_uint(v: Option<u64>) -> (r: Option<DataType>) ensures match v { Some(v) => r == Some(DataType::BigUInt(UInt64(v))), None => r is None } { match v { Some(v) => Some(DataType::BigUInt(UInt64(v))), None => None } }
pub fn big_int(v: Option<i64>) -> (r: Option<DataType>) ensures match v { Some(v) => r == Some(DataType::BigInt(Int64(v))), None => r is None } { match v { Some(v) => Some(DataType::BigInt(Int64(v))), None => None } }
pub fn int32(v: Option<i32>) -> (r: Option<DataType>) ensures match v { Some(v) => r == Some(DataType::Int(Int32(v))), None => r is None } { match v { Some(v) => Some(DataType::Int(Int32(v))), None => None } }
pub fn or_out_of_range(v: Option<DataType>) -> (r: EvaluationResult<DataType>) ensures match v { Some(v) => r == EvaluationResult::Ok(v), None => r is Err } { match v { Some(v) => Ok(v), None => Err(EvaluationError::InvalidExpression(text())) } }
pub fn typed(v: TypeSystemResult<DataType>) -> (r: EvaluationResult<DataType>) ensures match v { Ok(v) => r == EvaluationResult::Ok(v), Err(_) => r is Err } { match v { Ok(v) => Ok(v), Err(e) => Err(EvaluationError::TypeError(e)) } }
pub enum EvaluationError { InvalidArguments(ScalarFunction), InvalidExpression(String), ColumnIndexOutOfBounds(usize, usize), TypeError(TypeSystemError) }
#[verifier::external] impl From<TypeSystemError> for EvaluationError { fn from(v: TypeSystemError) -> Self { Self::TypeError(v) } }
pub type EvaluationResult<T> = Result<T, EvaluationError>;
// ------------------------------------------------------------------ expressions
//@extract crates/axmos-db/src/sql/parser/ast.rs : enum BinaryOperator
//@attrs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@extract crates/axmos-db/src/sql/parser/ast.rs : enum UnaryOperator
//@attrs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@extract crates/axmos-db/src/sql/binder/bounds.rs : enum ScalarFunction
//@end
//@extract crates/axmos-db/src/sql/binder/bounds.rs : enum AggregateFunction
//@attrs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
#[verifier::external_body] pub struct BoundSelect { v: u8 }
#[derive(Clone, Copy)] #[verifier::external_body] pub struct ObjectId { v: u64 }
//@extract crates/axmos-db/src/sql/binder/bounds.rs : struct Binding
//@end
impl Clone for Binding { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@extract crates/axmos-db/src/sql/binder/bounds.rs : enum BoundExpression
//@end
pub struct Row(pub Vec<DataType>);
impl Row {
    pub fn len(&self) -> (r: usize) ensures r == self.0@.len() { self.0.len() }
    pub fn at(&self, i: usize) -> (r: &DataType) requires i < self.0@.len() ensures *r == self.0@[i as int] { &self.0[i] }
    pub fn new(v: Vec<DataType>) -> (r: Row) ensures r.0@ == v@ { Row(v) }
}
impl Clone for Row { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Schema { v: u8 }
pub struct ExpressionEvaluator<'a> { pub row: &'a Row, pub schema: &'a Schema }
// ------------------------------------------------------------------ what SQL prescribes
/// the prescribed outcome of an expression: this value, an error, or nothing prescribed
pub enum Out { Val(DataType), Fail, Any }
/// the truth value of a value: unknown for NULL
pub open spec fn truth(v: DataType) -> Option<Option<bool>> { match v { DataType::Bool(b) => Some(Some(b.0)), DataType::Null => Some(None), _ => None } }
pub open spec fn from_truth(t: Option<bool>) -> DataType { match t { Some(b) => DataType::Bool(Bool(b)), None => DataType::Null } }
pub open spec fn not3(a: Option<bool>) -> Option<bool> { match a { Some(b) => Some(!b), None => None } }
pub open spec fn and3(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    if a == Some(false) || b == Some(false) { Some(false) } else if a == Some(true) && b == Some(true) { Some(true) } else { None }
}
pub open spec fn or3(a: Option<bool>, b: Option<bool>) -> Option<bool> { not3(and3(not3(a), not3(b))) }
pub open spec fn known(l: DataType, r: DataType, b: bool) -> Option<bool> { if l == DataType::Null || r == DataType::Null { None } else { Some(b) } }
pub open spec fn int_of(v: DataType) -> Option<int> { match v { DataType::Int(x) => Some(x.0 as int), DataType::BigInt(x) => Some(x.0 as int), DataType::UInt(x) => Some(x.0 as int), DataType::BigUInt(x) => Some(x.0 as int), _ => None } }
pub open spec fn is_int(v: DataType) -> bool { int_of(v) is Some }
pub open spec fn unsigned(v: DataType) -> bool { v is UInt || v is BigUInt }
pub open spec fn is_arith(op: BinaryOperator) -> bool { matches!(op, BinaryOperator::Plus | BinaryOperator::Minus | BinaryOperator::Multiply | BinaryOperator::Divide | BinaryOperator::Modulo) }
/// the mathematical result: none on division by zero
pub open spec fn exact(op: BinaryOperator, a: int, b: int) -> Option<int> {
    match op {
        BinaryOperator::Plus => Some(a + b), BinaryOperator::Minus => Some(a - b), BinaryOperator::Multiply => Some(a * b),
        BinaryOperator::Divide => if b == 0 { None } else { Some(trunc_div(a, b)) },
        BinaryOperator::Modulo => if b == 0 { None } else { Some(trunc_rem(a, b)) },
        _ => None,
    }
}
pub open spec fn arith(op: BinaryOperator, l: DataType, r: DataType) -> Out {
    if is_int(l) && is_int(r) {
        match exact(op, int_of(l)->0, int_of(r)->0) {
            Some(v) => if unsigned(l) && unsigned(r) { if 0 <= v <= u64::MAX { Out::Val(DataType::BigUInt(UInt64(v as u64))) } else { Out::Fail } }
                       else { if i64::MIN <= v <= i64::MAX { Out::Val(DataType::BigInt(Int64(v as i64))) } else { Out::Fail } },
            None => Out::Fail,
        }
    } else { match real_arith(op, l, r) { Some(v) => Out::Val(v), None => Out::Fail } }
}
pub open spec fn like_of(l: DataType, r: DataType, negated: bool) -> Out {
    match (l, r) { (DataType::Blob(a), DataType::Blob(b)) => match blob_str(b) { Some(p) => Out::Val(DataType::Bool(Bool(negated != like(blob_text(a), p)))), _ => Out::Fail }, _ => Out::Fail }
}
pub open spec fn binary(op: BinaryOperator, l: DataType, r: DataType) -> Out {
    let null = l == DataType::Null || r == DataType::Null;
    match op {
        BinaryOperator::And => match (truth(l), truth(r)) { (Some(a), Some(b)) => Out::Val(from_truth(and3(a, b))), _ => Out::Any },
        BinaryOperator::Or => match (truth(l), truth(r)) { (Some(a), Some(b)) => Out::Val(from_truth(or3(a, b))), _ => Out::Any },
        _ => if null { Out::Val(DataType::Null) } else { match op {
            BinaryOperator::Eq | BinaryOperator::In | BinaryOperator::Is => Out::Val(DataType::Bool(Bool(dt_eq(l, r)))),
            BinaryOperator::Neq | BinaryOperator::NotIn | BinaryOperator::IsNot => Out::Val(DataType::Bool(Bool(!dt_eq(l, r)))),
            BinaryOperator::Lt => Out::Val(DataType::Bool(Bool(dt_lt(l, r)))),
            BinaryOperator::Le => Out::Val(DataType::Bool(Bool(dt_le(l, r)))),
            BinaryOperator::Gt => Out::Val(DataType::Bool(Bool(dt_gt(l, r)))),
            BinaryOperator::Ge => Out::Val(DataType::Bool(Bool(dt_ge(l, r)))),
            BinaryOperator::Plus | BinaryOperator::Minus | BinaryOperator::Multiply | BinaryOperator::Divide | BinaryOperator::Modulo => arith(op, l, r),
            BinaryOperator::Concat => match (l, r) { (DataType::Blob(a), DataType::Blob(b)) => Out::Val(DataType::Blob(blob_cat(a, b))), _ => Out::Fail },
            BinaryOperator::Like => like_of(l, r, false),
            _ => like_of(l, r, true),
        } },
    }
}
pub open spec fn unary(op: UnaryOperator, v: DataType) -> Out {
    if v == DataType::Null { Out::Val(DataType::Null) } else { match op {
        UnaryOperator::Not => match v { DataType::Bool(b) => Out::Val(DataType::Bool(Bool(!b.0))), _ => Out::Fail },
        UnaryOperator::Plus => Out::Val(v),
        UnaryOperator::Minus => match v {
            DataType::Int(x) => if x.0 == i32::MIN { Out::Fail } else { Out::Val(DataType::Int(Int32((-x.0) as i32))) },
            DataType::BigInt(x) => if x.0 == i64::MIN { Out::Fail } else { Out::Val(DataType::BigInt(Int64((-x.0) as i64))) },
            DataType::Float(x) => Out::Val(DataType::Float(neg32(x))),
            DataType::Double(x) => Out::Val(DataType::Double(neg64(x))),
            _ => Out::Fail,
        },
    } }
}
/// whether the value is one of the items: unknown if that hangs on a NULL
pub open spec fn member(v: DataType, items: Seq<DataType>) -> Option<bool> decreases items.len() {
    if items.len() == 0 { Some(false) } else { or3(member(v, items.drop_last()), known(v, items.last(), dt_eq(v, items.last()))) }
}
pub open spec fn negate(t: Option<bool>, negated: bool) -> Option<bool> { if negated { not3(t) } else { t } }
pub open spec fn casted(v: DataType, k: DataTypeKind) -> Out { match cast(v, k) { Some(w) => Out::Val(w), None => Out::Fail } }
pub open spec fn function(f: ScalarFunction, args: Seq<DataType>, k: DataTypeKind) -> Out {
    match f {
        ScalarFunction::Coalesce => if args.len() != 2 { Out::Fail } else { casted(if args[0] == DataType::Null { args[1] } else { args[0] }, k) },
        ScalarFunction::NullIf => if args.len() != 2 { Out::Fail } else { casted(if args[0] != DataType::Null && dt_eq(args[0], args[1]) { DataType::Null } else { args[0] }, k) },
        _ => if has_null(args) { Out::Val(DataType::Null) } else { match f {
            ScalarFunction::Cast => if args.len() != 1 { Out::Fail } else { casted(args[0], k) },
            ScalarFunction::Abs => if args.len() != 1 || !numeric(args[0]) || args[0] == DataType::Int(Int32(i32::MIN)) || args[0] == DataType::BigInt(Int64(i64::MIN)) { Out::Fail } else { casted(abs_of(args[0]), k) },
            _ => Out::Any,
        } },
    }
}
pub open spec fn args_vals(o: Seq<Out>) -> Seq<DataType> { Seq::new(o.len(), |i: int| o[i]->Val_0) }
pub open spec fn any_any(o: Seq<Out>) -> bool { exists|i: int| 0 <= i < o.len() && #[trigger] o[i] is Any }
pub open spec fn any_fail(o: Seq<Out>) -> bool { exists|i: int| 0 <= i < o.len() && #[trigger] o[i] is Fail }
pub open spec fn sems(v: Vec<BoundExpression>, k: nat, row: Seq<DataType>) -> Seq<Out> decreases v, k {
    if k == 0 || k > v@.len() { seq![] } else { sems(v, (k - 1) as nat, row).push(sem(v@[k - 1], row)) }
}
/// the prescribed outcome of an expression on a row
pub open spec fn sem(e: BoundExpression, row: Seq<DataType>) -> Out decreases e, 0nat via sem_dec {
    match e {
        BoundExpression::Literal { value } => Out::Val(value),
        BoundExpression::ColumnBinding(b) => if b.column_idx < row.len() { Out::Val(row[b.column_idx as int]) } else { Out::Fail },
        BoundExpression::BinaryOp { left, op, right, result_type } => match (sem(*left, row), sem(*right, row)) {
            (Out::Val(l), Out::Val(r)) => binary(op, l, r),
            (Out::Any, _) => Out::Any, (_, Out::Any) => Out::Any,
            // nothing obliges AND and OR to evaluate both sides
            _ => if op == BinaryOperator::And || op == BinaryOperator::Or { Out::Any } else { Out::Fail },
        },
        BoundExpression::UnaryOp { op, expr, result_type } => match sem(*expr, row) { Out::Val(v) => unary(op, v), o => o },
        BoundExpression::IsNull { expr, negated } => match sem(*expr, row) { Out::Val(v) => Out::Val(DataType::Bool(Bool((v == DataType::Null) != negated))), o => o },
        BoundExpression::Between { expr, low, high, negated } => match (sem(*expr, row), sem(*low, row), sem(*high, row)) {
            (Out::Val(v), Out::Val(l), Out::Val(h)) => Out::Val(from_truth(negate(and3(known(l, v, dt_le(l, v)), known(v, h, dt_le(v, h))), negated))),
            _ => Out::Any,
        },
        BoundExpression::InList { expr, list, negated } => match sem(*expr, row) {
            Out::Val(v) => { let o = sems(list, list@.len(), row); if any_any(o) || any_fail(o) { Out::Any } else { Out::Val(from_truth(negate(member(v, args_vals(o)), negated))) } },
            _ => Out::Any,
        },
        BoundExpression::Function { func, args, distinct, return_type } => { let o = sems(args, args@.len(), row); if any_any(o) || any_fail(o) { Out::Any } else { function(func, args_vals(o), return_type) } },
        _ => Out::Any,
    }
}
#[via_fn] proof fn sem_dec(e: BoundExpression, row: Seq<DataType>) { }
pub open spec fn agrees(r: EvaluationResult<Vec<DataType>>, o: Out) -> bool {
    match o { Out::Val(v) => r is Ok && r->Ok_0@.len() == 1 && r->Ok_0@[0] == v, Out::Fail => r is Err, Out::Any => r is Ok ==> r->Ok_0@.len() == 1 }
}
pub open spec fn agrees1(r: EvaluationResult<DataType>, o: Out) -> bool { match o { Out::Val(v) => r == EvaluationResult::Ok(v), Out::Fail => r is Err, Out::Any => true } }
// three-valued logic is what the operators compute: the laws SQL users rely on
pub proof fn thm_three_valued(a: Option<bool>, b: Option<bool>, c: Option<bool>)
    ensures not3(and3(a, b)) == or3(not3(a), not3(b)), not3(not3(a)) == a, and3(a, b) == and3(b, a), or3(a, b) == or3(b, a),
        and3(a, or3(b, c)) == or3(and3(a, b), and3(a, c)), and3(Some(false), b) == Some(false), or3(Some(true), b) == Some(true), and3(None, Some(true)) == None::<bool>, or3(None, Some(false)) == None::<bool>
{ }
/// NOT BETWEEN and NOT IN are the negations, with unknown staying unknown
pub proof fn thm_not_between_not_in(v: DataType, l: DataType, h: DataType, items: Seq<DataType>)
    ensures v == DataType::Null ==> negate(and3(known(l, v, dt_le(l, v)), known(v, h, dt_le(v, h))), true) is None,
        v == DataType::Null && items.len() > 0 ==> member(v, items) is None,
        has_null(items) && !(exists|i: int| 0 <= i < items.len() && items[i] != DataType::Null && #[trigger] dt_eq(v, items[i])) ==> member(v, items) is None && negate(member(v, items), true) is None,
        v != DataType::Null && (exists|i: int| 0 <= i < items.len() && items[i] != DataType::Null && #[trigger] dt_eq(v, items[i])) ==> member(v, items) == Some(true),
        v != DataType::Null && !has_null(items) && !(exists|i: int| 0 <= i < items.len() && #[trigger] dt_eq(v, items[i])) ==> member(v, items) == Some(false)
    decreases items.len()
{
    if items.len() > 0 {
        let t = items.drop_last();
        thm_not_between_not_in(v, l, h, t);
        assert forall|i: int| 0 <= i < t.len() implies t[i] == #[trigger] items[i] by {}
        if has_null(items) { let i = choose|i: int| 0 <= i < items.len() && #[trigger] items[i] == DataType::Null; if i < t.len() { assert(t[i] == DataType::Null); assert(has_null(t)); } else { assert(items.last() == DataType::Null); } }
        if has_null(t) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == DataType::Null; assert(items[i] == DataType::Null); }
        if exists|i: int| 0 <= i < items.len() && items[i] != DataType::Null && #[trigger] dt_eq(v, items[i]) {
            let i = choose|i: int| 0 <= i < items.len() && items[i] != DataType::Null && #[trigger] dt_eq(v, items[i]);
            if i < t.len() { assert(dt_eq(v, t[i])); }
        }
        if exists|i: int| 0 <= i < t.len() && t[i] != DataType::Null && #[trigger] dt_eq(v, t[i]) {
            let i = choose|i: int| 0 <= i < t.len() && t[i] != DataType::Null && #[trigger] dt_eq(v, t[i]);
            assert(dt_eq(v, items[i]));
        }
        if exists|i: int| 0 <= i < t.len() && #[trigger] dt_eq(v, t[i]) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] dt_eq(v, t[i]); assert(dt_eq(v, items[i])); }
        assert(items.last() == items[items.len() - 1]);
        if dt_eq(v, items.last()) { assert(dt_eq(v, items[items.len() - 1])); }
    }
}
//@extract crates/axmos-db/src/runtime/eval.rs : impl<'a> ExpressionEvaluator<'a> / fn new
//@ret r
//@spec
    ensures r.row == row
//@end
//@extract crates/axmos-db/src/runtime/eval.rs : impl<'a> ExpressionEvaluator<'a> / fn eval_column
//@rewrite self\.row\[(\w+)\] ==> self.row.at(\1)
//@ret r
//@spec
    ensures agrees1(r, if col_ref.column_idx < self.row.0@.len() { Out::Val(self.row.0@[col_ref.column_idx as int]) } else { Out::Fail })
//@end
pub fn some_or<T, E>(v: Option<T>, e: E) -> (r: Result<T, E>) ensures match v { Some(x) => r == Result::<T, E>::Ok(x), None => r == Result::<T, E>::Err(e) } { match v { Some(x) => Ok(x), None => Err(e) } }
//@extract crates/axmos-db/src/runtime/eval.rs : impl<'a> ExpressionEvaluator<'a> / fn logical_and
//@rewrite (left|right)\s*\.as_bool\(\)\s*\.ok_or\( ==> some_or(\1.as_bool(), 
//@ret r
//@spec
    ensures (truth(*left) is Some && truth(*right) is Some && !(*left == DataType::Null && truth(*right)->0 is Some) && !(*right == DataType::Null && truth(*left)->0 is Some)) ==> r == TypeSystemResult::Ok(from_truth(and3(truth(*left)->0, truth(*right)->0))),
        *left == DataType::Null || *right == DataType::Null ==> r == TypeSystemResult::Ok(DataType::Null)
//@end
//@extract crates/axmos-db/src/runtime/eval.rs : impl<'a> ExpressionEvaluator<'a> / fn logical_or
//@rewrite (left|right)\s*\.as_bool\(\)\s*\.ok_or\( ==> some_or(\1.as_bool(), 
//@ret r
//@spec
    ensures (truth(*left) is Some && truth(*right) is Some && !(*left == DataType::Null && truth(*right)->0 is Some) && !(*right == DataType::Null && truth(*left)->0 is Some)) ==> r == TypeSystemResult::Ok(from_truth(or3(truth(*left)->0, truth(*right)->0))),
        *left == DataType::Null || *right == DataType::Null ==> r == TypeSystemResult::Ok(DataType::Null)
//@end
//@extract crates/axmos-db/src/runtime/eval.rs : impl<'a> ExpressionEvaluator<'a> / fn compare
//@rewrite fn compare\( ==> fn compare<F: Fn(&DataType, &DataType) -> bool>(
//@rewrite fn\(&DataType, &DataType\) -> bool ==> F
//@ret r
//@spec
    requires forall|a: &DataType, b: &DataType| #[trigger] test.requires((a, b))
    ensures *left == DataType::Null || *right == DataType::Null ==> r is None,
        !(*left == DataType::Null || *right == DataType::Null) ==> r is Some && test.ensures((left, right), r->0)
//@end
//@extract crates/axmos-db/src/runtime/eval.rs : impl<'a> ExpressionEvaluator<'a> / fn is_member
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite for item in items\b ==> for k in 0..items.len()
//@rewrite? \|l, r\| l == r\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == dt_eq(*l, *r) { eq(l, r) }
//@rewrite? \|l, r\| r == l\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == dt_eq(*r, *l) { eq(r, l) }
//@rewrite? \|l, r\| l <= r\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == dt_le(*l, *r) { le(l, r) }
//@rewrite? \|l, r\| r <= l\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == dt_le(*r, *l) { le(r, l) }
//@rewrite? \|l, r\| l >= r\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == dt_ge(*l, *r) { ge(l, r) }
//@rewrite? \|l, r\| r >= l\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == dt_ge(*r, *l) { ge(r, l) }
//@rewrite? \|l, r\| l < r\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == dt_lt(*l, *r) { lt(l, r) }
//@rewrite? \|l, r\| r < l\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == dt_lt(*r, *l) { lt(r, l) }
//@rewrite? \|l, r\| l > r\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == dt_gt(*l, *r) { gt(l, r) }
//@rewrite? \|l, r\| r > l\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == dt_gt(*r, *l) { gt(r, l) }
//@rewrite? \|l, r\| l != r\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == !dt_eq(*l, *r) { !eq(l, r) }
//@ret r
//@spec
    ensures r == member(*value, items@)
//@loop 0
    invariant member(*value, items@.subrange(0, k as int)) == if unknown { None::<bool> } else { Some(false) }
//@at loop 0 body-start
let item = &items[k];
proof { assert(items@.subrange(0, k + 1).drop_last() =~= items@.subrange(0, k as int)); assert(items@.subrange(0, k + 1).last() == items@[k as int]); lemma_member_true(*value, items@, k + 1); }
//@at loop 0 after
proof { assert(items@.subrange(0, items@.len() as int) =~= items@); }
//@at start
proof { assert(items@.subrange(0, 0).len() == 0); }
//@end
pub proof fn lemma_member_true(v: DataType, s: Seq<DataType>, k: int)
    requires 0 <= k <= s.len()
    ensures member(v, s.subrange(0, k)) == Some(true) ==> member(v, s) == Some(true)
    decreases s.len() - k
{
    if k < s.len() { lemma_member_true(v, s, k + 1); assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k)); } else { assert(s.subrange(0, k) =~= s); }
}
//@extract crates/axmos-db/src/runtime/eval.rs : impl<'a> ExpressionEvaluator<'a> / fn truth_value
//@ret r
//@spec
    ensures r == from_truth(negate(truth, negated))
//@end
//@extract crates/axmos-db/src/runtime/eval.rs : impl<'a> ExpressionEvaluator<'a> / fn as_integer
//@ret r
//@spec
    ensures match r { Some(p) => int_of(*value) == Some(p.0 as int) && p.1 == unsigned(*value), None => !is_int(*value) }
//@end
//@extract crates/axmos-db/src/runtime/eval.rs : impl<'a> ExpressionEvaluator<'a> / fn integer_arithmetic
//@rewrite left\.checked_(\w+)\(right\) ==> checked_\1(left, right)
//@ret r
//@spec
    ensures is_arith(op) ==> match r { Some(v) => exact(op, left as int, right as int) == Some(v as int), None => exact(op, left as int, right as int) is None || !in_i128(exact(op, left as int, right as int)->0) || (matches!(op, BinaryOperator::Modulo) && !in_i128(trunc_div(left as int, right as int))) }
//@end
//@extract crates/axmos-db/src/runtime/eval.rs : impl<'a> ExpressionEvaluator<'a> / fn arithmetic
//@rewrite? result\s*\.and_then\(\|v\| u64::try_from\(v\)\.ok\(\)\)\s*\.map\(\|v\| DataType::BigUInt\(v\.into\(\)\)\) ==> big_uint(narrow_u64(result))
//@rewrite? result\s*\.and_then\(\|v\| i64::try_from\(v\)\.ok\(\)\)\s*\.map\(\|v\| DataType::BigInt\(v\.into\(\)\)\) ==> big_int(narrow_i64(result))
//@rewrite value\.ok_or_else\(\|\| \{\s*EvaluationError::InvalidExpression\(format!\([^()]*\)\)\s*\}\) ==> or_out_of_range(value)
//@rewrite result\.map_err\(EvaluationError::from\) ==> typed(result)
//@ret r
//@spec
    requires is_arith(op)
    ensures agrees1(r, arith(op, *left, *right))
//@at start
proof { if is_int(*left) && is_int(*right) { lemma_mul_bound(int_of(*left)->0, int_of(*right)->0); if int_of(*right)->0 != 0 { lemma_div_bound(int_of(*left)->0, int_of(*right)->0); } } }
//@end
pub proof fn lemma_mul_bound(a: int, b: int) requires -0x8000_0000_0000_0000 <= a <= 0xFFFF_FFFF_FFFF_FFFF, -0x8000_0000_0000_0000 <= b <= 0xFFFF_FFFF_FFFF_FFFF
    ensures a * b > u64::MAX || a * b < i64::MIN || in_i128(a * b) { }
pub proof fn lemma_div_bound(a: int, b: int) requires -0x8000_0000_0000_0000 <= a <= 0xFFFF_FFFF_FFFF_FFFF, -0x8000_0000_0000_0000 <= b <= 0xFFFF_FFFF_FFFF_FFFF, b != 0
    ensures in_i128(trunc_div(a, b)), in_i128(trunc_rem(a, b))
{
    let x = if a >= 0 { a } else { -a }; let y = if b > 0 { b } else { -b };
    assert(0 <= x / y <= x) by (nonlinear_arith) requires x >= 0, y > 0;
    assert(0 <= y * (x / y) <= x) by (nonlinear_arith) requires x >= 0, y > 0;
    let q = x / y;
    assert(b * trunc_div(a, b) == y * q || b * trunc_div(a, b) == -(y * q)) by (nonlinear_arith) requires trunc_div(a, b) == q || trunc_div(a, b) == -q, y == b || y == -b;
}
//@extract crates/axmos-db/src/runtime/eval.rs : impl<'a> ExpressionEvaluator<'a> / fn string_like
//@rewrite (str_lhs|pattern)\s*\.as_blob\(\)\s*\.ok_or\( ==> some_or(\1.as_blob(), 
//@ret r
//@spec
    ensures agrees1(match r { Ok(v) => EvaluationResult::Ok(v), Err(e) => EvaluationResult::Err(EvaluationError::TypeError(e)) }, like_of(*str_lhs, *pattern, negated))
//@end
//@extract crates/axmos-db/src/runtime/eval.rs : impl<'a> ExpressionEvaluator<'a> / fn string_concat
//@rewrite (str_a|str_b)\s*\.as_blob\(\)\s*\.ok_or\( ==> some_or(\1.as_blob(), 
//@rewrite (?s)let a_str = .*Blob::from\(concatenated\.as_str\(\)\)\)\) ==> Ok(DataType::Blob(concat_blobs(a_blob, b_blob)))
//@ret r
//@spec
    ensures match (*str_a, *str_b) { (DataType::Blob(a), DataType::Blob(b)) => r == TypeSystemResult::Ok(DataType::Blob(blob_cat(a, b))), _ => r is Err }
//@end
#[verifier::external_body] pub fn concat_blobs(a: &Blob, b: &Blob) -> (r: Blob) ensures r == blob_cat(*a, *b) { unimplemented!() }
//@extract crates/axmos-db/src/runtime/eval.rs : impl<'a> ExpressionEvaluator<'a> / fn eval_binary_op
//@rewrite? \bleft == right\b ==> vec_eq(&left, &right)
//@rewrite? \bleft\[0\] == right\[0\] ==> vec_eq(&left, &right)
//@rewrite? \bleft != right\b ==> !vec_eq(&left, &right)
//@rewrite? \bleft\[0\] != right\[0\] ==> !vec_eq(&left, &right)
//@rewrite? \bleft <= right\b ==> vec_le(&left, &right)
//@rewrite? \bleft\[0\] <= right\[0\] ==> vec_le(&left, &right)
//@rewrite? \bleft >= right\b ==> vec_ge(&left, &right)
//@rewrite? \bleft\[0\] >= right\[0\] ==> vec_ge(&left, &right)
//@rewrite? \bleft < right\b ==> vec_lt(&left, &right)
//@rewrite? \bleft\[0\] < right\[0\] ==> vec_lt(&left, &right)
//@rewrite? \bleft > right\b ==> vec_gt(&left, &right)
//@rewrite? \bleft\[0\] > right\[0\] ==> vec_gt(&left, &right)
//@rewrite? "[^"\n]*"\s*\.to_string\(\) ==> text()
//@rewrite? BinaryOperator::In \| BinaryOperator::NotIn if left\.len\(\) == 1 => ==> o if matches!(o, BinaryOperator::In | BinaryOperator::NotIn) && left.len() == 1 =>
//@rewrite? if let Some\(Bool\(b\)\) = (left|right)\[0\]\.as_bool\(\)\s*&& !b\b ==> if (match \1[0].as_bool() { Some(Bool(b)) => !*b, None => false })
//@rewrite? if let Some\(Bool\(b\)\) = (left|right)\[0\]\.as_bool\(\)\s*&& \*b\b ==> if (match \1[0].as_bool() { Some(Bool(b)) => *b, None => false })
//@ret r
//@spec
    requires left@.len() == 1, right@.len() == 1
    ensures agrees(r, binary(bin_op, left@[0], right@[0]))
//@at start
proof { assert(right@.len() <= 1); }
//@end
pub fn neg_Int(v: i32) -> (r: Option<DataType>) ensures r == if v == i32::MIN { None } else { Some(DataType::Int(Int32((-v) as i32))) } { if v == i32::MIN { None } else { Some(DataType::Int(Int32(-v))) } }
pub fn neg_BigInt(v: i64) -> (r: Option<DataType>) ensures r == if v == i64::MIN { None } else { Some(DataType::BigInt(Int64((-v) as i64))) } { if v == i64::MIN { None } else { Some(DataType::BigInt(Int64(-v))) } }
//@extract crates/axmos-db/src/runtime/eval.rs : impl<'a> ExpressionEvaluator<'a> / fn eval_unary_op
//@rewrite? i\s*\.0\s*\.checked_neg\(\)\s*\.map\(\|v\| DataType::(Int|BigInt)\(v\.into\(\)\)\)\s*\.ok_or_else\(\|\| EvaluationError::InvalidExpression\(format!\((?:[^()]|\([^()]*\))*\)\)\) ==> or_out_of_range(neg_\1(i.0))
//@rewrite? Double\(\(-f\.0\)\.into\(\)\) ==> Double(neg_f64(f))
//@rewrite? Float\(\(-f\.0\)\.into\(\)\) ==> Float(neg_f32(f))
//@ret r
//@spec
    ensures agrees1(r, unary(unary_op, operand))
//@end
pub struct Abs;
//@extract crates/axmos-db/src/runtime/eval.rs : impl Callable for Abs / fn call
//@header impl Abs
//@rewrite? args\[0\] == args\[1\] ==> eq(&args[0], &args[1])
//@rewrite? format!\([^()]*(?:\([^()]*\)[^()]*)*\) ==> text()
//@ret r
//@spec
    ensures agrees1(r, if args@.len() != 1 || !numeric(args@[0]) || args@[0] == DataType::Int(Int32(i32::MIN)) || args@[0] == DataType::BigInt(Int64(i64::MIN)) { Out::Fail } else { Out::Val(abs_of(args@[0])) })
//@end
pub struct Coalesce;
//@extract crates/axmos-db/src/runtime/eval.rs : impl Callable for Coalesce / fn call
//@header impl Coalesce
//@rewrite? args\[0\] == args\[1\] ==> eq(&args[0], &args[1])
//@rewrite? format!\([^()]*(?:\([^()]*\)[^()]*)*\) ==> text()
//@ret r
//@spec
    ensures agrees1(r, if args@.len() != 2 { Out::Fail } else { Out::Val(if args@[0] == DataType::Null { args@[1] } else { args@[0] }) })
//@end
pub struct NullIf;
//@extract crates/axmos-db/src/runtime/eval.rs : impl Callable for NullIf / fn call
//@header impl NullIf
//@rewrite? args\[0\] == args\[1\] ==> eq(&args[0], &args[1])
//@rewrite? format!\([^()]*(?:\([^()]*\)[^()]*)*\) ==> text()
//@ret r
//@spec
    ensures agrees1(r, if args@.len() != 2 { Out::Fail } else { Out::Val(if args@[0] != DataType::Null && dt_eq(args@[0], args@[1]) { DataType::Null } else { args@[0] }) })
//@end
pub struct Ceil; impl Ceil { #[verifier::external_body] pub fn call(args: Vec<DataType>) -> EvaluationResult<DataType> { unimplemented!() } }
pub struct Concat; impl Concat { #[verifier::external_body] pub fn call(args: Vec<DataType>) -> EvaluationResult<DataType> { unimplemented!() } }
pub struct Floor; impl Floor { #[verifier::external_body] pub fn call(args: Vec<DataType>) -> EvaluationResult<DataType> { unimplemented!() } }
pub struct Round; impl Round { #[verifier::external_body] pub fn call(args: Vec<DataType>) -> EvaluationResult<DataType> { unimplemented!() } }
pub struct LTrim; impl LTrim { #[verifier::external_body] pub fn call(args: Vec<DataType>) -> EvaluationResult<DataType> { unimplemented!() } }
pub struct RTrim; impl RTrim { #[verifier::external_body] pub fn call(args: Vec<DataType>) -> EvaluationResult<DataType> { unimplemented!() } }
pub struct Length; impl Length { #[verifier::external_body] pub fn call(args: Vec<DataType>) -> EvaluationResult<DataType> { unimplemented!() } }
pub struct Lower; impl Lower { #[verifier::external_body] pub fn call(args: Vec<DataType>) -> EvaluationResult<DataType> { unimplemented!() } }
pub struct Upper; impl Upper { #[verifier::external_body] pub fn call(args: Vec<DataType>) -> EvaluationResult<DataType> { unimplemented!() } }
pub struct Sqrt; impl Sqrt { #[verifier::external_body] pub fn call(args: Vec<DataType>) -> EvaluationResult<DataType> { unimplemented!() } }
//@extract crates/axmos-db/src/runtime/eval.rs : impl<'a> ExpressionEvaluator<'a> / fn evaluate
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(100)]
//@rewrite? "[^"\n]*"\s*\.to_string\(\) ==> text()
//@rewrite? \|l, r\| l == r\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == dt_eq(*l, *r) { eq(l, r) }
//@rewrite? \|l, r\| r == l\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == dt_eq(*r, *l) { eq(r, l) }
//@rewrite? \|l, r\| l <= r\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == dt_le(*l, *r) { le(l, r) }
//@rewrite? \|l, r\| r <= l\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == dt_le(*r, *l) { le(r, l) }
//@rewrite? \|l, r\| l >= r\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == dt_ge(*l, *r) { ge(l, r) }
//@rewrite? \|l, r\| r >= l\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == dt_ge(*r, *l) { ge(r, l) }
//@rewrite? \|l, r\| l < r\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == dt_lt(*l, *r) { lt(l, r) }
//@rewrite? \|l, r\| r < l\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == dt_lt(*r, *l) { lt(r, l) }
//@rewrite? \|l, r\| l > r\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == dt_gt(*l, *r) { gt(l, r) }
//@rewrite? \|l, r\| r > l\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == dt_gt(*r, *l) { gt(r, l) }
//@rewrite? \|l, r\| l != r\b ==> |l: &DataType, r: &DataType| -> (b: bool) ensures b == !dt_eq(*l, *r) { !eq(l, r) }
//@rewrite for exp in list\b ==> for k in 0..list.len()
//@rewrite for expr in args\b ==> for k in 0..args.len()
//@rewrite (\w+)\.extend\((self\.evaluate\(exp\)\?)\); ==> extend_vec(&mut \1, \2);
//@rewrite (\w+)\.extend\(evaluated\); ==> extend_vec(&mut \1, evaluated);
//@rewrite arg_list\.iter\(\)\.any\(DataType::is_null\) ==> any_null(&arg_list)
//@rewrite name\.to_string\(\) ==> text()
//@ret r
//@spec
    ensures agrees(r, sem(*expr, self.row.0@))
    decreases *expr
//@loop 0
    invariant ({ let o = sems(*list, k as nat, self.row.0@); o.len() == k && (any_any(o) || any_fail(o) || items@ == args_vals(o)) })
//@loop 1
    invariant ({ let o = sems(*args, k as nat, self.row.0@); o.len() == k && (any_any(o) || any_fail(o) || arg_list@ == args_vals(o)) })
//@at loop 0 body-start
let exp = &list[k];
proof { lemma_sems(*list, k as nat, self.row.0@); lemma_sems_on(*list, k as nat + 1, self.row.0@); assert(decreases_to!(*list => list@[k as int])); }
//@at loop 1 body-start
let expr = &args[k];
proof { lemma_sems(*args, k as nat, self.row.0@); lemma_sems_on(*args, k as nat + 1, self.row.0@); assert(decreases_to!(*args => args@[k as int])); }
//@at loop 0 body-end
proof { let o = sems(*list, (k + 1) as nat, self.row.0@); if !any_any(o) && !any_fail(o) { assert(items@ =~= args_vals(o)); } }
//@at loop 1 body-end
proof { let o = sems(*args, (k + 1) as nat, self.row.0@); if !any_any(o) && !any_fail(o) { assert(arg_list@ =~= args_vals(o)); } }
//@end
pub proof fn lemma_sems(v: Vec<BoundExpression>, k: nat, row: Seq<DataType>)
    requires k < v@.len()
    ensures ({ let a = sems(v, k, row); let b = sems(v, k + 1, row); b == a.push(sem(v@[k as int], row)) && (any_any(a) ==> any_any(b)) && (any_fail(a) ==> any_fail(b)) && (sem(v@[k as int], row) is Any ==> any_any(b)) && (sem(v@[k as int], row) is Fail ==> any_fail(b)) && (!any_any(b) && !any_fail(b) ==> !any_any(a) && !any_fail(a) && sem(v@[k as int], row) is Val) })
{
    let a = sems(v, k, row); let b = sems(v, k + 1, row);
    assert(b[a.len() as int] == sem(v@[k as int], row));
    if any_any(a) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] is Any; assert(b[i] is Any); }
    if any_fail(a) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] is Fail; assert(b[i] is Fail); }
}
pub proof fn lemma_sems_on(v: Vec<BoundExpression>, k: nat, row: Seq<DataType>)
    requires k <= v@.len()
    ensures any_any(sems(v, k, row)) ==> any_any(sems(v, v@.len(), row)), any_fail(sems(v, k, row)) ==> any_fail(sems(v, v@.len(), row))
    decreases v@.len() - k
{ if k < v@.len() { lemma_sems(v, k, row); lemma_sems_on(v, k + 1, row); } }
//@extract crates/axmos-db/src/runtime/eval.rs : impl<'a> ExpressionEvaluator<'a> / fn evaluate_as_single_value
//@rewrite? "[^"\n]*"\s*\.to_string\(\) ==> text()
//@ret r
//@spec
    ensures agrees1(r, sem(*expr, self.row.0@))
//@end
//@extract crates/axmos-db/src/runtime/eval.rs : impl<'a> ExpressionEvaluator<'a> / fn evaluate_as_bool
//@rewrite? "[^"\n]*"\s*\.to_string\(\) ==> text()
//@ret r
//@spec
    ensures match sem(*expr, self.row.0@) { Out::Val(DataType::Bool(b)) => r == EvaluationResult::Ok(b.0), Out::Val(DataType::Null) => r == EvaluationResult::Ok(false), Out::Any => true, _ => r is Err }
//@end
// ------------------------------------------------------------------ row operators
pub enum RuntimeError { InvalidExpression(EvaluationError), TypeError(TypeSystemError), ColumnNotFound(usize), Other }
#[verifier::external] impl From<EvaluationError> for RuntimeError { fn from(v: EvaluationError) -> Self { Self::InvalidExpression(v) } }
#[verifier::external] impl From<TypeSystemError> for RuntimeError { fn from(v: TypeSystemError) -> Self { Self::TypeError(v) } }
pub type RuntimeResult<T> = Result<T, RuntimeError>;
pub type Vals = Seq<DataType>;
/// a call of next hands out the first remaining row and leaves the others
pub open spec fn next_of(a: Seq<Vals>, b: Seq<Vals>, r: RuntimeResult<Option<Row>>) -> bool {
    match r { Ok(Some(row)) => a.len() > 0 && row.0@ == a[0] && b == a.drop_first(), Ok(None) => a.len() == 0 && b.len() == 0, Err(_) => true }
}
/// rest(): the rows an operator still has to hand out
pub trait Executor: Sized {
    spec fn rest(&self) -> Seq<Vals>;
    fn open(&mut self) -> (r: RuntimeResult<()>) ensures r is Ok ==> final(self).rest() == old(self).rest();
    fn next(&mut self) -> (r: RuntimeResult<Option<Row>>) ensures next_of(old(self).rest(), final(self).rest(), r);
    fn close(&mut self) -> (r: RuntimeResult<()>) ensures r is Ok ==> final(self).rest() == old(self).rest();
}
pub uninterp spec fn column_kind(s: Schema, i: int) -> Option<DataTypeKind>;
pub uninterp spec fn schema_width(s: Schema) -> usize;
impl Schema {
    #[verifier::external_body] pub fn column_type(&self, i: usize) -> (r: RuntimeResult<DataTypeKind>) ensures match column_kind(*self, i as int) { Some(k) => r == RuntimeResult::Ok(k), None => r is Err } { unimplemented!() }
    #[verifier::external_body] pub fn num_columns(&self) -> (r: usize) ensures r == schema_width(*self) { unimplemented!() }
}
/// the predicate is true on the row (neither false nor unknown)
pub open spec fn holds(e: BoundExpression, row: Vals) -> bool { sem(e, row) == Out::Val(DataType::Bool(Bool(true))) }
pub open spec fn prescribed(e: BoundExpression, rows: Seq<Vals>) -> bool { forall|i: int| 0 <= i < rows.len() ==> !(sem(e, #[trigger] rows[i]) is Any) }
pub open spec fn filtered(e: BoundExpression, s: Seq<Vals>) -> Seq<Vals> decreases s.len() {
    if s.len() == 0 { seq![] } else if holds(e, s[0]) { seq![s[0]] + filtered(e, s.drop_first()) } else { filtered(e, s.drop_first()) }
}
pub struct Filter<Child: Executor> { pub schema: Schema, pub predicate: BoundExpression, pub child: Child }
impl<Child: Executor> Filter<Child> { pub open spec fn rest(&self) -> Seq<Vals> { filtered(self.predicate, self.child.rest()) } }
//@extract crates/axmos-db/src/runtime/ops/filter.rs : impl<Child: Executor> Filter<Child> / fn schema
//@ret r
//@spec
    ensures r == self.schema
//@end
//@extract crates/axmos-db/src/runtime/ops/filter.rs : impl<Child: Executor> Filter<Child> / fn predicate
//@ret r
//@spec
    ensures r == self.predicate
//@end
//@extract crates/axmos-db/src/runtime/ops/filter.rs : impl<Child: Executor> Executor for Filter<Child> / fn open
//@header impl<Child: Executor> Filter<Child>
//@ret r
//@spec
    ensures r is Ok ==> final(self).rest() == old(self).rest()
//@end
//@extract crates/axmos-db/src/runtime/ops/filter.rs : impl<Child: Executor> Executor for Filter<Child> / fn next
//@header impl<Child: Executor> Filter<Child>
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite? self\.stats\.\w+ \+= \w+; ==> 
//@ret r
//@spec
    requires prescribed(old(self).predicate, old(self).child.rest())
    ensures next_of(old(self).rest(), final(self).rest(), r), final(self).predicate == old(self).predicate, r is Ok ==> prescribed(final(self).predicate, final(self).child.rest())
//@loop 0
    invariant self.predicate == old(self).predicate, prescribed(self.predicate, self.child.rest()), self.rest() == old(self).rest()
    decreases self.child.rest().len()
//@at loop 0 body-start
let ghost before = self.child.rest();
proof { if before.len() > 0 { assert forall|i: int| 0 <= i < before.drop_first().len() implies !(sem(self.predicate, #[trigger] before.drop_first()[i]) is Any) by { assert(before.drop_first()[i] == before[i + 1]); } assert((seq![before[0]] + filtered(self.predicate, before.drop_first())).drop_first() =~= filtered(self.predicate, before.drop_first())); } }
//@end
pub open spec fn limited(s: Seq<Vals>, skip: int, take: int) -> Seq<Vals> { if skip >= s.len() || take <= 0 { seq![] } else if take >= s.len() - skip { s.subrange(skip, s.len() as int) } else { s.subrange(skip, skip + take) } }
pub struct Limit<Child: Executor> { pub child: Child, pub limit: usize, pub offset: usize, pub current: usize, pub skipped: usize, pub schema: Schema }
impl<Child: Executor> Limit<Child> { pub open spec fn rest(&self) -> Seq<Vals> { limited(self.child.rest(), self.offset - self.skipped, self.limit - self.current) } }
//@extract crates/axmos-db/src/runtime/ops/limit.rs : impl<Child: Executor> Executor for Limit<Child> / fn next
//@header impl<Child: Executor> Limit<Child>
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite? self\.stats\.\w+ \+= \w+; ==> 
//@ret r
//@spec
    requires old(self).skipped <= old(self).offset, old(self).current <= old(self).limit
    ensures r is Ok ==> next_of(old(self).rest(), final(self).rest(), r), final(self).skipped <= final(self).offset, final(self).current <= final(self).limit
//@loop 0
    invariant self.skipped <= self.offset, self.current <= self.limit, self.rest() =~= old(self).rest()
    decreases self.offset - self.skipped
//@at loop 0 after
proof { let c = self.child.rest(); let t = self.limit - self.current; if c.len() > 0 && t > 0 { assert(limited(c, 0, t).drop_first() =~= limited(c.drop_first(), 0, t - 1)); assert(limited(c, 0, t)[0] == c[0]); } }
//@end
pub open spec fn project_row(exprs: Seq<BoundExpression>, sc: Schema, row: Vals) -> Vals { Seq::new(exprs.len(), |i: int| cast(sem(exprs[i], row)->Val_0, column_kind(sc, i)->0)->0) }
pub open spec fn mapped(exprs: Seq<BoundExpression>, sc: Schema, s: Seq<Vals>) -> Seq<Vals> { Seq::new(s.len(), |i: int| project_row(exprs, sc, s[i])) }
pub struct Project<Child: Executor> { pub child: Child, pub input_schema: Schema, pub output_schema: Schema, pub exprs: Vec<BoundExpression> }
impl<Child: Executor> Project<Child> { pub open spec fn rest(&self) -> Seq<Vals> { mapped(self.exprs@, self.output_schema, self.child.rest()) } }
//@extract crates/axmos-db/src/runtime/ops/project.rs : impl<Child: Executor> Executor for Project<Child> / fn next
//@header impl<Child: Executor> Project<Child>
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite? self\.stats\.\w+ \+= \w+; ==> 
//@rewrite for \(i, proj_expr\) in self\.exprs\.iter\(\)\.enumerate\(\) ==> for i in 0..self.exprs.len()
//@rewrite self\s*\.output_schema\s*\.column\((\w+)\)\s*\.ok_or\(RuntimeError::ColumnNotFound\(\w+\)\)\?\s*\.datatype\(\) ==> self.output_schema.column_type(\1)?
//@rewrite projected\.into_boxed_slice\(\) ==> projected
//@rewrite evaluate_as_single_value\(&proj_expr\) ==> evaluate_as_single_value(proj_expr)
//@ret r
//@spec
    requires forall|k: int| 0 <= k < old(self).exprs@.len() ==> prescribed(#[trigger] old(self).exprs@[k], old(self).child.rest())
    ensures next_of(old(self).rest(), final(self).rest(), r)
//@loop 0
    invariant projected@ =~= project_row(self.exprs@, self.output_schema, row.0@).subrange(0, i as int)
//@at loop 0 after
proof { assert(projected@ =~= project_row(self.exprs@, self.output_schema, row.0@)); }
//@at start
proof { let s = self.child.rest(); if s.len() > 0 { assert(mapped(self.exprs@, self.output_schema, s).drop_first() =~= mapped(self.exprs@, self.output_schema, s.drop_first())); } }
//@at loop 0 body-start
let proj_expr = &self.exprs[i];
proof { assert(!(sem(self.exprs@[i as int], old(self).child.rest()[0]) is Any)); }
//@at after let casted = value.try_cast(expected_type)?;
proof { assert(casted == project_row(self.exprs@, self.output_schema, row.0@)[i as int]); }
//@end
// sets of rows: two rows are the same if their values are equal
pub open spec fn same_row(a: Vals, b: Vals) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> dt_eq(#[trigger] a[i], b[i]) }
pub open spec fn contains_row(s: Seq<Vals>, a: Vals) -> bool { exists|k: int| 0 <= k < s.len() && same_row(#[trigger] s[k], a) }
#[verifier::external_body] pub struct RowSet { v: u8 }
impl RowSet {
    pub uninterp spec fn view(&self) -> Seq<Vals>;
    /// HashSet::insert: equality of keys is equality of the vectors (std contract over the Eq and Hash of C19)
    #[verifier::external_body] pub fn insert(&mut self, k: Vec<DataType>) -> (r: bool) ensures r == !contains_row(old(self)@, k@), final(self)@ == if r { old(self)@.push(k@) } else { old(self)@ } { unimplemented!() }
}
/// the rows that equal no row before them
pub open spec fn distinct(seen: Seq<Vals>, s: Seq<Vals>) -> Seq<Vals> decreases s.len() {
    if s.len() == 0 { seq![] } else if contains_row(seen, s[0]) { distinct(seen, s.drop_first()) } else { seq![s[0]] + distinct(seen.push(s[0]), s.drop_first()) }
}
pub struct HashDistinct<Child: Executor> { pub schema: Schema, pub child: Child, pub seen: RowSet }
impl<Child: Executor> HashDistinct<Child> { pub open spec fn rest(&self) -> Seq<Vals> { distinct(self.seen@, self.child.rest()) } }
//@extract crates/axmos-db/src/runtime/ops/distinct.rs : impl<Child: Executor> HashDistinct<Child> / fn row_to_key
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite? \b(row|left|right|right_row|left_row)\[(\w+)\]\.clone\(\) ==> \1.at(\2).clone()
//@ret r
//@spec
    ensures r@ == row.0@
//@loop 0
    invariant key@ =~= row.0@.subrange(0, i as int)
//@end
//@extract crates/axmos-db/src/runtime/ops/distinct.rs : impl<Child: Executor> Executor for HashDistinct<Child> / fn next
//@header impl<Child: Executor> HashDistinct<Child>
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite? self\.stats\.\w+ \+= \w+; ==> 
//@ret r
//@spec
    ensures next_of(old(self).rest(), final(self).rest(), r)
//@loop 0
    invariant self.rest() == old(self).rest()
    decreases self.child.rest().len()
//@at loop 0 body-start
let ghost before = self.child.rest(); let ghost seen0 = self.seen@;
proof { if before.len() > 0 { assert((seq![before[0]] + distinct(seen0.push(before[0]), before.drop_first())).drop_first() =~= distinct(seen0.push(before[0]), before.drop_first())); } }
//@end
pub struct Materialize<Child: Executor> { pub child: Child, pub buffer: Vec<Row>, pub current_idx: usize }
pub open spec fn views(b: Seq<Row>) -> Seq<Vals> { Seq::new(b.len(), |i: int| b[i].0@) }
pub open spec fn buffered(b: Seq<Row>, i: int) -> Seq<Vals> { if i >= b.len() { seq![] } else { views(b).subrange(i, b.len() as int) } }
impl<Child: Executor> Materialize<Child> { pub open spec fn rest(&self) -> Seq<Vals> { buffered(self.buffer@, self.current_idx as int) } }
//@extract crates/axmos-db/src/runtime/ops/materialize.rs : impl<Child: Executor> Materialize<Child> / fn materialize_child
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@rewrite? self\.stats\.\w+ \+= \w+; ==> 
//@ret r
//@spec
    requires old(self).buffer@.len() == 0
    ensures r is Ok ==> views(final(self).buffer@) == old(self).child.rest(), final(self).current_idx == old(self).current_idx
//@loop 0
    invariant views(self.buffer@) + self.child.rest() =~= old(self).child.rest(), self.current_idx == old(self).current_idx
    ensures self.child.rest().len() == 0
    decreases self.child.rest().len()
//@at loop 0 body-start
let ghost b0 = self.buffer@;
//@at loop 0 body-end
proof { assert(views(self.buffer@) =~= views(b0).push(row.0@)); }
//@end
//@extract crates/axmos-db/src/runtime/ops/materialize.rs : impl<Child: Executor> Executor for Materialize<Child> / fn open
//@header impl<Child: Executor> Materialize<Child>
//@ret r
//@spec
    requires old(self).buffer@.len() == 0, old(self).current_idx == 0
    ensures r is Ok ==> final(self).rest() == old(self).child.rest()
//@at after self.materialize_child()?;
proof { assert(buffered(self.buffer@, 0) =~= views(self.buffer@)); }
//@end
//@extract crates/axmos-db/src/runtime/ops/materialize.rs : impl<Child: Executor> Executor for Materialize<Child> / fn next
//@header impl<Child: Executor> Materialize<Child>
//@rewrite? self\.stats\.\w+ \+= \w+; ==> 
//@ret r
//@spec
    ensures next_of(old(self).rest(), final(self).rest(), r)
//@at start
proof { if self.current_idx < self.buffer@.len() { assert(buffered(self.buffer@, self.current_idx + 1) =~= buffered(self.buffer@, self.current_idx as int).drop_first()); } }
//@end
// ------------------------------------------------------------------ ORDER BY
pub struct SortExpr { pub expr: BoundExpression, pub asc: bool, pub nulls_first: bool }
pub open spec fn rev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, Ordering::Equal => Ordering::Equal } }
/// NULLs stand after every value in ascending order
pub open spec fn key1(a: DataType, b: DataType) -> Ordering {
    if a == DataType::Null && b == DataType::Null { Ordering::Equal } else if a == DataType::Null { Ordering::Greater } else if b == DataType::Null { Ordering::Less }
    else { match dt_cmp(a, b) { Some(o) => o, None => Ordering::Equal } }
}
pub open spec fn key_order(e: Seq<SortExpr>, a: Vals, b: Vals, i: int) -> Ordering decreases e.len() - i {
    if i < 0 || i >= e.len() { Ordering::Equal } else { let o = if e[i].asc { key1(a[i], b[i]) } else { rev(key1(a[i], b[i])) }; if o == Ordering::Equal { key_order(e, a, b, i + 1) } else { o } }
}
pub fn reverse(o: Ordering) -> (r: Ordering) ensures r == rev(o) { match o { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, Ordering::Equal => Ordering::Equal } }
#[verifier::external_body] pub fn cmp_or_equal(a: &DataType, b: &DataType) -> (r: Ordering) ensures r == match dt_cmp(*a, *b) { Some(o) => o, None => Ordering::Equal } { unimplemented!() }
pub fn is_eq(o: Ordering) -> (r: bool) ensures r == (o == Ordering::Equal) { matches!(o, Ordering::Equal) }
pub struct QuickSort<Child: Executor> { pub output_schema: Schema, pub sort_exprs: Vec<SortExpr>, pub child: Child, pub buffer: Vec<Row>, pub current_idx: usize }
impl<Child: Executor> QuickSort<Child> {
    pub open spec fn rest(&self) -> Seq<Vals> { buffered(self.buffer@, self.current_idx as int) }
    pub open spec fn plain(&self) -> bool { forall|k: int| 0 <= k < self.sort_exprs@.len() ==> !(#[trigger] self.sort_exprs@[k]).nulls_first }
    /// slice::sort_by: a stable sort by the given comparison (std contract)
    #[verifier::external_body] pub fn sort_rows(&self, v: &mut Vec<(Row, Vec<DataType>)>) requires self.plain(), forall|i: int| 0 <= i < old(v)@.len() ==> (#[trigger] old(v)@[i]).1@.len() == self.sort_exprs@.len()
        ensures sort_of(self.sort_exprs@, pairs(old(v)@), pairs(final(v)@)) { unimplemented!() }
    #[verifier::external_body] pub fn only_rows(v: Vec<(Row, Vec<DataType>)>) -> (r: Vec<Row>) ensures views(r@) == rows_of(pairs(v@)) { unimplemented!() }
}
pub open spec fn pairs(v: Seq<(Row, Vec<DataType>)>) -> Seq<(Vals, Vals)> { Seq::new(v.len(), |i: int| (v[i].0.0@, v[i].1@)) }
pub open spec fn rows_of(v: Seq<(Vals, Vals)>) -> Seq<Vals> { Seq::new(v.len(), |i: int| v[i].0) }
/// the same rows, none before another that should come first
pub open spec fn sort_of(e: Seq<SortExpr>, a: Seq<(Vals, Vals)>, b: Seq<(Vals, Vals)>) -> bool {
    a.to_multiset() == b.to_multiset() && forall|i: int, j: int| 0 <= i < j < b.len() ==> key_order(e, (#[trigger] b[i]).1, (#[trigger] b[j]).1, 0) != Ordering::Greater
}
pub open spec fn key_of(e: Seq<SortExpr>, row: Vals) -> Vals { Seq::new(e.len(), |k: int| sem(e[k].expr, row)->Val_0) }
pub open spec fn keyed(e: Seq<SortExpr>, s: Seq<Vals>) -> Seq<(Vals, Vals)> { Seq::new(s.len(), |i: int| (s[i], key_of(e, s[i]))) }
//@extract crates/axmos-db/src/runtime/ops/sort.rs : impl<Child: Executor> QuickSort<Child> / fn extract_sort_key
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite for sort_expr in &self\.sort_exprs\b ==> for i in 0..self.sort_exprs.len()
//@ret r
//@spec
    requires forall|k: int| 0 <= k < self.sort_exprs@.len() ==> !(sem((#[trigger] self.sort_exprs@[k]).expr, row.0@) is Any)
    ensures r is Ok ==> r->Ok_0@ == key_of(self.sort_exprs@, row.0@)
//@loop 0
    invariant key_values@ =~= key_of(self.sort_exprs@, row.0@).subrange(0, i as int)
//@at loop 0 body-start
let sort_expr = &self.sort_exprs[i];
//@at loop 0 after
proof { assert(key_values@ =~= key_of(self.sort_exprs@, row.0@)); }
//@end
//@extract crates/axmos-db/src/runtime/ops/sort.rs : impl<Child: Executor> QuickSort<Child> / fn compare_keys
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite for \(i, sort_expr\) in self\.sort_exprs\.iter\(\)\.enumerate\(\) ==> for i in 0..self.sort_exprs.len()
//@rewrite a_val\.partial_cmp\(b_val\)\.unwrap_or\(Ordering::Equal\) ==> cmp_or_equal(a_val, b_val)
//@rewrite? cmp\.reverse\(\) ==> reverse(cmp)
//@rewrite cmp != Ordering::Equal ==> !is_eq(cmp)
//@ret r
//@spec
    requires a_keys@.len() == self.sort_exprs@.len(), b_keys@.len() == self.sort_exprs@.len(), self.plain()
    ensures r == key_order(self.sort_exprs@, a_keys@, b_keys@, 0)
//@loop 0
    invariant key_order(self.sort_exprs@, a_keys@, b_keys@, 0) == key_order(self.sort_exprs@, a_keys@, b_keys@, i as int)
//@at loop 0 body-start
let sort_expr = &self.sort_exprs[i];
proof { assert(!self.sort_exprs@[i as int].nulls_first); }
//@end
//@extract crates/axmos-db/src/runtime/ops/sort.rs : impl<Child: Executor> QuickSort<Child> / fn build_sorted
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@rewrite? self\.stats\.\w+ \+= \w+; ==> 
//@rewrite rows_with_keys\.sort_by\(\|a, b\| self\.compare_keys\(&a\.1, &b\.1\)\) ==> self.sort_rows(&mut rows_with_keys)
//@rewrite rows_with_keys\.into_iter\(\)\.map\(\|\(row, _\)\| row\)\.collect\(\) ==> Self::only_rows(rows_with_keys)
//@ret r
//@spec
    requires old(self).plain(), forall|k: int| 0 <= k < old(self).sort_exprs@.len() ==> prescribed((#[trigger] old(self).sort_exprs@[k]).expr, old(self).child.rest())
    ensures r is Ok ==> exists|p: Seq<(Vals, Vals)>| #[trigger] sort_of(old(self).sort_exprs@, keyed(old(self).sort_exprs@, old(self).child.rest()), p) && views(final(self).buffer@) == rows_of(p), final(self).current_idx == old(self).current_idx
//@loop 0
    invariant self.sort_exprs@ == old(self).sort_exprs@, self.current_idx == old(self).current_idx, pairs(rows_with_keys@) + keyed(self.sort_exprs@, self.child.rest()) =~= keyed(self.sort_exprs@, old(self).child.rest()),
       self.child.rest().len() <= old(self).child.rest().len(), self.child.rest() =~= old(self).child.rest().subrange(old(self).child.rest().len() - self.child.rest().len(), old(self).child.rest().len() as int),
       forall|i: int| 0 <= i < rows_with_keys@.len() ==> (#[trigger] rows_with_keys@[i]).1@.len() == self.sort_exprs@.len()
    ensures self.child.rest().len() == 0
    decreases self.child.rest().len()
//@at loop 0 body-start
let ghost b0 = rows_with_keys@;
proof { assert(row.0@ == old(self).child.rest()[old(self).child.rest().len() - self.child.rest().len() - 1]); }
//@at loop 0 body-end
proof { assert(pairs(rows_with_keys@) =~= pairs(b0).push((row.0@, key_of(self.sort_exprs@, row.0@)))); }
//@at loop 0 after
proof { assert(pairs(rows_with_keys@) =~= keyed(self.sort_exprs@, old(self).child.rest())); }
//@end
//@extract crates/axmos-db/src/runtime/ops/sort.rs : impl<Child: Executor> Executor for QuickSort<Child> / fn next
//@header impl<Child: Executor> QuickSort<Child>
//@rewrite? self\.stats\.\w+ \+= \w+; ==> 
//@ret r
//@spec
    ensures next_of(old(self).rest(), final(self).rest(), r)
//@at start
proof { if self.current_idx < self.buffer@.len() { assert(buffered(self.buffer@, self.current_idx + 1) =~= buffered(self.buffer@, self.current_idx as int).drop_first()); } }
//@end
// ------------------------------------------------------------------ aggregates
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Real { v: f64 }
pub uninterp spec fn real_zero() -> Real;
pub uninterp spec fn real_add(a: Real, v: DataType) -> Real;
pub uninterp spec fn total_value(i: int, r: Real) -> Float64;
pub uninterp spec fn divided(a: Float64, n: int) -> Float64;
#[verifier::external_body] pub fn add_real(a: Real, v: &DataType) -> (r: Real) requires v is Float || v is Double ensures r == real_add(a, *v) { unimplemented!() }
#[verifier::external_body] pub fn avg(a: Float64, n: u64) -> (r: Float64) requires n > 0 ensures r == divided(a, n as int) { unimplemented!() }
#[verifier::external_body] pub fn real_default() -> (r: Real) ensures r == real_zero() { unimplemented!() }
pub struct Total { pub integers: i128, pub reals: Real }
impl Total {
    pub fn default() -> (r: Total) ensures r.integers == 0, r.reals == real_zero() { Total { integers: 0, reals: real_default() } }
    #[verifier::external_body] pub fn value(&self) -> (r: Float64) ensures r == total_value(self.integers as int, self.reals) { unimplemented!() }
}
pub enum Accumulator { Count { count: u64 }, Sum { sum: Total, count: u64 }, Avg { sum: Total, count: u64 }, Min { min: Option<DataType> }, Max { max: Option<DataType> } }
/// the values an aggregate is about: not the NULLs
pub open spec fn inputs(s: Vals) -> Vals { s.filter(|v: DataType| v != DataType::Null) }
pub open spec fn sum_ints(s: Vals) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum_ints(s.drop_last()) + match int_of(s.last()) { Some(v) => v, None => 0 } } }
pub open spec fn sum_reals(s: Vals) -> Real decreases s.len() { if s.len() == 0 { real_zero() } else if s.last() is Float || s.last() is Double { real_add(sum_reals(s.drop_last()), s.last()) } else { sum_reals(s.drop_last()) } }
pub open spec fn least(s: Vals) -> Option<DataType> decreases s.len() { if s.len() == 0 { None } else { match least(s.drop_last()) { None => Some(s.last()), Some(m) => if dt_lt(s.last(), m) { Some(s.last()) } else { Some(m) } } } }
pub open spec fn greatest(s: Vals) -> Option<DataType> decreases s.len() { if s.len() == 0 { None } else { match greatest(s.drop_last()) { None => Some(s.last()), Some(m) => if dt_gt(s.last(), m) { Some(s.last()) } else { Some(m) } } } }
/// the accumulator has taken in exactly these non-NULL values
pub open spec fn holds_all(a: Accumulator, s: Vals) -> bool {
    match a {
        Accumulator::Count { count } => count == s.len(),
        Accumulator::Sum { sum, count } => count == s.len() && sum.integers == sum_ints(s) && sum.reals == sum_reals(s),
        Accumulator::Avg { sum, count } => count == s.len() && sum.integers == sum_ints(s) && sum.reals == sum_reals(s),
        Accumulator::Min { min } => min == least(s),
        Accumulator::Max { max } => max == greatest(s),
    }
}
pub open spec fn same_kind(a: Accumulator, b: Accumulator) -> bool { (a is Count == b is Count) && (a is Sum == b is Sum) && (a is Avg == b is Avg) && (a is Min == b is Min) && (a is Max == b is Max) }
/// what the aggregate of these (non-NULL) values is
pub open spec fn aggregate(a: Accumulator, s: Vals) -> DataType {
    match a {
        Accumulator::Count { .. } => DataType::BigInt(Int64(s.len() as i64)),
        Accumulator::Sum { .. } => if s.len() == 0 { DataType::Null } else { DataType::Double(total_value(sum_ints(s), sum_reals(s))) },
        Accumulator::Avg { .. } => if s.len() == 0 { DataType::Null } else { DataType::Double(divided(total_value(sum_ints(s), sum_reals(s)), s.len() as int)) },
        Accumulator::Min { .. } => match least(s) { Some(v) => v, None => DataType::Null },
        Accumulator::Max { .. } => match greatest(s) { Some(v) => v, None => DataType::Null },
    }
}
pub proof fn lemma_sum_bound(s: Vals) ensures -(s.len() * 0x1_0000_0000_0000_0000) <= sum_ints(s) <= s.len() * 0x1_0000_0000_0000_0000 decreases s.len() { if s.len() > 0 { lemma_sum_bound(s.drop_last()); } }
/// COUNT of nothing is 0, every other aggregate of nothing is NULL
pub proof fn thm_empty_aggregates(a: Accumulator) ensures aggregate(a, seq![]) == if a is Count { DataType::BigInt(Int64(0)) } else { DataType::Null } { }
//@extract crates/axmos-db/src/runtime/ops/aggregate.rs : impl Total / fn add
//@rewrite? self\.integers \+= v\.value\(\) as i128 ==> self.integers += v.0 as i128
//@rewrite? self\.reals \+= v\.value\(\)(?: as f64)? ==> self.reals = add_real(self.reals, value)
//@ret r
//@spec
    requires -0x4000_0000_0000_0000_0000_0000_0000_0000 <= old(self).integers <= 0x4000_0000_0000_0000_0000_0000_0000_0000
    ensures r is Ok == numeric(*value), r is Ok ==> final(self).integers == old(self).integers + (match int_of(*value) { Some(v) => v, None => 0 }) && final(self).reals == (if *value is Float || *value is Double { real_add(old(self).reals, *value) } else { old(self).reals }), r is Err ==> *final(self) == *old(self)
//@end
//@extract crates/axmos-db/src/runtime/ops/aggregate.rs : impl Accumulator / fn new
//@ret r
//@spec
    ensures holds_all(r, seq![]), (func == AggregateFunction::Count) == (r is Count), (func == AggregateFunction::Sum) == (r is Sum), (func == AggregateFunction::Avg) == (r is Avg), (func == AggregateFunction::Min) == (r is Min), (func == AggregateFunction::Max) == (r is Max)
//@end
//@extract crates/axmos-db/src/runtime/ops/aggregate.rs : impl Accumulator / fn accumulate
//@rewrite fn accumulate\(&mut self, value: &DataType\) ==> fn accumulate(&mut self, value: &DataType, seen: Ghost<Vals>)
//@rewrite? value < &current ==> lt(value, &current)
//@rewrite? value > &current ==> gt(value, &current)
//@rewrite? value <= &current ==> le(value, &current)
//@rewrite? value >= &current ==> ge(value, &current)
//@rewrite Accumulator::Sum \{ sum, count \} \| Accumulator::Avg \{ sum, count \} => \{\s*sum\.add\(value\)\?;\s*\*count \+= 1;\s*\} ==> Accumulator::Sum { sum, count } => { sum.add(value)?; *count += 1; } Accumulator::Avg { sum, count } => { sum.add(value)?; *count += 1; }
//@ret r
//@spec
    requires seen@.len() < 0x1000_0000_0000_0000, holds_all(*old(self), seen@)
    ensures r is Ok ==> same_kind(*old(self), *final(self)) && holds_all(*final(self), if *value == DataType::Null { seen@ } else { seen@.push(*value) }), r is Err ==> !numeric(*value) && (*old(self) is Sum || *old(self) is Avg)
//@at start
proof { assert(seen@.push(*value).drop_last() =~= seen@); lemma_sum_bound(seen@); }
//@end
//@extract crates/axmos-db/src/runtime/ops/aggregate.rs : impl Accumulator / fn finalize
//@rewrite (?s)Accumulator::Sum \{ count: 0, \.\. \} \| Accumulator::Avg \{ count: 0, \.\. \} => ==> Accumulator::Sum { count: 0, .. } => Ok(DataType::Null), Accumulator::Avg { count: 0, .. } =>
//@rewrite \(count as i64\)\.into\(\) ==> Int64(count as i64)
//@rewrite DataType::Double\(sum\.value\(\)\.into\(\)\) ==> DataType::Double(sum.value())
//@rewrite DataType::Double\(\(sum\.value\(\) / count as f64\)\.into\(\)\) ==> DataType::Double(avg(sum.value(), count))
//@rewrite (min|max)\.unwrap_or\(DataType::Null\) ==> or_null(\1)
//@ret r
//@spec
    requires exists|s: Vals| s.len() < 0x1000_0000_0000_0000 && #[trigger] holds_all(self, s)
    ensures forall|s: Vals| s.len() < 0x1000_0000_0000_0000 && #[trigger] holds_all(self, s) ==> r == RuntimeResult::Ok(aggregate(self, s))
//@end
pub fn or_null(v: Option<DataType>) -> (r: DataType) ensures r == match v { Some(x) => x, None => DataType::Null } { match v { Some(x) => x, None => DataType::Null } }
// ------------------------------------------------------------------ joins
//@extract crates/axmos-db/src/sql/parser/ast.rs : enum JoinType
//@attrs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
pub proof fn lemma_touched(c: Option<BoundExpression>, ls: Seq<Vals>, r: Vals) requires ls.len() > 0 ensures touched(c, ls, r) == (cond(c, ls[0] + r) || touched(c, ls.drop_first(), r))
{
    let t = ls.drop_first();
    if touched(c, ls, r) { let k = choose|k: int| 0 <= k < ls.len() && cond(c, #[trigger] ls[k] + r); if k > 0 { assert(cond(c, t[k - 1] + r)); } }
    if touched(c, t, r) { let k = choose|k: int| 0 <= k < t.len() && cond(c, #[trigger] t[k] + r); assert(cond(c, ls[k + 1] + r)); }
    if cond(c, ls[0] + r) { assert(touched(c, ls, r)); }
}
pub open spec fn nulls(n: int) -> Vals { Seq::new(n as nat, |i: int| DataType::Null) }
pub open spec fn cond(c: Option<BoundExpression>, row: Vals) -> bool { match c { None => true, Some(e) => holds(e, row) } }
pub open spec fn outer_left(t: JoinType) -> bool { t == JoinType::Left || t == JoinType::Full }
pub open spec fn outer_right(t: JoinType) -> bool { t == JoinType::Right || t == JoinType::Full }
/// the matches of a left row with the right rows from j on
pub open spec fn pairs_from(c: Option<BoundExpression>, l: Vals, rs: Seq<Vals>, j: int) -> Seq<Vals> decreases rs.len() - j {
    if j < 0 || j >= rs.len() { seq![] } else if cond(c, l + rs[j]) { seq![l + rs[j]] + pairs_from(c, l, rs, j + 1) } else { pairs_from(c, l, rs, j + 1) }
}
/// what a left row contributes: its matches, or itself padded with NULLs
pub open spec fn of_left(c: Option<BoundExpression>, t: JoinType, w: int, l: Vals, rs: Seq<Vals>, j: int, matched: bool) -> Seq<Vals> {
    let p = pairs_from(c, l, rs, j);
    if p.len() == 0 && !matched && outer_left(t) { seq![l + nulls(w - l.len())] } else { p }
}
pub open spec fn all_left(c: Option<BoundExpression>, t: JoinType, w: int, ls: Seq<Vals>, rs: Seq<Vals>) -> Seq<Vals> decreases ls.len() {
    if ls.len() == 0 { seq![] } else { of_left(c, t, w, ls[0], rs, 0, false) + all_left(c, t, w, ls.drop_first(), rs) }
}
/// some left row matches the right row
pub open spec fn touched(c: Option<BoundExpression>, ls: Seq<Vals>, r: Vals) -> bool { exists|k: int| 0 <= k < ls.len() && cond(c, #[trigger] ls[k] + r) }
pub open spec fn unmatched(f: Seq<bool>, w: int, rs: Seq<Vals>, j: int) -> Seq<Vals> decreases rs.len() - j {
    if j < 0 || j >= rs.len() { seq![] } else if f[j] { unmatched(f, w, rs, j + 1) } else { seq![nulls(w - rs[j].len()) + rs[j]] + unmatched(f, w, rs, j + 1) }
}
/// the join of two lists of rows: every matching pair, and the unmatched rows of the outer sides
pub open spec fn join(c: Option<BoundExpression>, t: JoinType, w: int, ls: Seq<Vals>, rs: Seq<Vals>) -> Seq<Vals> {
    all_left(c, t, w, ls, rs) + if outer_right(t) { unmatched(Seq::new(rs.len(), |j: int| touched(c, ls, rs[j])), w, rs, 0) } else { seq![] }
}
pub open spec fn cond_prescribed(c: Option<BoundExpression>, ls: Seq<Vals>, rs: Seq<Vals>) -> bool {
    c is Some ==> forall|i: int, j: int| 0 <= i < ls.len() && 0 <= j < rs.len() ==> !(sem(c->0, #[trigger] ls[i] + #[trigger] rs[j]) is Any)
}
pub struct NestedLoopJoin<Left: Executor, Right: Executor> {
    pub join_type: JoinType, pub condition: Option<BoundExpression>, pub output_schema: Schema, pub left_cols: usize, pub left: Left, pub right: Right,
    pub current_left_row: Option<Row>, pub right_buffer: Vec<Row>, pub right_idx: usize, pub right_buffered: bool, pub left_matched: bool,
    pub right_matched: Vec<bool>, pub emitting_unmatched_right: bool, pub unmatched_right_idx: usize,
}
impl<Left: Executor, Right: Executor> NestedLoopJoin<Left, Right> {
    pub open spec fn w(&self) -> int { schema_width(self.output_schema) as int }
    pub open spec fn rights(&self) -> Seq<Vals> { if self.right_buffered { views(self.right_buffer@) } else { self.right.rest() } }
    pub open spec fn flags(&self) -> Seq<bool> { Seq::new(self.rights().len(), |j: int| (self.right_buffered && self.right_matched@[j]) || self.touched_now(self.rights()[j], j) || touched(self.condition, self.left.rest(), self.rights()[j])) }
    pub open spec fn touched_now(&self, r: Vals, j: int) -> bool { match self.current_left_row { Some(l) => j >= self.right_idx && cond(self.condition, l.0@ + r), None => false } }
    pub open spec fn current(&self) -> Seq<Vals> { match self.current_left_row { Some(l) => of_left(self.condition, self.join_type, self.w(), l.0@, self.rights(), self.right_idx as int, self.left_matched), None => seq![] } }
    #[verifier::opaque]
    pub open spec fn rest(&self) -> Seq<Vals> {
        if self.emitting_unmatched_right { unmatched(self.right_matched@, self.w(), self.rights(), self.unmatched_right_idx as int) }
        else { self.current() + all_left(self.condition, self.join_type, self.w(), self.left.rest(), self.rights()) + if outer_right(self.join_type) { unmatched(self.flags(), self.w(), self.rights(), 0) } else { seq![] } }
    }
    #[verifier::opaque]
    pub open spec fn wf(&self) -> bool {
        &&& exists|lw: nat| #[trigger] self.wide(lw)
        &&& cond_prescribed(self.condition, self.left.rest(), self.rights())
        &&& self.current_left_row is Some ==> self.right_buffered && cond_prescribed(self.condition, seq![(self.current_left_row->0).0@], self.rights())
        &&& self.right_idx <= self.right_buffer@.len() || self.current_left_row is None
        &&& self.right_buffered && outer_right(self.join_type) ==> self.right_matched@.len() == self.right_buffer@.len()
        &&& !self.right_buffered ==> self.right_buffer@.len() == 0
        &&& self.emitting_unmatched_right ==> outer_right(self.join_type) && self.right_buffered
        &&& !self.emitting_unmatched_right ==> self.unmatched_right_idx == 0
    }
    /// every left row has lw columns, every right row the others
    pub open spec fn wide(&self, lw: nat) -> bool {
        &&& lw <= self.w()
        &&& forall|i: int| 0 <= i < self.left.rest().len() ==> (#[trigger] self.left.rest()[i]).len() == lw
        &&& forall|i: int| 0 <= i < self.rights().len() ==> (#[trigger] self.rights()[i]).len() + lw == self.w()
        &&& self.left_cols == 0 || self.left_cols == lw
        &&& self.current_left_row is Some ==> (self.current_left_row->0).0@.len() == lw && self.left_cols == lw
    }
}
pub proof fn lemma_pairs(c: Option<BoundExpression>, l: Vals, rs: Seq<Vals>, j: int) requires 0 <= j <= rs.len()
    ensures pairs_from(c, l, rs, j).len() == 0 ==> (forall|k: int| j <= k < rs.len() ==> !cond(c, l + #[trigger] rs[k])) decreases rs.len() - j
{ if j < rs.len() { lemma_pairs(c, l, rs, j + 1); } }
/// a freshly made join hands out exactly the join of its inputs
pub proof fn thm_join<L: Executor, R: Executor>(n: NestedLoopJoin<L, R>)
    requires !n.emitting_unmatched_right, !n.right_buffered, n.current_left_row is None
    ensures n.rest() == join(n.condition, n.join_type, n.w(), n.left.rest(), n.right.rest())
{ reveal(NestedLoopJoin::rest); assert(n.flags() =~= Seq::new(n.right.rest().len(), |j: int| touched(n.condition, n.left.rest(), n.right.rest()[j]))); assert(n.current() + all_left(n.condition, n.join_type, n.w(), n.left.rest(), n.rights()) =~= all_left(n.condition, n.join_type, n.w(), n.left.rest(), n.right.rest())); }
/// every pair of rows for which the condition is true is in an inner join, and nothing else
pub proof fn thm_inner_join(c: Option<BoundExpression>, w: int, ls: Seq<Vals>, rs: Seq<Vals>, row: Vals)
    ensures join(c, JoinType::Inner, w, ls, rs).contains(row) <==> exists|i: int, j: int| 0 <= i < ls.len() && 0 <= j < rs.len() && row == #[trigger] (ls[i] + rs[j]) && cond(c, row)
    decreases ls.len()
{
    let all = all_left(c, JoinType::Inner, w, ls, rs);
    assert(join(c, JoinType::Inner, w, ls, rs) =~= all);
    if ls.len() > 0 {
        let a = of_left(c, JoinType::Inner, w, ls[0], rs, 0, false); let t = ls.drop_first(); let b = all_left(c, JoinType::Inner, w, t, rs);
        thm_inner_join(c, w, t, rs, row); lemma_pairs_contain(c, ls[0], rs, 0, row);
        assert(join(c, JoinType::Inner, w, t, rs) =~= b);
        if all.contains(row) {
            let k = choose|k: int| 0 <= k < all.len() && all[k] == row;
            if k < a.len() { assert(a[k] == row); assert(a.contains(row)); let j = choose|j: int| 0 <= j < rs.len() && row == #[trigger] (ls[0] + rs[j]) && cond(c, row); assert(row == ls[0] + rs[j]); }
            else { assert(b[k - a.len()] == row); let (i, j) = choose|i: int, j: int| 0 <= i < t.len() && 0 <= j < rs.len() && row == #[trigger] (t[i] + rs[j]) && cond(c, row); assert(row == ls[i + 1] + rs[j]); }
        }
        if exists|i: int, j: int| 0 <= i < ls.len() && 0 <= j < rs.len() && row == #[trigger] (ls[i] + rs[j]) && cond(c, row) {
            let (i, j) = choose|i: int, j: int| 0 <= i < ls.len() && 0 <= j < rs.len() && row == #[trigger] (ls[i] + rs[j]) && cond(c, row);
            if i == 0 { assert(row == ls[0] + rs[j]); assert(a.contains(row)); let k = choose|k: int| 0 <= k < a.len() && a[k] == row; assert(all[k] == row); }
            else { assert(row == t[i - 1] + rs[j]); assert(b.contains(row)); let k = choose|k: int| 0 <= k < b.len() && b[k] == row; assert(all[k + a.len()] == row); }
        }
    }
}
pub proof fn lemma_pairs_contain(c: Option<BoundExpression>, l: Vals, rs: Seq<Vals>, j0: int, row: Vals) requires 0 <= j0 <= rs.len()
    ensures pairs_from(c, l, rs, j0).contains(row) <==> exists|j: int| j0 <= j < rs.len() && row == #[trigger] (l + rs[j]) && cond(c, row) decreases rs.len() - j0
{
    if j0 < rs.len() {
        lemma_pairs_contain(c, l, rs, j0 + 1, row);
        let p = pairs_from(c, l, rs, j0); let q = pairs_from(c, l, rs, j0 + 1);
        if cond(c, l + rs[j0]) { assert(p[0] == l + rs[j0]); }
        if p.contains(row) { let k = choose|k: int| 0 <= k < p.len() && p[k] == row; if cond(c, l + rs[j0]) { if k > 0 { assert(q[k - 1] == row); } else { assert(row == l + rs[j0]); } } }
        if q.contains(row) { let k = choose|k: int| 0 <= k < q.len() && q[k] == row; if cond(c, l + rs[j0]) { assert(p[k + 1] == row); } }
        if exists|j: int| j0 <= j < rs.len() && row == #[trigger] (l + rs[j]) && cond(c, row) { let j = choose|j: int| j0 <= j < rs.len() && row == #[trigger] (l + rs[j]) && cond(c, row); if j == j0 { assert(p[0] == row); } }
    }
}

pub proof fn join_emit<L: Executor, R: Executor>(s: NestedLoopJoin<L, R>) requires s.wf(), s.emitting_unmatched_right
    ensures s.right_buffered, s.right_matched@.len() == s.right_buffer@.len(),
        s.unmatched_right_idx >= s.right_buffer@.len() ==> s.rest() == Seq::<Vals>::empty(),
        s.unmatched_right_idx < s.right_buffer@.len() ==> ({ let i = s.unmatched_right_idx as int; let n = NestedLoopJoin::<L, R> { unmatched_right_idx: (i + 1) as usize, ..s };
            n.wf() && s.w() >= s.right_buffer@[i].0@.len() && s.rest() == if s.right_matched@[i] { n.rest() } else { seq![nulls(s.w() - s.right_buffer@[i].0@.len()) + s.right_buffer@[i].0@] + n.rest() } })
{
    reveal(NestedLoopJoin::wf); reveal(NestedLoopJoin::rest);
    let lw = choose|lw: nat| #[trigger] s.wide(lw); vstd::std_specs::vec::axiom_spec_len(&s.right_buffer);
    if s.unmatched_right_idx < s.right_buffer@.len() {
        let i = s.unmatched_right_idx as int; let n = NestedLoopJoin::<L, R> { unmatched_right_idx: (i + 1) as usize, ..s };
        assert(s.rights()[i] == s.right_buffer@[i].0@); assert(n.wide(lw)); assert(n.rights() == s.rights());
    }
}
pub proof fn join_new<L: Executor, R: Executor>(s: NestedLoopJoin<L, R>, n: NestedLoopJoin<L, R>, l: Row)
    requires s.wf(), s.right_buffered, !s.emitting_unmatched_right, s.current_left_row is None, s.left.rest().len() > 0, l.0@ == s.left.rest()[0], n.left.rest() == s.left.rest().drop_first(),
        n == (NestedLoopJoin::<L, R> { left: n.left, left_cols: if s.left_cols == 0 { l.0@.len() as usize } else { s.left_cols }, current_left_row: Some(l), right_idx: 0, left_matched: false, ..s })
    ensures n.wf(), n.rest() == s.rest()
{
    reveal(NestedLoopJoin::wf); reveal(NestedLoopJoin::rest);
    let lw = choose|lw: nat| #[trigger] s.wide(lw);
    let ls = s.left.rest();
    assert(n.rights() == s.rights());
    assert forall|i: int| 0 <= i < n.left.rest().len() implies (#[trigger] n.left.rest()[i]).len() == lw by { assert(n.left.rest()[i] == ls[i + 1]); }
    assert(n.wide(lw));
    if n.condition is Some {
        assert forall|i: int, j: int| 0 <= i < n.left.rest().len() && 0 <= j < n.rights().len() implies !(sem(n.condition->0, #[trigger] n.left.rest()[i] + #[trigger] n.rights()[j]) is Any) by { assert(ls[i + 1] + s.rights()[j] == n.left.rest()[i] + n.rights()[j]); }
        assert forall|i: int, j: int| 0 <= i < 1 && 0 <= j < n.rights().len() implies !(sem(n.condition->0, #[trigger] seq![l.0@][i] + #[trigger] n.rights()[j]) is Any) by { assert(ls[0] + s.rights()[j] == seq![l.0@][i] + n.rights()[j]); }
    }
    assert forall|j: int| 0 <= j < n.rights().len() implies n.flags()[j] == s.flags()[j] by { lemma_touched(n.condition, ls, n.rights()[j]); }
    assert(n.flags() =~= s.flags());
    assert(s.current() + all_left(n.condition, n.join_type, n.w(), ls, n.rights()) =~= n.current() + all_left(n.condition, n.join_type, n.w(), n.left.rest(), n.rights()));
    assert(n.rest() =~= s.rest());
}
pub proof fn join_over<L: Executor, R: Executor>(s: NestedLoopJoin<L, R>, n: NestedLoopJoin<L, R>)
    requires s.wf(), s.right_buffered, !s.emitting_unmatched_right, s.current_left_row is None, s.left.rest().len() == 0, n.left.rest().len() == 0, n == (NestedLoopJoin::<L, R> { left: n.left, emitting_unmatched_right: n.emitting_unmatched_right, ..s }), n.emitting_unmatched_right ==> outer_right(s.join_type)
    ensures n.wf(), n.rest() == s.rest(), !outer_right(s.join_type) ==> s.rest().len() == 0
{
    reveal(NestedLoopJoin::wf); reveal(NestedLoopJoin::rest);
    let lw = choose|lw: nat| #[trigger] s.wide(lw);
    assert(n.wide(lw));
    assert(n.rights() == s.rights());
    if outer_right(s.join_type) {
        assert forall|j: int| 0 <= j < s.rights().len() implies s.flags()[j] == s.right_matched@[j] && n.flags()[j] == s.flags()[j] by { assert(!touched(s.condition, s.left.rest(), s.rights()[j])); assert(!touched(s.condition, n.left.rest(), s.rights()[j])); }
        assert(s.flags() =~= s.right_matched@);
        assert(n.flags() =~= s.flags());
    }
    assert(s.current() + all_left(s.condition, s.join_type, s.w(), s.left.rest(), s.rights()) =~= seq![]);
    assert(n.current() + all_left(s.condition, s.join_type, s.w(), n.left.rest(), s.rights()) =~= seq![]);
    assert(n.rest() =~= s.rest());
}
pub proof fn join_safe<L: Executor, R: Executor>(s: NestedLoopJoin<L, R>) requires s.wf()
    ensures s.current_left_row is Some ==> s.left_cols == (s.current_left_row->0).0@.len() && s.left_cols <= s.w() && s.right_idx <= s.right_buffer@.len(), s.right_buffered && outer_right(s.join_type) ==> s.right_matched@.len() == s.right_buffer@.len(),
        s.current_left_row is Some && s.condition is Some && s.right_idx < s.right_buffer@.len() ==> !(sem(s.condition->0, (s.current_left_row->0).0@ + s.right_buffer@[s.right_idx as int].0@) is Any)
{
    reveal(NestedLoopJoin::wf);
    let lw = choose|lw: nat| #[trigger] s.wide(lw);
    if s.current_left_row is Some && s.condition is Some && s.right_idx < s.right_buffer@.len() {
        assert(s.rights()[s.right_idx as int] == s.right_buffer@[s.right_idx as int].0@);
        assert(!(sem(s.condition->0, seq![(s.current_left_row->0).0@][0] + s.rights()[s.right_idx as int]) is Any));
    }
}
pub proof fn join_skip<L: Executor, R: Executor>(s: NestedLoopJoin<L, R>, n: NestedLoopJoin<L, R>)
    requires s.wf(), s.right_buffered, !s.emitting_unmatched_right, s.current_left_row is Some, s.right_idx < s.right_buffer@.len(), !cond(s.condition, (s.current_left_row->0).0@ + s.right_buffer@[s.right_idx as int].0@),
        n == (NestedLoopJoin::<L, R> { right_idx: (s.right_idx + 1) as usize, ..s })
    ensures n.wf(), n.rest() == s.rest()
{
    reveal(NestedLoopJoin::wf); reveal(NestedLoopJoin::rest);
    let lw = choose|lw: nat| #[trigger] s.wide(lw); vstd::std_specs::vec::axiom_spec_len(&s.right_buffer);
    assert(n.wide(lw));
    assert(n.rights() == s.rights());
    assert(s.rights()[s.right_idx as int] == s.right_buffer@[s.right_idx as int].0@);
    assert(n.flags() =~= s.flags());
    assert(n.current() == s.current());
}
pub proof fn join_hit<L: Executor, R: Executor>(s: NestedLoopJoin<L, R>, n: NestedLoopJoin<L, R>)
    requires s.wf(), s.right_buffered, !s.emitting_unmatched_right, s.current_left_row is Some, s.right_idx < s.right_buffer@.len(), cond(s.condition, (s.current_left_row->0).0@ + s.right_buffer@[s.right_idx as int].0@),
        n == (NestedLoopJoin::<L, R> { right_idx: (s.right_idx + 1) as usize, left_matched: true, right_matched: n.right_matched, ..s }), outer_right(s.join_type) ==> n.right_matched@ == s.right_matched@.update(s.right_idx as int, true)
    ensures n.wf(), s.rest() == seq![(s.current_left_row->0).0@ + s.right_buffer@[s.right_idx as int].0@] + n.rest()
{
    reveal(NestedLoopJoin::wf); reveal(NestedLoopJoin::rest);
    let lw = choose|lw: nat| #[trigger] s.wide(lw); vstd::std_specs::vec::axiom_spec_len(&s.right_buffer);
    assert(n.wide(lw));
    assert(n.rights() == s.rights());
    let c = (s.current_left_row->0).0@ + s.right_buffer@[s.right_idx as int].0@;
    assert(s.rights()[s.right_idx as int] == s.right_buffer@[s.right_idx as int].0@);
    if outer_right(s.join_type) { assert(n.flags() =~= s.flags()); }
    assert(s.current() =~= seq![c] + n.current());
    assert(s.rest() =~= seq![c] + n.rest());
}
/// the left row is through: its padding if it is due, then the next one
pub proof fn join_done<L: Executor, R: Executor>(s: NestedLoopJoin<L, R>, n: NestedLoopJoin<L, R>)
    requires s.wf(), s.right_buffered, !s.emitting_unmatched_right, s.current_left_row is Some, s.right_idx >= s.right_buffer@.len(), n == (NestedLoopJoin::<L, R> { current_left_row: None, ..s })
    ensures n.wf(), s.rest() == if !s.left_matched && outer_left(s.join_type) { seq![(s.current_left_row->0).0@ + nulls(s.w() - (s.current_left_row->0).0@.len())] + n.rest() } else { n.rest() }
{
    reveal(NestedLoopJoin::wf); reveal(NestedLoopJoin::rest);
    let lw = choose|lw: nat| #[trigger] s.wide(lw);
    assert(n.wide(lw));
    assert(n.rights() == s.rights());
    assert(n.flags() =~= s.flags());
    assert(n.current() =~= seq![]);
    if !s.left_matched && outer_left(s.join_type) { assert(s.rest() =~= seq![(s.current_left_row->0).0@ + nulls(s.w() - (s.current_left_row->0).0@.len())] + n.rest()); } else { assert(s.current() =~= seq![]); assert(s.rest() =~= n.rest()); }
}
pub proof fn lemma_front(a: Vals, s: Seq<Vals>) ensures (seq![a] + s).drop_first() == s, (seq![a] + s)[0] == a, (seq![a] + s).len() > 0 { assert((seq![a] + s).drop_first() =~= s); }
#[verifier::external_body] pub fn all_false(n: usize) -> (r: Vec<bool>) ensures r@ == Seq::new(n as nat, |i: int| false) { unimplemented!() }
//@extract crates/axmos-db/src/runtime/ops/join.rs : fn extract_key
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite for expr in key_exprs\b ==> for i in 0..key_exprs.len()
//@ret r
//@spec
    requires forall|k: int| 0 <= k < key_exprs@.len() ==> !(sem(#[trigger] key_exprs@[k], row.0@) is Any)
    ensures match r { Ok(key) => key@.len() == key_exprs@.len() && forall|k: int| 0 <= k < key_exprs@.len() ==> sem(#[trigger] key_exprs@[k], row.0@) == Out::Val(key@[k]), Err(_) => true }
//@loop 0
    invariant key@.len() == i, forall|k: int| 0 <= k < i ==> sem(#[trigger] key_exprs@[k], row.0@) == Out::Val(key@[k])
//@at loop 0 body-start
let expr = &key_exprs[i];
let ghost _t = sem(key_exprs@[i as int], row.0@);
//@end
//@extract crates/axmos-db/src/runtime/ops/join.rs : fn keys_match
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite for \(l, r\) in left\.iter\(\)\.zip\(right\.iter\(\)\) ==> for i in 0..left.len()
//@rewrite? \bl != r\b ==> !eq(l, r)
//@rewrite? !\(l == r\) ==> !eq(l, r)
//@ret r
//@spec
    ensures r == (left@.len() == right@.len() && forall|i: int| 0 <= i < left@.len() ==> known(#[trigger] left@[i], right@[i], dt_eq(left@[i], right@[i])) == Some(true))
//@loop 0
    invariant left@.len() == right@.len(), forall|k: int| 0 <= k < i ==> known(#[trigger] left@[k], right@[k], dt_eq(left@[k], right@[k])) == Some(true)
//@at loop 0 body-start
let l = &left[i]; let r = &right[i];
proof { let _ = known(left@[i as int], right@[i as int], true); }
//@end
//@extract crates/axmos-db/src/runtime/ops/join.rs : fn combine_rows
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite? \b(row|left|right|right_row|left_row)\[(\w+)\]\.clone\(\) ==> \1.at(\2).clone()
//@rewrite values\.into_boxed_slice\(\) ==> values
//@rewrite? Vec::with_capacity\([^;]*\); ==> Vec::new();
//@ret r
//@spec
    ensures r.0@ == left.0@ + right.0@
//@loop 0
    invariant values@ =~= left.0@.subrange(0, i as int)
//@loop 1
    invariant values@ =~= left.0@ + right.0@.subrange(0, i as int)
//@end
//@extract crates/axmos-db/src/runtime/ops/join.rs : fn left_with_nulls
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite? \b(row|left|right|right_row|left_row)\[(\w+)\]\.clone\(\) ==> \1.at(\2).clone()
//@rewrite values\.into_boxed_slice\(\) ==> values
//@rewrite? Vec::with_capacity\([^;]*\); ==> Vec::new();
//@rewrite for _ in 0\.\.right_cols ==> for i in 0..right_cols
//@ret r
//@spec
    ensures r.0@ == left.0@ + nulls(right_cols as int)
//@loop 0
    invariant values@ =~= left.0@.subrange(0, i as int)
//@loop 1
    invariant values@ =~= left.0@ + nulls(i as int)
//@end
//@extract crates/axmos-db/src/runtime/ops/join.rs : fn nulls_with_right
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite? \b(row|left|right|right_row|left_row)\[(\w+)\]\.clone\(\) ==> \1.at(\2).clone()
//@rewrite values\.into_boxed_slice\(\) ==> values
//@rewrite? Vec::with_capacity\([^;]*\); ==> Vec::new();
//@rewrite for _ in 0\.\.left_cols ==> for i in 0..left_cols
//@ret r
//@spec
    ensures r.0@ == nulls(left_cols as int) + right.0@
//@loop 0
    invariant values@ =~= nulls(i as int)
//@loop 1
    invariant values@ =~= nulls(left_cols as int) + right.0@.subrange(0, i as int)
//@end
//@extract crates/axmos-db/src/runtime/ops/join.rs : fn evaluate_condition
//@ret r
//@spec
    requires *condition is Some ==> !(sem(condition->0, combined.0@) is Any)
    ensures r is Ok ==> r->Ok_0 == cond(*condition, combined.0@)
//@end
//@extract crates/axmos-db/src/runtime/ops/join.rs : impl<Left: Executor, Right: Executor> NestedLoopJoin<Left, Right> / fn right_cols
//@ret r
//@spec
    requires schema_width(self.output_schema) >= self.left_cols
    ensures r == schema_width(self.output_schema) - self.left_cols
//@end
//@extract crates/axmos-db/src/runtime/ops/join.rs : impl<Left: Executor, Right: Executor> NestedLoopJoin<Left, Right> / fn buffer_right
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@rewrite vec!\[false; self\.right_buffer\.len\(\)\] ==> all_false(self.right_buffer.len())
//@ret r
//@spec
    requires old(self).wf()
    ensures r is Ok ==> final(self).wf() && final(self).right_buffered && final(self).rest() == old(self).rest() && final(self).left == old(self).left && final(self).emitting_unmatched_right == old(self).emitting_unmatched_right
//@loop 0
    invariant !self.right_buffered, views(self.right_buffer@) + self.right.rest() =~= old(self).right.rest(), self.left == old(self).left, self.condition == old(self).condition, self.join_type == old(self).join_type,
        self.output_schema == old(self).output_schema, self.left_cols == old(self).left_cols, self.current_left_row == old(self).current_left_row, self.emitting_unmatched_right == old(self).emitting_unmatched_right, self.unmatched_right_idx == old(self).unmatched_right_idx, self.right_idx == old(self).right_idx, self.left_matched == old(self).left_matched
    ensures self.right.rest().len() == 0
    decreases self.right.rest().len()
//@at loop 0 body-start
let ghost b0 = self.right_buffer@;
//@at loop 0 body-end
proof { assert(views(self.right_buffer@) =~= views(b0).push(row.0@)); }
//@at loop 0 after
proof { assert(views(self.right_buffer@) =~= old(self).right.rest()); }
//@at start
proof { reveal(NestedLoopJoin::wf); reveal(NestedLoopJoin::rest); }
//@at after self.right_buffered = true;
proof {
    assert(self.rights() == old(self).rights());
    if outer_right(self.join_type) { assert(self.flags() =~= old(self).flags()); }
    let lw = choose|lw: nat| #[trigger] old(self).wide(lw); assert(self.wide(lw));
}
//@end
//@extract crates/axmos-db/src/runtime/ops/join.rs : impl<Left: Executor, Right: Executor> Executor for NestedLoopJoin<Left, Right> / fn next
//@header impl<Left: Executor, Right: Executor> NestedLoopJoin<Left, Right>
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)]
//@rewrite? self\.stats\.\w+ \+= \w+; ==> 
//@ret r
//@spec
    requires old(self).wf()
    ensures r is Ok ==> next_of(old(self).rest(), final(self).rest(), r) && final(self).wf()
    decreases (if old(self).emitting_unmatched_right { 0int } else { 1int })
//@loop 0
    invariant self.wf(), self.emitting_unmatched_right, self.rest() == old(self).rest()
    ensures self.wf(), self.rest() == old(self).rest(), self.rest().len() == 0
    decreases self.right_buffer@.len() - self.unmatched_right_idx
//@at loop 0 body-start
let ghost s0 = *self;
proof { join_emit(s0); }
//@at before return Ok(Some(row));
proof { lemma_front(row.0@, self.rest()); }
//@at loop 0 after
proof { join_emit(*self); }
//@loop 1
    invariant self.wf(), self.right_buffered, !self.emitting_unmatched_right, self.rest() == old(self).rest(), !old(self).emitting_unmatched_right
    decreases self.left.rest().len(), (if self.current_left_row is Some { 1int } else { 0 })
//@at loop 1 body-start
let ghost s1 = *self;
//@at after self.left_matched = false;
proof { join_new(s1, *self, self.current_left_row->0); }
//@at after self.emitting_unmatched_right = true;
proof { join_over(s1, *self); }
//@at before#2 return Ok(None);
proof { join_over(s1, *self); }
//@at loop 2 before
let ghost left0 = self.left; let ghost lr = self.current_left_row->0;
proof { join_safe(*self); }
//@loop 2
    invariant self.wf(), self.right_buffered, !self.emitting_unmatched_right, self.rest() == old(self).rest(), self.current_left_row == Some(lr), *left_row == lr, self.left == left0, self.right_idx <= self.right_buffer@.len()
    decreases self.right_buffer@.len() - self.right_idx
//@at loop 2 body-start
let ghost s3 = *self;
proof { join_safe(s3); }
//@at after let combined = combine_rows(left_row, right_row);
proof { if !cond(self.condition, combined.0@) { join_skip(s3, *self); } }
//@at before return Ok(Some(combined));
proof { join_hit(s3, *self); lemma_front(combined.0@, self.rest()); }
//@at loop 2 after
let ghost s4 = *self;
proof { join_safe(s4); join_done(s4, NestedLoopJoin::<Left, Right> { current_left_row: None, ..s4 }); }
//@at before#2 return Ok(Some(row));
proof { lemma_front(row.0@, self.rest()); }
//@end
//@extract crates/axmos-db/src/runtime/ops/filter.rs : impl<Child: Executor> Executor for Filter<Child> / fn close
//@header impl<Child: Executor> Filter<Child>
//@ret r
//@spec
    ensures r is Ok ==> final(self).rest() == old(self).rest()
//@end
//@extract crates/axmos-db/src/runtime/ops/limit.rs : impl<Child: Executor> Executor for Limit<Child> / fn close
//@header impl<Child: Executor> Limit<Child>
//@ret r
//@spec
    ensures r is Ok ==> final(self).rest() == old(self).rest()
//@end
//@extract crates/axmos-db/src/runtime/ops/project.rs : impl<Child: Executor> Executor for Project<Child> / fn close
//@header impl<Child: Executor> Project<Child>
//@ret r
//@spec
    ensures r is Ok ==> final(self).rest() == old(self).rest()
//@end
//@extract crates/axmos-db/src/runtime/ops/distinct.rs : impl<Child: Executor> Executor for HashDistinct<Child> / fn close
//@header impl<Child: Executor> HashDistinct<Child>
//@ret r
//@spec
    ensures r is Ok ==> final(self).rest() == old(self).rest()
//@end
//@extract crates/axmos-db/src/runtime/ops/materialize.rs : impl<Child: Executor> Executor for Materialize<Child> / fn close
//@header impl<Child: Executor> Materialize<Child>
//@ret r
//@spec
    ensures r is Ok ==> final(self).rest() == old(self).rest()
//@end
//@extract crates/axmos-db/src/runtime/ops/limit.rs : impl<Child: Executor> Executor for Limit<Child> / fn open
//@header impl<Child: Executor> Limit<Child>
//@ret r
//@spec
    ensures r is Ok ==> final(self).rest() == old(self).rest()
//@end
//@extract crates/axmos-db/src/runtime/ops/project.rs : impl<Child: Executor> Executor for Project<Child> / fn open
//@header impl<Child: Executor> Project<Child>
//@ret r
//@spec
    ensures r is Ok ==> final(self).rest() == old(self).rest()
//@end
//@extract crates/axmos-db/src/runtime/ops/distinct.rs : impl<Child: Executor> Executor for HashDistinct<Child> / fn open
//@header impl<Child: Executor> HashDistinct<Child>
//@ret r
//@spec
    ensures r is Ok ==> final(self).rest() == old(self).rest()
//@end
//@extract crates/axmos-db/src/runtime/ops/sort.rs : impl<Child: Executor> Executor for QuickSort<Child> / fn open
//@header impl<Child: Executor> QuickSort<Child>
//@ret r
//@spec
    requires old(self).plain(), forall|k: int| 0 <= k < old(self).sort_exprs@.len() ==> prescribed((#[trigger] old(self).sort_exprs@[k]).expr, old(self).child.rest()), old(self).current_idx == 0
    ensures r is Ok ==> exists|p: Seq<(Vals, Vals)>| #[trigger] sort_of(old(self).sort_exprs@, keyed(old(self).sort_exprs@, old(self).child.rest()), p) && final(self).rest() == rows_of(p)
//@at after self.build_sorted()?;
proof { assert(buffered(self.buffer@, 0) =~= views(self.buffer@)); }
//@end
} // verus!
