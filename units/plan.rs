// The optimizer's rewriting of predicates and plans, and the index scan's bounds.
#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, irrefutable_let_patterns, unreachable_code, unreachable_patterns)]
use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
fn main(){}
global size_of usize == 8;
// ------------------------------------------------------------------ values
pub struct Bool(pub bool);
#[verifier::external_body] pub struct Scalar { v: u8 }
#[verifier::external_body] #[derive(Clone, Copy, PartialEq, Eq)] pub struct DataTypeKind { v: u8 }
pub enum DataType { Null, Bool(Bool), Other(Scalar) }
impl Clone for DataType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn bool_kind() -> DataTypeKind { unimplemented!() }
// the order and equality of values (decided by the contracts of C19)
pub uninterp spec fn dt_cmp(a: DataType, b: DataType) -> Option<Ordering>;
pub uninterp spec fn dt_eq(a: DataType, b: DataType) -> bool;
pub open spec fn is_less(a: DataType, b: DataType) -> bool { dt_cmp(a, b) == Some(Ordering::Less) }
pub open spec fn is_equal(a: DataType, b: DataType) -> bool { dt_cmp(a, b) == Some(Ordering::Equal) }
/// C19: the order is antisymmetric, agrees with equality, and has no place for NULL
pub axiom fn axiom_order(a: DataType, b: DataType)
    ensures is_less(a, b) == (dt_cmp(b, a) == Some(Ordering::Greater)), is_equal(a, b) == is_equal(b, a), a != DataType::Null && b != DataType::Null ==> is_equal(a, b) == dt_eq(a, b), dt_eq(a, b) == dt_eq(b, a), dt_cmp(DataType::Null, b) is None, dt_cmp(a, DataType::Null) is None;
pub type Vals = Seq<DataType>;
// ------------------------------------------------------------------ expressions
//@extract crates/axmos-db/src/sql/parser/ast.rs : enum BinaryOperator
//@attrs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@extract crates/axmos-db/src/sql/parser/ast.rs : enum UnaryOperator
//@attrs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@extract crates/axmos-db/src/sql/parser/ast.rs : enum JoinType
//@attrs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@extract crates/axmos-db/src/sql/binder/bounds.rs : enum ScalarFunction
//@end
impl Clone for ScalarFunction { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@extract crates/axmos-db/src/sql/binder/bounds.rs : enum AggregateFunction
//@attrs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
#[verifier::external_body] pub struct BoundSelect { v: u8 }
#[derive(Clone, Copy)] #[verifier::external_body] pub struct ObjectId { v: u64 }
//@extract crates/axmos-db/src/sql/binder/bounds.rs : struct Binding
//@end
impl Clone for Binding { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@extract crates/axmos-db/src/sql/binder/bounds.rs : enum BoundExpression
//@end
impl Clone for BoundExpression { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// ------------------------------------------------------------------ what an expression means
/// the outcome of an expression: this value, an error, or nothing prescribed
pub enum Out { Val(DataType), Fail, Any }
pub open spec fn yes(b: bool) -> DataType { DataType::Bool(Bool(b)) }
pub open spec fn truth(v: DataType) -> Option<Option<bool>> { match v { DataType::Bool(b) => Some(Some(b.0)), DataType::Null => Some(None), _ => None } }
pub open spec fn from_truth(t: Option<bool>) -> DataType { match t { Some(b) => yes(b), None => DataType::Null } }
pub open spec fn and3(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    if a == Some(false) || b == Some(false) { Some(false) } else if a == Some(true) && b == Some(true) { Some(true) } else { None }
}
// what the unit query prescribes for the other operators does not matter here: the same operator on the
// same outcomes has the same outcome
pub uninterp spec fn other_binary(op: BinaryOperator, l: Out, r: Out) -> Out;
pub uninterp spec fn unary(op: UnaryOperator, v: Out) -> Out;
pub uninterp spec fn is_null(v: Out, negated: bool) -> Out;
pub uninterp spec fn between(v: Out, l: Out, h: Out, negated: bool) -> Out;
pub uninterp spec fn in_list(v: Out, items: Seq<Out>, negated: bool) -> Out;
pub uninterp spec fn function(f: ScalarFunction, args: Seq<Out>, distinct: bool, k: DataTypeKind) -> Out;
pub uninterp spec fn opaque_sem(e: BoundExpression, row: Vals) -> Out;
pub open spec fn is_cmp(op: BinaryOperator) -> bool { matches!(op, BinaryOperator::Eq | BinaryOperator::Lt | BinaryOperator::Le | BinaryOperator::Gt | BinaryOperator::Ge) }
pub open spec fn compared(op: BinaryOperator, l: DataType, r: DataType) -> bool {
    match op {
        BinaryOperator::Eq => dt_eq(l, r),
        BinaryOperator::Lt => is_less(l, r),
        BinaryOperator::Le => is_less(l, r) || is_equal(l, r),
        BinaryOperator::Gt => dt_cmp(l, r) == Some(Ordering::Greater),
        _ => dt_cmp(l, r) == Some(Ordering::Greater) || is_equal(l, r),
    }
}
pub open spec fn binary(op: BinaryOperator, a: Out, b: Out) -> Out {
    match (a, b) {
        (Out::Val(l), Out::Val(r)) =>
            if op == BinaryOperator::And { match (truth(l), truth(r)) { (Some(x), Some(y)) => Out::Val(from_truth(and3(x, y))), _ => Out::Any } }
            else if is_cmp(op) { if l == DataType::Null || r == DataType::Null { Out::Val(DataType::Null) } else { Out::Val(yes(compared(op, l, r))) } }
            else { other_binary(op, a, b) },
        _ => if op == BinaryOperator::And { Out::Any } else if is_cmp(op) { if a is Any || b is Any { Out::Any } else { Out::Fail } } else { other_binary(op, a, b) },
    }
}
pub open spec fn sems(v: Vec<BoundExpression>, k: nat, row: Vals) -> Seq<Out> decreases v, k {
    if k == 0 || k > v@.len() { seq![] } else { sems(v, (k - 1) as nat, row).push(sem(v@[k - 1], row)) }
}
/// the outcome of an expression on a row (as in the unit query)
pub open spec fn sem(e: BoundExpression, row: Vals) -> Out decreases e, 0nat via sem_dec {
    match e {
        BoundExpression::Literal { value } => Out::Val(value),
        BoundExpression::ColumnBinding(b) => if b.column_idx < row.len() { Out::Val(row[b.column_idx as int]) } else { Out::Fail },
        BoundExpression::BinaryOp { left, op, right, result_type } => binary(op, sem(*left, row), sem(*right, row)),
        BoundExpression::UnaryOp { op, expr, result_type } => unary(op, sem(*expr, row)),
        BoundExpression::IsNull { expr, negated } => is_null(sem(*expr, row), negated),
        BoundExpression::Between { expr, low, high, negated } => between(sem(*expr, row), sem(*low, row), sem(*high, row), negated),
        BoundExpression::InList { expr, list, negated } => in_list(sem(*expr, row), sems(list, list@.len(), row), negated),
        BoundExpression::Function { func, args, distinct, return_type } => function(func, sems(args, args@.len(), row), distinct, return_type),
        _ => opaque_sem(e, row),
    }
}
#[via_fn] proof fn sem_dec(e: BoundExpression, row: Vals) { }
/// the predicate is true on the row (neither false nor unknown)
pub open spec fn holds(e: BoundExpression, row: Vals) -> bool { sem(e, row) == Out::Val(yes(true)) }
pub open spec fn cond(c: Option<BoundExpression>, row: Vals) -> bool { match c { None => true, Some(e) => holds(e, row) } }
pub open spec fn all(p: Seq<BoundExpression>, row: Vals) -> bool { forall|i: int| 0 <= i < p.len() ==> holds(#[trigger] p[i], row) }
/// a conjunction holds exactly where both sides do
pub proof fn lemma_and(e: BoundExpression, row: Vals)
    requires e is BinaryOp, e->BinaryOp_op == BinaryOperator::And
    ensures holds(e, row) == (holds(*e->BinaryOp_left, row) && holds(*e->BinaryOp_right, row))
{ }
/// the columns an expression refers to (a subquery may refer to any)
pub open spec fn uses_any(v: Vec<BoundExpression>, k: nat, c: usize) -> bool decreases v, k {
    if k == 0 || k > v@.len() { false } else { uses_any(v, (k - 1) as nat, c) || uses(v@[k - 1], c) }
}
pub open spec fn uses(e: BoundExpression, c: usize) -> bool decreases e, 0nat via uses_dec {
    match e {
        BoundExpression::Literal { value } => false,
        BoundExpression::ColumnBinding(b) => b.column_idx == c,
        BoundExpression::BinaryOp { left, op, right, result_type } => uses(*left, c) || uses(*right, c),
        BoundExpression::UnaryOp { op, expr, result_type } => uses(*expr, c),
        BoundExpression::IsNull { expr, negated } => uses(*expr, c),
        BoundExpression::Between { expr, low, high, negated } => uses(*expr, c) || uses(*low, c) || uses(*high, c),
        BoundExpression::InList { expr, list, negated } => uses(*expr, c) || uses_any(list, list@.len(), c),
        BoundExpression::Function { func, args, distinct, return_type } => uses_any(args, args@.len(), c),
        _ => true,
    }
}
#[via_fn] proof fn uses_dec(e: BoundExpression, c: usize) { }
/// an expression sees nothing but the columns it refers to
pub open spec fn alike(e: BoundExpression, a: Vals, b: Vals) -> bool { forall|c: usize| #[trigger] uses(e, c) ==> c < a.len() && c < b.len() && a[c as int] == b[c as int] }
pub open spec fn alike_any(v: Vec<BoundExpression>, k: nat, a: Vals, b: Vals) -> bool { forall|c: usize| #[trigger] uses_any(v, k, c) ==> c < a.len() && c < b.len() && a[c as int] == b[c as int] }
pub proof fn lemma_frames(v: Vec<BoundExpression>, k: nat, a: Vals, b: Vals)
    requires k <= v@.len(), alike_any(v, k, a, b), a.len() <= usize::MAX
    ensures sems(v, k, a) == sems(v, k, b)
    decreases v, k
{
    if k > 0 {
        assert forall|c: usize| #[trigger] uses_any(v, (k - 1) as nat, c) implies c < a.len() && c < b.len() && a[c as int] == b[c as int] by { assert(uses_any(v, k, c)); }
        assert forall|c: usize| #[trigger] uses(v@[k - 1], c) implies c < a.len() && c < b.len() && a[c as int] == b[c as int] by { assert(uses_any(v, k, c)); }
        lemma_frames(v, (k - 1) as nat, a, b);
        assert(decreases_to!(v => v@[k - 1]));
        lemma_frame(v@[k - 1], a, b);
    }
}
pub proof fn lemma_frame(e: BoundExpression, a: Vals, b: Vals)
    requires alike(e, a, b), a.len() <= usize::MAX
    ensures sem(e, a) == sem(e, b), holds(e, a) == holds(e, b)
    decreases e, 0nat
{
    match e {
        BoundExpression::Literal { value } => {},
        BoundExpression::ColumnBinding(x) => { assert(uses(e, x.column_idx)); },
        BoundExpression::BinaryOp { left, op, right, result_type } => {
            assert forall|c: usize| #[trigger] uses(*left, c) implies uses(e, c) by {}
            assert forall|c: usize| #[trigger] uses(*right, c) implies uses(e, c) by {}
            lemma_frame(*left, a, b); lemma_frame(*right, a, b); },
        BoundExpression::UnaryOp { op, expr, result_type } => { assert forall|c: usize| #[trigger] uses(*expr, c) implies uses(e, c) by {} lemma_frame(*expr, a, b); },
        BoundExpression::IsNull { expr, negated } => { assert forall|c: usize| #[trigger] uses(*expr, c) implies uses(e, c) by {} lemma_frame(*expr, a, b); },
        BoundExpression::Between { expr, low, high, negated } => {
            assert forall|c: usize| #[trigger] uses(*expr, c) implies uses(e, c) by {}
            assert forall|c: usize| #[trigger] uses(*low, c) implies uses(e, c) by {}
            assert forall|c: usize| #[trigger] uses(*high, c) implies uses(e, c) by {}
            lemma_frame(*expr, a, b); lemma_frame(*low, a, b); lemma_frame(*high, a, b); },
        BoundExpression::InList { expr, list, negated } => {
            assert forall|c: usize| #[trigger] uses(*expr, c) implies uses(e, c) by {}
            assert forall|c: usize| #[trigger] uses_any(list, list@.len(), c) implies uses(e, c) by {}
            lemma_frame(*expr, a, b); lemma_frames(list, list@.len(), a, b); },
        BoundExpression::Function { func, args, distinct, return_type } => {
            assert forall|c: usize| #[trigger] uses_any(args, args@.len(), c) implies uses(e, c) by {}
            lemma_frames(args, args@.len(), a, b); },
        _ => { assert(uses(e, usize::MAX)); assert(false); },
    }
}
// ------------------------------------------------------------------ moving columns
/// where the rewriting takes column c
pub enum Moving { Keep, Shift(int), Table(Seq<usize>), Swap(int, int) }
pub open spec fn image(k: Moving, c: usize) -> Option<usize> {
    match k {
        Moving::Keep => Some(c),
        Moving::Shift(n) => if 0 <= c + n <= usize::MAX { Some((c + n) as usize) } else { None },
        Moving::Table(t) => if c < t.len() { Some(t[c as int]) } else { None },
        Moving::Swap(l, r) => Some((if c < l { r + c } else { c - l }) as usize),
    }
}
/// row b carries the values of row a at the new places
pub open spec fn carried(e: BoundExpression, k: Moving, a: Vals, b: Vals) -> bool {
    forall|c: usize| #[trigger] uses(e, c) ==> image(k, c) is Some && (c < a.len() <==> (image(k, c)->0) < b.len()) && (c < a.len() ==> a[c as int] == b[image(k, c)->0 as int])
}
pub open spec fn carried_any(v: Vec<BoundExpression>, n: nat, k: Moving, a: Vals, b: Vals) -> bool {
    forall|c: usize| #[trigger] uses_any(v, n, c) ==> image(k, c) is Some && (c < a.len() <==> (image(k, c)->0) < b.len()) && (c < a.len() ==> a[c as int] == b[image(k, c)->0 as int])
}
pub open spec fn from(e: BoundExpression, k: Moving, d: usize) -> bool { exists|c: usize| uses(e, c) && #[trigger] image(k, c) == Some(d) }
pub open spec fn from_any(v: Vec<BoundExpression>, n: nat, k: Moving, d: usize) -> bool { exists|c: usize| uses_any(v, n, c) && #[trigger] image(k, c) == Some(d) }
pub open spec fn moved(e: BoundExpression, k: Moving, f: BoundExpression) -> bool {
    (forall|a: Vals, b: Vals| #[trigger] carried(e, k, a, b) ==> sem(f, b) == sem(e, a))
    && (forall|c: usize| #[trigger] uses(e, c) ==> image(k, c) is Some)
    && (forall|d: usize| #[trigger] uses(f, d) ==> from(e, k, d))
}
pub open spec fn moved_any(v: Vec<BoundExpression>, n: nat, k: Moving, w: Vec<BoundExpression>) -> bool {
    (forall|a: Vals, b: Vals| #[trigger] carried_any(v, n, k, a, b) ==> sems(w, n, b) == sems(v, n, a))
    && (forall|c: usize| #[trigger] uses_any(v, n, c) ==> image(k, c) is Some)
    && (forall|d: usize| #[trigger] uses_any(w, n, d) ==> from_any(v, n, k, d))
}
/// column numbers stay far from the limits of usize
pub open spec fn narrow(e: BoundExpression) -> bool { forall|c: usize| #[trigger] uses(e, c) ==> c <= u32::MAX }
/// what map_columns may be given
pub trait ColumnMap: Sized {
    spec fn kind(&self) -> Moving;
    spec fn saw(&self, c: usize) -> bool;
    fn call(&mut self, c: usize) -> (r: Option<usize>)
        requires c <= u32::MAX
        ensures final(self).kind() == old(self).kind(), r is Some ==> r == image(old(self).kind(), c), forall|x: usize| #[trigger] final(self).saw(x) == (old(self).saw(x) || x == c);
}
// slice.iter().map(|e| map_columns(e, map)).collect::<Option<Vec<_>>>()
#[verifier::loop_isolation(false)]
pub fn map_list<M: ColumnMap>(exprs: &Vec<BoundExpression>, map: &mut M) -> (r: Option<Vec<BoundExpression>>)
    requires forall|c: usize| #[trigger] uses_any(*exprs, exprs@.len(), c) ==> c <= u32::MAX
    ensures final(map).kind() == old(map).kind(), r is Some ==> r->0@.len() == exprs@.len() && moved_any(*exprs, exprs@.len(), old(map).kind(), r->0) && forall|x: usize| #[trigger] final(map).saw(x) == (old(map).saw(x) || uses_any(*exprs, exprs@.len(), x))
    decreases *exprs, 0nat
{
    let mut out: Vec<BoundExpression> = Vec::new();
    for i in 0..exprs.len()
        invariant out@.len() == i, map.kind() == old(map).kind(), forall|x: usize| #[trigger] map.saw(x) == (old(map).saw(x) || uses_any(*exprs, i as nat, x)), moved_any(*exprs, i as nat, old(map).kind(), out)
    {
        let ghost k = old(map).kind();
        let ghost before = out;
        let ghost m0 = *map;
        proof { assert(decreases_to!(*exprs => exprs@[i as int])); lemma_uses_on(*exprs, i as nat + 1); assert forall|c: usize| #[trigger] uses(exprs@[i as int], c) implies c <= u32::MAX by { assert(uses_any(*exprs, i as nat + 1, c)); } }
        let e = map_columns(&exprs[i], map)?;
        out.push(e);
        proof {
            assert forall|c: usize| true implies #[trigger] uses_any(*exprs, (i + 1) as nat, c) == (uses_any(*exprs, i as nat, c) || uses(exprs@[i as int], c)) by {}
            lemma_prefix(before, out, i as nat);
            assert forall|c: usize| #[trigger] uses_any(*exprs, i as nat, c) implies uses_any(*exprs, (i + 1) as nat, c) by {}
            assert forall|c: usize| #[trigger] uses(exprs@[i as int], c) implies uses_any(*exprs, (i + 1) as nat, c) by {}
            assert(out@[i as int] == e);
            assert forall|a: Vals, b: Vals| #[trigger] carried_any(*exprs, (i + 1) as nat, k, a, b) implies sems(out, (i + 1) as nat, b) == sems(*exprs, (i + 1) as nat, a) by {
                assert(carried_any(*exprs, i as nat, k, a, b)); assert(carried(exprs@[i as int], k, a, b));
                assert(sems(out, i as nat, b) == sems(before, i as nat, b));
            }
            assert forall|d: usize| #[trigger] uses_any(out, (i + 1) as nat, d) implies from_any(*exprs, (i + 1) as nat, k, d) by {
                assert(uses_any(out, (i + 1) as nat, d) == (uses_any(out, i as nat, d) || uses(out@[i as int], d)));
                assert(uses_any(out, i as nat, d) == uses_any(before, i as nat, d));
                if uses_any(before, i as nat, d) { assert(from_any(*exprs, i as nat, k, d)); } else { assert(from(exprs@[i as int], k, d)); }
            }
        }
    }
    Some(out)
}
pub proof fn lemma_uses_on(v: Vec<BoundExpression>, n: nat)
    requires n <= v@.len()
    ensures forall|c: usize| #[trigger] uses_any(v, n, c) ==> uses_any(v, v@.len(), c)
    decreases v@.len() - n
{ if n < v@.len() { lemma_uses_on(v, n + 1); assert forall|c: usize| #[trigger] uses_any(v, n, c) implies uses_any(v, v@.len(), c) by { assert(uses_any(v, n + 1, c)); } } }
pub proof fn lemma_prefix(v: Vec<BoundExpression>, w: Vec<BoundExpression>, n: nat)
    requires n <= v@.len(), n <= w@.len(), forall|i: int| 0 <= i < n ==> v@[i] == w@[i]
    ensures forall|row: Vals| #[trigger] sems(w, n, row) == sems(v, n, row), forall|c: usize| #[trigger] uses_any(w, n, c) == uses_any(v, n, c)
    decreases n
{
    if n > 0 {
        lemma_prefix(v, w, (n - 1) as nat);
        assert forall|row: Vals| #[trigger] sems(w, n, row) == sems(v, n, row) by { assert(sems(w, (n - 1) as nat, row) == sems(v, (n - 1) as nat, row)); }
        assert forall|c: usize| #[trigger] uses_any(w, n, c) == uses_any(v, n, c) by { assert(uses_any(w, (n - 1) as nat, c) == uses_any(v, (n - 1) as nat, c)); }
    }
}


pub open spec fn narrow_any(v: Vec<BoundExpression>) -> bool { forall|c: usize| #[trigger] uses_any(v, v@.len(), c) ==> c <= u32::MAX }
pub open spec fn below(a: BoundExpression, e: BoundExpression) -> bool { forall|c: usize| #[trigger] uses(a, c) ==> uses(e, c) }
pub open spec fn below_any(a: Vec<BoundExpression>, e: BoundExpression) -> bool { forall|c: usize| #[trigger] uses_any(a, a@.len(), c) ==> uses(e, c) }
pub proof fn lemma_below(e: BoundExpression)
    ensures match e {
        BoundExpression::BinaryOp { left, op, right, result_type } => below(*left, e) && below(*right, e),
        BoundExpression::UnaryOp { op, expr: x, result_type } => below(*x, e),
        BoundExpression::IsNull { expr: x, negated } => below(*x, e),
        BoundExpression::Between { expr: x, low, high, negated } => below(*x, e) && below(*low, e) && below(*high, e),
        BoundExpression::InList { expr: x, list, negated } => below(*x, e) && below_any(list, e),
        BoundExpression::Function { func, args, distinct, return_type } => below_any(args, e),
        _ => true,
    }
{
    match e {
        BoundExpression::BinaryOp { left, op, right, result_type } => { assert forall|c: usize| #[trigger] uses(*left, c) implies uses(e, c) by {} assert forall|c: usize| #[trigger] uses(*right, c) implies uses(e, c) by {} },
        BoundExpression::UnaryOp { op, expr: x, result_type } => { assert forall|c: usize| #[trigger] uses(*x, c) implies uses(e, c) by {} },
        BoundExpression::IsNull { expr: x, negated } => { assert forall|c: usize| #[trigger] uses(*x, c) implies uses(e, c) by {} },
        BoundExpression::Between { expr: x, low, high, negated } => { assert forall|c: usize| #[trigger] uses(*x, c) implies uses(e, c) by {} assert forall|c: usize| #[trigger] uses(*low, c) implies uses(e, c) by {} assert forall|c: usize| #[trigger] uses(*high, c) implies uses(e, c) by {} },
        BoundExpression::InList { expr: x, list, negated } => { assert forall|c: usize| #[trigger] uses(*x, c) implies uses(e, c) by {} assert forall|c: usize| #[trigger] uses_any(list, list@.len(), c) implies uses(e, c) by {} },
        BoundExpression::Function { func, args, distinct, return_type } => { assert forall|c: usize| #[trigger] uses_any(args, args@.len(), c) implies uses(e, c) by {} },
        _ => {},
    }
}
pub proof fn lemma_narrow(e: BoundExpression)
    requires narrow(e)
    ensures match e {
        BoundExpression::BinaryOp { left, op, right, result_type } => narrow(*left) && narrow(*right),
        BoundExpression::UnaryOp { op, expr: x, result_type } => narrow(*x),
        BoundExpression::IsNull { expr: x, negated } => narrow(*x),
        BoundExpression::Between { expr: x, low, high, negated } => narrow(*x) && narrow(*low) && narrow(*high),
        BoundExpression::InList { expr: x, list, negated } => narrow(*x) && narrow_any(list),
        BoundExpression::Function { func, args, distinct, return_type } => narrow_any(args),
        BoundExpression::ColumnBinding(b) => b.column_idx <= u32::MAX,
        _ => true,
    }
{ lemma_below(e); match e { BoundExpression::ColumnBinding(b) => { assert(uses(e, b.column_idx)); }, _ => {} } }
/// the parts of f are the moved parts of e
pub open spec fn parts_moved(e: BoundExpression, k: Moving, f: BoundExpression) -> bool {
    match (e, f) {
        (BoundExpression::Literal { value: a }, BoundExpression::Literal { value: b }) => a == b,
        (BoundExpression::ColumnBinding(a), BoundExpression::ColumnBinding(b)) => image(k, a.column_idx) == Some(b.column_idx),
        (BoundExpression::BinaryOp { left: a, op: p, right: b, result_type: t }, BoundExpression::BinaryOp { left: c, op: q, right: d, result_type: u }) => p == q && moved(*a, k, *c) && moved(*b, k, *d),
        (BoundExpression::UnaryOp { op: p, expr: a, result_type: t }, BoundExpression::UnaryOp { op: q, expr: c, result_type: u }) => p == q && moved(*a, k, *c),
        (BoundExpression::IsNull { expr: a, negated: m }, BoundExpression::IsNull { expr: c, negated: n }) => m == n && moved(*a, k, *c),
        (BoundExpression::Between { expr: a, low: l, high: h, negated: m }, BoundExpression::Between { expr: c, low: i, high: j, negated: n }) => m == n && moved(*a, k, *c) && moved(*l, k, *i) && moved(*h, k, *j),
        (BoundExpression::InList { expr: a, list: l, negated: m }, BoundExpression::InList { expr: c, list: i, negated: n }) => m == n && moved(*a, k, *c) && l@.len() == i@.len() && moved_any(l, l@.len(), k, i),
        (BoundExpression::Function { func: p, args: l, distinct: m, return_type: t }, BoundExpression::Function { func: q, args: i, distinct: n, return_type: u }) => p == q && m == n && t == u && l@.len() == i@.len() && moved_any(l, l@.len(), k, i),
        _ => false,
    }
}
pub proof fn lemma_map(e: BoundExpression, k: Moving, f: BoundExpression)
    requires parts_moved(e, k, f)
    ensures moved(e, k, f)
{
    lemma_below(e); lemma_below(f);
    assert forall|a: Vals, b: Vals| #[trigger] carried(e, k, a, b) implies sem(f, b) == sem(e, a) by {
        match e {
            BoundExpression::BinaryOp { left, op, right, result_type } => { assert(carried(*left, k, a, b)); assert(carried(*right, k, a, b)); },
            BoundExpression::UnaryOp { op, expr, result_type } => { assert(carried(*expr, k, a, b)); },
            BoundExpression::IsNull { expr, negated } => { assert(carried(*expr, k, a, b)); },
            BoundExpression::Between { expr, low, high, negated } => { assert(carried(*expr, k, a, b)); assert(carried(*low, k, a, b)); assert(carried(*high, k, a, b)); },
            BoundExpression::InList { expr, list, negated } => { assert(carried(*expr, k, a, b)); assert(carried_any(list, list@.len(), k, a, b)); },
            BoundExpression::Function { func, args, distinct, return_type } => { assert(carried_any(args, args@.len(), k, a, b)); },
            BoundExpression::ColumnBinding(x) => { assert(uses(e, x.column_idx)); },
            _ => {},
        }
    }
    assert forall|c: usize| #[trigger] uses(e, c) implies image(k, c) is Some by {
        match e {
            BoundExpression::BinaryOp { left, op, right, result_type } => { assert(uses(*left, c) || uses(*right, c)); },
            BoundExpression::UnaryOp { op, expr, result_type } => { assert(uses(*expr, c)); },
            BoundExpression::IsNull { expr, negated } => { assert(uses(*expr, c)); },
            BoundExpression::Between { expr, low, high, negated } => { assert(uses(*expr, c) || uses(*low, c) || uses(*high, c)); },
            BoundExpression::InList { expr, list, negated } => { assert(uses(*expr, c) || uses_any(list, list@.len(), c)); },
            BoundExpression::Function { func, args, distinct, return_type } => { assert(uses_any(args, args@.len(), c)); },
            _ => {},
        }
    }
    assert forall|d: usize| #[trigger] uses(f, d) implies from(e, k, d) by {
        match (e, f) {
            (BoundExpression::ColumnBinding(x), _) => { assert(uses(e, x.column_idx) && image(k, x.column_idx) == Some(d)); },
            (BoundExpression::BinaryOp { left: a, op: p, right: b, result_type: t }, BoundExpression::BinaryOp { left: c, op: q, right: x, result_type: u }) => { if uses(*c, d) { assert(from(*a, k, d)); } else { assert(uses(*x, d)); assert(from(*b, k, d)); } },
            (BoundExpression::UnaryOp { op: p, expr: a, result_type: t }, BoundExpression::UnaryOp { op: q, expr: c, result_type: u }) => { assert(uses(*c, d)); assert(from(*a, k, d)); },
            (BoundExpression::IsNull { expr: a, negated: m }, BoundExpression::IsNull { expr: c, negated: n }) => { assert(uses(*c, d)); assert(from(*a, k, d)); },
            (BoundExpression::Between { expr: a, low: l, high: h, negated: m }, BoundExpression::Between { expr: c, low: i, high: j, negated: n }) => { if uses(*c, d) { assert(from(*a, k, d)); } else if uses(*i, d) { assert(from(*l, k, d)); } else { assert(uses(*j, d)); assert(from(*h, k, d)); } },
            (BoundExpression::InList { expr: a, list: l, negated: m }, BoundExpression::InList { expr: c, list: i, negated: n }) => { if uses(*c, d) { assert(from(*a, k, d)); } else { assert(uses_any(i, i@.len(), d)); assert(from_any(l, l@.len(), k, d)); } },
            (BoundExpression::Function { func: p, args: l, distinct: m, return_type: t }, BoundExpression::Function { func: q, args: i, distinct: n, return_type: u }) => { assert(uses_any(i, i@.len(), d)); assert(from_any(l, l@.len(), k, d)); },
            _ => {},
        }
    }
}
//@extract crates/axmos-db/src/sql/planner/rules.rs : fn map_columns
//@rewrite fn map_columns\( ==> fn map_columns<M: ColumnMap>(
//@rewrite map: &mut dyn FnMut\(usize\) -> Option<usize> ==> map: &mut M
//@rewrite let mut list = \|exprs: &\[BoundExpression\]\| -> Option<Vec<BoundExpression>> \{\s*exprs\.iter\(\)\.map\(\|e\| map_columns\(e, map\)\)\.collect\(\)\s*\}; ==> 
//@rewrite \blist\((\w+)\)\? ==> map_list(\1, map)?
//@rewrite \bmap\(([\w.]+)\)\? ==> map.call(\1)?
//@rewrite ,\s*\.\.\*c\s*\} ==> , table_id: c.table_id, scope_index: c.scope_index, data_type: c.data_type }
//@rewrite Some\(match expr \{ ==> let out = (match expr {
//@rewrite _ => return None,\s*\}\) ==> _ => return None, }); proof { lemma_map(*expr, k, out); } Some(out)
//@ret r
//@spec
    requires narrow(*expr)
    ensures final(map).kind() == old(map).kind(), r is Some ==> moved(*expr, old(map).kind(), r->0) && forall|x: usize| #[trigger] final(map).saw(x) == (old(map).saw(x) || uses(*expr, x))
    decreases *expr, 0nat
//@at start
let ghost k = map.kind();
proof { lemma_narrow(*expr); }
//@end
// ------------------------------------------------------------------ the column maps the planner uses (closures printed as structs)
pub struct Collect { pub v: Vec<usize> }
pub struct ShiftBy { pub offset: i32 }
pub struct ByTable<'a> { pub mapping: &'a [usize] }
pub struct Swapping { pub left_cols: u32, pub right_cols: u32 }
#[verifier::external_body] pub fn usize_of(v: i64) -> (r: Option<usize>) ensures match r { Some(x) => x == v, None => v < 0 } { usize::try_from(v).ok() }
#[verifier::external_body] pub fn copy_at(v: &[usize], i: usize) -> (r: Option<usize>) ensures match r { Some(x) => i < v@.len() && x == v@[i as int], None => i >= v@.len() } { v.get(i).copied() }
//@extract crates/axmos-db/src/sql/planner/rules.rs : fn columns_of
//@rename columns_of_map
//@rewrite \(expr: &BoundExpression\) -> Option<Vec<usize>> ==> (columns: &mut Vec<usize>, c: usize) -> (r: Option<usize>)
//@rewrite let mut columns = Vec::new\(\);\s*map_columns\(expr, &mut \|c\| (\{[^}]*\})\)\?;\s*Some\(columns\) ==> \1
//@spec
    ensures r == Some(c), final(columns)@ == old(columns)@.push(c)
//@end
//@extract crates/axmos-db/src/sql/planner/rules.rs : fn shift_columns
//@rename shift_columns_map
//@rewrite \(expr: &BoundExpression, offset: i32\) -> Option<BoundExpression> ==> (c: usize, offset: i32) -> (r: Option<usize>)
//@rewrite map_columns\(expr, &mut \|c\| usize::try_from\((.*)\)\.ok\(\)\) ==> usize_of(\1)
//@spec
    requires c <= u32::MAX
    ensures r == if c + offset >= 0 { Some((c + offset) as usize) } else { None }
//@end
//@extract crates/axmos-db/src/sql/planner/rules.rs : fn rewrite_with_mapping
//@rename rewrite_with_mapping_map
//@rewrite \(expr: &BoundExpression, mapping: &\[usize\]\) -> Option<BoundExpression> ==> (c: usize, mapping: &[usize]) -> (r: Option<usize>)
//@rewrite map_columns\(expr, &mut \|c\| mapping\.get\((\w+)\)\.copied\(\)\) ==> copy_at(mapping, \1)
//@spec
    ensures r == if c < mapping@.len() { Some(mapping@[c as int]) } else { None }
//@end
impl ColumnMap for Collect {
    open spec fn kind(&self) -> Moving { Moving::Keep }
    open spec fn saw(&self, c: usize) -> bool { self.v@.contains(c) }
    fn call(&mut self, c: usize) -> (r: Option<usize>) {
        let r = columns_of_map(&mut self.v, c);
        proof { let a = old(self).v@; assert(self.v@ == a.push(c)); assert forall|x: usize| #[trigger] self.v@.contains(x) == (a.contains(x) || x == c) by { lemma_pushed(a, c, x); } }
        r
    }
}
pub proof fn lemma_pushed(s: Seq<usize>, c: usize, x: usize) ensures s.push(c).contains(x) == (s.contains(x) || x == c) {
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(c)[i] == x); }
    assert(s.push(c)[s.len() as int] == c);
    if s.push(c).contains(x) && x != c { let i = choose|i: int| 0 <= i < s.push(c).len() && s.push(c)[i] == x; assert(s[i] == x); }
}
impl ColumnMap for ShiftBy {
    open spec fn kind(&self) -> Moving { Moving::Shift(self.offset as int) }
    open spec fn saw(&self, c: usize) -> bool { true }
    fn call(&mut self, c: usize) -> (r: Option<usize>) { shift_columns_map(c, self.offset) }
}
impl<'a> ColumnMap for ByTable<'a> {
    open spec fn kind(&self) -> Moving { Moving::Table(self.mapping@) }
    open spec fn saw(&self, c: usize) -> bool { true }
    fn call(&mut self, c: usize) -> (r: Option<usize>) { rewrite_with_mapping_map(c, self.mapping) }
}
//@extract crates/axmos-db/src/sql/planner/rules.rs : fn columns_of
//@rewrite let mut columns = Vec::new\(\); ==> let mut columns = Collect { v: Vec::new() };
//@rewrite &mut \|c\| \{[^}]*\} ==> &mut columns
//@rewrite Some\(columns\)(?=\s*\}) ==> proof { assert forall|c: usize| #[trigger] uses(*expr, c) == columns.v@.contains(c) by { assert(columns.saw(c) == uses(*expr, c)); } } Some(columns.v)
//@ret r
//@spec
    requires narrow(*expr)
    ensures r is Some ==> forall|c: usize| #[trigger] uses(*expr, c) == r->0@.contains(c)
//@end
//@extract crates/axmos-db/src/sql/planner/rules.rs : fn shift_columns
//@rewrite &mut \|c\| .*?\.ok\(\) ==> &mut ShiftBy { offset }
//@ret r
//@spec
    requires narrow(*expr)
    ensures r is Some ==> moved(*expr, Moving::Shift(offset as int), r->0)
//@end
//@extract crates/axmos-db/src/sql/planner/rules.rs : fn rewrite_with_mapping
//@rewrite &mut \|c\| .*?\.copied\(\) ==> &mut ByTable { mapping }
//@ret r
//@spec
    requires narrow(*expr)
    ensures r is Some ==> moved(*expr, Moving::Table(mapping@), r->0)
//@end
// ------------------------------------------------------------------ conjunctions
//@extract crates/axmos-db/src/sql/planner/rules.rs : fn split_conjunction
//@spec
    ensures parts(*expr, old(out)@, final(out)@)
    decreases *expr
//@at start
proof { lemma_below(*expr); lemma_all_push(old(out)@, *expr); }
//@end
pub open spec fn narrows(p: Seq<BoundExpression>) -> bool { forall|i: int| 0 <= i < p.len() ==> narrow(#[trigger] p[i]) }
/// every predicate refers to nothing but columns of e
pub open spec fn inside(p: BoundExpression, e: BoundExpression) -> bool { forall|c: usize| #[trigger] uses(p, c) ==> uses(e, c) }
/// the list has grown by predicates that hold together exactly where e does
pub open spec fn parts(e: BoundExpression, old: Seq<BoundExpression>, new: Seq<BoundExpression>) -> bool {
    (forall|row: Vals| #[trigger] all(new, row) == (all(old, row) && holds(e, row)))
    && old.len() <= new.len() && (forall|i: int| 0 <= i < old.len() ==> new[i] == old[i])
    && (forall|i: int| old.len() <= i < new.len() ==> inside(#[trigger] new[i], e))
}
pub proof fn lemma_all_push(p: Seq<BoundExpression>, e: BoundExpression)
    ensures forall|row: Vals| #[trigger] all(p.push(e), row) == (all(p, row) && holds(e, row))
{
    assert forall|row: Vals| #[trigger] all(p.push(e), row) == (all(p, row) && holds(e, row)) by {
        if all(p.push(e), row) { assert forall|i: int| 0 <= i < p.len() implies holds(#[trigger] p[i], row) by { assert(p.push(e)[i] == p[i]); } assert(p.push(e)[p.len() as int] == e); }
    }
}
//@extract crates/axmos-db/src/sql/planner/rules.rs : fn combine_predicates
//@rewrite preds\.into_iter\(\)\.reduce\(\|a, b\| ==> reduce(preds, |a: BoundExpression, b: BoundExpression| -> (r: BoundExpression) ensures r is BinaryOp && r->BinaryOp_op == BinaryOperator::And && *r->BinaryOp_left == a && *r->BinaryOp_right == b {
//@rewrite DataTypeKind::Bool,\s*\}\) ==> bool_kind(), } })
//@ret r
//@spec
    ensures r is None <==> preds@.len() == 0, forall|row: Vals| #[trigger] cond(r, row) == all(preds@, row),
        r is Some ==> forall|c: usize| #[trigger] uses(r->0, c) ==> uses_one(preds@, c)
//@end
pub open spec fn uses_one(p: Seq<BoundExpression>, c: usize) -> bool { exists|i: int| 0 <= i < p.len() && uses(#[trigger] p[i], c) }
/// into_iter().reduce(f) with a function that joins two predicates by AND
#[verifier::loop_isolation(false)]
pub fn reduce<F: Fn(BoundExpression, BoundExpression) -> BoundExpression>(v: Vec<BoundExpression>, f: F) -> (r: Option<BoundExpression>)
    requires forall|a: BoundExpression, b: BoundExpression| #[trigger] f.requires((a, b)),
        forall|a: BoundExpression, b: BoundExpression, r: BoundExpression| #[trigger] f.ensures((a, b), r) ==> r is BinaryOp && r->BinaryOp_op == BinaryOperator::And && *r->BinaryOp_left == a && *r->BinaryOp_right == b
    ensures r is None <==> v@.len() == 0, forall|row: Vals| #[trigger] cond(r, row) == all(v@, row), r is Some ==> forall|c: usize| #[trigger] uses(r->0, c) ==> uses_one(v@, c)
{
    if v.len() == 0 { return None; }
    let mut acc = v[0].clone();
    proof { assert(v@.subrange(0, 1) =~= Seq::<BoundExpression>::empty().push(v@[0])); lemma_all_push(Seq::empty(), v@[0]); assert(v@.subrange(0, 1)[0] == v@[0]); }
    for i in 1..v.len()
        invariant forall|row: Vals| #[trigger] holds(acc, row) == all(v@.subrange(0, i as int), row), forall|c: usize| #[trigger] uses(acc, c) ==> uses_one(v@, c)
    {
        let ghost before = acc;
        acc = f(acc, v[i].clone());
        proof {
            let s = v@.subrange(0, i as int);
            assert(v@.subrange(0, i + 1) =~= s.push(v@[i as int])); lemma_all_push(s, v@[i as int]);
            assert forall|row: Vals| #[trigger] holds(acc, row) == all(v@.subrange(0, i + 1), row) by { lemma_and(acc, row); assert(holds(before, row) == all(s, row)); assert(all(s.push(v@[i as int]), row) == (all(s, row) && holds(v@[i as int], row))); }
            assert forall|c: usize| #[trigger] uses(acc, c) implies uses_one(v@, c) by { if !uses(before, c) { assert(uses(v@[i as int], c)); } }
        }
    }
    proof { assert(v@.subrange(0, v@.len() as int) =~= v@); }
    Some(acc)
}
/// [a, b].into_iter().flatten()
pub fn both<'a>(a: &'a Option<BoundExpression>, b: &'a Option<BoundExpression>) -> (r: Vec<&'a BoundExpression>)
    ensures forall|row: Vals| #[trigger] all_refs(r@, row) == (cond(*a, row) && cond(*b, row)), (narrow_opt(*a) && narrow_opt(*b)) ==> forall|i: int| 0 <= i < r@.len() ==> narrow(*#[trigger] r@[i]),
        forall|i: int| 0 <= i < r@.len() ==> *a == Some(*#[trigger] r@[i]) || *b == Some(*r@[i])
{
    let mut v: Vec<&'a BoundExpression> = Vec::new();
    if let Some(x) = a { v.push(x); }
    if let Some(x) = b { v.push(x); }
    proof {
        assert forall|row: Vals| #[trigger] all_refs(v@, row) == (cond(*a, row) && cond(*b, row)) by {
            if *a is Some { assert(*v@[0] == a->0); if *b is Some { assert(*v@[1] == b->0); } } else if *b is Some { assert(*v@[0] == b->0); }
            if cond(*a, row) && cond(*b, row) { assert forall|i: int| 0 <= i < v@.len() implies holds(*#[trigger] v@[i], row) by { if i == 0 && *a is Some { } } }
        }
    }
    v
}
pub open spec fn all_refs(p: Seq<&BoundExpression>, row: Vals) -> bool { forall|i: int| 0 <= i < p.len() ==> holds(*#[trigger] p[i], row) }
pub open spec fn narrow_opt(c: Option<BoundExpression>) -> bool { c is Some ==> narrow(c->0) }
pub open spec fn uses_opt(e: Option<BoundExpression>, c: usize) -> bool { e is Some && uses(e->0, c) }
pub proof fn lemma_shift_right(e: BoundExpression, n: int, f: BoundExpression)
    requires moved(e, Moving::Shift(-n), f), n >= 0
    ensures forall|x: Vals| x.len() >= n ==> holds(e, x) == #[trigger] holds(f, x.skip(n)), narrow(e) ==> narrow(f), forall|c: usize| #[trigger] uses(e, c) ==> c >= n,
        forall|d: usize| #[trigger] uses(f, d) ==> d + n <= usize::MAX && uses(e, (d + n) as usize)
{
    assert forall|x: Vals| x.len() >= n implies holds(e, x) == #[trigger] holds(f, x.skip(n)) by { assert(carried(e, Moving::Shift(-n), x, x.skip(n))); }
    assert forall|c: usize| #[trigger] uses(e, c) implies c >= n by { assert(image(Moving::Shift(-n), c) is Some); }
    assert forall|d: usize| #[trigger] uses(f, d) implies d + n <= usize::MAX && uses(e, (d + n) as usize) by { assert(from(e, Moving::Shift(-n), d)); }
}
//@extract crates/axmos-db/src/sql/planner/rules.rs : fn split_associative_condition
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite for condition in \[(\w+), (\w+)\]\.into_iter\(\)\.flatten\(\) ==> let conds = both(\1, \2); for ci in 0..conds.len()
//@rewrite for pred in preds\b ==> for k in 0..preds.len()
//@ret r
//@spec
    requires narrow_opt(*outer), narrow_opt(*inner), a_cols <= i32::MAX
    ensures split_into(*outer, *inner, r.0, r.1, a_cols as int),
        narrow_opt(r.0), narrow_opt(r.1), forall|c: usize| #[trigger] uses_opt(r.0, c) ==> uses_opt(*outer, c) || uses_opt(*inner, c),
        forall|d: usize| #[trigger] uses_opt(r.1, d) ==> d + a_cols <= usize::MAX && (uses_opt(*outer, (d + a_cols) as usize) || uses_opt(*inner, (d + a_cols) as usize))
//@loop 0
    invariant forall|row: Vals| #[trigger] all(preds@, row) == all_refs(conds@.subrange(0, ci as int), row), narrows(preds@),
        forall|c: usize| #[trigger] uses_one(preds@, c) ==> uses_opt(*outer, c) || uses_opt(*inner, c)
//@loop 1
    invariant parted(preds@.subrange(0, k as int), a_preds@, bc_preds@, a_cols as int), narrows(a_preds@), narrows(bc_preds@),
        forall|c: usize| #[trigger] uses_one(a_preds@, c) ==> uses_one(preds@, c),
        forall|d: usize| #[trigger] uses_one(bc_preds@, d) ==> d + a_cols <= usize::MAX && uses_one(preds@, (d + a_cols) as usize)
//@at loop 0 body-start
let condition = conds[ci];
let ghost before = preds@;
//@at loop 0 body-end
proof {
    let s = conds@.subrange(0, ci as int); let t = conds@.subrange(0, ci + 1);
    assert forall|row: Vals| #[trigger] all(preds@, row) == all_refs(t, row) by {
        assert(all(before, row) == all_refs(s, row));
        assert(t[ci as int] == condition); assert forall|i: int| 0 <= i < ci implies s[i] == #[trigger] t[i] by {}
        if all_refs(t, row) { assert forall|i: int| 0 <= i < ci implies holds(*#[trigger] s[i], row) by { assert(holds(*t[i], row)); } }
    }
    assert forall|i: int| 0 <= i < preds@.len() implies narrow(#[trigger] preds@[i]) by { if i >= before.len() { assert(inside(preds@[i], *condition)); } else { assert(preds@[i] == before[i]); } }
    assert forall|c: usize| #[trigger] uses_one(preds@, c) implies uses_opt(*outer, c) || uses_opt(*inner, c) by {
        let i = choose|i: int| 0 <= i < preds@.len() && uses(#[trigger] preds@[i], c);
        if i >= before.len() { assert(inside(preds@[i], *condition)); assert(uses(*condition, c)); } else { assert(preds@[i] == before[i]); assert(uses_one(before, c)); }
    }
}
//@at loop 1 body-start
let pred = preds[k].clone();
let ghost (a0, b0) = (a_preds@, bc_preds@);
proof { assert(narrow(preds@[k as int])); }
//@at loop 1 body-end
proof {
    let s = preds@.subrange(0, k as int);
    assert(preds@.subrange(0, k + 1) =~= s.push(preds@[k as int]));
    if a_preds@.len() != a0.len() { assert(a_preds@ == a0.push(pred)); } else { assert(bc_preds@ =~= b0.push(bc_preds@.last())); lemma_shift_right(pred, a_cols as int, bc_preds@.last()); }
    lemma_parted(s, a0, b0, a_cols as int, pred, a_preds@, bc_preds@);
    assert forall|c: usize| #[trigger] uses_one(a_preds@, c) implies uses_one(preds@, c) by {
        let i = choose|i: int| 0 <= i < a_preds@.len() && uses(#[trigger] a_preds@[i], c);
        if i < a0.len() { assert(a0[i] == a_preds@[i]); assert(uses_one(a0, c)); } else { assert(uses(preds@[k as int], c)); }
    }
    assert forall|d: usize| #[trigger] uses_one(bc_preds@, d) implies d + a_cols <= usize::MAX && uses_one(preds@, (d + a_cols) as usize) by {
        let i = choose|i: int| 0 <= i < bc_preds@.len() && uses(#[trigger] bc_preds@[i], d);
        if i < b0.len() { assert(b0[i] == bc_preds@[i]); assert(uses_one(b0, d)); } else { assert(uses(preds@[k as int], (d + a_cols) as usize)); }
    }
}
//@at loop 1 after
proof {
    assert(preds@.subrange(0, preds@.len() as int) =~= preds@); assert(conds@.subrange(0, conds@.len() as int) =~= conds@);
    assert forall|x: Vals| x.len() >= a_cols implies (cond(*outer, x) && cond(*inner, x)) == #[trigger] all(preds@, x) by { assert(all(preds@, x) == all_refs(conds@, x)); }
    lemma_narrows(a_preds@); lemma_narrows(bc_preds@); lemma_split(*outer, *inner, preds@, a_preds@, bc_preds@, a_cols as int);
}
//@end
pub open spec fn parted(s: Seq<BoundExpression>, a: Seq<BoundExpression>, b: Seq<BoundExpression>, n: int) -> bool { forall|x: Vals| x.len() >= n ==> #[trigger] all(s, x) == (all(a, x) && all(b, x.skip(n))) }
pub proof fn lemma_parted(s: Seq<BoundExpression>, a: Seq<BoundExpression>, b: Seq<BoundExpression>, n: int, p: BoundExpression, a2: Seq<BoundExpression>, b2: Seq<BoundExpression>)
    requires n >= 0, parted(s, a, b, n), (a2 == a.push(p) && b2 == b) || (a2 == a && b2.len() > 0 && b2 == b.push(b2.last()) && forall|x: Vals| x.len() >= n ==> holds(p, x) == #[trigger] holds(b2.last(), x.skip(n)))
    ensures parted(s.push(p), a2, b2, n)
{
    lemma_all_push(s, p); lemma_all_push(a, p); lemma_all_push(b, b2.last());
    assert forall|x: Vals| x.len() >= n implies #[trigger] all(s.push(p), x) == (all(a2, x) && all(b2, x.skip(n))) by {
        assert(all(s.push(p), x) == (all(s, x) && holds(p, x)));
        assert(all(s, x) == (all(a, x) && all(b, x.skip(n))));
        if a2 == a.push(p) && b2 == b { assert(all(a.push(p), x) == (all(a, x) && holds(p, x))); }
        else { let f = b2.last(); let y = x.skip(n); assert(all(b.push(f), y) == (all(b, y) && holds(f, y))); assert(holds(p, x) == holds(f, y)); }
    }
}
/// what split_associative_condition promises of the two lists it makes
pub open spec fn split_into(o: Option<BoundExpression>, i: Option<BoundExpression>, a: Option<BoundExpression>, b: Option<BoundExpression>, n: int) -> bool {
    forall|x: Vals| x.len() >= n ==> (cond(o, x) && cond(i, x)) == (#[trigger] cond(a, x) && cond(b, x.skip(n)))
}
pub proof fn lemma_split(o: Option<BoundExpression>, i: Option<BoundExpression>, s: Seq<BoundExpression>, a: Seq<BoundExpression>, b: Seq<BoundExpression>, n: int)
    requires parted(s, a, b, n), forall|x: Vals| x.len() >= n ==> (cond(o, x) && cond(i, x)) == #[trigger] all(s, x)
    ensures forall|p: Option<BoundExpression>, q: Option<BoundExpression>| (forall|row: Vals| #[trigger] cond(p, row) == all(a, row)) && (forall|row: Vals| #[trigger] cond(q, row) == all(b, row)) ==> #[trigger] split_into(o, i, p, q, n)
{
    assert forall|p: Option<BoundExpression>, q: Option<BoundExpression>| (forall|row: Vals| #[trigger] cond(p, row) == all(a, row)) && (forall|row: Vals| #[trigger] cond(q, row) == all(b, row)) implies #[trigger] split_into(o, i, p, q, n) by {
        assert forall|x: Vals| x.len() >= n implies (cond(o, x) && cond(i, x)) == (#[trigger] cond(p, x) && cond(q, x.skip(n))) by { assert(all(s, x) == (all(a, x) && all(b, x.skip(n)))); }
    }
}
pub proof fn lemma_narrows(p: Seq<BoundExpression>) requires narrows(p) ensures forall|c: usize| #[trigger] uses_one(p, c) ==> c <= u32::MAX { }
/// iter().any(|&c| ..)
#[verifier::loop_isolation(false)]
pub fn any_of<F: Fn(usize) -> bool>(v: &Vec<usize>, f: F) -> (r: bool)
    requires forall|c: usize| #[trigger] f.requires((c,))
    ensures !r ==> forall|c: usize| #[trigger] v@.contains(c) ==> f.ensures((c,), false)
{
    for i in 0..v.len()
        invariant forall|k: int| 0 <= k < i ==> f.ensures((#[trigger] v@[k],), false)
    { if f(v[i]) { return true; } }
    assert forall|c: usize| #[trigger] v@.contains(c) implies f.ensures((c,), false) by { let k = choose|k: int| 0 <= k < v@.len() && v@[k] == c; assert(f.ensures((v@[k],), false)); }
    false
}
pub open spec fn is_left(e: BoundExpression, n: int) -> bool { forall|c: usize| #[trigger] uses(e, c) ==> c < n }
pub open spec fn is_right(e: BoundExpression, n: int) -> bool { forall|c: usize| #[trigger] uses(e, c) ==> c >= n }
pub open spec fn are_left(p: Seq<BoundExpression>, n: int) -> bool { forall|i: int| 0 <= i < p.len() ==> is_left(#[trigger] p[i], n) }
pub open spec fn are_right(p: Seq<BoundExpression>, n: int) -> bool { forall|i: int| 0 <= i < p.len() ==> is_right(#[trigger] p[i], n) }
//@extract crates/axmos-db/src/sql/planner/rules.rs : fn check_column_usage
//@rewrite columns\.iter\(\)\.any\(\|&c\| (.*?)\) ==> any_of(&columns, |c: usize| -> (b: bool) ensures b == (\1) { \1 })
//@ret r
//@spec
    requires narrow(*expr)
    ensures !r.0 ==> is_right(*expr, left_cols as int), !r.1 ==> is_left(*expr, left_cols as int)
//@end
/// the three lists have grown by predicates that hold together exactly where e does
pub open spec fn classified(e: BoundExpression, n: int, l0: Seq<BoundExpression>, r0: Seq<BoundExpression>, j0: Seq<BoundExpression>, l1: Seq<BoundExpression>, r1: Seq<BoundExpression>, j1: Seq<BoundExpression>) -> bool {
    (forall|row: Vals| (#[trigger] all(l1, row) && all(r1, row) && all(j1, row)) == (all(l0, row) && all(r0, row) && all(j0, row) && holds(e, row)))
    && (are_left(l0, n) ==> are_left(l1, n)) && (are_right(r0, n) ==> are_right(r1, n))
    && (narrows(l0) && narrows(r0) && narrows(j0) ==> narrows(l1) && narrows(r1) && narrows(j1))
    && (forall|c: usize| #[trigger] uses_one(l1, c) ==> uses_one(l0, c) || uses(e, c))
    && (forall|c: usize| #[trigger] uses_one(r1, c) ==> uses_one(r0, c) || uses(e, c))
    && (forall|c: usize| #[trigger] uses_one(j1, c) ==> uses_one(j0, c) || uses(e, c))
}
pub proof fn lemma_pushed_pred(p: Seq<BoundExpression>, e: BoundExpression)
    ensures forall|row: Vals| #[trigger] all(p.push(e), row) == (all(p, row) && holds(e, row)), narrows(p) && narrow(e) ==> narrows(p.push(e)),
        forall|c: usize| #[trigger] uses_one(p.push(e), c) ==> uses_one(p, c) || uses(e, c)
{
    lemma_all_push(p, e);
    assert forall|c: usize| #[trigger] uses_one(p.push(e), c) implies uses_one(p, c) || uses(e, c) by { let i = choose|i: int| 0 <= i < p.push(e).len() && uses(#[trigger] p.push(e)[i], c); if i < p.len() { assert(p[i] == p.push(e)[i]); } }
}
//@extract crates/axmos-db/src/sql/planner/rules.rs : fn classify_predicates
//@spec
    requires narrow(*expr)
    ensures classified(*expr, left_cols as int, old(left)@, old(right)@, old(join)@, final(left)@, final(right)@, final(join)@)
    decreases *expr
//@at start
proof { lemma_below(*expr); lemma_narrow(*expr); lemma_pushed_pred(old(left)@, *expr); lemma_pushed_pred(old(right)@, *expr); lemma_pushed_pred(old(join)@, *expr); }
//@end
// ------------------------------------------------------------------ bounds on an index
//@extract crates/axmos-db/src/sql/planner/logical.rs : struct IndexRangeBound
//@end
impl Clone for IndexRangeBound { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// the value lies on the side of the cell that ord says, or on it
pub open spec fn within(b: IndexRangeBound, cell: DataType, ord: Ordering) -> bool { dt_cmp(b.value, cell) == Some(ord) || (b.inclusive && is_equal(b.value, cell)) }
/// the bounds speak of the columns of the index by position; cols are their positions in the table row t
pub open spec fn in_bounds(p: Seq<IndexRangeBound>, cols: Seq<usize>, ord: Ordering, t: Vals) -> bool { forall|i: int| 0 <= i < p.len() ==> within(#[trigger] p[i], t[cols[p[i].col_idx as int] as int], ord) }
pub open spec fn fits(cols: Seq<usize>, t: Vals) -> bool { forall|i: int| 0 <= i < cols.len() ==> #[trigger] cols[i] < t.len() }
pub open spec fn placed(p: Seq<IndexRangeBound>, n: int) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).col_idx < n }
pub proof fn lemma_in_push(p: Seq<IndexRangeBound>, cols: Seq<usize>, ord: Ordering)
    ensures forall|b: IndexRangeBound, t: Vals| #[trigger] in_bounds(p.push(b), cols, ord, t) == (in_bounds(p, cols, ord, t) && within(b, t[cols[b.col_idx as int] as int], ord))
{
    assert forall|b: IndexRangeBound, t: Vals| #[trigger] in_bounds(p.push(b), cols, ord, t) == (in_bounds(p, cols, ord, t) && within(b, t[cols[b.col_idx as int] as int], ord)) by {
        let q = p.push(b);
        if in_bounds(q, cols, ord, t) { assert(q[p.len() as int] == b); assert forall|i: int| 0 <= i < p.len() implies within(#[trigger] p[i], t[cols[p[i].col_idx as int] as int], ord) by { assert(q[i] == p[i]); } }
    }
}
pub proof fn lemma_order()
    ensures forall|a: DataType, b: DataType| #[trigger] dt_cmp(a, b) == Some(Ordering::Less) <==> dt_cmp(b, a) == Some(Ordering::Greater),
        forall|a: DataType, b: DataType| (#[trigger] dt_cmp(a, b) == Some(Ordering::Equal)) == (dt_cmp(b, a) == Some(Ordering::Equal)),
        forall|a: DataType, b: DataType| #[trigger] dt_eq(a, b) && a != DataType::Null && b != DataType::Null ==> is_equal(a, b),
        forall|a: DataType, b: DataType| #[trigger] dt_cmp(a, b) == Some(Ordering::Equal) ==> dt_eq(a, b),
        forall|a: DataType| #[trigger] dt_cmp(DataType::Null, a) is None, forall|a: DataType| #[trigger] dt_cmp(a, DataType::Null) is None
{
    assert forall|a: DataType, b: DataType| #[trigger] dt_cmp(a, b) == Some(Ordering::Less) <==> dt_cmp(b, a) == Some(Ordering::Greater) by { axiom_order(a, b); }
    assert forall|a: DataType, b: DataType| (#[trigger] dt_cmp(a, b) == Some(Ordering::Equal)) == (dt_cmp(b, a) == Some(Ordering::Equal)) by { axiom_order(a, b); }
    assert forall|a: DataType, b: DataType| #[trigger] dt_eq(a, b) && a != DataType::Null && b != DataType::Null implies is_equal(a, b) by { axiom_order(a, b); }
    assert forall|a: DataType, b: DataType| #[trigger] dt_cmp(a, b) == Some(Ordering::Equal) implies dt_eq(a, b) by { axiom_order(a, b); axiom_order(b, a); }
    assert forall|a: DataType| #[trigger] dt_cmp(DataType::Null, a) is None by { axiom_order(DataType::Null, a); }
    assert forall|a: DataType| #[trigger] dt_cmp(a, DataType::Null) is None by { axiom_order(a, DataType::Null); }
}
/// slice.iter().position(|&x| ..)
#[verifier::external_body] pub fn position_of<F: Fn(usize) -> bool>(v: &[usize], f: F) -> (r: Option<usize>)
    requires forall|c: usize| #[trigger] f.requires((c,))
    ensures match r { Some(p) => p < v@.len() && f.ensures((v@[p as int],), true), None => true } { unimplemented!() }
pub fn non_empty<T>(v: Vec<T>) -> (r: Option<Vec<T>>) ensures match r { Some(w) => w == v, None => v@.len() == 0 } { if v.len() == 0 { None } else { Some(v) } }
pub struct FilterToIndexScanRule;
//@extract crates/axmos-db/src/sql/planner/rules.rs : impl FilterToIndexScanRule / fn extract_column_info
//@ret r
//@spec
    ensures match r { Some(x) => *expr is ColumnBinding && x.0 == expr->ColumnBinding_0.column_idx, None => true }
//@end
//@extract crates/axmos-db/src/sql/planner/rules.rs : impl FilterToIndexScanRule / fn extract_literal
//@rewrite crate::DataType ==> DataType
//@ret r
//@spec
    ensures match r { Some(x) => *expr == BoundExpression::Literal { value: x }, None => true }
//@end
pub proof fn aid(e: BoundExpression)
    ensures e is BinaryOp && is_cmp(e->BinaryOp_op) ==> (
        (col_lit(*e->BinaryOp_left, *e->BinaryOp_right) ==> forall|t: Vals| (e->BinaryOp_left)->ColumnBinding_0.column_idx < t.len() ==> #[trigger] holds(e, t) == side(e->BinaryOp_op, t[(e->BinaryOp_left)->ColumnBinding_0.column_idx as int], (e->BinaryOp_right)->Literal_value, false))
        && (col_lit(*e->BinaryOp_right, *e->BinaryOp_left) ==> forall|t: Vals| (e->BinaryOp_right)->ColumnBinding_0.column_idx < t.len() ==> #[trigger] holds(e, t) == side(e->BinaryOp_op, t[(e->BinaryOp_right)->ColumnBinding_0.column_idx as int], (e->BinaryOp_left)->Literal_value, true)))
{ if e is BinaryOp && is_cmp(e->BinaryOp_op) { lemma_side(e); } }
pub open spec fn bounded(e: BoundExpression, cols: Seq<usize>, s0: Seq<IndexRangeBound>, e0: Seq<IndexRangeBound>, r0: Seq<BoundExpression>, s1: Seq<IndexRangeBound>, e1: Seq<IndexRangeBound>, r1: Seq<BoundExpression>) -> bool {
    (forall|t: Vals| fits(cols, t) ==> (#[trigger] in_bounds(s1, cols, Ordering::Less, t) && in_bounds(e1, cols, Ordering::Greater, t) && all(r1, t)) == (in_bounds(s0, cols, Ordering::Less, t) && in_bounds(e0, cols, Ordering::Greater, t) && all(r0, t) && holds(e, t)))
    && (placed(s0, cols.len() as int) ==> placed(s1, cols.len() as int)) && (placed(e0, cols.len() as int) ==> placed(e1, cols.len() as int))
}
/// a comparison of a column with a literal, in the terms of the bounds of an index
pub open spec fn side(op: BinaryOperator, x: DataType, v: DataType, flipped: bool) -> bool {
    let lower = IndexRangeBound { value: v, inclusive: op == BinaryOperator::Eq || op == BinaryOperator::Le || op == BinaryOperator::Ge, col_idx: 0 };
    match op {
        BinaryOperator::Eq => within(lower, x, Ordering::Less) && within(lower, x, Ordering::Greater),
        BinaryOperator::Gt | BinaryOperator::Ge => within(lower, x, if flipped { Ordering::Greater } else { Ordering::Less }),
        _ => within(lower, x, if flipped { Ordering::Less } else { Ordering::Greater }),
    }
}
pub open spec fn col_lit(l: BoundExpression, r: BoundExpression) -> bool { l is ColumnBinding && r is Literal }
pub proof fn lemma_side(e: BoundExpression)
    requires e is BinaryOp, is_cmp(e->BinaryOp_op)
    ensures
        col_lit(*e->BinaryOp_left, *e->BinaryOp_right) ==> forall|t: Vals| (e->BinaryOp_left)->ColumnBinding_0.column_idx < t.len() ==> #[trigger] holds(e, t) == side(e->BinaryOp_op, t[(e->BinaryOp_left)->ColumnBinding_0.column_idx as int], (e->BinaryOp_right)->Literal_value, false),
        col_lit(*e->BinaryOp_right, *e->BinaryOp_left) ==> forall|t: Vals| (e->BinaryOp_right)->ColumnBinding_0.column_idx < t.len() ==> #[trigger] holds(e, t) == side(e->BinaryOp_op, t[(e->BinaryOp_right)->ColumnBinding_0.column_idx as int], (e->BinaryOp_left)->Literal_value, true)
{
    if col_lit(*e->BinaryOp_left, *e->BinaryOp_right) {
        let c = (e->BinaryOp_left)->ColumnBinding_0.column_idx; let v = (e->BinaryOp_right)->Literal_value;
        assert forall|t: Vals| c < t.len() implies #[trigger] holds(e, t) == side(e->BinaryOp_op, t[c as int], v, false) by {
            assert(sem(*e->BinaryOp_left, t) == Out::Val(t[c as int])); assert(sem(*e->BinaryOp_right, t) == Out::Val(v));
            axiom_order(t[c as int], v); axiom_order(v, t[c as int]);
        }
    }
    if col_lit(*e->BinaryOp_right, *e->BinaryOp_left) {
        let c = (e->BinaryOp_right)->ColumnBinding_0.column_idx; let v = (e->BinaryOp_left)->Literal_value;
        assert forall|t: Vals| c < t.len() implies #[trigger] holds(e, t) == side(e->BinaryOp_op, t[c as int], v, true) by {
            assert(sem(*e->BinaryOp_right, t) == Out::Val(t[c as int])); assert(sem(*e->BinaryOp_left, t) == Out::Val(v));
            axiom_order(t[c as int], v); axiom_order(v, t[c as int]);
        }
    }
}
pub proof fn lemma_both(e: BoundExpression)
    ensures e is BinaryOp && e->BinaryOp_op == BinaryOperator::And ==> forall|t: Vals| #[trigger] holds(e, t) == (holds(*e->BinaryOp_left, t) && holds(*e->BinaryOp_right, t))
{
    if e is BinaryOp && e->BinaryOp_op == BinaryOperator::And { assert forall|t: Vals| #[trigger] holds(e, t) == (holds(*e->BinaryOp_left, t) && holds(*e->BinaryOp_right, t)) by { lemma_and(e, t); } }
}
pub proof fn lemma_chain(e: BoundExpression, cols: Seq<usize>, s0: Seq<IndexRangeBound>, e0: Seq<IndexRangeBound>, r0: Seq<BoundExpression>, s1: Seq<IndexRangeBound>, e1: Seq<IndexRangeBound>, r1: Seq<BoundExpression>, s2: Seq<IndexRangeBound>, e2: Seq<IndexRangeBound>, r2: Seq<BoundExpression>)
    requires e is BinaryOp, e->BinaryOp_op == BinaryOperator::And, bounded(*e->BinaryOp_left, cols, s0, e0, r0, s1, e1, r1), bounded(*e->BinaryOp_right, cols, s1, e1, r1, s2, e2, r2)
    ensures bounded(e, cols, s0, e0, r0, s2, e2, r2)
{
    assert forall|t: Vals| fits(cols, t) implies (#[trigger] in_bounds(s2, cols, Ordering::Less, t) && in_bounds(e2, cols, Ordering::Greater, t) && all(r2, t)) == (in_bounds(s0, cols, Ordering::Less, t) && in_bounds(e0, cols, Ordering::Greater, t) && all(r0, t) && holds(e, t)) by {
        lemma_and(e, t);
        let b1 = in_bounds(s1, cols, Ordering::Less, t);
        assert((b1 && in_bounds(e1, cols, Ordering::Greater, t) && all(r1, t)) == (in_bounds(s0, cols, Ordering::Less, t) && in_bounds(e0, cols, Ordering::Greater, t) && all(r0, t) && holds(*e->BinaryOp_left, t)));
    }
}
//@extract crates/axmos-db/src/sql/planner/rules.rs : impl FilterToIndexScanRule / fn collect_bounds
//@rewrite indexed_columns\.iter\(\)\.position\(\|&x\| (.*?)\) ==> position_of(indexed_columns, |x: usize| -> (b: bool) ensures b == (\1) { \1 })
//@attrs
#[verifier::rlimit(100)]
//@spec
    ensures bounded(*expr, indexed_columns@, old(range_start)@, old(range_end)@, old(residual)@, final(range_start)@, final(range_end)@, final(residual)@)
    decreases *expr
//@at start
proof {
    lemma_all_push(old(residual)@, *expr); lemma_both(*expr); aid(*expr);
    lemma_in_push(old(range_start)@, indexed_columns@, Ordering::Less); lemma_in_push(old(range_end)@, indexed_columns@, Ordering::Greater);
}
//@at after residual.push(expr.clone());
proof { let ghost r1 = residual@; assert(r1 == old(residual)@.push(*expr)); }
//@at after#2 residual.push(expr.clone());
proof { assert(residual@ == old(residual)@.push(*expr)); }
//@at after left, indexed_columns, range_start, range_end, residual, );
let ghost (s1, e1, r1) = (range_start@, range_end@, residual@);
//@at after right, indexed_columns, range_start, range_end, residual, );
proof { lemma_chain(*expr, indexed_columns@, old(range_start)@, old(range_end)@, old(residual)@, s1, e1, r1, range_start@, range_end@, residual@); }
//@end
pub open spec fn in_opt(p: Option<Vec<IndexRangeBound>>, cols: Seq<usize>, ord: Ordering, t: Vals) -> bool { match p { Some(v) => in_bounds(v@, cols, ord, t), None => true } }
pub open spec fn placed_opt(p: Option<Vec<IndexRangeBound>>, n: int) -> bool { match p { Some(v) => placed(v@, n), None => true } }
/// the bounds and what is left of the predicate ask for exactly the rows on which the predicate holds
pub open spec fn asks(a: Option<Vec<IndexRangeBound>>, b: Option<Vec<IndexRangeBound>>, c: Option<BoundExpression>, cols: Seq<usize>, e: BoundExpression) -> bool {
    (forall|t: Vals| fits(cols, t) ==> (#[trigger] in_opt(a, cols, Ordering::Less, t) && in_opt(b, cols, Ordering::Greater, t) && cond(c, t)) == holds(e, t)) && placed_opt(a, cols.len() as int) && placed_opt(b, cols.len() as int)
}
//@extract crates/axmos-db/src/sql/planner/rules.rs : impl FilterToIndexScanRule / fn extract_index_bounds
//@rewrite Some\((\w+)\)\.filter\(\|s\| !s\.is_empty\(\)\) ==> non_empty(\1)
//@ret r
//@spec
    ensures asks(r.0, r.1, r.2, indexed_columns@, *predicate)
//@at after residual_parts, );
let ghost (s1, e1, r1) = (range_start@, range_end@, residual_parts@);
//@at before (range_start, range_end, residual)
proof { assert forall|t: Vals| fits(indexed_columns@, t) implies (#[trigger] in_opt(range_start, indexed_columns@, Ordering::Less, t) && in_opt(range_end, indexed_columns@, Ordering::Greater, t) && cond(residual, t)) == holds(*predicate, t) by {
    assert(in_bounds(s1, indexed_columns@, Ordering::Less, t) == in_opt(range_start, indexed_columns@, Ordering::Less, t)); assert(in_bounds(e1, indexed_columns@, Ordering::Greater, t) == in_opt(range_end, indexed_columns@, Ordering::Greater, t));
    assert(cond(residual, t) == all(r1, t));
} }
//@end
#[verifier::external_body] pub struct Schema { v: u8 }
impl Clone for Schema { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn schema_width(s: Schema) -> usize;
/// the column is declared NOT NULL
pub uninterp spec fn not_null(s: Schema, c: int) -> bool;
impl Schema { #[verifier::external_body] pub fn num_columns(&self) -> (r: usize) ensures r == schema_width(*self) { unimplemented!() } }
#[verifier::external_body] pub fn is_not_null(s: &Schema, c: usize) -> (r: bool) ensures r ==> c < schema_width(*s) && not_null(*s, c as int) { unimplemented!() }
#[verifier::external_body] pub fn to_vec_of(v: &[usize]) -> (r: Vec<usize>) ensures r@ == v@ { v.to_vec() }
#[verifier::external_body] pub struct IndexHandle { v: u8 }
pub uninterp spec fn index_cols(h: IndexHandle) -> Seq<usize>;
impl IndexHandle {
    #[verifier::external_body] pub fn id(&self) -> ObjectId { unimplemented!() }
    #[verifier::external_body] pub fn indexed_column_ids(&self) -> (r: &[usize]) ensures r@ == index_cols(*self) { unimplemented!() }
}
pub struct Positions { pub v: Vec<usize> }
impl Positions {
    pub open spec fn has(&self, p: usize) -> bool { self.v@.contains(p) }
    #[verifier::external_body] pub fn contains(&self, p: &usize) -> (r: bool) ensures r == self.has(*p) { unimplemented!() }
}
pub open spec fn bound_at(p: Option<Vec<IndexRangeBound>>, c: usize) -> bool { p is Some && exists|i: int| 0 <= i < p->0@.len() && (#[trigger] p->0@[i]).col_idx == c }
/// the positions of all bounds, collected in a HashSet
#[verifier::external_body] pub fn positions(a: &Option<Vec<IndexRangeBound>>, b: &Option<Vec<IndexRangeBound>>) -> (r: Positions)
    ensures forall|c: usize| #[trigger] r.has(c) == (bound_at(*a, c) || bound_at(*b, c)) { unimplemented!() }
/// slice.iter().enumerate().all(|(i, &x)| ..)
#[verifier::loop_isolation(false)]
pub fn all_enumerated<F: Fn(usize, usize) -> bool>(v: &[usize], f: F) -> (r: bool)
    requires forall|i: usize, c: usize| #[trigger] f.requires((i, c))
    ensures r ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((i as usize, #[trigger] v@[i]), true)
{
    for i in 0..v.len()
        invariant forall|k: int| 0 <= k < i ==> f.ensures((k as usize, #[trigger] v@[k]), true)
    { if !f(i, v[i]) { return false; } }
    true
}
//@extract crates/axmos-db/src/sql/planner/logical.rs : struct TableScanOp
//@end
//@extract crates/axmos-db/src/sql/planner/logical.rs : struct IndexScanOp
//@end
//@extract crates/axmos-db/src/sql/planner/logical.rs : impl IndexScanOp / fn new
//@ret r
//@spec
    ensures r.table_id == table_id, r.schema == schema, r.index_columns == index_columns, r.range_start is None, r.range_end is None, r.residual_predicate is None
//@end
pub open spec fn asks_for(s: IndexScanOp, e: BoundExpression) -> bool { asks(s.range_start, s.range_end, s.residual_predicate, s.index_columns@, e) }
/// every row the index has no entry for (a NULL in an indexed column) is one the predicate excludes
pub open spec fn complete(s: IndexScanOp) -> bool {
    forall|p: int| 0 <= p < s.index_columns@.len() ==> bound_at(s.range_start, p as usize) || bound_at(s.range_end, p as usize) || (#[trigger] s.index_columns@[p] < schema_width(s.schema) && not_null(s.schema, s.index_columns@[p] as int))
}
//@extract crates/axmos-db/src/sql/planner/rules.rs : impl FilterToIndexScanRule / fn try_create_index_scan
//@rewrite let bounds = range_start\.iter\(\)\.chain\(range_end\.iter\(\)\)\.flatten\(\); ==> 
//@rewrite let bounded: std::collections::HashSet<usize> = bounds\.map\(\|bound\| bound\.col_idx\)\.collect\(\); ==> let bounded = positions(&range_start, &range_end);
//@rewrite indexed_columns\.iter\(\)\.enumerate\(\)\.all\(\|\(position, &col\)\| \{\s*(.*?)scan\.schema\.column\(col\)\.is_some_and\(\|c\| c\.is_non_null\)\s*\}\) ==> all_enumerated(indexed_columns, |position: usize, col: usize| -> (b: bool) ensures b ==> (bounded.has(position) || (col < schema_width(scan.schema) && not_null(scan.schema, col as int))) { \1is_not_null(&scan.schema, col) })
//@rewrite indexed_columns\.to_vec\(\) ==> to_vec_of(indexed_columns)
//@ret r
//@spec
    ensures match r { Some(s) => s.table_id == scan.table_id && s.schema == scan.schema && s.index_columns@ == index_cols(*index_handle) && asks_for(s, *predicate) && complete(s), None => true }
//@at before index_scan.range_start = range_start;
let ghost (a, b, c) = (range_start, range_end, residual);
//@at before Some(index_scan)
proof {
    assert(index_scan.index_columns@ == indexed_columns@);
    assert forall|p: int| 0 <= p < indexed_columns@.len() implies bound_at(a, p as usize) || bound_at(b, p as usize) || (#[trigger] indexed_columns@[p] < schema_width(scan.schema) && not_null(scan.schema, indexed_columns@[p] as int)) by { assert(bounded.has(p as usize) || not_null(scan.schema, indexed_columns@[p] as int)); }
    assert(complete(index_scan)); 
    assert(asks_for(index_scan, *predicate));
}
//@end
pub proof fn lemma_asks(a: Option<Vec<IndexRangeBound>>, b: Option<Vec<IndexRangeBound>>, c: Option<BoundExpression>, cols: Seq<usize>, e: BoundExpression, t: Vals)
    requires asks(a, b, c, cols, e), fits(cols, t)
    ensures (in_opt(a, cols, Ordering::Less, t) && in_opt(b, cols, Ordering::Greater, t) && cond(c, t)) == holds(e, t)
{ assert(in_opt(a, cols, Ordering::Less, t) || true); }
/// where the predicate holds, the index has an entry
pub proof fn thm_entry(s: IndexScanOp, e: BoundExpression, t: Vals, p: int)
    requires asks_for(s, e), complete(s), fits(s.index_columns@, t), holds(e, t), 0 <= p < s.index_columns@.len(), s.index_columns@.len() <= usize::MAX, schema_width(s.schema) <= t.len(), forall|c: int| 0 <= c < t.len() && #[trigger] not_null(s.schema, c) ==> t[c] != DataType::Null
    ensures t[s.index_columns@[p] as int] != DataType::Null
{
    lemma_asks(s.range_start, s.range_end, s.residual_predicate, s.index_columns@, e, t);
    let c = s.index_columns@[p];
    if bound_at(s.range_start, p as usize) { let i = choose|i: int| 0 <= i < s.range_start->0@.len() && (#[trigger] s.range_start->0@[i]).col_idx == p; let b = s.range_start->0@[i]; assert(within(b, t[c as int], Ordering::Less)); axiom_order(b.value, t[c as int]); axiom_order(t[c as int], b.value); }
    else if bound_at(s.range_end, p as usize) { let i = choose|i: int| 0 <= i < s.range_end->0@.len() && (#[trigger] s.range_end->0@[i]).col_idx == p; let b = s.range_end->0@[i]; assert(within(b, t[c as int], Ordering::Greater)); axiom_order(b.value, t[c as int]); axiom_order(t[c as int], b.value); }
}
// ------------------------------------------------------------------ the index scan at run time
pub struct Row(pub Vec<DataType>);
impl Row {
    pub fn len(&self) -> (r: usize) ensures r == self.0@.len() { self.0.len() }
    pub fn at(&self, i: usize) -> (r: &DataType) requires i < self.0@.len() ensures *r == self.0@[i as int] { &self.0[i] }
}
impl DataType { #[verifier::external_body] pub fn partial_cmp(&self, o: &DataType) -> (r: Option<Ordering>) ensures r == dt_cmp(*self, *o) { unimplemented!() } }
/// the contract of Ordering::eq, as in vstd's derive
pub fn same_ord(a: Ordering, b: Ordering) -> (r: bool) ensures r == (a == b) { match (a, b) { (Ordering::Less, Ordering::Less) | (Ordering::Equal, Ordering::Equal) | (Ordering::Greater, Ordering::Greater) => true, _ => false } }
pub fn map_or_no<F: Fn(Ordering) -> bool>(o: Option<Ordering>, f: F) -> (r: bool)
    requires forall|x: Ordering| #[trigger] f.requires((x,))
    ensures match o { Some(x) => f.ensures((x,), r), None => !r } { match o { Some(x) => f(x), None => false } }
/// iter().all(|c| *c)
#[verifier::loop_isolation(false)]
pub fn all_true(v: &Vec<bool>) -> (r: bool) ensures r == (forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i])
{
    for i in 0..v.len() invariant forall|k: int| 0 <= k < i ==> #[trigger] v@[k] { if !v[i] { return false; } }
    true
}
/// the entry of the index lies within the bounds
pub open spec fn entry_within(p: Seq<IndexRangeBound>, ord: Ordering, entry: Vals) -> bool { forall|i: int| 0 <= i < p.len() ==> within(#[trigger] p[i], entry[p[i].col_idx as int], ord) }
pub open spec fn entry_opt(p: Option<Vec<IndexRangeBound>>, ord: Ordering, entry: Vals) -> bool { match p { Some(v) => entry_within(v@, ord, entry), None => true } }
pub struct RuntimeError { pub v: u8 }
pub type RuntimeResult<T> = Result<T, RuntimeError>;
pub struct ExpressionEvaluator<'a> { pub row: &'a Row, pub schema: &'a Schema }
impl<'a> ExpressionEvaluator<'a> {
    pub fn new(row: &'a Row, schema: &'a Schema) -> (r: Self) ensures r.row == row { ExpressionEvaluator { row, schema } }
    /// as proved in the unit query
    #[verifier::external_body] pub fn evaluate_as_bool(&self, expr: &BoundExpression) -> (r: RuntimeResult<bool>)
        ensures match sem(*expr, self.row.0@) { Out::Val(DataType::Bool(b)) => r == RuntimeResult::<bool>::Ok(b.0), Out::Val(DataType::Null) => r == RuntimeResult::<bool>::Ok(false), Out::Any => true, _ => r is Err } { unimplemented!() }
}
pub struct IndexScan { pub index_schema: Schema, pub table_schema: Schema, pub range_start: Option<Vec<IndexRangeBound>>, pub range_end: Option<Vec<IndexRangeBound>>, pub residual_predicate: Option<BoundExpression>, pub indexed_columns: Vec<usize> }
impl IndexScan {
    pub fn range_start(&self) -> (r: Option<&[IndexRangeBound]>) ensures match r { Some(p) => self.range_start is Some && p@ == self.range_start->0@, None => self.range_start is None } { match &self.range_start { Some(v) => Some(v.as_slice()), None => None } }
    pub fn range_end(&self) -> (r: Option<&[IndexRangeBound]>) ensures match r { Some(p) => self.range_end is Some && p@ == self.range_end->0@, None => self.range_end is None } { match &self.range_end { Some(v) => Some(v.as_slice()), None => None } }
}
//@extract crates/axmos-db/src/runtime/ops/index_scan.rs : impl IndexScan / fn evaluate_bounds
//@rewrite let mut results = Vec::with_capacity\(bounds\.len\(\)\) ==> let mut results: Vec<bool> = Vec::new()
//@rewrite &row\[(.*?)\]\); ==> row.at(\1));
//@rewrite ordering\s*\.map\(\|ord\| \{\s*ord == expected_ordering(.*?)\s*\}\)\s*\.unwrap_or\(false\) ==> map_or_no(ordering, |ord: Ordering| -> (b: bool) ensures b == (ord == expected_ordering || (bound.inclusive && ord == Ordering::Equal)) { same_ord(ord, expected_ordering)\1 })
//@rewrite results\.iter\(\)\.all\(\|c\| \*c\) ==> all_true(&results)
//@attrs
#[verifier::loop_isolation(false)]
//@ret r
//@spec
    requires forall|i: int| 0 <= i < bounds@.len() ==> (#[trigger] bounds@[i]).col_idx < row.0@.len()
    ensures r == entry_within(bounds@, expected_ordering, row.0@)
//@iter 0 it
//@loop 0
        invariant results@.len() == it.index@, forall|k: int| 0 <= k < it.index@ ==> #[trigger] results@[k] == within(bounds@[k], row.0@[bounds@[k].col_idx as int], expected_ordering)
//@at loop 0 after
proof {
    let rs = results@;
    assert forall|i: int| 0 <= i < bounds@.len() implies rs[i] == within(#[trigger] bounds@[i], row.0@[bounds@[i].col_idx as int], expected_ordering) by { let x = rs[i]; }
    if entry_within(bounds@, expected_ordering, row.0@) { assert forall|i: int| 0 <= i < rs.len() implies #[trigger] rs[i] by { assert(within(bounds@[i], row.0@[bounds@[i].col_idx as int], expected_ordering)); } }
    if (forall|i: int| 0 <= i < rs.len() ==> #[trigger] rs[i]) { assert forall|i: int| 0 <= i < bounds@.len() implies within(#[trigger] bounds@[i], row.0@[bounds@[i].col_idx as int], expected_ordering) by { assert(rs[i]); } }
}
//@end
//@extract crates/axmos-db/src/runtime/ops/index_scan.rs : impl IndexScan / fn evaluate_index_predicate
//@rewrite self\s*\.range_start\(\)\s*\.map\(\|bounds\| (.*?)\)\s*\.unwrap_or\((true|false)\) ==> (match self.range_start() { Some(bounds) => \1, None => \2 })
//@rewrite self\s*\.range_end\(\)\s*\.map\(\|bounds\| (.*?)\)\s*\.unwrap_or\((true|false)\) ==> (match self.range_end() { Some(bounds) => \1, None => \2 })
//@ret r
//@spec
    requires placed_opt(self.range_start, row.0@.len() as int), placed_opt(self.range_end, row.0@.len() as int)
    ensures r == RuntimeResult::<bool>::Ok(entry_opt(self.range_start, Ordering::Less, row.0@) && entry_opt(self.range_end, Ordering::Greater, row.0@))
//@end
//@extract crates/axmos-db/src/runtime/ops/index_scan.rs : impl IndexScan / fn evaluate_residual_predicate
//@rewrite Ok\(bool\) ==> Ok(bool)
//@ret r
//@spec
    ensures match self.residual_predicate {
        None => r == RuntimeResult::<bool>::Ok(true),
        Some(e) => match sem(e, row.0@) { Out::Val(DataType::Bool(b)) => r == RuntimeResult::<bool>::Ok(b.0), Out::Val(DataType::Null) => r == RuntimeResult::<bool>::Ok(false), Out::Any => true, _ => r is Err } }
//@end
/// entry is the index entry of the row t: its values in the indexed columns, and the row id
pub open spec fn entry_of(entry: Vals, cols: Seq<usize>, t: Vals) -> bool { cols.len() <= entry.len() && forall|i: int| 0 <= i < cols.len() ==> #[trigger] entry[i] == t[cols[i] as int] }
/// what the scan does with the entry of a row and the row is what the predicate asks for
pub proof fn thm_scan(s: IndexScan, cols: Seq<usize>, e: BoundExpression, entry: Vals, t: Vals)
    requires asks(s.range_start, s.range_end, s.residual_predicate, cols, e), fits(cols, t), entry_of(entry, cols, t)
    ensures holds(e, t) == (entry_opt(s.range_start, Ordering::Less, entry) && entry_opt(s.range_end, Ordering::Greater, entry) && cond(s.residual_predicate, t)),
        placed_opt(s.range_start, entry.len() as int), placed_opt(s.range_end, entry.len() as int)
{
    lemma_asks(s.range_start, s.range_end, s.residual_predicate, cols, e, t);
    if s.range_start is Some { lemma_entry(s.range_start->0@, cols, Ordering::Less, entry, t); }
    if s.range_end is Some { lemma_entry(s.range_end->0@, cols, Ordering::Greater, entry, t); }
}
pub proof fn lemma_entry(p: Seq<IndexRangeBound>, cols: Seq<usize>, ord: Ordering, entry: Vals, t: Vals)
    requires placed(p, cols.len() as int), entry_of(entry, cols, t)
    ensures entry_within(p, ord, entry) == in_bounds(p, cols, ord, t)
{
    assert forall|i: int| 0 <= i < p.len() implies entry[(#[trigger] p[i]).col_idx as int] == t[cols[p[i].col_idx as int] as int] by { }
    if entry_within(p, ord, entry) { assert forall|i: int| 0 <= i < p.len() implies within(#[trigger] p[i], t[cols[p[i].col_idx as int] as int], ord) by { assert(within(p[i], entry[p[i].col_idx as int], ord)); } }
    if in_bounds(p, cols, ord, t) { assert forall|i: int| 0 <= i < p.len() implies within(#[trigger] p[i], entry[p[i].col_idx as int], ord) by { assert(within(p[i], t[cols[p[i].col_idx as int] as int], ord)); } }
}
// ------------------------------------------------------------------ what a plan computes
/// a table or result: how often each row occurs in it
pub type Bag = spec_fn(Vals) -> nat;
#[verifier::external_body] pub struct LogicalProperties { v: u8 }
impl Clone for LogicalProperties { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body] pub fn some_properties() -> LogicalProperties { unimplemented!() }
#[verifier::external_body] pub struct ExprId { v: u8 }
#[verifier::external_body] pub fn no_id() -> ExprId { unimplemented!() }
pub enum PlannerError { InvalidState, Other }
pub type PlannerResult<T> = Result<T, PlannerError>;
#[derive(Clone, Copy)]
//@extract crates/axmos-db/src/sql/planner/memo.rs : struct GroupId
//@end
//@extract crates/axmos-db/src/sql/planner/logical.rs : struct FilterOp
//@end
//@extract crates/axmos-db/src/sql/planner/logical.rs : struct ProjectExpr
//@end
//@extract crates/axmos-db/src/sql/planner/logical.rs : struct ProjectOp
//@end
//@extract crates/axmos-db/src/sql/planner/logical.rs : struct JoinOp
//@end
#[verifier::external_body] pub struct AggregateOp { v: u8 }
#[verifier::external_body] pub struct SortOp { v: u8 }
#[verifier::external_body] pub struct LimitOp { v: u8 }
#[verifier::external_body] pub struct DistinctOp { v: u8 }
#[verifier::external_body] pub struct InsertOp { v: u8 }
#[verifier::external_body] pub struct UpdateOp { v: u8 }
#[verifier::external_body] pub struct DeleteOp { v: u8 }
#[verifier::external_body] pub struct ValuesOp { v: u8 }
#[verifier::external_body] pub struct EmptyOp { v: u8 }
#[verifier::external_body] pub struct MaterializeOp { v: u8 }
//@extract crates/axmos-db/src/sql/planner/logical.rs : enum LogicalOperator
//@end
//@extract crates/axmos-db/src/sql/planner/logical.rs : struct LogicalExpr
//@end
/// the rows of a table, and of a group of the memo (a group keeps its rows for the life of the memo m)
pub uninterp spec fn table_rows(id: ObjectId) -> Bag;
pub uninterp spec fn rows(m: int, g: GroupId) -> Bag;
pub uninterp spec fn gwidth(m: int, g: GroupId) -> int;
pub uninterp spec fn other_op(op: LogicalOperator, m: int, c: Seq<GroupId>) -> Bag;
pub uninterp spec fn other_width(op: LogicalOperator, m: int, c: Seq<GroupId>) -> int;
pub uninterp spec fn no_value(o: Out) -> DataType;
pub open spec fn keep(p: BoundExpression, r: Bag) -> Bag { |t: Vals| if holds(p, t) { r(t) } else { 0nat } }
pub open spec fn product(c: Option<BoundExpression>, n: int, l: Bag, r: Bag) -> Bag { |t: Vals| if t.len() >= n && cond(c, t) { l(t.take(n)) * r(t.skip(n)) } else { 0nat } }
/// how many rows there are (of finitely many)
pub open spec fn counts(m: vstd::multiset::Multiset<Vals>, r: Bag) -> bool { forall|t: Vals| #[trigger] m.count(t) == r(t) }
pub open spec fn total(r: Bag) -> nat { (choose|m: vstd::multiset::Multiset<Vals>| counts(m, r)).len() }
pub open spec fn projected(p: Seq<ProjectExpr>, t: Vals) -> Vals { Seq::new(p.len(), |i: int| match sem(p[i].expr, t) { Out::Val(v) => v, o => no_value(o) }) }
pub open spec fn onto(p: Seq<ProjectExpr>, r: Bag, u: Vals) -> Bag { |t: Vals| if projected(p, t) == u { r(t) } else { 0nat } }
pub open spec fn projection(p: Seq<ProjectExpr>, r: Bag) -> Bag { |u: Vals| total(onto(p, r, u)) }
/// rows with a NULL in an indexed column have no entry
pub open spec fn has_entry(cols: Seq<usize>, t: Vals) -> bool { forall|i: int| 0 <= i < cols.len() ==> t[#[trigger] cols[i] as int] != DataType::Null }
pub open spec fn by_index(s: IndexScanOp) -> Bag {
    |t: Vals| if has_entry(s.index_columns@, t) && in_opt(s.range_start, s.index_columns@, Ordering::Less, t) && in_opt(s.range_end, s.index_columns@, Ordering::Greater, t) && cond(s.residual_predicate, t) { table_rows(s.table_id)(t) } else { 0nat }
}
pub open spec fn plain(t: JoinType) -> bool { t == JoinType::Inner || t == JoinType::Cross }
pub open spec fn meaning(m: int, e: LogicalExpr) -> Bag {
    match e.op {
        LogicalOperator::TableScan(s) => table_rows(s.table_id),
        LogicalOperator::IndexScan(s) => by_index(s),
        LogicalOperator::Filter(f) => keep(f.predicate, rows(m, e.children@[0])),
        LogicalOperator::Project(p) => projection(p.expressions@, rows(m, e.children@[0])),
        LogicalOperator::Join(j) => if plain(j.join_type) { product(j.condition, schema_width(j.left_schema) as int, rows(m, e.children@[0]), rows(m, e.children@[1])) } else { other_op(e.op, m, e.children@) },
        _ => other_op(e.op, m, e.children@),
    }
}
pub open spec fn out_width(m: int, e: LogicalExpr) -> int {
    match e.op {
        LogicalOperator::TableScan(s) => schema_width(s.schema) as int,
        LogicalOperator::IndexScan(s) => schema_width(s.schema) as int,
        LogicalOperator::Filter(f) => gwidth(m, e.children@[0]),
        LogicalOperator::Project(p) => p.expressions@.len() as int,
        LogicalOperator::Join(j) => if plain(j.join_type) { schema_width(j.left_schema) + schema_width(j.right_schema) } else { other_width(e.op, m, e.children@) },
        _ => other_width(e.op, m, e.children@),
    }
}
pub open spec fn sized(r: Bag, n: int) -> bool { forall|t: Vals| #[trigger] r(t) > 0 ==> t.len() == n }
pub open spec fn within_width(e: BoundExpression, n: int) -> bool { forall|c: usize| #[trigger] uses(e, c) ==> c < n }
pub open spec fn reads(p: Seq<ProjectExpr>, n: int) -> bool { forall|i: int| 0 <= i < p.len() && (#[trigger] p[i]).expr is ColumnBinding ==> (p[i].expr)->ColumnBinding_0.column_idx < n }
pub open spec fn fit(m: int, c: Seq<GroupId>) -> bool { forall|i: int| 0 <= i < c.len() ==> sized(rows(m, #[trigger] c[i]), gwidth(m, c[i])) && 0 <= gwidth(m, c[i]) <= i32::MAX }
pub open spec fn stored(s: TableScanOp) -> bool {
    forall|t: Vals| #[trigger] table_rows(s.table_id)(t) > 0 ==> t.len() == schema_width(s.schema) && forall|c: int| 0 <= c < t.len() && #[trigger] not_null(s.schema, c) ==> t[c] != DataType::Null
}
/// a well-formed expression of the memo: its inputs have the widths it takes them to have, and it refers to columns they have
pub open spec fn wf(m: int, e: LogicalExpr) -> bool {
    fit(m, e.children@) && 0 <= out_width(m, e) <= i32::MAX && match e.op {
        LogicalOperator::TableScan(s) => s.predicate is None && s.columns is None && stored(s) && indexed(s.schema),
        LogicalOperator::Filter(f) => e.children@.len() == 1 && within_width(f.predicate, gwidth(m, e.children@[0])),
        LogicalOperator::Project(p) => e.children@.len() == 1 && reads(p.expressions@, gwidth(m, e.children@[0])),
        LogicalOperator::Join(j) => plain(j.join_type) ==> e.children@.len() == 2 && gwidth(m, e.children@[0]) == schema_width(j.left_schema) && gwidth(m, e.children@[1]) == schema_width(j.right_schema)
            && schema_width(j.output_schema) == schema_width(j.left_schema) + schema_width(j.right_schema) && (j.condition is Some ==> within_width(j.condition->0, schema_width(j.left_schema) + schema_width(j.right_schema))),
        _ => true,
    }
}
pub open spec fn equivalent(m: int, a: LogicalExpr, b: LogicalExpr) -> bool { wf(m, b) && meaning(m, b) == meaning(m, a) && out_width(m, b) == out_width(m, a) }
pub open spec fn all_equivalent(m: int, a: LogicalExpr, r: PlannerResult<Vec<LogicalExpr>>) -> bool { r is Ok ==> forall|i: int| 0 <= i < r->Ok_0@.len() ==> equivalent(m, a, #[trigger] r->Ok_0@[i]) }
pub struct Group { pub logical_exprs: Vec<LogicalExpr> }
#[verifier::external_body] pub struct Memo { v: u8 }
pub uninterp spec fn tag(m: Memo) -> int;
pub uninterp spec fn exprs_of(m: Memo, g: GroupId) -> Seq<LogicalExpr>;
impl Memo {
    /// the expressions of a group are equivalent
    #[verifier::external_body] pub fn get_group(&self, id: GroupId) -> (r: Option<&Group>)
        ensures r is Some ==> r->0.logical_exprs@ == exprs_of(*self, id) && forall|i: int| 0 <= i < r->0.logical_exprs@.len() ==> wf(tag(*self), #[trigger] r->0.logical_exprs@[i]) && meaning(tag(*self), r->0.logical_exprs@[i]) == rows(tag(*self), id) && out_width(tag(*self), r->0.logical_exprs@[i]) == gwidth(tag(*self), id) { unimplemented!() }
    #[verifier::external_body] pub fn insert_logical_expr(&mut self, e: LogicalExpr) -> (r: GroupId)
        requires wf(tag(*old(self)), e), sized(meaning(tag(*old(self)), e), out_width(tag(*old(self)), e))
        ensures tag(*final(self)) == tag(*old(self)), rows(tag(*final(self)), r) == meaning(tag(*final(self)), e), gwidth(tag(*final(self)), r) == out_width(tag(*final(self)), e) { unimplemented!() }
}
pub fn first_of<T>(v: &Vec<T>) -> (r: Option<&T>) ensures match r { Some(x) => v@.len() > 0 && *x == v@[0], None => v@.len() == 0 } { if v.len() == 0 { None } else { Some(&v[0]) } }
pub fn none_of<T>() -> (r: Vec<T>) ensures r@.len() == 0 { Vec::new() }
pub fn one<T>(a: T) -> (r: Vec<T>) ensures r@ == seq![a] { let mut v = Vec::new(); v.push(a); v }
pub fn two<T>(a: T, b: T) -> (r: Vec<T>) ensures r@ == seq![a, b] { let mut v = Vec::new(); v.push(a); v.push(b); v }
#[verifier::external_body] pub fn copied(v: &Vec<GroupId>) -> (r: Vec<GroupId>) ensures r@ == v@ { v.clone() }
#[verifier::external_body] pub fn copied_exprs(v: &Vec<ProjectExpr>) -> (r: Vec<ProjectExpr>) ensures r@ == v@ { unimplemented!() }
impl JoinOp {
    /// (the schemas' columns one after the other)
    #[verifier::external_body] fn merge_schemas(left: &Schema, right: &Schema) -> (r: Schema) requires schema_width(*left) + schema_width(*right) <= usize::MAX ensures schema_width(r) == schema_width(*left) + schema_width(*right) { unimplemented!() }
}
//@extract crates/axmos-db/src/sql/planner/logical.rs : impl JoinOp / fn new
//@ret r
//@spec
    requires schema_width(left_schema) + schema_width(right_schema) <= usize::MAX
    ensures r.join_type == join_type, r.condition == condition, r.left_schema == left_schema, r.right_schema == right_schema, schema_width(r.output_schema) == schema_width(left_schema) + schema_width(right_schema)
//@end
//@extract crates/axmos-db/src/sql/planner/logical.rs : impl FilterOp / fn new
//@ret r
//@spec
    ensures r.predicate == predicate, r.input_schema == input_schema
//@end
//@extract crates/axmos-db/src/sql/planner/logical.rs : impl ProjectOp / fn new
//@ret r
//@spec
    ensures r.expressions == expressions, r.input_schema == input_schema, r.output_schema == output_schema
//@end
//@extract crates/axmos-db/src/sql/planner/logical.rs : impl LogicalExpr / fn new
//@rewrite super::ExprId::default\(\) ==> no_id()
//@rewrite LogicalProperties::default\(\) ==> some_properties()
//@ret r
//@spec
    ensures r.op == op, r.children == children
//@end
//@extract crates/axmos-db/src/sql/planner/logical.rs : impl LogicalExpr / fn with_properties
//@rewrite mut self, ==> self,
//@rewrite self\.properties = (\w+);\s*self\b ==> LogicalExpr { id: self.id, op: self.op, children: self.children, properties: \1 }
//@ret r
//@spec
    ensures r.op == self.op, r.children == self.children
//@end
pub proof fn lemma_narrow_width(e: BoundExpression, n: int) requires within_width(e, n), n <= i32::MAX ensures narrow(e) { }
/// what an expression of the memo computes has the width it says
pub proof fn lemma_sized(m: int, e: LogicalExpr)
    requires wf(m, e), e.op is Filter || e.op is Project || (e.op is Join && plain(e.op->Join_0.join_type))
    ensures sized(meaning(m, e), out_width(m, e))
{
    match e.op {
        LogicalOperator::Filter(f) => { let r = rows(m, e.children@[0]); assert(sized(r, gwidth(m, e.children@[0]))); assert forall|t: Vals| #[trigger] keep(f.predicate, r)(t) > 0 implies t.len() == out_width(m, e) by { assert(r(t) > 0); } },
        LogicalOperator::Join(j) => {
            let (l, r) = (rows(m, e.children@[0]), rows(m, e.children@[1])); let n = schema_width(j.left_schema) as int;
            assert(sized(l, gwidth(m, e.children@[0])) && sized(r, gwidth(m, e.children@[1])));
            assert forall|t: Vals| #[trigger] product(j.condition, n, l, r)(t) > 0 implies t.len() == out_width(m, e) by {
                assert(l(t.take(n)) > 0 && r(t.skip(n)) > 0) by (nonlinear_arith) requires l(t.take(n)) * r(t.skip(n)) > 0;
            }
        },
        LogicalOperator::Project(p) => {
            let r = rows(m, e.children@[0]);
            assert forall|u: Vals| #[trigger] projection(p.expressions@, r)(u) > 0 implies u.len() == out_width(m, e) by {
                if u.len() != p.expressions@.len() { assert forall|t: Vals| #[trigger] onto(p.expressions@, r, u)(t) == 0 by { assert(projected(p.expressions@, t).len() == p.expressions@.len()); } lemma_nothing(onto(p.expressions@, r, u)); }
            }
        },
        _ => {},
    }
}
pub proof fn lemma_nothing(r: Bag) requires forall|t: Vals| #[trigger] r(t) == 0 ensures total(r) == 0
{
    let e = vstd::multiset::Multiset::<Vals>::empty();
    assert(counts(e, r)); let m = choose|m: vstd::multiset::Multiset<Vals>| counts(m, r); assert(m =~= e);
}
pub open spec fn copies(t: Vals, k: nat) -> vstd::multiset::Multiset<Vals> decreases k { if k == 0 { vstd::multiset::Multiset::empty() } else { copies(t, (k - 1) as nat).insert(t) } }
pub proof fn lemma_copies(t: Vals, k: nat) ensures copies(t, k).len() == k, forall|x: Vals| #[trigger] copies(t, k).count(x) == (if x == t { k } else { 0 }) decreases k { if k > 0 { lemma_copies(t, (k - 1) as nat); } }
/// all rows are the same
pub proof fn lemma_only(r: Bag, t0: Vals) requires forall|t: Vals| #[trigger] r(t) > 0 ==> t == t0 ensures total(r) == r(t0)
{
    let e = copies(t0, r(t0)); lemma_copies(t0, r(t0));
    assert(counts(e, r)) by { assert forall|t: Vals| #[trigger] e.count(t) == r(t) by { } }
    let m = choose|m: vstd::multiset::Multiset<Vals>| counts(m, r); assert(m =~= e);
}
// ------------------------------------------------------------------ the rules
pub struct FilterMergeRule;
pub struct FilterPushdownJoinRule;
pub struct FilterPushdownProjectRule;
pub struct JoinAssociativityRule;
pub struct JoinCommutativityRule;
//@extract crates/axmos-db/src/sql/planner/rules.rs : impl TransformationRule for FilterMergeRule / fn apply
//@header impl FilterMergeRule
//@rewrite vec!\[\] ==> none_of()
//@rewrite expr\.children\.first\(\) ==> first_of(&expr.children)
//@rewrite child_expr = child\s*\.logical_exprs\s*\.first\(\) ==> child_expr = first_of(&child.logical_exprs)
//@rewrite DataTypeKind::Bool ==> bool_kind()
//@rewrite Ok\(vec!\[(\s*LogicalExpr)(.*?)child_expr\.children\.clone\(\)(.*),\s*\]\)\s*\}$ ==> let out = \1\2copied(&child_expr.children)\3; proof { lemma_merge(tag(*memo), *expr, *child_expr, out); } Ok(one(out)) }
//@ret r
//@spec
    requires wf(tag(*old(memo)), *expr)
    ensures all_equivalent(tag(*old(memo)), *expr, r), tag(*final(memo)) == tag(*old(memo))
//@end
pub proof fn lemma_merge(m: int, e: LogicalExpr, c: LogicalExpr, n: LogicalExpr)
    requires wf(m, e), wf(m, c), e.op is Filter, c.op is Filter, n.op is Filter, n.children@ == c.children@, meaning(m, c) == rows(m, e.children@[0]), out_width(m, c) == gwidth(m, e.children@[0]),
        n.op->Filter_0.predicate is BinaryOp, (n.op->Filter_0.predicate)->BinaryOp_op == BinaryOperator::And,
        *(n.op->Filter_0.predicate)->BinaryOp_left == e.op->Filter_0.predicate, *(n.op->Filter_0.predicate)->BinaryOp_right == c.op->Filter_0.predicate
    ensures equivalent(m, e, n)
{
    let p = n.op->Filter_0.predicate; let q = e.op->Filter_0.predicate; let s = c.op->Filter_0.predicate;
    assert forall|t: Vals| #[trigger] meaning(m, n)(t) == meaning(m, e)(t) by { lemma_and(p, t); assert(rows(m, e.children@[0])(t) == keep(s, rows(m, c.children@[0]))(t)); }
    assert(meaning(m, n) =~= meaning(m, e));
    assert forall|x: usize| #[trigger] uses(p, x) implies uses(q, x) || uses(s, x) by { }
}
/// condition.iter().cloned().chain(preds).collect()
pub fn chained(c: &Option<BoundExpression>, preds: Vec<BoundExpression>) -> (r: Vec<BoundExpression>)
    ensures forall|t: Vals| #[trigger] all(r@, t) == (cond(*c, t) && all(preds@, t)), forall|x: usize| #[trigger] uses_one(r@, x) ==> uses_opt(*c, x) || uses_one(preds@, x)
{
    match c {
        None => preds,
        Some(e) => {
            let mut v = preds;
            let ghost p = v@;
            v.insert(0, e.clone());
            proof {
                assert(v@ =~= seq![*e] + p);
                assert forall|t: Vals| #[trigger] all(v@, t) == (cond(*c, t) && all(p, t)) by {
                    if all(v@, t) { assert(holds(v@[0], t)); assert forall|i: int| 0 <= i < p.len() implies holds(#[trigger] p[i], t) by { assert(v@[i + 1] == p[i]); } }
                    if cond(*c, t) && all(p, t) { assert forall|i: int| 0 <= i < v@.len() implies holds(#[trigger] v@[i], t) by { if i > 0 { assert(v@[i] == p[i - 1]); } } }
                }
                assert forall|x: usize| #[trigger] uses_one(v@, x) implies uses_opt(*c, x) || uses_one(p, x) by { let i = choose|i: int| 0 <= i < v@.len() && uses(#[trigger] v@[i], x); if i > 0 { assert(v@[i] == p[i - 1]); } }
            }
            v
        }
    }
}
/// f is the conjunction of p with the columns moved n to the left
pub open spec fn moved_left(p: Seq<BoundExpression>, n: int, q: Seq<BoundExpression>) -> bool { q.len() == p.len() && forall|i: int| 0 <= i < p.len() ==> moved(#[trigger] p[i], Moving::Shift(-n), q[i]) }
/// iter().map(|p| shift_columns(p, offset)).collect::<Option<Vec<_>>>()
#[verifier::loop_isolation(false)]
pub fn shift_all(p: &Vec<BoundExpression>, offset: i32) -> (r: Option<Vec<BoundExpression>>)
    requires narrows(p@), offset <= 0
    ensures r is Some ==> moved_left(p@, -offset as int, r->0@)
{
    let mut v: Vec<BoundExpression> = Vec::new();
    for i in 0..p.len()
        invariant v@.len() == i, forall|k: int| 0 <= k < i ==> moved(#[trigger] p@[k], Moving::Shift(offset as int), v@[k])
    { match shift_columns(&p[i], offset) { Some(e) => v.push(e), None => return None } }
    Some(v)
}
pub proof fn lemma_moved_left(p: Seq<BoundExpression>, n: int, q: Seq<BoundExpression>)
    requires moved_left(p, n, q), n >= 0
    ensures forall|t: Vals| t.len() >= n ==> all(p, t) == #[trigger] all(q, t.skip(n)), forall|d: usize| #[trigger] uses_one(q, d) ==> d + n <= usize::MAX && uses_one(p, (d + n) as usize)
{
    assert forall|t: Vals| t.len() >= n implies all(p, t) == #[trigger] all(q, t.skip(n)) by {
        let s = t.skip(n);
        assert forall|i: int| 0 <= i < p.len() implies holds(#[trigger] p[i], t) == holds(q[i], s) by { lemma_shift_right(p[i], n, q[i]); assert(holds(q[i], t.skip(n)) == holds(p[i], t)); }
        if all(p, t) { assert forall|i: int| 0 <= i < q.len() implies holds(#[trigger] q[i], s) by { assert(holds(p[i], t)); } }
        if all(q, s) { assert forall|i: int| 0 <= i < p.len() implies holds(#[trigger] p[i], t) by { assert(holds(q[i], s)); } }
    }
    assert forall|d: usize| #[trigger] uses_one(q, d) implies d + n <= usize::MAX && uses_one(p, (d + n) as usize) by {
        let i = choose|i: int| 0 <= i < q.len() && uses(#[trigger] q[i], d); lemma_shift_right(p[i], n, q[i]);
    }
}
pub open spec fn input_of(m: int, g: GroupId, p: Seq<BoundExpression>, old: GroupId) -> bool {
    gwidth(m, g) == gwidth(m, old) && forall|t: Vals| #[trigger] rows(m, g)(t) == (if all(p, t) { rows(m, old)(t) } else { 0nat })
}
pub proof fn lemma_input(m: int, g: GroupId, old: GroupId, p: Seq<BoundExpression>, e: LogicalExpr)
    requires e.op is Filter, e.children@ == seq![old], rows(m, g) == meaning(m, e), gwidth(m, g) == out_width(m, e), forall|t: Vals| #[trigger] cond(Some(e.op->Filter_0.predicate), t) == all(p, t)
    ensures input_of(m, g, p, old)
{ assert forall|t: Vals| #[trigger] rows(m, g)(t) == (if all(p, t) { rows(m, old)(t) } else { 0nat }) by { assert(cond(Some(e.op->Filter_0.predicate), t) == all(p, t)); } }
pub open spec fn split_at(l: Seq<BoundExpression>, r: Seq<BoundExpression>, j: Seq<BoundExpression>, p: BoundExpression, t: Vals) -> bool { (all(l, t) && all(r, t) && all(j, t)) == holds(p, t) }
pub proof fn lemma_split_at(p: BoundExpression, n: int, l: Seq<BoundExpression>, r: Seq<BoundExpression>, j: Seq<BoundExpression>)
    requires classified(p, n, Seq::empty(), Seq::empty(), Seq::empty(), l, r, j)
    ensures forall|t: Vals| #[trigger] split_at(l, r, j, p, t), are_left(l, n), are_right(r, n), narrow(p) ==> narrows(l) && narrows(r) && narrows(j),
        forall|c: usize| #[trigger] uses_one(l, c) ==> uses(p, c), forall|c: usize| #[trigger] uses_one(r, c) ==> uses(p, c), forall|c: usize| #[trigger] uses_one(j, c) ==> uses(p, c)
{
    let e = Seq::<BoundExpression>::empty();
    assert forall|t: Vals| #[trigger] split_at(l, r, j, p, t) by { let x = all(l, t); assert((x && all(r, t) && all(j, t)) == (all(e, t) && all(e, t) && all(e, t) && holds(p, t))); assert(all(e, t)); }
}
/// the join over the narrowed inputs
pub proof fn lemma_pushdown(m: int, e: LogicalExpr, c: LogicalExpr, n: LogicalExpr, lp: Seq<BoundExpression>, rp: Seq<BoundExpression>, rq: Seq<BoundExpression>, jp: Seq<BoundExpression>)
    requires wf(m, e), wf(m, c), e.op is Filter, c.op is Join, n.op is Join, meaning(m, c) == rows(m, e.children@[0]), out_width(m, c) == gwidth(m, e.children@[0]), plain(c.op->Join_0.join_type), n.op->Join_0.join_type == c.op->Join_0.join_type,
        n.op->Join_0.left_schema == c.op->Join_0.left_schema, n.op->Join_0.right_schema == c.op->Join_0.right_schema, schema_width(n.op->Join_0.output_schema) == schema_width(c.op->Join_0.left_schema) + schema_width(c.op->Join_0.right_schema),
        n.children@.len() == 2, input_of(m, n.children@[0], lp, c.children@[0]), input_of(m, n.children@[1], rq, c.children@[1]),
        forall|t: Vals| #[trigger] split_at(lp, rp, jp, e.op->Filter_0.predicate, t),
        are_left(lp, schema_width(c.op->Join_0.left_schema) as int), moved_left(rp, schema_width(c.op->Join_0.left_schema) as int, rq),
        forall|t: Vals| #[trigger] cond(n.op->Join_0.condition, t) == (cond(c.op->Join_0.condition, t) && all(jp, t)),
        forall|x: usize| #[trigger] uses_opt(n.op->Join_0.condition, x) ==> uses_opt(c.op->Join_0.condition, x) || uses(e.op->Filter_0.predicate, x)
    ensures equivalent(m, e, n)
{
    let j = c.op->Join_0; let w = schema_width(j.left_schema) as int; let p = e.op->Filter_0.predicate;
    let (l, r) = (rows(m, c.children@[0]), rows(m, c.children@[1]));
    lemma_moved_left(rp, w, rq);
    assert(sized(l, gwidth(m, c.children@[0])) && sized(r, gwidth(m, c.children@[1])));
    assert forall|t: Vals| #[trigger] meaning(m, n)(t) == meaning(m, e)(t) by {
        assert(rows(m, e.children@[0])(t) == product(j.condition, w, l, r)(t));
        if t.len() >= w {
            let (a, b) = (t.take(w), t.skip(w));
            assert(rows(m, n.children@[0])(a) == (if all(lp, a) { l(a) } else { 0nat }));
            assert(rows(m, n.children@[1])(b) == (if all(rq, b) { r(b) } else { 0nat }));
            assert(all(rp, t) == all(rq, t.skip(w)));
            assert(split_at(lp, rp, jp, p, t));
            assert(cond(n.op->Join_0.condition, t) == (cond(j.condition, t) && all(jp, t)));
            lemma_lefts(lp, w, t);
            assert(0 * r(b) == 0 && l(a) * 0 == 0 && 0nat * 0nat == 0) by (nonlinear_arith);
        }
    }
    assert(meaning(m, n) =~= meaning(m, e));
    assert(fit(m, n.children@)) by { lemma_narrowed(m, n.children@[0], c.children@[0], lp); lemma_narrowed(m, n.children@[1], c.children@[1], rq); }
    if n.op->Join_0.condition is Some { assert forall|x: usize| #[trigger] uses(n.op->Join_0.condition->0, x) implies x < schema_width(j.left_schema) + schema_width(j.right_schema) by { assert(uses_opt(n.op->Join_0.condition, x)); } }
}
pub proof fn lemma_narrowed(m: int, g: GroupId, old: GroupId, p: Seq<BoundExpression>) requires input_of(m, g, p, old), sized(rows(m, old), gwidth(m, old)) ensures sized(rows(m, g), gwidth(m, g))
{ assert forall|t: Vals| #[trigger] rows(m, g)(t) > 0 implies t.len() == gwidth(m, g) by { assert(rows(m, old)(t) > 0); } }
pub proof fn lemma_lefts(p: Seq<BoundExpression>, w: int, t: Vals) requires are_left(p, w), 0 <= w <= t.len(), w <= usize::MAX ensures all(p, t.take(w)) == all(p, t)
{
    let a = t.take(w);
    assert forall|i: int| 0 <= i < p.len() implies holds(#[trigger] p[i], a) == holds(p[i], t) by { assert(is_left(p[i], w)); assert(alike(p[i], a, t)); lemma_frame(p[i], a, t); }
}
pub proof fn lemma_none(m: int, g: GroupId) ensures input_of(m, g, Seq::empty(), g) { }
//@extract crates/axmos-db/src/sql/planner/rules.rs : impl TransformationRule for FilterPushdownJoinRule / fn apply
//@header impl FilterPushdownJoinRule
//@rewrite vec!\[\] ==> none_of()
//@rewrite expr\.children\.first\(\) ==> first_of(&expr.children)
//@rewrite child_expr = child\s*\.logical_exprs\s*\.first\(\) ==> child_expr = first_of(&child.logical_exprs)
//@rewrite join\.condition\.iter\(\)\.cloned\(\)\.chain\((\w+)\)\.collect\(\) ==> chained(&join.condition, \1)
//@rewrite memo\.insert_logical_expr\(LogicalExpr::new\(\s*LogicalOperator::Filter\(f\),\s*vec!\[left_group\],?\s*\)\) ==> { let e = LogicalExpr::new(LogicalOperator::Filter(f), one(left_group)); proof { lemma_sized(tag(*memo), e); } let g = memo.insert_logical_expr(e); proof { lemma_input(tag(*memo), g, left_group, lp, e); } g }
//@rewrite memo\.insert_logical_expr\(LogicalExpr::new\(\s*LogicalOperator::Filter\(f\),\s*vec!\[right_group\],?\s*\)\) ==> { let e = LogicalExpr::new(LogicalOperator::Filter(f), one(right_group)); proof { lemma_sized(tag(*memo), e); } let g = memo.insert_logical_expr(e); proof { lemma_input(tag(*memo), g, right_group, rq, e); } g }
//@rewrite let Some\(shifted\) = right_preds\s*\.iter\(\)\s*\.map\(\|p\| shift_columns\(p, (.*?)\)\)\s*\.collect::<Option<Vec<_>>>\(\)\s*else ==> let Some(shifted) = shift_all(&right_preds, \1) else
//@rewrite Ok\(vec!\[(\s*LogicalExpr.*?)vec!\[(\w+), (\w+)\](.*),\s*\]\)\s*\}$ ==> let out = \1two(\2, \3)\4; proof { lemma_pushdown(tag(*memo), *expr, *child_expr, out, lp, rp, rq, jp); } Ok(one(out)) }
//@ret r
//@spec
    requires wf(tag(*old(memo)), *expr)
    ensures all_equivalent(tag(*old(memo)), *expr, r), tag(*final(memo)) == tag(*old(memo))
//@at before if left_preds.is_empty() && right_preds.is_empty()
let ghost (lp, rp, jp) = (left_preds@, right_preds@, join_preds@);
let ghost mut rq: Seq<BoundExpression> = Seq::empty();
proof { lemma_narrow_width(filter.predicate, gwidth(tag(*memo), child_group)); lemma_split_at(filter.predicate, left_cols as int, lp, rp, jp); }
//@at before if let Some(pred) = combine_predicates(shifted)
proof { rq = shifted@; lemma_moved_left(rp, left_cols as int, rq); }
//@end
// ------------------------------------------------------------------ (A x B) x C = A x (B x C)
/// what JoinAssociativityRule::matches makes sure of
pub open spec fn nested(m: Memo, e: LogicalExpr) -> bool {
    e.op is Join && e.op->Join_0.join_type == JoinType::Inner && e.children@.len() == 2
    && exprs_of(m, e.children@[0]).len() > 0 && exprs_of(m, e.children@[0])[0].op is Join && exprs_of(m, e.children@[0])[0].op->Join_0.join_type == JoinType::Inner
}
pub fn is_inner(t: JoinType) -> (r: bool) ensures r == (t == JoinType::Inner) { match t { JoinType::Inner => true, _ => false } }
//@extract crates/axmos-db/src/sql/planner/rules.rs : impl TransformationRule for JoinAssociativityRule / fn matches
//@header impl JoinAssociativityRule
//@rewrite left\.logical_exprs\.first\(\) ==> first_of(&left.logical_exprs)
//@ret r
//@spec
    ensures r ==> nested(*memo, *expr)
//@end
pub proof fn lemma_assoc(m: int, e: LogicalExpr, c: LogicalExpr, bc: LogicalExpr, g: GroupId, n: LogicalExpr)
    requires wf(m, e), wf(m, c), e.op is Join, c.op is Join, bc.op is Join, n.op is Join,
        e.op->Join_0.join_type == JoinType::Inner, c.op->Join_0.join_type == JoinType::Inner, bc.op->Join_0.join_type == JoinType::Inner, n.op->Join_0.join_type == JoinType::Inner,
        meaning(m, c) == rows(m, e.children@[0]), out_width(m, c) == gwidth(m, e.children@[0]), bc.children@ == seq![c.children@[1], e.children@[1]], n.children@ == seq![c.children@[0], g], rows(m, g) == meaning(m, bc), gwidth(m, g) == out_width(m, bc), wf(m, bc),
        bc.op->Join_0.left_schema == c.op->Join_0.right_schema, bc.op->Join_0.right_schema == e.op->Join_0.right_schema, n.op->Join_0.left_schema == c.op->Join_0.left_schema, schema_width(n.op->Join_0.right_schema) == schema_width(bc.op->Join_0.output_schema),
        schema_width(n.op->Join_0.output_schema) == schema_width(n.op->Join_0.left_schema) + schema_width(n.op->Join_0.right_schema),
        split_into(e.op->Join_0.condition, c.op->Join_0.condition, n.op->Join_0.condition, bc.op->Join_0.condition, schema_width(c.op->Join_0.left_schema) as int),
        forall|x: usize| #[trigger] uses_opt(n.op->Join_0.condition, x) ==> uses_opt(e.op->Join_0.condition, x) || uses_opt(c.op->Join_0.condition, x)
    ensures equivalent(m, e, n)
{
    let (o, i, s, q) = (e.op->Join_0, c.op->Join_0, bc.op->Join_0, n.op->Join_0);
    let (ra, rb, rc) = (rows(m, c.children@[0]), rows(m, c.children@[1]), rows(m, e.children@[1]));
    let wa = schema_width(i.left_schema) as int; let wb = schema_width(i.right_schema) as int;
    assert(schema_width(o.left_schema) == wa + wb);
    assert(fit(m, n.children@)) by { lemma_sized(m, bc); assert(n.children@[0] == c.children@[0] && n.children@[1] == g); }
    assert(bc.children@[0] == c.children@[1] && bc.children@[1] == e.children@[1]);
    assert forall|t: Vals| #[trigger] meaning(m, n)(t) == meaning(m, e)(t) by {
        assert(rows(m, e.children@[0])(t.take(wa + wb)) == product(i.condition, wa, ra, rb)(t.take(wa + wb)));
        assert(rows(m, g)(t.skip(wa)) == product(s.condition, wb, rb, rc)(t.skip(wa)));
        if t.len() >= wa + wb {
            assert(t.take(wa + wb).take(wa) =~= t.take(wa)); assert(t.skip(wa).take(wb) =~= t.take(wa + wb).skip(wa)); assert(t.skip(wa).skip(wb) =~= t.skip(wa + wb));
            let (x, y, z) = (ra(t.take(wa)), rb(t.skip(wa).take(wb)), rc(t.skip(wa + wb)));
            assert(cond(i.condition, t.take(wa + wb)) == cond(i.condition, t)) by { if i.condition is Some { let f = i.condition->0; assert(alike(f, t.take(wa + wb), t)); lemma_frame(f, t.take(wa + wb), t); } }
            assert((cond(o.condition, t) && cond(i.condition, t)) == (cond(q.condition, t) && cond(s.condition, t.skip(wa)))) by { let k = cond(q.condition, t); assert((cond(o.condition, t) && cond(i.condition, t)) == (k && cond(s.condition, t.skip(wa)))); }
            assert(x * (y * z) == (x * y) * z && 0 * z == 0 && x * 0 == 0) by (nonlinear_arith);
        } else if t.len() >= wa {
            assert(ra(t.take(wa)) * 0 == 0) by (nonlinear_arith);
        }
    }
    assert(meaning(m, n) =~= meaning(m, e));
    if q.condition is Some { assert forall|x: usize| #[trigger] uses(q.condition->0, x) implies x < wa + schema_width(q.right_schema) by { assert(uses_opt(q.condition, x)); } }
}
//@extract crates/axmos-db/src/sql/planner/rules.rs : impl TransformationRule for JoinAssociativityRule / fn apply
//@header impl JoinAssociativityRule
//@rewrite vec!\[\] ==> none_of()
//@rewrite left\s*\.logical_exprs\s*\.first\(\) ==> first_of(&left.logical_exprs)
//@rewrite a_schema\.num_columns\(\) ==> a_schema.num_columns()
//@rewrite memo\.insert_logical_expr\(\s*LogicalExpr::new\(LogicalOperator::Join\(bc_join\), vec!\[(\w+), (\w+)\]\)(.*?)LogicalProperties \{.*?\}\),\s*\) ==> { let e = LogicalExpr::new(LogicalOperator::Join(bc_join), two(\1, \2))\3some_properties()); proof { bc = e; lemma_bc(tag(*memo), *expr, *left_expr, e); } memo.insert_logical_expr(e) }
//@rewrite Ok\(vec!\[(\s*LogicalExpr.*?)vec!\[(\w+), (\w+)\](.*),\s*\]\)\s*\}$ ==> let out = \1two(\2, \3)\4; proof { lemma_assoc(tag(*memo), *expr, *left_expr, bc, bc_group, out); } Ok(one(out)) }
//@ret r
//@spec
    requires wf(tag(*old(memo)), *expr), nested(*old(memo), *expr)
    ensures all_equivalent(tag(*old(memo)), *expr, r), tag(*final(memo)) == tag(*old(memo))
//@at before let a_schema = inner
let ghost mut bc = *expr;
proof { if outer.condition is Some { lemma_narrow_width(outer.condition->0, i32::MAX as int); } if inner.condition is Some { lemma_narrow_width(inner.condition->0, i32::MAX as int); } }
//@end
pub proof fn lemma_bc(m: int, e: LogicalExpr, c: LogicalExpr, bc: LogicalExpr)
    requires wf(m, e), wf(m, c), e.op is Join, c.op is Join, bc.op is Join, plain(e.op->Join_0.join_type), plain(c.op->Join_0.join_type), plain(bc.op->Join_0.join_type),
        out_width(m, c) == gwidth(m, e.children@[0]), bc.children@ == seq![c.children@[1], e.children@[1]], bc.op->Join_0.left_schema == c.op->Join_0.right_schema, bc.op->Join_0.right_schema == e.op->Join_0.right_schema,
        schema_width(bc.op->Join_0.output_schema) == schema_width(bc.op->Join_0.left_schema) + schema_width(bc.op->Join_0.right_schema),
        forall|d: usize| #[trigger] uses_opt(bc.op->Join_0.condition, d) ==> d + schema_width(c.op->Join_0.left_schema) <= usize::MAX && (uses_opt(e.op->Join_0.condition, (d + schema_width(c.op->Join_0.left_schema)) as usize) || uses_opt(c.op->Join_0.condition, (d + schema_width(c.op->Join_0.left_schema)) as usize))
    ensures wf(m, bc), sized(meaning(m, bc), out_width(m, bc))
{
    assert(bc.children@[0] == c.children@[1] && bc.children@[1] == e.children@[1]);
    let s = bc.op->Join_0;
    if s.condition is Some { assert forall|x: usize| #[trigger] uses(s.condition->0, x) implies x < schema_width(s.left_schema) + schema_width(s.right_schema) by { assert(uses_opt(s.condition, x)); } }
    lemma_sized(m, bc);
}
// ------------------------------------------------------------------ a filter over a projection of columns
pub open spec fn columns(p: Seq<ProjectExpr>, t: Seq<usize>) -> bool { t.len() == p.len() && forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).expr is ColumnBinding && (p[i].expr)->ColumnBinding_0.column_idx == t[i] }
pub proof fn lemma_below_projection(m: int, e: LogicalExpr, c: LogicalExpr, f: LogicalExpr, g: GroupId, n: LogicalExpr, map: Seq<usize>)
    requires wf(m, e), wf(m, c), e.op is Filter, c.op is Project, f.op is Filter, n.op is Project, meaning(m, c) == rows(m, e.children@[0]), out_width(m, c) == gwidth(m, e.children@[0]), f.children@ == c.children@, n.children@ == seq![g],
        rows(m, g) == meaning(m, f), gwidth(m, g) == out_width(m, f), n.op->Project_0.expressions@ == c.op->Project_0.expressions@, columns(c.op->Project_0.expressions@, map), moved(e.op->Filter_0.predicate, Moving::Table(map), f.op->Filter_0.predicate), wf(m, f)
    ensures equivalent(m, e, n)
{
    let p = c.op->Project_0.expressions@; let x = c.children@[0]; let r = rows(m, x); let w = gwidth(m, x);
    let (old, new) = (e.op->Filter_0.predicate, f.op->Filter_0.predicate);
    assert(sized(r, w)); assert(n.children@[0] == g);
    assert forall|u: Vals| #[trigger] meaning(m, n)(u) == meaning(m, e)(u) by {
        let (a, b) = (onto(p, keep(new, r), u), onto(p, r, u));
        assert(rows(m, e.children@[0])(u) == projection(p, r)(u));
        assert forall|t: Vals| r(t) > 0 && projected(p, t) == u implies #[trigger] holds(new, t) == holds(old, u) by { lemma_columns(p, map, t, w); assert(carried(old, Moving::Table(map), u, t)); }
        if holds(old, u) { assert forall|t: Vals| #[trigger] a(t) == b(t) by { if r(t) > 0 && projected(p, t) == u { assert(holds(new, t)); } } assert(a =~= b); }
        else { assert forall|t: Vals| #[trigger] a(t) == 0 by { if r(t) > 0 && projected(p, t) == u { assert(!holds(new, t)); } } lemma_nothing(a); }
        assert(rows(m, g) =~= keep(new, r));
    }
    assert(meaning(m, n) =~= meaning(m, e));
    assert(fit(m, n.children@)) by { lemma_sized(m, f); }
}
pub proof fn lemma_columns(p: Seq<ProjectExpr>, map: Seq<usize>, t: Vals, w: int)
    requires columns(p, map), reads(p, w), t.len() == w
    ensures projected(p, t).len() == map.len(), forall|i: int| 0 <= i < map.len() ==> #[trigger] map[i] < t.len() && projected(p, t)[i] == t[map[i] as int]
{
    assert forall|i: int| 0 <= i < map.len() implies #[trigger] map[i] < t.len() && projected(p, t)[i] == t[map[i] as int] by { assert(p[i].expr is ColumnBinding); assert(sem(p[i].expr, t) == Out::Val(t[map[i] as int])); }
}
pub proof fn lemma_new_filter(m: int, e: LogicalExpr, c: LogicalExpr, f: LogicalExpr, map: Seq<usize>)
    requires wf(m, c), e.op is Filter, c.op is Project, f.op is Filter, f.children@ == c.children@, columns(c.op->Project_0.expressions@, map), moved(e.op->Filter_0.predicate, Moving::Table(map), f.op->Filter_0.predicate)
    ensures wf(m, f), sized(meaning(m, f), out_width(m, f))
{
    let p = c.op->Project_0.expressions@; let (old, new) = (e.op->Filter_0.predicate, f.op->Filter_0.predicate);
    assert(fit(m, f.children@)); assert(0 <= gwidth(m, f.children@[0]) <= i32::MAX);
    assert forall|d: usize| #[trigger] uses(new, d) implies d < gwidth(m, f.children@[0]) by {
        assert(from(old, Moving::Table(map), d)); let x = choose|x: usize| uses(old, x) && #[trigger] image(Moving::Table(map), x) == Some(d); assert(p[x as int].expr is ColumnBinding);
    }
    lemma_sized(m, f);
}
//@extract crates/axmos-db/src/sql/planner/rules.rs : impl TransformationRule for FilterPushdownProjectRule / fn apply
//@header impl FilterPushdownProjectRule
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite vec!\[\] ==> none_of()
//@rewrite expr\.children\.first\(\) ==> first_of(&expr.children)
//@rewrite child_expr = child\s*\.logical_exprs\s*\.first\(\) ==> child_expr = first_of(&child.logical_exprs)
//@rewrite project\.expressions\.clone\(\) ==> copied_exprs(&project.expressions)
//@rewrite for proj_expr in &project_exprs ==> for ci in 0..project_exprs.len()
//@rewrite let mut mapping = Vec::new\(\) ==> let mut mapping: Vec<usize> = Vec::new()
//@rewrite memo\.insert_logical_expr\(LogicalExpr::new\(\s*LogicalOperator::Filter\(new_filter\),\s*child_expr\.children\.clone\(\),\s*\)\) ==> { let e = LogicalExpr::new(LogicalOperator::Filter(new_filter), copied(&child_expr.children)); proof { nf = e; lemma_new_filter(tag(*memo), *expr, *child_expr, e, mapping@); } memo.insert_logical_expr(e) }
//@rewrite Ok\(vec!\[(\s*LogicalExpr.*?)vec!\[filter_group\](.*),\s*\]\)\s*\}$ ==> let out = \1one(filter_group)\2; proof { lemma_below_projection(tag(*memo), *expr, *child_expr, nf, filter_group, out, mapping@); } Ok(one(out)) }
//@ret r
//@spec
    requires wf(tag(*old(memo)), *expr)
    ensures all_equivalent(tag(*old(memo)), *expr, r), tag(*final(memo)) == tag(*old(memo))
//@loop 0
        invariant mapping@.len() == ci, forall|i: int| 0 <= i < ci ==> (#[trigger] project_exprs@[i]).expr is ColumnBinding && (project_exprs@[i].expr)->ColumnBinding_0.column_idx == mapping@[i]
//@at loop 0 body-start
let proj_expr = &project_exprs[ci];
//@at before let Some(new_pred)
let ghost mut nf = *expr;
proof { lemma_narrow_width(filter.predicate, gwidth(tag(*memo), child_group)); }
//@end
// ------------------------------------------------------------------ A x B = B x A with the columns put back
//@extract crates/axmos-db/src/sql/planner/rules.rs : impl TransformationRule for JoinCommutativityRule / fn apply
//@header impl JoinCommutativityRule
//@rename swapped_position
//@rewrite \(&self, expr: &LogicalExpr, memo: &mut Memo\) -> PlannerResult<Vec<LogicalExpr>> ==> (c: usize, left_cols: usize, right_cols: usize) -> (r: usize)
//@rewrite let LogicalOperator::Join\(join\) = &expr\.op else .*let swapped_position = \|c: usize\| (\{.*?\});\s*let swapped_cond .*$ ==> \1 }
//@spec
    requires left_cols <= u32::MAX, right_cols <= u32::MAX, c <= u32::MAX
    ensures r == if c < left_cols { right_cols + c } else { c - left_cols }
//@end
impl ColumnMap for Swapping {
    open spec fn kind(&self) -> Moving { Moving::Swap(self.left_cols as int, self.right_cols as int) }
    open spec fn saw(&self, c: usize) -> bool { true }
    fn call(&mut self, c: usize) -> (r: Option<usize>) {
        Some(JoinCommutativityRule::swapped_position(c, self.left_cols as usize, self.right_cols as usize))
    }
}
#[verifier::external_body] pub fn column_kind(s: &Schema, c: usize) -> DataTypeKind { unimplemented!() }
//@extract crates/axmos-db/src/sql/planner/rules.rs : fn create_column_ref
//@rewrite schema\s*\.column\(column_idx\)\s*\.map\(\|c\| c\.datatype\(\)\)\s*\.unwrap_or\(DataTypeKind::Null\) ==> column_kind(schema, column_idx)
//@ret r
//@spec
    ensures r is ColumnBinding, r->ColumnBinding_0.column_idx == column_idx
//@end
/// (0..n).map(f).collect()
#[verifier::loop_isolation(false)]
pub fn map_range<F: Fn(usize) -> ProjectExpr>(n: usize, f: F) -> (r: Vec<ProjectExpr>)
    requires forall|c: usize| c < n ==> #[trigger] f.requires((c,))
    ensures r@.len() == n, forall|i: usize| i < n ==> f.ensures((i,), #[trigger] r@[i as int])
{
    let mut v: Vec<ProjectExpr> = Vec::new();
    for i in 0..n
        invariant v@.len() == i, forall|k: usize| k < i ==> f.ensures((k,), #[trigger] v@[k as int])
    { v.push(f(i)); }
    v
}
pub open spec fn swappable(e: LogicalExpr) -> bool { e.op is Join ==> plain(e.op->Join_0.join_type) }
pub fn same_join(a: JoinType, b: JoinType) -> (r: bool) ensures r == (a == b) { match (a, b) { (JoinType::Inner, JoinType::Inner) | (JoinType::Left, JoinType::Left) | (JoinType::Right, JoinType::Right) | (JoinType::Full, JoinType::Full) | (JoinType::Cross, JoinType::Cross) => true, _ => false } }
//@extract crates/axmos-db/src/sql/planner/rules.rs : impl TransformationRule for JoinCommutativityRule / fn matches
//@header impl JoinCommutativityRule
//@rewrite matches!\(\s*&expr\.op,\s*LogicalOperator::Join\(j\)\s*if (.*?)\s*\)\s*\}$ ==> match &expr.op { LogicalOperator::Join(j) => \1, _ => false } }
//@ret r
//@spec
    ensures r ==> swappable(*expr)
//@end
pub open spec fn swapped_at(c: int, l: int, r: int) -> int { if c < l { r + c } else { c - l } }
pub open spec fn restores(p: Seq<ProjectExpr>, l: int, r: int) -> bool { p.len() == l + r && forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).expr is ColumnBinding && (p[i].expr)->ColumnBinding_0.column_idx == swapped_at(i, l, r) }
pub open spec fn swap_of(e: LogicalExpr, s: LogicalExpr) -> bool {
    e.op is Join && s.op is Join && plain(e.op->Join_0.join_type) && s.op->Join_0.join_type == e.op->Join_0.join_type && e.children@.len() == 2 && s.children@ == seq![e.children@[1], e.children@[0]]
    && s.op->Join_0.left_schema == e.op->Join_0.right_schema && s.op->Join_0.right_schema == e.op->Join_0.left_schema && schema_width(s.op->Join_0.output_schema) == schema_width(e.op->Join_0.left_schema) + schema_width(e.op->Join_0.right_schema)
    && (e.op->Join_0.condition is Some <==> s.op->Join_0.condition is Some) && (e.op->Join_0.condition is Some ==> moved(e.op->Join_0.condition->0, Moving::Swap(schema_width(e.op->Join_0.left_schema) as int, schema_width(e.op->Join_0.right_schema) as int), s.op->Join_0.condition->0))
}
pub proof fn lemma_swap_wf(m: int, e: LogicalExpr, s: LogicalExpr)
    requires wf(m, e), swap_of(e, s)
    ensures wf(m, s), sized(meaning(m, s), out_width(m, s))
{
    let (l, r) = (schema_width(e.op->Join_0.left_schema) as int, schema_width(e.op->Join_0.right_schema) as int);
    assert(s.children@[0] == e.children@[1] && s.children@[1] == e.children@[0]);
    if s.op->Join_0.condition is Some {
        let (c, d) = (e.op->Join_0.condition->0, s.op->Join_0.condition->0);
        assert forall|y: usize| #[trigger] uses(d, y) implies y < l + r by { assert(from(c, Moving::Swap(l, r), y)); let x = choose|x: usize| uses(c, x) && #[trigger] image(Moving::Swap(l, r), x) == Some(y); assert(x < l + r); }
    }
    lemma_sized(m, s);
}
pub proof fn lemma_swapped(m: int, e: LogicalExpr, s: LogicalExpr, g: GroupId, n: LogicalExpr)
    requires wf(m, e), swap_of(e, s), rows(m, g) == meaning(m, s), gwidth(m, g) == out_width(m, s), n.op is Project, n.children@ == seq![g],
        restores(n.op->Project_0.expressions@, schema_width(e.op->Join_0.left_schema) as int, schema_width(e.op->Join_0.right_schema) as int)
    ensures equivalent(m, e, n)
{
    let j = e.op->Join_0; let (l, r) = (schema_width(j.left_schema) as int, schema_width(j.right_schema) as int);
    let p = n.op->Project_0.expressions@; let (lb, rb) = (rows(m, e.children@[0]), rows(m, e.children@[1]));
    lemma_swap_wf(m, e, s); lemma_sized(m, e);
    assert(n.children@[0] == g); assert(s.children@[0] == e.children@[1] && s.children@[1] == e.children@[0]);
    let sw = rows(m, g);
    assert(sized(sw, l + r));
    assert forall|u: Vals| #[trigger] meaning(m, n)(u) == meaning(m, e)(u) by {
        let b = onto(p, sw, u);
        if u.len() == l + r {
            let t0 = u.skip(l) + u.take(l);
            assert forall|t: Vals| #[trigger] b(t) > 0 implies t == t0 by {
                assert(sw(t) > 0); lemma_restored(p, l, r, t);
                assert forall|k: int| 0 <= k < t.len() implies t[k] == t0[k] by { let i = if k < r { l + k } else { k - r }; assert(swapped_at(i, l, r) == k); assert(projected(p, t)[i] == t[k]); }
                assert(t =~= t0);
            }
            lemma_only(b, t0);
            lemma_restored(p, l, r, t0);
            assert(projected(p, t0) =~= u) by { assert forall|i: int| 0 <= i < l + r implies projected(p, t0)[i] == u[i] by { assert(projected(p, t0)[i] == t0[swapped_at(i, l, r)]); } }
            assert(t0.take(r) =~= u.skip(l)); assert(t0.skip(r) =~= u.take(l));
            assert(cond(j.condition, u) == cond(s.op->Join_0.condition, t0)) by {
                if j.condition is Some { assert(carried(j.condition->0, Moving::Swap(l, r), u, t0)); }
            }
            assert(rb(u.skip(l)) * lb(u.take(l)) == lb(u.take(l)) * rb(u.skip(l))) by (nonlinear_arith);
        } else {
            assert forall|t: Vals| #[trigger] b(t) == 0 by { assert(projected(p, t).len() == p.len()); }
            lemma_nothing(b);
            assert(sized(meaning(m, e), out_width(m, e)));
        }
    }
    assert(meaning(m, n) =~= meaning(m, e));
}
pub proof fn lemma_restored(p: Seq<ProjectExpr>, l: int, r: int, t: Vals)
    requires restores(p, l, r), t.len() == l + r, l >= 0, r >= 0
    ensures projected(p, t).len() == l + r, forall|i: int| 0 <= i < l + r ==> #[trigger] projected(p, t)[i] == t[swapped_at(i, l, r)]
{ assert forall|i: int| 0 <= i < l + r implies #[trigger] projected(p, t)[i] == t[swapped_at(i, l, r)] by { assert(p[i].expr is ColumnBinding); assert(sem(p[i].expr, t) == Out::Val(t[swapped_at(i, l, r)])); } }
//@extract crates/axmos-db/src/sql/planner/rules.rs : impl TransformationRule for JoinCommutativityRule / fn apply
//@header impl JoinCommutativityRule
//@rewrite vec!\[\] ==> none_of()
//@rewrite let swapped_position = \|c: usize\| \{.*?\};(?=\s*let swapped_cond) ==> 
//@rewrite &mut \|c\| Some\(swapped_position\(c\)\) ==> &mut Swapping { left_cols: left_cols as u32, right_cols: right_cols as u32 }
//@rewrite memo\.insert_logical_expr\(\s*LogicalExpr::new\(\s*LogicalOperator::Join\(swapped\),\s*vec!\[(.*?), (expr.*?)\],\s*\)(.*?)LogicalProperties \{.*?\}\),\s*\); ==> { let x = LogicalExpr::new(LogicalOperator::Join(swapped), two(\1, \2))\3some_properties()); proof { sw = x; lemma_swap_wf(tag(*memo), *expr, x); } memo.insert_logical_expr(x) };
//@rewrite let expressions = \(0\.\.(.*?)\)\s*\.map\(\|c\| ProjectExpr \{\s*expr: create_column_ref\(swapped_position\((.*?)\), (.*?)\),\s*alias: None,\s*\}\)\s*\.collect\(\); ==> let expressions = map_range(\1, |c: usize| -> (x: ProjectExpr) requires c < left_cols + right_cols ensures x.expr is ColumnBinding && x.expr->ColumnBinding_0.column_idx == swapped_at(c as int, left_cols as int, right_cols as int) { ProjectExpr { expr: create_column_ref(Self::swapped_position(\2, left_cols, right_cols), \3), alias: None } });
//@rewrite Ok\(vec!\[(\s*LogicalExpr.*?)vec!\[swapped_group\](.*),\s*\]\)\s*\}$ ==> let ghost es = restore.expressions@; let out = \1one(swapped_group)\2; proof { assert forall|i: int| 0 <= i < es.len() implies (#[trigger] es[i]).expr is ColumnBinding && (es[i].expr)->ColumnBinding_0.column_idx == swapped_at(i, left_cols as int, right_cols as int) by { let x = es[(i as usize) as int]; } lemma_swapped(tag(*memo), *expr, sw, swapped_group, out); } Ok(one(out)) }
//@ret r
//@spec
    requires wf(tag(*old(memo)), *expr), swappable(*expr)
    ensures all_equivalent(tag(*old(memo)), *expr, r), tag(*final(memo)) == tag(*old(memo))
//@at before let left_cols
let ghost mut sw = *expr;
//@at before let swapped_cond
proof { if join.condition is Some { lemma_narrow_width(join.condition->0, i32::MAX as int); } }
//@end
// ------------------------------------------------------------------ a filter over a table, by an index
pub uninterp spec fn schema_indexes(s: Schema) -> Seq<IndexHandle>;
impl Schema { #[verifier::external_body] pub fn get_indexes(&self) -> (r: Vec<IndexHandle>) ensures r@ == schema_indexes(*self) { unimplemented!() } }
/// the indexes of a table are on its columns
pub open spec fn indexed(s: Schema) -> bool { schema_width(s) <= i32::MAX && forall|i: int| 0 <= i < schema_indexes(s).len() ==> (#[trigger] index_cols(schema_indexes(s)[i])).len() <= usize::MAX && forall|k: int| 0 <= k < index_cols(schema_indexes(s)[i]).len() ==> #[trigger] index_cols(schema_indexes(s)[i])[k] < schema_width(s) }
pub proof fn lemma_indexed(m: int, e: LogicalExpr, c: LogicalExpr, n: LogicalExpr)
    requires wf(m, e), wf(m, c), e.op is Filter, c.op is TableScan, n.op is IndexScan, n.children@.len() == 0, meaning(m, c) == rows(m, e.children@[0]), out_width(m, c) == gwidth(m, e.children@[0]),
        n.op->IndexScan_0.table_id == c.op->TableScan_0.table_id, n.op->IndexScan_0.schema == c.op->TableScan_0.schema, asks_for(n.op->IndexScan_0, e.op->Filter_0.predicate), complete(n.op->IndexScan_0),
        n.op->IndexScan_0.index_columns@.len() <= usize::MAX, forall|k: int| 0 <= k < n.op->IndexScan_0.index_columns@.len() ==> #[trigger] n.op->IndexScan_0.index_columns@[k] < schema_width(c.op->TableScan_0.schema)
    ensures equivalent(m, e, n)
{
    let s = n.op->IndexScan_0; let p = e.op->Filter_0.predicate; let r = table_rows(s.table_id);
    assert forall|t: Vals| #[trigger] meaning(m, n)(t) == meaning(m, e)(t) by {
        assert(rows(m, e.children@[0])(t) == r(t));
        if r(t) > 0 {
            assert(fits(s.index_columns@, t)); lemma_asks(s.range_start, s.range_end, s.residual_predicate, s.index_columns@, p, t);
            if holds(p, t) { assert(has_entry(s.index_columns@, t)) by { assert forall|i: int| 0 <= i < s.index_columns@.len() implies t[#[trigger] s.index_columns@[i] as int] != DataType::Null by { thm_entry(s, p, t, i); } } }
        }
    }
    assert(meaning(m, n) =~= meaning(m, e));
}
//@extract crates/axmos-db/src/sql/planner/rules.rs : impl TransformationRule for FilterToIndexScanRule / fn apply
//@header impl FilterToIndexScanRule
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite Ok\(vec!\[\]\) ==> Ok(none_of())
//@rewrite expr\.children\.first\(\) ==> first_of(&expr.children)
//@rewrite child_expr = child\s*\.logical_exprs\s*\.first\(\) ==> child_expr = first_of(&child.logical_exprs)
//@rewrite let mut alternatives = Vec::new\(\) ==> let mut alternatives: Vec<LogicalExpr> = Vec::new()
//@rewrite for index_handle in indexes(?=\s) ==> for ii in 0..indexes.len()
//@rewrite &index_handle\) ==> index_handle)
//@rewrite alternatives\.push\((.*?), vec!\[\]\)(.*?),\s*\); ==> let out = \1, none_of())\2; proof { lemma_indexed(tag(*memo), *expr, *child_expr, out); } alternatives.push(out);
//@ret r
//@spec
    requires wf(tag(*old(memo)), *expr)
    ensures all_equivalent(tag(*old(memo)), *expr, r), tag(*final(memo)) == tag(*old(memo))
//@loop 0
        invariant forall|i: int| 0 <= i < alternatives@.len() ==> equivalent(tag(*memo), *expr, #[trigger] alternatives@[i])
//@at loop 0 body-start
let index_handle = &indexes[ii];
//@end
}
