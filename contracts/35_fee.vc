@# Fees.
@head
pub mod num_integer {
use vstd::prelude::*;
pub open spec fn cdiv(a: int, b: int) -> int { if a % b == 0 { a / b } else { a / b + 1 } }
#[verifier::external_body]
pub fn div_ceil(x: u128, y: u128) -> (r: u128) requires y != 0 ensures r == cdiv(x as int, y as int) { unimplemented!() }
#[verifier::external_body]
pub fn div_floor(x: u128, y: u128) -> (r: u128) requires y != 0 ensures r == x / y { unimplemented!() }
}
@head
pub mod sfee {
use vstd::prelude::*; use crate::vx::*; use crate::num_integer::cdiv;
use crate::transaction::consensus_parameters::ConsensusParameters;
use crate::transaction::fee::*;
impl FromSpecImpl<TransactionFee> for u64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: TransactionFee) -> Self { a.total } }
/// Rounding up: the least number of factors that covers the amount.
pub proof fn cdiv_is(a: int, b: int) requires a >= 0, b > 0 ensures cdiv(a, b) * b >= a, cdiv(a, b) > 0 ==> (cdiv(a, b) - 1) * b < a, 0 <= cdiv(a, b) <= a
{ assert(a == b * (a / b) + a % b && 0 <= a % b < b && a / b >= 0 && a / b <= a && (a % b > 0 ==> a / b + 1 <= a)) by (nonlinear_arith) requires a >= 0, b > 0;
  assert((a / b + 1) * b == (a / b) * b + b && (cdiv(a, b) - 1) * b == cdiv(a, b) * b - b) by (nonlinear_arith); assert(b * (a / b) == (a / b) * b) by (nonlinear_arith); }
pub open spec fn fee_of(p: ConsensusParameters, bytes: int, limit: int, price: int) -> Option<TransactionFee> {
    let bg = p.gas_per_byte * bytes;
    let mg = bg + limit;
    let f = p.gas_price_factor as int;
    if bg <= u64::MAX && mg <= u64::MAX && mg * price <= u64::MAX && bg * price <= u64::MAX { Some(TransactionFee { bytes: cdiv(bg * price, f) as u64, total: cdiv(mg * price, f) as u64, min_gas: bg as u64, max_gas: mg as u64 }) } else { None }
}
pub open spec fn refund_of(p: ConsensusParameters, gas: int, price: int) -> Option<u64> {
    let v = (gas * price) / (p.gas_price_factor as int);
    if v <= u64::MAX { Some(v as u64) } else { None }
}
}
@derive TransactionFee Clone Copy
@fn TransactionFee.Clone.clone
@props C14
@ens
  r == *self
@fn Word.From<TransactionFee>.from
@props C14
@ens
  r == fee.total
@fn TransactionFee.new
@props C14
@ens
  r == (TransactionFee { bytes, total, min_gas, max_gas })
@fn TransactionFee.min
@props C14
@ens
  r == self.bytes
@fn TransactionFee.total
@props C14
@ens
  r == self.total
@fn TransactionFee.min_gas
@props C14
@ens
  r == self.min_gas
@fn TransactionFee.max_gas
@props C14
@ens
  r == self.max_gas
@fn TransactionFee.into_inner
@props C14
@ens
  r == (self.bytes, self.total)
@fn TransactionFee.checked_deduct_total
@props C14 C15
@ens
  r == if self.total <= balance { Some((balance - self.total) as u64) } else { None }
@fn TransactionFee.checked_from_values
@props C14
@req
  params.gas_price_factor > 0
@ens
  r == fee_of(*params, metered_bytes as int, gas_limit as int, gas_price as int)
@pre
proof {
    let bg = params.gas_per_byte * metered_bytes; let mg = bg + gas_limit;
    assert(bg * gas_price <= mg * gas_price && bg * gas_price >= 0) by (nonlinear_arith) requires bg >= 0, mg >= bg, gas_price >= 0;
    cdiv_is(mg * gas_price, params.gas_price_factor as int); cdiv_is(bg * gas_price, params.gas_price_factor as int);
}
@fn TransactionFee.gas_refund_value
@props C14
@req
  params.gas_price_factor > 0
@ens
  r == refund_of(*params, gas as int, price as int)
@pre
proof { assert(gas * price <= u64::MAX * u64::MAX && gas * price >= 0) by (nonlinear_arith) requires 0 <= gas <= u64::MAX, 0 <= price <= u64::MAX; }
@super Chargeable TxV
@fn trait Chargeable.price
@props C14
@ens
  r == self.tv().gas_price
@fn trait Chargeable.limit
@props C14
@ens
  r == self.tv().gas_limit
@fn trait Chargeable.metered_bytes_size
@props C14
@req
  ready(self), self.tv().kind != 2
@ens
  r == wit_off(self.tv())
@fn Script.Chargeable.price
@props C14
@fn Script.Chargeable.limit
@props C14
@fn Script.Chargeable.metered_bytes_size
@props C14
@fn Create.Chargeable.price
@props C14
@fn Create.Chargeable.limit
@props C14
@fn Create.Chargeable.metered_bytes_size
@props C14
@fn TransactionFee.checked_from_tx
@props C14
@req
  params.gas_price_factor > 0, ready(tx), tx.tv().kind != 2
@ens
  r == fee_of(*params, wit_off(tx.tv()), tx.tv().gas_limit as int, tx.tv().gas_price as int)
