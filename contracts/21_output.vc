@# Outputs.
@head
pub mod soutput {
use vstd::prelude::*; use crate::vx::*;
use crate::transaction::types::*;
#[verifier::ext_equal]
pub enum SOutput {
    Coin { to: Seq<u8>, amount: u64, asset_id: Seq<u8> },
    Contract { input_index: u8, balance_root: Seq<u8>, state_root: Seq<u8> },
    Message { recipient: Seq<u8>, amount: u64 },
    Change { to: Seq<u8>, amount: u64, asset_id: Seq<u8> },
    Variable { to: Seq<u8>, amount: u64, asset_id: Seq<u8> },
    ContractCreated { contract_id: Seq<u8>, state_root: Seq<u8> },
}
impl Dv for Output {
    type S = SOutput;
    open spec fn dv(&self) -> SOutput {
        match *self {
            Output::Coin { to, amount, asset_id } => SOutput::Coin { to: to@, amount, asset_id: asset_id@ },
            Output::Contract { input_index, balance_root, state_root } => SOutput::Contract { input_index, balance_root: balance_root@, state_root: state_root@ },
            Output::Message { recipient, amount } => SOutput::Message { recipient: recipient@, amount },
            Output::Change { to, amount, asset_id } => SOutput::Change { to: to@, amount, asset_id: asset_id@ },
            Output::Variable { to, amount, asset_id } => SOutput::Variable { to: to@, amount, asset_id: asset_id@ },
            Output::ContractCreated { contract_id, state_root } => SOutput::ContractCreated { contract_id: contract_id@, state_root: state_root@ },
        }
    }
}
impl SOutput {
    /// The number a kind of output travels as.
    pub open spec fn id(self) -> u64 {
        match self { SOutput::Coin { .. } => 0, SOutput::Contract { .. } => 1, SOutput::Message { .. } => 2, SOutput::Change { .. } => 3, SOutput::Variable { .. } => 4, SOutput::ContractCreated { .. } => 5 }
    }
}
impl Wire for SOutput {
    open spec fn e(self) -> Seq<u8> {
        be8(self.id()) + match self {
            SOutput::Coin { to, amount, asset_id } => to + (be8(amount) + asset_id),
            SOutput::Change { to, amount, asset_id } => to + (be8(amount) + asset_id),
            SOutput::Variable { to, amount, asset_id } => to + (be8(amount) + asset_id),
            SOutput::Contract { input_index, balance_root, state_root } => be8(input_index as u64) + (balance_root + state_root),
            SOutput::Message { recipient, amount } => recipient + be8(amount),
            SOutput::ContractCreated { contract_id, state_root } => contract_id + state_root,
        }
    }
    open spec fn d(s: Seq<u8>) -> Option<(Self, int)> {
        if s.len() < 8 { None } else {
            let id = un8(s.subrange(0, 8));
            let b = tl(s, 8);
            if id == 0 || id == 3 || id == 4 {
                if b.len() < 72 { None } else {
                    let to = b.subrange(0, 32);
                    let amount = un8(tl(b, 32).subrange(0, 8));
                    let asset_id = tl(tl(b, 32), 8).subrange(0, 32);
                    Some((if id == 0 { SOutput::Coin { to, amount, asset_id } } else if id == 3 { SOutput::Change { to, amount, asset_id } } else { SOutput::Variable { to, amount, asset_id } }, 80))
                }
            } else if id == 1 {
                if b.len() < 72 { None } else {
                    Some((SOutput::Contract { input_index: un8(b.subrange(0, 8)) as u8, balance_root: tl(b, 8).subrange(0, 32), state_root: tl(tl(b, 8), 32).subrange(0, 32) }, 80))
                }
            } else if id == 2 {
                if b.len() < 40 { None } else { Some((SOutput::Message { recipient: b.subrange(0, 32), amount: un8(tl(b, 32).subrange(0, 8)) }, 48)) }
            } else if id == 5 {
                if b.len() < 64 { None } else { Some((SOutput::ContractCreated { contract_id: b.subrange(0, 32), state_root: tl(b, 32).subrange(0, 32) }, 72)) }
            } else { None }
        }
    }
    open spec fn wf(self) -> bool {
        match self {
            SOutput::Coin { to, amount, asset_id } => to.len() == 32 && asset_id.len() == 32,
            SOutput::Change { to, amount, asset_id } => to.len() == 32 && asset_id.len() == 32,
            SOutput::Variable { to, amount, asset_id } => to.len() == 32 && asset_id.len() == 32,
            SOutput::Contract { input_index, balance_root, state_root } => balance_root.len() == 32 && state_root.len() == 32,
            SOutput::Message { recipient, amount } => recipient.len() == 32,
            SOutput::ContractCreated { contract_id, state_root } => contract_id.len() == 32 && state_root.len() == 32,
        }
    }
    proof fn round(self, rest: Seq<u8>) { broadcast use peel; }
    proof fn total(s: Seq<u8>) {}
}
pub broadcast proof fn output_wf(o: Output) ensures #[trigger] o.dv().wf() {}
pub open spec fn okind(o: Output) -> OutputRepr {
    match o {
        Output::Coin { .. } => OutputRepr::Coin, Output::Contract { .. } => OutputRepr::Contract, Output::Message { .. } => OutputRepr::Message,
        Output::Change { .. } => OutputRepr::Change, Output::Variable { .. } => OutputRepr::Variable, Output::ContractCreated { .. } => OutputRepr::ContractCreated,
    }
}
pub open spec fn okind_of(id: u64) -> Option<OutputRepr> {
    if id == 0 { Some(OutputRepr::Coin) } else if id == 1 { Some(OutputRepr::Contract) } else if id == 2 { Some(OutputRepr::Message) }
    else if id == 3 { Some(OutputRepr::Change) } else if id == 4 { Some(OutputRepr::Variable) } else if id == 5 { Some(OutputRepr::ContractCreated) } else { None }
}
/// The published offsets are where the fields are.
pub proof fn output_offsets(o: SOutput) requires o.wf()
    ensures match o {
        SOutput::Coin { to, amount, asset_id } => o.e().subrange(8, 40) == to && o.e().subrange(48, 80) == asset_id,
        SOutput::Change { to, amount, asset_id } => o.e().subrange(8, 40) == to && o.e().subrange(48, 80) == asset_id,
        SOutput::Variable { to, amount, asset_id } => o.e().subrange(8, 40) == to && o.e().subrange(48, 80) == asset_id,
        SOutput::Contract { input_index, balance_root, state_root } => o.e().subrange(16, 48) == balance_root && o.e().subrange(48, 80) == state_root,
        SOutput::Message { recipient, amount } => o.e().subrange(8, 40) == recipient,
        SOutput::ContractCreated { contract_id, state_root } => o.e().subrange(8, 40) == contract_id && o.e().subrange(40, 72) == state_root,
    }
{
    broadcast use peel;
    match o {
        SOutput::Coin { to, amount, asset_id } => { assert(o.e().subrange(8, 40) =~= to); assert(o.e().subrange(48, 80) =~= asset_id); }
        SOutput::Change { to, amount, asset_id } => { assert(o.e().subrange(8, 40) =~= to); assert(o.e().subrange(48, 80) =~= asset_id); }
        SOutput::Variable { to, amount, asset_id } => { assert(o.e().subrange(8, 40) =~= to); assert(o.e().subrange(48, 80) =~= asset_id); }
        SOutput::Contract { input_index, balance_root, state_root } => { assert(o.e().subrange(16, 48) =~= balance_root); assert(o.e().subrange(48, 80) =~= state_root); }
        SOutput::Message { recipient, amount } => { assert(o.e().subrange(8, 40) =~= recipient); }
        SOutput::ContractCreated { contract_id, state_root } => { assert(o.e().subrange(8, 40) =~= contract_id); assert(o.e().subrange(40, 72) =~= state_root); }
    }
}
/// What is emptied before signing and before predicates are verified.
pub open spec fn oprep(o: SOutput) -> SOutput {
    match o {
        SOutput::Contract { input_index, balance_root, state_root } => SOutput::Contract { input_index, balance_root: zeros(32), state_root: zeros(32) },
        SOutput::Message { recipient, amount } => SOutput::Message { recipient: zeros(32), amount: 0 },
        SOutput::Change { to, amount, asset_id } => SOutput::Change { to, amount: 0, asset_id },
        SOutput::Variable { to, amount, asset_id } => SOutput::Variable { to: zeros(32), amount: 0, asset_id: zeros(32) },
        o => o,
    }
}
/// What is emptied before a script is executed.
pub open spec fn oprep_script(o: SOutput) -> SOutput {
    match o { SOutput::Contract { .. } => o, o => oprep(o) }
}
impl FromSpecImpl<&Output> for OutputRepr { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: &Output) -> Self { okind(*a) } }
impl TryFromSpecImpl<u64> for OutputRepr { open spec fn obeys_try_from_spec() -> bool { false } uninterp spec fn try_from_spec(a: u64) -> core::result::Result<Self, crate::io::Error>; }
impl FromSpecImpl<&mut Output> for OutputRepr { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: &mut Output) -> Self { okind(*a) } }
}
@fn OutputRepr.to_offset
@props C04
@ens
  r == (match *self { OutputRepr::Coin | OutputRepr::Change | OutputRepr::Variable => Some(8usize), _ => None })
@fn OutputRepr.asset_id_offset
@props C04
@ens
  r == (match *self { OutputRepr::Coin | OutputRepr::Change | OutputRepr::Variable => Some(48usize), _ => None })
@fn OutputRepr.contract_balance_root_offset
@props C04
@ens
  r == (match *self { OutputRepr::Contract => Some(16usize), _ => None })
@fn OutputRepr.contract_state_root_offset
@props C04
@ens
  r == (match *self { OutputRepr::Contract => Some(48usize), _ => None })
@fn OutputRepr.contract_created_state_root_offset
@props C04
@ens
  r == (match *self { OutputRepr::ContractCreated => Some(40usize), _ => None })
@fn OutputRepr.contract_id_offset
@props C04
@ens
  r == (match *self { OutputRepr::ContractCreated => Some(8usize), _ => None })
@fn OutputRepr.recipient_offset
@props C04
@ens
  r == (match *self { OutputRepr::Message => Some(8usize), _ => None })
@fn OutputRepr.from_output
@props C01 C24
@ens
  r == okind(*output)
@fn OutputRepr.TryFrom<Word>.try_from
@props C01 C03
@ens
  okind_of(b) is Some ==> r is Ok && r->Ok_0 == okind_of(b)->0, okind_of(b) is None ==> r is Err
@fn OutputRepr.From<&Output>.from
@props C01
@fn OutputRepr.From<&mutOutput>.from
@props C01
@ens
  *final(o) == *old(o)
@derive Output Clone Copy
@keep Output.Copy
@fn Output.Clone.clone
@props C01
@ens
  r == *self
@fn Output.Default.default
@props C01
@fn Output.repr
@props C24
@ens
  r == okind(*self)
@fn Output.coin
@props C24
@ens
  r == (Output::Coin { to: to, amount: amount, asset_id: asset_id })
@fn Output.contract
@props C24
@ens
  r == (Output::Contract { input_index: input_index, balance_root: balance_root, state_root: state_root })
@fn Output.message
@props C24
@ens
  r == (Output::Message { recipient: recipient, amount: amount })
@fn Output.change
@props C24
@ens
  r == (Output::Change { to: to, amount: amount, asset_id: asset_id })
@fn Output.variable
@props C24
@ens
  r == (Output::Variable { to: to, amount: amount, asset_id: asset_id })
@fn Output.contract_created
@props C24
@ens
  r == (Output::ContractCreated { contract_id: contract_id, state_root: state_root })
@fn Output.asset_id
@props C24
@ens
  match *self { Output::Coin { asset_id, .. } | Output::Change { asset_id, .. } | Output::Variable { asset_id, .. } => r is Some && *r->0 == asset_id, _ => r is None }
@fn Output.to
@props C24
@ens
  match *self { Output::Coin { to, .. } | Output::Change { to, .. } | Output::Variable { to, .. } => r is Some && *r->0 == to, _ => r is None }
@fn Output.amount
@props C24
@ens
  r == match *self { Output::Coin { amount, .. } | Output::Message { amount, .. } | Output::Change { amount, .. } | Output::Variable { amount, .. } => Some(amount), _ => None }
@fn Output.input_index
@props C24
@ens
  r == match *self { Output::Contract { input_index, .. } => Some(input_index), _ => None }
@fn Output.balance_root
@props C24
@ens
  match *self { Output::Contract { balance_root, .. } => r is Some && *r->0 == balance_root, _ => r is None }
@fn Output.state_root
@props C24
@ens
  match *self { Output::Contract { state_root, .. } | Output::ContractCreated { state_root, .. } => r is Some && *r->0 == state_root, _ => r is None }
@fn Output.contract_id
@props C24
@ens
  match *self { Output::ContractCreated { contract_id, .. } => r is Some && *r->0 == contract_id, _ => r is None }
@fn Output.recipient
@props C24
@ens
  match *self { Output::Message { recipient, .. } => r is Some && *r->0 == recipient, _ => r is None }
@fn Output.is_coin
@props C24
@ens
  r == (*self is Coin)
@fn Output.is_message
@props C24
@ens
  r == (*self is Message)
@fn Output.is_variable
@props C24
@ens
  r == (*self is Variable)
@fn Output.is_contract
@props C24
@ens
  r == (*self is Contract)
@fn Output.is_contract_created
@props C24
@ens
  r == (*self is ContractCreated)
@fn Output.message_id
@props C19
@ens
  r@ == sha256(sender@ + (recipient@ + (nonce@ + (be8(amount) + data@))))
@pre
broadcast use {grp, cat_cat, cat_empty};
@fn Output.message_nonce
@props C19
@ens
  r@ == sha256(txid@ + seq![idx as u8])
@pre
broadcast use {grp, cat_empty};
assert([idx as u8]@ =~= seq![idx as u8]);
@fn Output.message_digest
@props C19
@ens
  r@ == sha256(data@)
@fn Output.prepare_sign
@props C06 C17
@ens
  final(self).dv() == oprep(old(self).dv())
@fn Output.prepare_init_script
@props C17
@ens
  final(self).dv() == oprep_script(old(self).dv())
@fn Output.prepare_init_predicate
@props C17
@ens
  final(self).dv() == oprep(old(self).dv())
@impl Output.SizedBytes
open spec fn sized_ok(&self) -> bool { true }
open spec fn sized(&self) -> int { self.dv().e().len() as int }
@impl Output.Read
type E = SOutput;
open spec fn ev(&self) -> Self::E { self.dv() }
open spec fn enc(&self) -> Seq<u8> { self.dv().e() }
open spec fn enc_size(&self) -> int { self.dv().e().len() as int }
open spec fn enc_ok(&self) -> bool { true }
@impl Output.Write
type D = SOutput;
open spec fn dvw(&self) -> Self::D { self.dv() }
open spec fn dec(buf: Seq<u8>) -> Option<(Self::D, int)> { SOutput::d(buf) }
@fn Output.SizedBytes.serialized_size
@props C02 C04
@pre
broadcast use grp;
@fn Output.Read.read
@props C01 C02
@pre
broadcast use {grp, peel, sub_base};
proof { base(buf@); }
@fn Output.Write.write
@props C01 C02 C03
@pre
broadcast use {grp, peel, sub_sub};
@fn Output.Write.flush
@props C01
