//! C19: wire format of the fixed-layout models.
//!
//! For every model type: its TL-B layout (`F::put`), stated here independently of
//! the code, and three facts for every value: what is stored is exactly the layout,
//! reading it back gives the same value and consumes exactly its bits, and the
//! reading refuses a truncated or differently tagged encoding.
use crate::rtape::{self, RCell};
use crate::tape::{self, Tape, Words, append};
use crate::util::*;
use crate::with_tapes;
use core::num::{NonZeroU16, NonZeroU32, NonZeroU8};
use std::mem::ManuallyDrop;
use tycho_types::cell::*;
use tycho_types::models::*;
use tycho_types::num::*;

/// The layout of a value: its bits, with variable-length integers as marked fields.
pub struct Spec {
    w: Words,
    m: Words,
    bits: u32,
}
impl Spec {
    fn int(&mut self, v: u128, n: u32) {
        self.w = append(self.w, v, n);
        self.m = append(self.m, 0, n);
        self.bits += n;
    }
    fn var(&mut self, v: u128, len_bits: u32, max: u32) {
        self.w = append(self.w, v, max * 8);
        self.m = append(self.m, 1 << (max * 8 - 1), max * 8);
        self.bits += len_bits + (128 - v.leading_zeros() + 7) / 8 * 8;
    }
}

/// A type with a fixed TL-B layout.
pub trait F: Sized {
    /// An arbitrary value.
    fn any() -> Self;
    /// Its layout.
    fn put(&self, s: &mut Spec);
    fn same(&self, o: &Self) -> bool;
    /// Reading does not look at the relations between the fields.
    const LENIENT: bool = false;
    /// The values the type allows.
    fn good(&self) -> bool {
        true
    }
}
macro_rules! prim {
    ($($t:ty, $n:literal;)*) => {$(
        impl F for $t {
            fn any() -> Self { kani::any() }
            fn put(&self, s: &mut Spec) { s.int(*self as u128, $n) }
            fn same(&self, o: &Self) -> bool { self == o }
        }
    )*};
}
prim!(u8, 8; u16, 16; u32, 32; u64, 64; i8, 8; i16, 16; i32, 32; i64, 64; bool, 1;);
macro_rules! nonzero {
    ($($t:ty, $n:literal;)*) => {$(
        impl F for $t {
            fn any() -> Self { kani::any() }
            fn put(&self, s: &mut Spec) { s.int(self.get() as u128, $n) }
            fn same(&self, o: &Self) -> bool { self.get() == o.get() }
        }
    )*};
}
nonzero!(NonZeroU8, 8; NonZeroU16, 16; NonZeroU32, 32;);
impl F for Uint12 {
    fn any() -> Self {
        let x: u16 = kani::any();
        kani::assume(x < 1 << 12);
        Uint12::new(x)
    }
    fn put(&self, s: &mut Spec) {
        s.int(self.into_inner() as u128, 12)
    }
    fn same(&self, o: &Self) -> bool {
        self.into_inner() == o.into_inner()
    }
}
macro_rules! vars {
    ($($t:ty, $i:ty, $len:literal, $max:literal;)*) => {$(
        impl F for $t {
            fn any() -> Self {
                let x: $i = kani::any();
                kani::assume(x >> ($max * 8) == 0);
                <$t>::new(x)
            }
            fn put(&self, s: &mut Spec) { s.var(self.into_inner() as u128, $len, $max) }
            fn same(&self, o: &Self) -> bool { self.into_inner() == o.into_inner() }
        }
    )*};
}
vars!(VarUint24, u32, 2, 3; VarUint56, u64, 3, 7; Tokens, u128, 4, 15;);

fn words(h: &[u8; 32]) -> [u128; 2] {
    let x: [u128; 2] = unsafe { core::mem::transmute(*h) };
    [u128::from_be(x[0]), u128::from_be(x[1])]
}
impl F for HashBytes {
    fn any() -> Self {
        let x: [u128; 2] = [kani::any(), kani::any()];
        HashBytes(unsafe { core::mem::transmute(x) })
    }
    fn put(&self, s: &mut Spec) {
        let [a, b] = words(&self.0);
        s.int(a, 128);
        s.int(b, 128);
    }
    fn same(&self, o: &Self) -> bool {
        let (a, b) = (words(&self.0), words(&o.0));
        a[0] == b[0] && a[1] == b[1]
    }
}
impl<T: F> F for Option<T> {
    fn any() -> Self {
        if kani::any() { Some(T::any()) } else { None }
    }
    fn put(&self, s: &mut Spec) {
        s.int(self.is_some() as u128, 1);
        if let Some(x) = self {
            x.put(s);
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Some(a), Some(b)) => a.same(b),
            (None, None) => true,
            _ => false,
        }
    }
    fn good(&self) -> bool {
        self.as_ref().is_none_or(T::good)
    }
}

/// `layout!(Type tag bits { fields in layout order } [where good])`
macro_rules! layout {
    ($($t:ident $tag:literal $n:literal { $($f:ident)* } $(where |$v:ident| $good:expr)?;)*) => {$(
        impl F for $t {
            fn any() -> Self {
                $t { $($f: F::any()),* }
            }
            fn put(&self, s: &mut Spec) {
                s.int($tag, $n);
                $(self.$f.put(s);)*
            }
            fn same(&self, o: &Self) -> bool {
                true $(&& self.$f.same(&o.$f))*
            }
            fn good(&self) -> bool {
                $(let $v = self; if !$good { return false; })?
                true $(&& self.$f.good())*
            }
        }
    )*};
}
/// Plain enums: `variant = code, bits`.
macro_rules! choice {
    ($($t:ident { $($v:ident = $c:literal, $n:literal;)* })*) => {$(
        impl F for $t {
            fn any() -> Self {
                let x: u8 = kani::any();
                let mut i = 0u8;
                $(if x == i { return $t::$v; } i += 1;)*
                kani::assume(x < i);
                unreachable!()
            }
            fn put(&self, s: &mut Spec) {
                match self { $($t::$v => s.int($c, $n),)* }
            }
            fn same(&self, o: &Self) -> bool {
                match (self, o) { $(($t::$v, $t::$v) => true,)* _ => false }
            }
        }
    )*};
}
/// Enums with payload: `variant(payload) = code, bits`.
macro_rules! sum {
    ($($t:ident { $($v:ident = $c:literal, $n:literal;)* })*) => {$(
        impl F for $t {
            fn any() -> Self {
                let x: u8 = kani::any();
                let mut i = 0u8;
                $(if x == i { return $t::$v(F::any()); } i += 1;)*
                kani::assume(x < i);
                unreachable!()
            }
            fn put(&self, s: &mut Spec) {
                match self { $($t::$v(x) => { s.int($c, $n); x.put(s) })* }
            }
            fn same(&self, o: &Self) -> bool {
                match (self, o) { $(($t::$v(a), $t::$v(b)) => a.same(b),)* _ => false }
            }
            fn good(&self) -> bool {
                match self { $($t::$v(a) => a.good(),)* }
            }
        }
    )*};
}

/// The three facts. `tag` is the number of leading bits with a fixed value.
fn codec<T: F + Store + for<'a> Load<'a>>(tag: u32, same: bool) {
    let v = ManuallyDrop::new(T::any());
    let mut b = ManuallyDrop::new(CellBuilder::from(CellDataBuilder::verif_from_parts([0; 128], 0)));
    let r = v.store_into(&mut b, &NoCtx);
    if !v.good() {
        assert!(r.is_err(), "an invalid value is not stored");
        let mut s = Spec { w: tape::ZERO, m: tape::ZERO, bits: 0 };
        v.put(&mut s);
        let c = RCell::of(tape::shl(s.w, 1024 - s.bits), s.bits as u16);
        let r = ManuallyDrop::new(T::load_from(&mut c.slice()));
        assert!(T::LENIENT || r.is_err(), "an invalid value is not read");
        return;
    }
    assert!(r.is_ok(), "a valid value is stored");
    let mut s = Spec { w: tape::ZERO, m: tape::ZERO, bits: 0 };
    v.put(&mut s);
    assert!(tape::is(Tape::words(), s.w) && tape::is(Tape::marks(), s.m), "exactly the layout is stored");
    assert!(b.size_bits() as u32 == s.bits && b.size_refs() == 0, "no more and no less");
    let cut: u16 = kani::any();
    kani::assume(cut <= b.size_bits());
    let flip: u128 = kani::any();
    kani::assume(if tag == 0 { flip == 0 } else { flip << tag == 0 });
    let c = RCell::altered(&b, flip, cut);
    let mut cs = c.slice();
    let r = ManuallyDrop::new(T::load_from(&mut cs));
    match &*r {
        Ok(r) => {
            assert!(flip == 0 || !same, "other tags are refused");
            if flip == 0 {
                assert!(cut == 0, "truncated data is refused");
                assert!(v.same(r), "the value is read back");
                assert!(cs.is_data_empty(), "exactly its bits are consumed");
            }
        }
        Err(_) => assert!(flip != 0 || cut != 0, "what was stored can be read"),
    }
    kani::cover!(r.is_ok());
}

macro_rules! codecs {
    ($($name:ident $t:ty, $tag:literal;)*) => {$(
        with_tapes! {
            #[kani::unwind(18)]
            fn $name() {
                codec::<$t>($tag, true)
            }
        }
    )*};
}

layout! {
    StorageUsed 0 0 { cells bits };
    StorageUsedShort 0 0 { cells bits };
    StorageInfo 0 0 { used storage_extra last_paid due_payment };
    SpecialFlags 0 0 { tick tock };
    BlockRef 0 0 { end_lt seqno root_hash file_hash };
    BurningConfig 1 8 { blackhole_addr fee_burn_num fee_burn_denom } where |v| v.fee_burn_num <= v.fee_burn_denom.get();
    ConfigProposalSetup 0x36 8 { min_total_rounds max_total_rounds min_wins max_losses min_store_sec max_store_sec bit_price cell_price };
    WorkchainFormatBasic 0 0 { vm_version vm_mode };
    WorkchainFormatExtended 0 0 { min_addr_len max_addr_len addr_len_step workchain_type_id }
        where |v| v.min_addr_len.into_inner() >= 64 && v.min_addr_len.into_inner() <= v.max_addr_len.into_inner()
            && v.max_addr_len.into_inner() <= 1023 && v.addr_len_step.into_inner() <= 1023;
    BlockCreationRewards 0x6b 8 { masterchain_block_fee basechain_block_fee };
    ElectionTimings 0 0 { validators_elected_for elections_start_before elections_end_before stake_held_for };
    ValidatorCountParams 0 0 { max_validators max_main_validators min_validators };
    ValidatorStakeParams 0 0 { min_stake max_stake min_total_stake max_stake_factor };
    StoragePrices 0xcc 8 { utime_since bit_price_ps cell_price_ps mc_bit_price_ps mc_cell_price_ps };
    BlockParamLimits 0xc3 8 { underload soft_limit hard_limit } where |v| v.underload <= v.soft_limit && v.soft_limit <= v.hard_limit;
    BlockLimits 0x5d 8 { bytes gas lt_delta };
    MsgForwardPrices 0xea 8 { lump_price bit_price cell_price ihr_price_factor first_frac next_frac };
    SizeLimitsConfig 2 8 { max_msg_bits max_msg_cells max_library_cells max_vm_data_depth max_ext_msg_size max_ext_msg_depth
        max_acc_state_cells max_acc_state_bits max_acc_public_libraries defer_out_queue_size_limit };
    GlobalVersion 0xc4 8 { version capabilities };
    IntermediateAddrSimple 0 0 { workchain address_prefix };
    IntermediateAddrExt 0 0 { workchain address_prefix };
    OutMsgDequeueShort 0 0 { msg_env_hash next_workchain next_addr_pfx import_block_lt };
    ValidatorInfo 0 0 { validator_list_hash_short catchain_seqno nx_cc_updated };
    ValidatorBaseInfo 0 0 { validator_list_hash_short catchain_seqno };
    KeyBlockRef 0 0 { is_key_block block_ref };
    KeyMaxLt 0 0 { has_key_block max_end_lt };
    BlockCounters 0 0 { updated_at total cnt2048 cnt65536 };
    CreatorStats 4 4 { mc_blocks shard_blocks };
    HashUpdate 0x72 8 { old new };
    StoragePhase 0 0 { storage_fees_collected storage_fees_due status_change };
    SkippedComputePhase 0 0 { reason };
    NoFundsBouncePhase 0 0 { msg_size req_fwd_fees };
    ExecutedBouncePhase 0 0 { msg_size msg_fees fwd_fees };
    ActionPhase 0 0 { success valid no_funds status_change total_fwd_fees total_action_fees result_code result_arg
        total_actions special_actions skipped_actions messages_created action_list_hash total_message_size };
}
choice! {
    AccountStatus { Uninit = 0, 2; Frozen = 1, 2; Active = 2, 2; NotExists = 3, 2; }
    AccountStatusChange { Unchanged = 0, 1; Frozen = 2, 2; Deleted = 3, 2; }
    ComputePhaseSkipReason { NoState = 0, 2; BadState = 1, 2; NoGas = 2, 2; Suspended = 6, 3; }
    TickTock { Tick = 0, 1; Tock = 1, 1; }
    MsgType { Int = 0, 1; ExtIn = 2, 2; ExtOut = 3, 2; }
}
sum! {
    WorkchainFormat { Basic = 1, 4; Extended = 0, 4; }
    IntermediateAddr { Regular = 0, 1; Simple = 2, 2; Ext = 3, 2; }
}
impl F for StorageExtra {
    fn any() -> Self {
        if kani::any() { StorageExtra::None } else { StorageExtra::DictHash(F::any()) }
    }
    fn put(&self, s: &mut Spec) {
        match self {
            StorageExtra::None => s.int(0, 3),
            StorageExtra::DictHash(h) => {
                s.int(1, 3);
                h.put(s)
            }
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (StorageExtra::None, StorageExtra::None) => true,
            (StorageExtra::DictHash(a), StorageExtra::DictHash(b)) => a.same(b),
            _ => false,
        }
    }
}
impl F for FutureSplitMerge {
    fn any() -> Self {
        if kani::any() {
            FutureSplitMerge::Split { split_utime: F::any(), interval: F::any() }
        } else {
            FutureSplitMerge::Merge { merge_utime: F::any(), interval: F::any() }
        }
    }
    fn put(&self, s: &mut Spec) {
        let (m, a, b) = match self {
            FutureSplitMerge::Split { split_utime, interval } => (0, split_utime, interval),
            FutureSplitMerge::Merge { merge_utime, interval } => (1, merge_utime, interval),
        };
        s.int(m, 1);
        a.put(s);
        b.put(s);
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (FutureSplitMerge::Split { split_utime: a, interval: b }, FutureSplitMerge::Split { split_utime: c, interval: d }) => a == c && b == d,
            (FutureSplitMerge::Merge { merge_utime: a, interval: b }, FutureSplitMerge::Merge { merge_utime: c, interval: d }) => a == c && b == d,
            _ => false,
        }
    }
}
impl F for IntermediateAddrRegular {
    fn any() -> Self {
        match IntermediateAddrRegular::with_dest_bits(kani::any()) {
            Some(x) => x,
            None => {
                kani::assume(false);
                unreachable!()
            }
        }
    }
    fn put(&self, s: &mut Spec) {
        s.int(self.use_dest_bits() as u128, 8)
    }
    fn same(&self, o: &Self) -> bool {
        self.use_dest_bits() == o.use_dest_bits()
    }
}
impl F for GlobalCapabilities {
    fn any() -> Self {
        GlobalCapabilities::new(kani::any())
    }
    fn put(&self, s: &mut Spec) {
        s.int(self.into_inner() as u128, 64)
    }
    fn same(&self, o: &Self) -> bool {
        self.into_inner() == o.into_inner()
    }
}
impl F for Signature {
    fn any() -> Self {
        let x: [u128; 4] = [kani::any(), kani::any(), kani::any(), kani::any()];
        Signature(unsafe { core::mem::transmute(x) })
    }
    fn put(&self, s: &mut Spec) {
        let x: [u128; 4] = unsafe { core::mem::transmute(self.0) };
        s.int(5, 4);
        s.int(x[0].to_be(), 128);
        s.int(x[1].to_be(), 128);
        s.int(x[2].to_be(), 128);
        s.int(x[3].to_be(), 128);
    }
    fn same(&self, o: &Self) -> bool {
        let x: [u128; 4] = unsafe { core::mem::transmute(self.0) };
        let y: [u128; 4] = unsafe { core::mem::transmute(o.0) };
        x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3]
    }
}
layout! {
    BlockSignature 0 0 { node_id_short signature };
}
impl F for SendMsgFlags {
    fn any() -> Self {
        SendMsgFlags::from_bits_retain(kani::any())
    }
    fn put(&self, s: &mut Spec) {
        s.int(self.bits() as u128, 8)
    }
    fn same(&self, o: &Self) -> bool {
        self.bits() == o.bits()
    }
}
impl F for ReserveCurrencyFlags {
    fn any() -> Self {
        ReserveCurrencyFlags::from_bits_retain(kani::any())
    }
    fn put(&self, s: &mut Spec) {
        s.int(self.bits() as u128, 8)
    }
    fn same(&self, o: &Self) -> bool {
        self.bits() == o.bits()
    }
}
impl F for GasLimitsPrices {
    fn any() -> Self {
        GasLimitsPrices {
            gas_price: F::any(),
            gas_limit: F::any(),
            special_gas_limit: F::any(),
            gas_credit: F::any(),
            block_gas_limit: F::any(),
            freeze_due_limit: F::any(),
            delete_due_limit: F::any(),
            flat_gas_limit: F::any(),
            flat_gas_price: F::any(),
        }
    }
    fn put(&self, s: &mut Spec) {
        s.int(0xd1, 8);
        self.flat_gas_limit.put(s);
        self.flat_gas_price.put(s);
        s.int(0xde, 8);
        self.gas_price.put(s);
        self.gas_limit.put(s);
        self.special_gas_limit.put(s);
        self.gas_credit.put(s);
        self.block_gas_limit.put(s);
        self.freeze_due_limit.put(s);
        self.delete_due_limit.put(s);
    }
    fn same(&self, o: &Self) -> bool {
        self.gas_price == o.gas_price
            && self.gas_limit == o.gas_limit
            && self.special_gas_limit == o.special_gas_limit
            && self.gas_credit == o.gas_credit
            && self.block_gas_limit == o.block_gas_limit
            && self.freeze_due_limit == o.freeze_due_limit
            && self.delete_due_limit == o.delete_due_limit
            && self.flat_gas_limit == o.flat_gas_limit
            && self.flat_gas_price == o.flat_gas_price
    }
}
impl F for CatchainConfig {
    fn any() -> Self {
        CatchainConfig {
            isolate_mc_validators: F::any(),
            shuffle_mc_validators: F::any(),
            mc_catchain_lifetime: F::any(),
            shard_catchain_lifetime: F::any(),
            shard_validators_lifetime: F::any(),
            shard_validators_num: F::any(),
        }
    }
    fn put(&self, s: &mut Spec) {
        s.int(0xc2, 8);
        s.int(0, 6);
        self.isolate_mc_validators.put(s);
        self.shuffle_mc_validators.put(s);
        self.mc_catchain_lifetime.put(s);
        self.shard_catchain_lifetime.put(s);
        self.shard_validators_lifetime.put(s);
        self.shard_validators_num.put(s);
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl F for ConsensusConfig {
    const LENIENT: bool = true;
    fn good(&self) -> bool {
        self.round_candidates.get() <= 255
    }
    fn any() -> Self {
        ConsensusConfig {
            new_catchain_ids: F::any(),
            round_candidates: F::any(),
            next_candidate_delay_ms: F::any(),
            consensus_timeout_ms: F::any(),
            fast_attempts: F::any(),
            attempt_duration: F::any(),
            catchain_max_deps: F::any(),
            max_block_bytes: F::any(),
            max_collated_bytes: F::any(),
        }
    }
    fn put(&self, s: &mut Spec) {
        s.int(0xd7, 8);
        s.int(0, 7);
        self.new_catchain_ids.put(s);
        s.int(self.round_candidates.get() as u128, 8);
        self.next_candidate_delay_ms.put(s);
        self.consensus_timeout_ms.put(s);
        self.fast_attempts.put(s);
        self.attempt_duration.put(s);
        self.catchain_max_deps.put(s);
        self.max_block_bytes.put(s);
        self.max_collated_bytes.put(s);
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl F for ValidatorDescription {
    fn any() -> Self {
        ValidatorDescription {
            public_key: F::any(),
            weight: F::any(),
            adnl_addr: F::any(),
            mc_seqno_since: F::any(),
            prev_total_weight: 0,
        }
    }
    fn put(&self, s: &mut Spec) {
        let tag = if self.mc_seqno_since != 0 { 0x93 } else if self.adnl_addr.is_some() { 0x73 } else { 0x53 };
        s.int(tag, 8);
        s.int(0x8e81278a, 32);
        self.public_key.put(s);
        self.weight.put(s);
        match &self.adnl_addr {
            Some(a) => a.put(s),
            None if self.mc_seqno_since != 0 => HashBytes::ZERO.put(s),
            None => {}
        }
        if self.mc_seqno_since != 0 {
            self.mc_seqno_since.put(s);
        }
    }
    fn same(&self, o: &Self) -> bool {
        let a = match &self.adnl_addr {
            None if self.mc_seqno_since != 0 => &Some(HashBytes::ZERO),
            x => x,
        };
        self.public_key.same(&o.public_key) && self.weight == o.weight && a.same(&o.adnl_addr) && self.mc_seqno_since == o.mc_seqno_since
    }
}
impl F for WorkchainDescription {
    const LENIENT: bool = true;
    fn any() -> Self {
        WorkchainDescription {
            enabled_since: F::any(),
            actual_min_split: F::any(),
            min_split: F::any(),
            max_split: F::any(),
            active: F::any(),
            accept_msgs: F::any(),
            zerostate_root_hash: F::any(),
            zerostate_file_hash: F::any(),
            version: F::any(),
            format: F::any(),
        }
    }
    fn put(&self, s: &mut Spec) {
        s.int(0xa6, 8);
        self.enabled_since.put(s);
        self.actual_min_split.put(s);
        self.min_split.put(s);
        self.max_split.put(s);
        matches!(self.format, WorkchainFormat::Basic(_)).put(s);
        self.active.put(s);
        self.accept_msgs.put(s);
        s.int(0, 13);
        self.zerostate_root_hash.put(s);
        self.zerostate_file_hash.put(s);
        self.version.put(s);
        self.format.put(s);
    }
    fn same(&self, o: &Self) -> bool {
        self.enabled_since == o.enabled_since
            && self.actual_min_split == o.actual_min_split
            && self.min_split == o.min_split
            && self.max_split == o.max_split
            && self.active == o.active
            && self.accept_msgs == o.accept_msgs
            && self.zerostate_root_hash.same(&o.zerostate_root_hash)
            && self.zerostate_file_hash.same(&o.zerostate_file_hash)
            && self.version == o.version
            && self.format.same(&o.format)
    }
    fn good(&self) -> bool {
        self.min_split <= self.max_split && self.max_split <= 60 && self.format.good()
    }
}

codecs! {
    //@ C19 quick complete | BurningConfig: Store, Load | any value, any truncation, any other tag | c19_burning
    c19_burning BurningConfig, 8;
    //@ C19 quick complete | ConfigProposalSetup: Store, Load | any value, any truncation, any other tag | c19_proposal_setup
    c19_proposal_setup ConfigProposalSetup, 8;
    //@ C19 quick complete | WorkchainFormat: Store, Load | any value, any truncation | c19_workchain_format
    c19_workchain_format WorkchainFormat, 0;
    //@ C19 quick complete | WorkchainDescription: Store, Load | any value, any truncation, any other tag | c19_workchain
    c19_workchain WorkchainDescription, 8;
    //@ C19 quick complete | BlockCreationRewards: Store, Load | any value, any truncation, any other tag | c19_rewards
    c19_rewards BlockCreationRewards, 8;
    //@ C19 quick complete | ElectionTimings: Store, Load | any value, any truncation | c19_elections
    c19_elections ElectionTimings, 0;
    //@ C19 quick complete | ValidatorCountParams: Store, Load | any value, any truncation | c19_validator_count
    c19_validator_count ValidatorCountParams, 0;
    //@ C19 quick complete | ValidatorStakeParams: Store, Load | any value, any truncation | c19_validator_stake
    c19_validator_stake ValidatorStakeParams, 0;
    //@ C19 quick complete | StoragePrices: Store, Load | any value, any truncation, any other tag | c19_storage_prices
    c19_storage_prices StoragePrices, 8;
    //@ C19 quick complete | BlockLimits: Store, Load | any value, any truncation, any other tag | c19_block_limits
    c19_block_limits BlockLimits, 8;
    //@ C19 quick complete | MsgForwardPrices: Store, Load | any value, any truncation, any other tag | c19_forward_prices
    c19_forward_prices MsgForwardPrices, 8;
    //@ C19 quick complete | CatchainConfig: Store, Load | any value, any truncation | c19_catchain
    c19_catchain CatchainConfig, 0;
    //@ C19 quick complete | ConsensusConfig: Store, Load | any value, any truncation | c19_consensus
    c19_consensus ConsensusConfig, 0;
    //@ C19 quick complete | SizeLimitsConfig: Store, Load | any value, any truncation, any other tag | c19_size_limits
    c19_size_limits SizeLimitsConfig, 8;
    //@ C19 quick complete | ValidatorDescription: Store, Load | any value, any truncation | c19_validator
    c19_validator ValidatorDescription, 0;
    //@ C19 quick complete | GlobalVersion: Store, Load | any value, any truncation, any other tag | c19_version
    c19_version GlobalVersion, 8;
}
codecs! {
    //@ C20 quick complete | StorageUsed: Store, Load | any value, any truncation | c19_storage_used
    c19_storage_used StorageUsed, 0;
    //@ C20 quick complete | StorageUsedShort: Store, Load | any value, any truncation | c19_storage_used_short
    c19_storage_used_short StorageUsedShort, 0;
    //@ C20 quick complete | StorageInfo: Store, Load | any value, any truncation | c19_storage_info
    c19_storage_info StorageInfo, 0;
    //@ C20 quick complete | StorageExtra: Store, Load | any value, any truncation | c19_storage_extra
    c19_storage_extra StorageExtra, 0;
    //@ C20 quick complete | SpecialFlags: Store, Load | any value, any truncation | c19_special_flags
    c19_special_flags SpecialFlags, 0;
    //@ C20 quick complete | HashUpdate: Store, Load | any value, any truncation, any other tag | c19_hash_update
    c19_hash_update HashUpdate, 8;
    //@ C20 quick complete | StoragePhase: Store, Load | any value, any truncation | c19_storage_phase
    c19_storage_phase StoragePhase, 0;
    //@ C20 quick complete | SkippedComputePhase: Store, Load | any value, any truncation | c19_skipped
    c19_skipped SkippedComputePhase, 0;
    //@ C20 quick complete | ActionPhase: Store, Load | any value, any truncation | c19_action_phase
    c19_action_phase ActionPhase, 0;
    //@ C20 quick complete | NoFundsBouncePhase: Store, Load | any value, any truncation | c19_bounce_no_funds
    c19_bounce_no_funds NoFundsBouncePhase, 0;
    //@ C20 quick complete | ExecutedBouncePhase: Store, Load | any value, any truncation | c19_bounce_executed
    c19_bounce_executed ExecutedBouncePhase, 0;
    //@ C20 quick complete | AccountStatus: Store, Load | any value, any truncation | c19_account_status
    c19_account_status AccountStatus, 0;
    //@ C20 quick complete | TickTock: Store, Load | any value, any truncation | c19_tick_tock
    c19_tick_tock TickTock, 0;
}
codecs! {
    //@ C21 quick complete | BlockRef: Store, Load | any value, any truncation | c19_block_ref
    c19_block_ref BlockRef, 0;
    //@ C21 quick complete | Signature: Store, Load | any value, any truncation, any other tag | c19_signature
    c19_signature Signature, 4;
    //@ C21 quick complete | BlockSignature: Store, Load | any value, any truncation | c19_block_signature
    c19_block_signature BlockSignature, 0;
    //@ C21 quick complete | IntermediateAddr: Store, Load | any value, any truncation | c19_intermediate
    c19_intermediate IntermediateAddr, 0;
    //@ C21 quick complete | OutMsgDequeueShort: Store, Load | any value, any truncation | c19_dequeue_short
    c19_dequeue_short OutMsgDequeueShort, 0;
    //@ C21 quick complete | ValidatorInfo: Store, Load | any value, any truncation | c19_validator_info
    c19_validator_info ValidatorInfo, 0;
    //@ C21 quick complete | ValidatorBaseInfo: Store, Load | any value, any truncation | c19_validator_base_info
    c19_validator_base_info ValidatorBaseInfo, 0;
    //@ C21 quick complete | KeyBlockRef: Store, Load | any value, any truncation | c19_key_block_ref
    c19_key_block_ref KeyBlockRef, 0;
    //@ C21 quick complete | KeyMaxLt: Store, Load | any value, any truncation | c19_key_max_lt
    c19_key_max_lt KeyMaxLt, 0;
    //@ C21 quick complete | CreatorStats: Store, Load | any value, any truncation, any other tag | c19_creator_stats
    c19_creator_stats CreatorStats, 4;
    //@ C21 quick complete | MsgType: Store, Load | any value, any truncation | c19_msg_type
    c19_msg_type MsgType, 0;
    //@ C21 quick complete | FutureSplitMerge: Store, Load | any value, any truncation | c19_split_merge
    c19_split_merge FutureSplitMerge, 0;
    //@ C21 quick complete | SendMsgFlags: Store, Load | any value, any truncation | c19_send_flags
    c19_send_flags SendMsgFlags, 0;
    //@ C21 quick complete | ReserveCurrencyFlags: Store, Load | any value, any truncation | c19_reserve_flags
    c19_reserve_flags ReserveCurrencyFlags, 0;
}

with_tapes! {
    //@ C19 quick complete | GasLimitsPrices: Store, Load | any value, any truncation | c19_gas
    #[kani::unwind(4)]
    fn c19_gas() {
        codec::<GasLimitsPrices>(0, true)
    }
}

//@ C19 quick complete | WorkchainFormatExtended::check_addr_len | any valid format, any length
#[kani::proof]
fn c19_addr_len() {
    let f = WorkchainFormatExtended::any();
    let n: u16 = kani::any();
    kani::assume(f.good());
    let (lo, hi, step) = (f.min_addr_len.into_inner(), f.max_addr_len.into_inner(), f.addr_len_step.into_inner());
    let want = n == lo || n == hi || (lo <= n && n <= hi && step != 0 && (n - lo) % step == 0);
    assert!(f.check_addr_len(n) == want);
    assert!(f.is_valid());
}

/// Reading a layout that is not written any more.
fn legacy<T: F + for<'a> Load<'a>>(put: fn(&T, &mut Spec), keep: fn(&T) -> bool) {
    let v = ManuallyDrop::new(T::any());
    kani::assume(keep(&v));
    let mut s = Spec { w: tape::ZERO, m: tape::ZERO, bits: 0 };
    put(&v, &mut s);
    let cut: u16 = kani::any();
    kani::assume(cut as u32 <= s.bits);
    let c = RCell::of(tape::shl(s.w, 1024 - s.bits), s.bits as u16 - cut);
    let mut cs = c.slice();
    let r = ManuallyDrop::new(T::load_from(&mut cs));
    match &*r {
        Ok(r) => {
            assert!(cut == 0, "truncated data is refused");
            assert!(v.same(r), "the value is read");
            assert!(cs.is_data_empty(), "exactly its bits are consumed");
        }
        Err(_) => assert!(cut != 0, "the layout can be read"),
    }
    kani::cover!(r.is_ok());
}
with_tapes! {
    //@ C19 quick complete | CatchainConfig::load_from (first version) | any value, any truncation | c19_catchain_v1
    #[kani::unwind(18)]
    fn c19_catchain_v1() {
        legacy::<CatchainConfig>(|v, s| {
            s.int(0xc1, 8);
            v.mc_catchain_lifetime.put(s);
            v.shard_catchain_lifetime.put(s);
            v.shard_validators_lifetime.put(s);
            v.shard_validators_num.put(s);
        }, |v| !v.isolate_mc_validators && !v.shuffle_mc_validators)
    }
}
with_tapes! {
    //@ C19 quick complete | ConsensusConfig::load_from (first version) | any value, any truncation | c19_consensus_v1
    #[kani::unwind(18)]
    fn c19_consensus_v1() {
        legacy::<ConsensusConfig>(|v, s| {
            s.int(0xd6, 8);
            v.round_candidates.put(s);
            v.next_candidate_delay_ms.put(s);
            v.consensus_timeout_ms.put(s);
            v.fast_attempts.put(s);
            v.attempt_duration.put(s);
            v.catchain_max_deps.put(s);
            v.max_block_bytes.put(s);
            v.max_collated_bytes.put(s);
        }, |v| !v.new_catchain_ids)
    }
}
with_tapes! {
    //@ C19 quick complete | GasLimitsPrices::load_from (first version) | any value, any truncation | c19_gas_v1
    #[kani::unwind(4)]
    fn c19_gas_v1() {
        legacy::<GasLimitsPrices>(|v, s| {
            s.int(0xdd, 8);
            v.gas_price.put(s);
            v.gas_limit.put(s);
            v.gas_credit.put(s);
            v.block_gas_limit.put(s);
            v.freeze_due_limit.put(s);
            v.delete_due_limit.put(s);
        }, |v| v.special_gas_limit == 0 && v.flat_gas_limit == 0 && v.flat_gas_price == 0)
    }
}
