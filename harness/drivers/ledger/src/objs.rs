//! Chain objects numbered by the specifications.
use common::{
    chain::{
        block::timestamp::BlockTimestamp,
        htlc::{HashedTimelockContract, HtlcSecretHash},
        output_value::OutputValue,
        stakelock::StakePoolData,
        timelock::OutputTimeLock,
        tokens::*,
        AccountCommand, AccountNonce, AccountOutPoint, AccountSpending, DelegationId, Destination, OrderAccountCommand, OrderData, OrderId, PoolId, TxInput, TxOutput,
    },
    primitives::{per_thousand::PerThousand, Amount, BlockHeight, H256},
};
use crypto::vrf::{VRFKeyKind, VRFPrivateKey, VRFPublicKey};

pub fn dest(i: u64) -> Destination {
    let mut b = vec![1u8];
    b.extend_from_slice(&[i as u8; 20]);
    <Destination as serialization::DecodeAll>::decode_all(&mut b.as_slice()).expect("driver: destination")
}
thread_local! {
    pub static VRF: VRFPublicKey = {
        VRFPrivateKey::new_from_rng(&mut randomness::make_true_rng(), VRFKeyKind::Schnorrkel).1
    };
}
pub fn h(i: u64) -> H256 {
    H256::repeat_byte(i as u8)
}
/// output number c: kind c mod 12, variant c / 12
pub fn output(c: u64) -> TxOutput {
    let (k, v) = (c % 12, c / 12);
    let a = Amount::from_atoms(100 + v as u128);
    let lock = || match v % 4 {
        0 => OutputTimeLock::UntilHeight(BlockHeight::new(v)),
        1 => OutputTimeLock::UntilTime(BlockTimestamp::from_int_seconds(v)),
        2 => OutputTimeLock::ForBlockCount(v),
        _ => OutputTimeLock::ForSeconds(v),
    };
    let val = || if v % 2 == 0 { OutputValue::Coin(a) } else { OutputValue::TokenV1(TokenId::new(h(v)), a) };
    match k {
        0 => TxOutput::Transfer(val(), dest(v)),
        1 => TxOutput::LockThenTransfer(val(), dest(v), lock()),
        2 => TxOutput::Burn(val()),
        3 => TxOutput::CreateStakePool(
            PoolId::new(h(v)),
            Box::new(StakePoolData::new(a, dest(v), VRF.with(|x| x.clone()), dest(v + 1), PerThousand::new(v as u16).expect("driver: rate"), a)),
        ),
        4 => TxOutput::ProduceBlockFromStake(dest(v), PoolId::new(h(v))),
        5 => TxOutput::CreateDelegationId(dest(v), PoolId::new(h(v))),
        6 => TxOutput::DelegateStaking(a, DelegationId::new(h(v))),
        7 => TxOutput::IssueFungibleToken(Box::new(TokenIssuance::V1(TokenIssuanceV1 {
            token_ticker: b"AB".to_vec(),
            number_of_decimals: v as u8,
            metadata_uri: b"x".to_vec(),
            total_supply: TokenTotalSupply::Fixed(a),
            authority: dest(v),
            is_freezable: IsTokenFreezable::Yes,
        }))),
        8 => TxOutput::IssueNft(
            TokenId::new(h(v)),
            Box::new(NftIssuance::V0(NftIssuanceV0 {
                metadata: Metadata {
                    creator: None,
                    name: b"n".to_vec(),
                    description: b"d".to_vec(),
                    ticker: b"AB".to_vec(),
                    icon_uri: None.into(),
                    additional_metadata_uri: None.into(),
                    media_uri: None.into(),
                    media_hash: vec![v as u8; 4],
                },
            })),
            dest(v),
        ),
        9 => TxOutput::DataDeposit(vec![v as u8; 3]),
        10 => TxOutput::Htlc(
            val(),
            Box::new(HashedTimelockContract { secret_hash: HtlcSecretHash([v as u8; 20]), spend_key: dest(v), refund_timelock: lock(), refund_key: dest(v + 1) }),
        ),
        _ => TxOutput::CreateOrder(Box::new(OrderData::new(dest(v), OutputValue::Coin(a), OutputValue::TokenV1(TokenId::new(h(v)), a)))),
    }
}
pub fn account_input(k: u64) -> TxInput {
    match k {
        0 => TxInput::Account(AccountOutPoint::new(AccountNonce::new(1), AccountSpending::DelegationBalance(DelegationId::new(h(1)), Amount::from_atoms(1)))),
        1 => TxInput::AccountCommand(AccountNonce::new(1), AccountCommand::MintTokens(TokenId::new(h(1)), Amount::from_atoms(1))),
        _ => TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(OrderId::new(h(1)), Amount::from_atoms(1))),
    }
}
