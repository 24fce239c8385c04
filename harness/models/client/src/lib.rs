//! The RPC node and its subscriptions; the harness is the node. Every call is an await at which other tasks may run.
use solana_program::{hash::Hash, pubkey::Pubkey};
use solana_sdk::{signature::Signature, transaction::Transaction};
/// An account as the node reports it.
#[derive(Clone, Debug, Default)]
pub struct Account {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
    pub rent_epoch: u64,
}
#[derive(Clone, Copy)]
pub struct Node {
    pub accounts: fn(&Pubkey, Option<Vec<rpc_filter::RpcFilterType>>) -> Result<Vec<(Pubkey, Account)>, ()>,
    pub send: fn(&Transaction, rpc_config::RpcSendTransactionConfig) -> Result<Signature, ()>,
    pub confirm: fn(&Signature) -> Result<bool, ()>,
    pub blockhash: fn() -> Result<(Hash, u64), ()>,
    pub subscribe: fn(&Pubkey, Option<Vec<rpc_filter::RpcFilterType>>) -> Result<fn() -> Option<rpc_response::Response<rpc_response::RpcKeyedAccount>>, ()>,
}
pub static mut NODE: Option<Node> = None;
fn node() -> Node {
    unsafe { NODE.unwrap() }
}
/// The servers addressed so far.
pub static mut URLS: Vec<(&'static str, String)> = vec![];
#[allow(static_mut_refs)]
pub fn asked(kind: &'static str, url: &str) {
    unsafe { URLS.push((kind, url.to_string())) }
}
pub mod client_error {
    #[derive(Debug)]
    pub struct ClientError;
    pub type Error = ClientError;
    impl std::fmt::Display for ClientError {
        fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            Ok(())
        }
    }
    impl std::error::Error for ClientError {}
    pub type Result<T> = std::result::Result<T, ClientError>;
    pub type ClientResult<T> = Result<T>;
}
pub mod rpc_filter {
    #[derive(Clone, Debug, PartialEq)]
    pub enum MemcmpEncodedBytes {
        Base58(String),
        Base64(String),
        Bytes(Vec<u8>),
    }
    #[derive(Clone, Debug, PartialEq)]
    pub struct Memcmp {
        pub offset: usize,
        pub bytes: MemcmpEncodedBytes,
    }
    impl Memcmp {
        pub fn new(offset: usize, bytes: MemcmpEncodedBytes) -> Self {
            Memcmp { offset, bytes }
        }
        pub fn new_raw_bytes(offset: usize, bytes: Vec<u8>) -> Self {
            Memcmp { offset, bytes: MemcmpEncodedBytes::Bytes(bytes) }
        }
    }
    #[derive(Clone, Debug, PartialEq)]
    pub enum RpcFilterType {
        DataSize(u64),
        Memcmp(Memcmp),
        TokenAccountState,
    }
}
pub mod rpc_request {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum RpcRequest {
        GetLatestBlockhash,
        GetSlot,
        GetBalance,
        GetAccountInfo,
        SendTransaction,
    }
}
pub mod rpc_response {
    use solana_account_decoder::UiAccount;
    #[derive(Clone, Debug)]
    pub struct RpcResponseContext {
        pub slot: u64,
        pub api_version: Option<String>,
    }
    #[derive(Clone, Debug)]
    pub struct Response<T> {
        pub context: RpcResponseContext,
        pub value: T,
    }
    impl<T> Response<T> {
        pub fn at(slot: u64, value: T) -> Self {
            Response { context: RpcResponseContext { slot, api_version: None }, value }
        }
    }
    #[derive(Clone, Debug)]
    pub struct RpcBlockhash {
        pub blockhash: String,
        pub last_valid_block_height: u64,
    }
    #[derive(Clone, Debug)]
    pub struct RpcKeyedAccount {
        pub pubkey: String,
        pub account: UiAccount,
    }
}
pub mod rpc_config {
    use solana_account_decoder::UiAccountEncoding;
    use solana_commitment_config::{CommitmentConfig, CommitmentLevel};
    #[derive(Clone, Debug, Default)]
    pub struct RpcAccountInfoConfig {
        pub encoding: Option<UiAccountEncoding>,
        pub data_slice: Option<()>,
        pub commitment: Option<CommitmentConfig>,
        pub min_context_slot: Option<u64>,
    }
    #[derive(Clone, Debug, Default)]
    pub struct RpcProgramAccountsConfig {
        pub filters: Option<Vec<crate::rpc_filter::RpcFilterType>>,
        pub account_config: RpcAccountInfoConfig,
        pub with_context: Option<bool>,
        pub sort_results: Option<bool>,
    }
    #[derive(Clone, Copy, Debug, Default)]
    pub struct RpcSendTransactionConfig {
        pub skip_preflight: bool,
        pub preflight_commitment: Option<CommitmentLevel>,
        pub encoding: Option<()>,
        pub max_retries: Option<usize>,
        pub min_context_slot: Option<u64>,
    }
}
pub mod nonblocking {
    pub mod rpc_client {
        use crate::client_error::*;
        use crate::rpc_config::*;
        use crate::rpc_response::*;
        use crate::*;
        use solana_commitment_config::CommitmentConfig;
        pub struct RpcClient;
        pub trait Answer: Sized {
            fn answer(r: crate::rpc_request::RpcRequest) -> std::result::Result<Self, ()>;
        }
        impl Answer for Response<RpcBlockhash> {
            fn answer(_: crate::rpc_request::RpcRequest) -> std::result::Result<Self, ()> {
                let (h, s) = (node().blockhash)()?;
                Ok(Response::at(s, RpcBlockhash { blockhash: h.to_string(), last_valid_block_height: 0 }))
            }
        }
        impl RpcClient {
            pub fn new(u: String) -> Self {
                crate::asked("rpc", &u);
                RpcClient
            }
            pub fn new_with_commitment(u: String, _: CommitmentConfig) -> Self {
                crate::asked("rpc", &u);
                RpcClient
            }
            pub async fn send<T: Answer>(&self, r: crate::rpc_request::RpcRequest, _: impl Sized) -> ClientResult<T> {
                tokio::rt::call().await;
                T::answer(r).map_err(|_| ClientError)
            }
            pub async fn get_latest_blockhash(&self) -> ClientResult<Hash> {
                tokio::rt::call().await;
                (node().blockhash)().map(|x| x.0).map_err(|_| ClientError)
            }
            pub async fn get_program_accounts_with_config(&self, p: &Pubkey, c: RpcProgramAccountsConfig) -> ClientResult<Vec<(Pubkey, Account)>> {
                tokio::rt::call().await;
                (node().accounts)(p, c.filters).map_err(|_| ClientError)
            }
            pub async fn get_program_accounts(&self, p: &Pubkey) -> ClientResult<Vec<(Pubkey, Account)>> {
                tokio::rt::call().await;
                (node().accounts)(p, None).map_err(|_| ClientError)
            }
            pub async fn send_transaction_with_config(&self, t: &Transaction, c: RpcSendTransactionConfig) -> ClientResult<Signature> {
                tokio::rt::call().await;
                (node().send)(t, c).map_err(|_| ClientError)
            }
            pub async fn send_transaction(&self, t: &Transaction) -> ClientResult<Signature> {
                tokio::rt::call().await;
                (node().send)(t, RpcSendTransactionConfig::default()).map_err(|_| ClientError)
            }
            pub async fn confirm_transaction_with_commitment(&self, s: &Signature, _: CommitmentConfig) -> ClientResult<Response<bool>> {
                tokio::rt::call().await;
                (node().confirm)(s).map(|v| Response::at(0, v)).map_err(|_| ClientError)
            }
            pub async fn confirm_transaction(&self, s: &Signature) -> ClientResult<bool> {
                tokio::rt::call().await;
                (node().confirm)(s).map_err(|_| ClientError)
            }
        }
    }
}
pub mod pubsub_client {
    use crate::client_error::ClientError;
    use crate::rpc_config::RpcProgramAccountsConfig;
    use crate::rpc_response::*;
    use crate::*;
    use crossbeam_channel::Receiver;
    pub struct PubsubProgramClientSubscription;
    impl PubsubProgramClientSubscription {
        pub fn shutdown(&mut self) -> Result<(), ()> {
            Ok(())
        }
        pub fn send_unsubscribe(&self) -> Result<(), ()> {
            Ok(())
        }
    }
    pub struct PubsubClient;
    impl PubsubClient {
        pub fn program_subscribe(u: &str, p: &Pubkey, c: Option<RpcProgramAccountsConfig>) -> Result<(PubsubProgramClientSubscription, Receiver<Response<RpcKeyedAccount>>), ClientError> {
            crate::asked("ws", u);
            let f = (node().subscribe)(p, c.and_then(|c| c.filters)).map_err(|_| ClientError)?;
            Ok((PubsubProgramClientSubscription, Receiver(f)))
        }
    }
}

/// The blocking client.
pub mod rpc_client {
    use crate::client_error::*;
    use crate::rpc_config::*;
    use crate::*;
    use solana_commitment_config::CommitmentConfig;
    pub struct Chain {
        pub blockhash: fn() -> std::result::Result<Hash, ()>,
        pub account: fn(&Pubkey) -> std::result::Result<Account, ()>,
        pub airdrop: fn(&Pubkey, u64) -> std::result::Result<Signature, ()>,
        pub send: fn(&Transaction) -> std::result::Result<Signature, ()>,
    }
    pub static mut CHAIN: Option<Chain> = None;
    #[allow(static_mut_refs)]
    fn chain() -> &'static Chain {
        unsafe { CHAIN.as_ref().unwrap() }
    }
    pub struct RpcClient;
    impl RpcClient {
        pub fn new<U: AsRef<str>>(u: U) -> Self {
            crate::asked("rpc", u.as_ref());
            RpcClient
        }
        pub fn new_with_commitment<U: AsRef<str>>(u: U, _: CommitmentConfig) -> Self {
            crate::asked("rpc", u.as_ref());
            RpcClient
        }
        pub fn get_latest_blockhash(&self) -> ClientResult<Hash> {
            (chain().blockhash)().map_err(|_| ClientError)
        }
        pub fn get_account(&self, k: &Pubkey) -> ClientResult<Account> {
            (chain().account)(k).map_err(|_| ClientError)
        }
        pub fn get_account_data(&self, k: &Pubkey) -> ClientResult<Vec<u8>> {
            self.get_account(k).map(|a| a.data)
        }
        pub fn get_balance(&self, k: &Pubkey) -> ClientResult<u64> {
            Ok((chain().account)(k).map(|a| a.lamports).unwrap_or(0))
        }
        pub fn request_airdrop(&self, k: &Pubkey, n: u64) -> ClientResult<Signature> {
            (chain().airdrop)(k, n).map_err(|_| ClientError)
        }
        pub fn send_and_confirm_transaction(&self, t: &Transaction) -> ClientResult<Signature> {
            (chain().send)(t).map_err(|_| ClientError)
        }
        pub fn send_and_confirm_transaction_with_spinner(&self, t: &Transaction) -> ClientResult<Signature> {
            (chain().send)(t).map_err(|_| ClientError)
        }
        pub fn send_transaction(&self, t: &Transaction) -> ClientResult<Signature> {
            (chain().send)(t).map_err(|_| ClientError)
        }
        pub fn send_transaction_with_config(&self, t: &Transaction, _: RpcSendTransactionConfig) -> ClientResult<Signature> {
            (chain().send)(t).map_err(|_| ClientError)
        }
    }
}
