//! The gRPC update stream; the harness feeds it.
#[derive(Debug)]
pub struct LaserstreamError;
impl std::fmt::Display for LaserstreamError {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for LaserstreamError {}
#[derive(Clone, Debug, Default)]
pub struct LaserstreamConfig {
    pub api_key: String,
    pub endpoint: String,
    pub max_reconnect_attempts: Option<u32>,
    pub replay: bool,
}
pub struct StreamHandle;
pub mod grpc {
    use std::collections::HashMap;
    #[derive(Clone, Debug, Default)]
    pub struct SubscribeRequest {
        pub accounts: HashMap<String, SubscribeRequestFilterAccounts>,
        pub commitment: Option<i32>,
        pub from_slot: Option<u64>,
    }
    #[derive(Clone, Debug, Default)]
    pub struct SubscribeRequestFilterAccounts {
        pub account: Vec<String>,
        pub owner: Vec<String>,
        pub filters: Vec<SubscribeRequestFilterAccountsFilter>,
        pub nonempty_txn_signature: Option<bool>,
    }
    #[derive(Clone, Debug, Default)]
    pub struct SubscribeRequestFilterAccountsFilter {
        pub filter: Option<subscribe_request_filter_accounts_filter::Filter>,
    }
    pub mod subscribe_request_filter_accounts_filter {
        #[derive(Clone, Debug)]
        pub enum Filter {
            Memcmp(super::SubscribeRequestFilterAccountsFilterMemcmp),
            Datasize(u64),
            TokenAccountState(bool),
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct SubscribeRequestFilterAccountsFilterMemcmp {
        pub offset: u64,
        pub data: Option<subscribe_request_filter_accounts_filter_memcmp::Data>,
    }
    pub mod subscribe_request_filter_accounts_filter_memcmp {
        #[derive(Clone, Debug)]
        pub enum Data {
            Bytes(Vec<u8>),
            Base58(String),
            Base64(String),
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct SubscribeUpdate {
        pub filters: Vec<String>,
        pub update_oneof: Option<subscribe_update::UpdateOneof>,
    }
    pub mod subscribe_update {
        #[derive(Clone, Debug)]
        pub enum UpdateOneof {
            Account(super::SubscribeUpdateAccount),
            Ping(()),
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct SubscribeUpdateAccount {
        pub account: Option<SubscribeUpdateAccountInfo>,
        pub slot: u64,
        pub is_startup: bool,
    }
    #[derive(Clone, Debug, Default)]
    pub struct SubscribeUpdateAccountInfo {
        pub pubkey: Vec<u8>,
        pub lamports: u64,
        pub owner: Vec<u8>,
        pub executable: bool,
        pub rent_epoch: u64,
        pub data: Vec<u8>,
        pub write_version: u64,
    }
}
pub type Item = Result<grpc::SubscribeUpdate, LaserstreamError>;
pub struct Feed(pub fn() -> Option<Item>);
impl futures_core::Stream for Feed {
    type Item = Item;
    fn poll_next(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Option<Item>> {
        std::task::Poll::Ready((self.0)())
    }
}
pub static mut NODE: Option<fn(grpc::SubscribeRequest) -> fn() -> Option<Item>> = None;
/// Endpoints and keys of the subscriptions so far.
pub static mut ASKED: Vec<(String, String)> = vec![];
#[allow(static_mut_refs)]
pub fn subscribe(c: LaserstreamConfig, r: grpc::SubscribeRequest) -> (Feed, StreamHandle) {
    unsafe { ASKED.push((c.endpoint, c.api_key)) };
    (Feed(unsafe { NODE.unwrap() }(r)), StreamHandle)
}
