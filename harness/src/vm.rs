//! Thin driver around the MultiversX Rust VM: raw transactions in, raw results out.
//! Nothing here knows about the lending protocol.

use multiversx_sc_scenario::api::DebugApi;
use multiversx_sc_scenario::executor::debug::ContractContainer;
use multiversx_sc_scenario::multiversx_chain_vm as cvm;
use multiversx_sc_scenario::scenario::run_vm::ScenarioVMRunner;

use cvm::blockchain::state::{AccountData, AccountEsdt, BlockInfo, BlockchainState};
use cvm::host::context::{TxInput, TxLog, TxTokenTransfer};
use cvm::host::execution;
use cvm::host::runtime::RuntimeInstanceCallLambdaDefault;
use cvm::types::{VMAddress, VMCodeMetadata};

pub use num_bigint::BigUint;

pub type Addr = [u8; 32];

#[derive(Clone, Debug)]
pub struct Log {
    pub address: Addr,
    pub endpoint: String,
    pub topics: Vec<Vec<u8>>,
    #[allow(dead_code)]
    pub data: Vec<Vec<u8>>,
}

#[derive(Clone, Debug)]
pub struct TxOut {
    pub ok: bool,
    pub status: u64,
    pub msg: String,
    pub values: Vec<Vec<u8>>,
    pub logs: Vec<Log>,
}
impl TxOut {
    /// the only result of a view; an answer without one reads as empty
    pub fn val(&self) -> &[u8] {
        self.values.first().map_or(&[], |v| v.as_slice())
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Pay {
    pub token: Vec<u8>,
    pub nonce: u64,
    pub amount: BigUint,
}

impl Pay {
    pub fn new(token: &[u8], amount: BigUint) -> Pay {
        Pay { token: token.to_vec(), nonce: 0, amount }
    }
    pub fn nft(token: &[u8], nonce: u64) -> Pay {
        Pay { token: token.to_vec(), nonce, amount: BigUint::from(1u32) }
    }
    pub fn is_egld(&self) -> bool {
        self.token == b"EGLD" || self.token == b"EGLD-000000"
    }
}

pub struct Vm {
    pub runner: ScenarioVMRunner,
    seq: u64,
    pub n_tx: u64,
    pub n_query: u64,
}

fn va(a: &Addr) -> VMAddress {
    VMAddress::from(*a)
}

pub fn to_addr(a: &VMAddress) -> Addr {
    let mut r = [0u8; 32];
    r.copy_from_slice(a.as_bytes());
    r
}

fn conv_logs(l: Vec<TxLog>) -> Vec<Log> {
    l.into_iter()
        .map(|x| Log {
            address: to_addr(&x.address),
            endpoint: x.endpoint.as_str().to_string(),
            topics: x.topics,
            data: x.data,
        })
        .collect()
}

pub struct Snapshot(BlockchainState);

impl Vm {
    pub fn new() -> Vm {
        Vm { runner: ScenarioVMRunner::new(), seq: 0, n_tx: 0, n_query: 0 }
    }

    pub fn register(&mut self, path: &[u8], obj: Box<dyn multiversx_sc::contract_base::CallableContract>)
    {
        self.runner.contract_map_ref.lock().register_contract(
            path.to_vec(),
            ContractContainer::new(obj, None, true),
        );
    }

    pub fn st(&self) -> &BlockchainState {
        &self.runner.blockchain_mock.state
    }
    pub fn st_mut(&mut self) -> &mut BlockchainState {
        self.runner.blockchain_mock.state.mut_state()
    }

    pub fn snapshot(&self) -> Snapshot {
        Snapshot(self.st().clone())
    }
    pub fn restore(&mut self, s: &Snapshot) {
        *self.st_mut() = s.0.clone();
    }

    pub fn add_user(&mut self, a: &Addr) {
        self.put_account(a, None, None);
    }

    pub fn put_account(&mut self, a: &Addr, code: Option<&[u8]>, owner: Option<&Addr>) {
        let addr = va(a);
        let acc = AccountData {
            address: addr.clone(),
            nonce: 0,
            egld_balance: BigUint::from(0u32),
            esdt: AccountEsdt::default(),
            username: vec![],
            storage: Default::default(),
            contract_path: code.map(|c| c.to_vec()),
            code_metadata: VMCodeMetadata::all(),
            contract_owner: owner.map(va),
            developer_rewards: BigUint::from(0u32),
        };
        self.st_mut().accounts.insert(addr, acc);
    }

    pub fn expect_new_address(&mut self, creator: &Addr, new: &Addr) {
        let nonce = self.st().accounts[&va(creator)].nonce;
        self.st_mut().new_addresses.insert((va(creator), nonce), va(new));
    }

    pub fn acc(&self, a: &Addr) -> &AccountData {
        self.st().accounts.get(&va(a)).expect("unknown account")
    }
    pub fn has_acc(&self, a: &Addr) -> bool {
        self.st().accounts.contains_key(&va(a))
    }
    pub fn acc_mut(&mut self, a: &Addr) -> &mut AccountData {
        let k = va(a);
        self.st_mut().accounts.get_mut(&k).expect("unknown account")
    }

    pub fn balance(&self, a: &Addr, token: &[u8]) -> BigUint {
        let acc = self.acc(a);
        if token == b"EGLD" || token == b"EGLD-000000" {
            acc.egld_balance.clone()
        } else {
            acc.esdt.get_esdt_balance(token, 0)
        }
    }
    pub fn nft_balance(&self, a: &Addr, token: &[u8], nonce: u64) -> BigUint {
        self.acc(a).esdt.get_esdt_balance(token, nonce)
    }
    pub fn mint(&mut self, a: &Addr, token: &[u8], amount: &BigUint) {
        let acc = self.acc_mut(a);
        if token == b"EGLD" {
            acc.egld_balance += amount;
        } else {
            let b = acc.esdt.get_esdt_balance(token, 0) + amount;
            acc.esdt.set_esdt_balance(token.to_vec(), 0, &b, Default::default());
        }
    }
    pub fn storage(&self, a: &Addr, key: &[u8]) -> Vec<u8> {
        self.acc(a).storage.get(key).cloned().unwrap_or_default()
    }
    pub fn set_storage(&mut self, a: &Addr, key: &[u8], val: Vec<u8>) {
        let acc = self.acc_mut(a);
        if val.is_empty() {
            acc.storage.remove(key);
        } else {
            acc.storage.insert(key.to_vec(), val);
        }
    }

    pub fn now(&self) -> u64 {
        self.block().block_timestamp
    }
    pub fn block(&self) -> &BlockInfo {
        &self.st().current_block_info
    }
    pub fn set_now(&mut self, ts: u64) {
        let st = self.st_mut();
        st.current_block_info.block_timestamp = ts;
        st.current_block_info.block_nonce += 1;
        st.current_block_info.block_round = ts / 6;
    }

    fn input(
        &mut self,
        from: &Addr,
        to: &Addr,
        func: &str,
        args: Vec<Vec<u8>>,
        pays: &[Pay],
    ) -> TxInput {
        self.seq += 1;
        let mut h = [0u8; 32];
        h[24..].copy_from_slice(&self.seq.to_be_bytes());
        let mut egld = BigUint::from(0u32);
        let mut esdts = vec![];
        if pays.len() == 1 && pays[0].is_egld() {
            egld = pays[0].amount.clone();
        } else {
            for p in pays {
                esdts.push(TxTokenTransfer {
                    token_identifier: if p.is_egld() { b"EGLD-000000".to_vec() } else { p.token.clone() },
                    nonce: p.nonce,
                    value: p.amount.clone(),
                });
            }
        }
        TxInput {
            from: va(from),
            to: va(to),
            egld_value: egld,
            esdt_values: esdts,
            func_name: func.into(),
            args,
            gas_limit: 0,
            gas_price: 0,
            tx_hash: h.into(),
            ..Default::default()
        }
    }

    pub fn call(
        &mut self,
        from: &Addr,
        to: &Addr,
        func: &str,
        args: Vec<Vec<u8>>,
        pays: &[Pay],
    ) -> TxOut {
        self.n_tx += 1;
        let input = self.input(from, to, func, args, pays);
        self.runner.blockchain_mock.state.increase_account_nonce(&input.from);
        let runtime = self.runner.create_debugger_runtime();
        let r = execution::commit_call_with_async_and_callback(
            input,
            &mut self.runner.blockchain_mock.state,
            &runtime,
            RuntimeInstanceCallLambdaDefault,
        );
        TxOut {
            ok: r.result_status.is_success(),
            status: r.result_status.as_u64(),
            msg: r.result_message,
            values: r.result_values,
            logs: conv_logs(r.result_logs),
        }
    }

    /// Read-only execution against the current state.
    pub fn query(&mut self, to: &Addr, func: &str, args: Vec<Vec<u8>>) -> TxOut {
        self.n_query += 1;
        let mut input = self.input(to, to, func, args, &[]);
        input.readonly = true;
        let runtime = self.runner.create_debugger_runtime();
        let state = &mut self.runner.blockchain_mock.state;
        let r = execution::execute_query(input, state, &runtime, RuntimeInstanceCallLambdaDefault);
        TxOut {
            ok: r.result_status.is_success(),
            status: r.result_status.as_u64(),
            msg: r.result_message,
            values: r.result_values,
            logs: conv_logs(r.result_logs),
        }
    }

    pub fn deploy(
        &mut self,
        from: &Addr,
        new_addr: &Addr,
        code: &[u8],
        args: Vec<Vec<u8>>,
    ) -> TxOut {
        self.expect_new_address(from, new_addr);
        let input = self.input(from, &[0u8; 32], "init", args, &[]);
        let runtime = self.runner.create_debugger_runtime();
        let (addr, r) = execution::commit_deploy(
            input,
            code,
            VMCodeMetadata::all(),
            &mut self.runner.blockchain_mock.state,
            &runtime,
            RuntimeInstanceCallLambdaDefault,
        );
        let ok = r.result_status.is_success();
        if ok {
            assert_eq!(&to_addr(&addr), new_addr);
        }
        TxOut {
            ok,
            status: r.result_status.as_u64(),
            msg: r.result_message,
            values: r.result_values,
            logs: conv_logs(r.result_logs),
        }
    }

    /// Upgrade in place, as the owner would (`upgradeContract`).
    pub fn upgrade(&mut self, from: &Addr, to: &Addr, code: &[u8], args: Vec<Vec<u8>>) -> TxOut {
        let mut v = vec![code.to_vec(), vec![0x05, 0x06]];
        v.extend(args);
        self.call(from, to, "upgradeContract", v, &[])
    }
    pub fn set_contract_code(&mut self, a: &Addr, code: &[u8]) {
        self.acc_mut(a).contract_path = Some(code.to_vec());
    }
}

#[allow(dead_code)]
pub type Api = DebugApi;
