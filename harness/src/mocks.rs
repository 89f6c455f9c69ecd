//! Mock contracts the protocol talks to: price sources, swap router / flash-loan receiver
//! ("puppet", fully scripted by the workload), and the revenue accumulator.

pub mod feed {
    multiversx_sc::imports!();

    /// xExchange pair, OneDex, liquid-staking contracts and the xExchange safe-price view,
    /// all driven by raw storage written by the workload.
    #[multiversx_sc::contract]
    pub trait Feed {
        #[init]
        fn init(&self) {}

        #[view(getFirstTokenId)]
        fn first(&self) -> TokenIdentifier {
            self.first_s().get()
        }
        #[view(getSecondTokenId)]
        fn second(&self) -> TokenIdentifier {
            self.second_s().get()
        }
        #[view(getPairFirstTokenId)]
        fn pfirst(&self, _id: usize) -> TokenIdentifier {
            self.first_s().get()
        }
        #[view(getPairSecondTokenId)]
        fn psecond(&self, _id: usize) -> TokenIdentifier {
            self.second_s().get()
        }
        #[view(getMainToken)]
        fn main_token(&self) -> TokenIdentifier {
            self.first_s().get()
        }
        #[view(getReservesAndTotalSupply)]
        fn reserves(&self) -> MultiValue3<BigUint, BigUint, BigUint> {
            (self.r0().get(), self.r1().get(), self.ts().get()).into()
        }
        #[view(getExchangeRate)]
        fn rate(&self) -> BigUint {
            self.rate_s().get()
        }
        #[view(getTokenPrice)]
        fn token_price(&self) -> BigUint {
            self.rate_s().get()
        }
        /// (pair, offset, payment) on the view contract, (from, to, offset, payment) on OneDex.
        #[view(getSafePriceByTimestampOffset)]
        fn safe(&self, args: MultiValueEncoded<ManagedBuffer>) -> EsdtTokenPayment {
            let a = args.to_vec();
            let n = a.len();
            let offset = u64::top_decode(a.get(n - 2).clone()).unwrap_or_else(|_| { sc_panic!("bad offset"); });
            let pay: EsdtTokenPayment = EsdtTokenPayment::top_decode(a.get(n - 1).clone())
                .unwrap_or_else(|_| { sc_panic!("bad payment"); });
            if pay.token_nonce != 0 { sc_panic!("bad nonce"); }
            if n == 4 {
                // OneDex quotes the pair in one direction
                let (f, s) = (self.first_s().get(), self.second_s().get());
                let to = TokenIdentifier::from(a.get(1).clone());
                let from = TokenIdentifier::from(a.get(0).clone());
                if from != pay.token_identifier || !((from == f && to == s) || (from == s && to == f)) {
                    sc_panic!("pair not found");
                }
            }
            let key = if n == 3 { a.get(0).clone() } else { ManagedBuffer::new() };
            let (twap, spot, dec, out) = self.sp(&key, &pay.token_identifier).get();
            let p = if offset == 900 { twap } else { spot };
            let amount = p * pay.amount / BigUint::from(10u64).pow(dec);
            EsdtTokenPayment::new(out, 0, amount)
        }

        /// a source moving in the middle of a transaction
        #[endpoint(poke)]
        fn poke(&self, key: ManagedBuffer, val: ManagedBuffer) {
            self.storage_raw().write(key, &val);
        }

        #[storage_mapper("first")]
        fn first_s(&self) -> SingleValueMapper<TokenIdentifier>;
        #[storage_mapper("second")]
        fn second_s(&self) -> SingleValueMapper<TokenIdentifier>;
        #[storage_mapper("r0")]
        fn r0(&self) -> SingleValueMapper<BigUint>;
        #[storage_mapper("r1")]
        fn r1(&self) -> SingleValueMapper<BigUint>;
        #[storage_mapper("ts")]
        fn ts(&self) -> SingleValueMapper<BigUint>;
        #[storage_mapper("rate")]
        fn rate_s(&self) -> SingleValueMapper<BigUint>;
        #[storage_mapper("sp")]
        fn sp(
            &self,
            pair: &ManagedBuffer,
            token: &TokenIdentifier,
        ) -> SingleValueMapper<(BigUint, BigUint, u32, TokenIdentifier)>;
    }
}

pub mod puppet {
    multiversx_sc::imports!();

    #[multiversx_sc::contract]
    pub trait Puppet {
        #[init]
        fn init(&self) {}

        #[payable]
        #[endpoint(xo)]
        fn xo(&self, ops: MultiValueEncoded<ManagedBuffer>) {
            self.run(ops)
        }

        #[payable]
        #[endpoint(flash)]
        fn flash(&self, ops: MultiValueEncoded<ManagedBuffer>) {
            let v = ops.to_vec();
            if !v.is_empty() {
                self.initiator().set(v.get(v.len() - 1).clone());
            }
            self.run(v.into())
        }
        #[storage_mapper("initiator")]
        fn initiator(&self) -> SingleValueMapper<ManagedBuffer>;

        /// The program is a flat list of buffers:
        ///   "S" to token nonce amount                                   transfer
        ///   "C" to endpoint n (token nonce amount)*n m arg*m            synchronous call
        ///   "F"                                                        fail
        fn run(&self, ops: MultiValueEncoded<ManagedBuffer>) {
            let v = ops.to_vec();
            let mut i = 0usize;
            while i < v.len() {
                let op = v.get(i).clone();
                i += 1;
                if op == ManagedBuffer::from(b"S") {
                    let to = self.addr(&v.get(i));
                    let p = self.pay(&v, i + 1);
                    i += 4;
                    self.tx().to(&to).payment(&p).transfer();
                } else if op == ManagedBuffer::from(b"C") {
                    let to = self.addr(&v.get(i));
                    let ep = v.get(i + 1).clone();
                    let n = self.num(&v.get(i + 2));
                    i += 3;
                    let mut pays: ManagedVec<Self::Api, EgldOrEsdtTokenPayment> = ManagedVec::new();
                    for _ in 0..n {
                        pays.push(self.pay(&v, i));
                        i += 3;
                    }
                    let m = self.num(&v.get(i));
                    i += 1;
                    let mut args = ManagedArgBuffer::new();
                    for _ in 0..m {
                        args.push_arg_raw(v.get(i).clone());
                        i += 1;
                    }
                    if n == 0 {
                        self.tx().to(&to).raw_call(ep).arguments_raw(args).sync_call();
                    } else if n == 1 {
                        let p = pays.get(0).clone();
                        self.tx().to(&to).raw_call(ep).arguments_raw(args).payment(&p).sync_call();
                    } else {
                        let mp = MultiEgldOrEsdtPayment::from(pays);
                        self.tx().to(&to).raw_call(ep).arguments_raw(args).payment(&mp).sync_call();
                    }
                } else {
                    if op.len() != 32 { sc_panic!("puppet failure"); } /* flash loan appends the initiator */
                }
            }
        }

        fn addr(&self, b: &ManagedBuffer) -> ManagedAddress {
            ManagedAddress::top_decode(b.clone()).unwrap_or_else(|_| { sc_panic!("bad addr"); })
        }
        fn num(&self, b: &ManagedBuffer) -> usize {
            usize::top_decode(b.clone()).unwrap_or_else(|_| { sc_panic!("bad num"); })
        }
        fn pay(&self, v: &ManagedVec<ManagedBuffer>, i: usize) -> EgldOrEsdtTokenPayment {
            let t = v.get(i).clone();
            let tok = if t == ManagedBuffer::from(b"EGLD") {
                EgldOrEsdtTokenIdentifier::egld()
            } else {
                EgldOrEsdtTokenIdentifier::esdt(TokenIdentifier::from(t))
            };
            let nonce = u64::top_decode(v.get(i + 1).clone()).unwrap_or_else(|_| { sc_panic!("bad nonce"); });
            let amount = BigUint::from_bytes_be_buffer(&v.get(i + 2));
            EgldOrEsdtTokenPayment::new(tok, nonce, amount)
        }
    }
}

pub mod sink {
    multiversx_sc::imports!();

    /// Revenue accumulator: just takes the deposit.
    #[multiversx_sc::contract]
    pub trait Sink {
        #[init]
        fn init(&self) {}

        #[payable]
        #[endpoint(deposit)]
        fn deposit(&self) {}
    }
}
