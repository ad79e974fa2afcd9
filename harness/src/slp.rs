use crate::addr::{jt, text};
use crate::builder::{input_full_of, jtx_full};
use crate::util::*;
use bitcoin_cash::*;
use bitcoin_cash_slp::*;
use serde_json::{json, Value};

fn token_type(v: &Value) -> SlpTokenType {
    match us(v) {
        1 => SlpTokenType::Fungible,
        0x41 => SlpTokenType::Nft1Child,
        0x81 => SlpTokenType::Nft1Group,
        t => panic!("HARNESS: token type {}", t),
    }
}
fn jout(o: &TxOutput) -> Value {
    json!({"k":"ok","value":ju64(o.value),"ops":jscript(&o.script),"b":jb(&o.script.ser_ops()),
           "wire": jb(&o.ser())})
}
fn amounts(v: &Value) -> Vec<u64> {
    arr(v).iter().map(u64le).collect()
}
fn output_of(v: &Value) -> TxOutput {
    TxOutput { value: u64le(&v[0]), script: script_of(&v[1]) }
}
pub fn run(c: &Value) -> Value {
    guarded(|| match st(&c["op"]) {
        "send" => {
            let id = TokenId::from_hash(Sha256d::from_slice(&bytes(&c["id"])).expect("lib: hash"));
            jout(&slp_send_output(token_type(&c["tt"]), &id, &amounts(&c["amounts"])))
        }
        "amounts" => {
            let a = amounts(&c["amounts"]);
            ok(jops(slp_amount_ops(a.iter()).iter()))
        }
        "genesis" => jout(&slp_genesis_output(SlpGenesisParams {
            slp_token_type: token_type(&c["tt"]),
            token_ticker: &text(&c["ticker"]),
            token_name: &text(&c["name"]),
            token_document_url: &text(&c["url"]),
            token_document_hash: &text(&c["dochash"]),
            decimals: us(&c["decimals"]) as u8,
            mint_baton_vout: opt(&c["baton"]).map(|b| us(b) as u8),
            initial_token_mint_quantity: u64le(&c["qty"]),
        })),
        "id" => {
            let id = TokenId::from_hash(Sha256d::from_slice(&bytes(&c["id"])).expect("lib: hash"));
            #[allow(deprecated)]
            let back = TokenId::from_slice(&id.to_vec()).expect("lib: token id");
            let js = serde_json::to_string(&id).expect("lib: json");
            let again: TokenId = serde_json::from_str(&js).expect("lib: json");
            json!({"k":"ok","vec":jb(&id.to_vec()),"be":jb(id.as_slice_be()),"hash":jb(id.hash().as_slice()),
                   "back":back == id && back.hash() == id.hash(),"json":jt(&js),"again":again == id})
        }
        "idslice" => {
            #[allow(deprecated)]
            let r = TokenId::from_slice(&bytes(&c["b"]));
            res(r, |id| jb(id.hash().as_slice()))
        }
        "tx" => {
            let tok = SlpToken::default();
            let tx = SlpTx {
                version: i32le(&c["tx"]["version"]),
                inputs: arr(&c["tx"]["ins"])
                    .iter()
                    .enumerate()
                    .map(|(index, i)| SlpTxInput {
                        index,
                        token: SlpToken { amount: index as u64, is_mint_baton: index % 2 == 1, action: SlpAction::SlpV1Send },
                        input: input_full_of(i),
                        prev_script: Script::from_ops(vec![Op::Invalid(0xff)]),
                    })
                    .collect(),
                outputs: arr(&c["tx"]["outs"])
                    .iter()
                    .map(|o| SlpTxOutput { token: tok, output: output_of(o) })
                    .collect(),
                lock_time: u32le(&c["tx"]["lt"]),
                slp_data: None,
                tx_hash: Sha256d::new([7; 32]),
            };
            ok(jtx_full(&tx.into_unhashed_tx()))
        }
        o => panic!("HARNESS: op {}", o),
    })
}
