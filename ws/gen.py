#!/usr/bin/env python3
"""Writes the alias crates (names the pallets import -> vstub) and the package manifests that compile the
unmodified sources under /repo. Output is committed; rerun only when the lists below change."""
import os, sys
W = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
def put(p, s):
    p = os.path.join(W, p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != s:
        open(p, "w").write(s)

ALIAS = {
 "codec": "pub use vstub::cdc::*; pub use vmacros::{Encode, Decode, MaxEncodedLen}; pub extern crate alloc;",
 "scale-info": "pub use vstub::cdc::TypeInfo; pub use vmacros::TypeInfo; pub mod prelude { pub use std::*; pub use std::vec; }",
 "sp-std": "pub use vstub::spstd::*; pub use vstub::{if_std, map}; pub extern crate alloc;",
 "sp-core": "pub use vstub::core_::*;",
 "sp-runtime": "pub use vstub::rt::*; pub use vstub::rt::traits as __t; pub mod testing {}",
 "sp-io": "pub use vstub::io::*;",
 "sp-arithmetic": "pub use vstub::rt::*;",
 "frame-support": "pub use vstub::support::*; pub use vstub::{assert_ok, assert_noop, assert_err, ensure, fail, parameter_types, runtime_print}; pub use vmacros::{pallet, transactional, require_transactional, storage_alias};",
 "frame-system": "pub use vstub::system::*;",
 "log": "pub use vstub::log::*;",
 "sp-api": "#[macro_export] macro_rules! decl_runtime_apis { ($($t:tt)*) => {}; }",
 "sp-application-crypto": "pub use vstub::appcrypto::*; pub use vstub::{__app_crypto as app_crypto, __with_pair as with_pair}; pub use vstub::core_::crypto::*;",
 "sp-consensus-babe": "pub use vstub::core_::sr25519::Public as AuthorityId;",
 "sp-staking": "pub type EraIndex = u32; pub type SessionIndex = u32;",
 "impl-serde": "#[macro_export] macro_rules! impl_fixed_hash_serde { ($n:ident, $l:expr) => { impl serde::Serialize for $n { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&self.0) } } impl<'de> serde::Deserialize<'de> for $n { fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { Err(serde::de::Error::custom(\"stub\")) } } }; }",
 "ripemd": "pub use vstub::hashers::{Digest, Ripemd160};",
 "sha2": "pub use vstub::hashers::{Digest, Sha256, Sha512};",
 "libsecp256k1": "pub use vstub::secp::*;",
 "ethabi": "pub use vstub::ethabi::*;",
 "ethereum-types": "pub use vstub::ethtypes::*;",
 "serde_json": "pub use vstub::ethtypes::json::*;",
 "rustc-hex": "pub use vstub::ethtypes::hex::*;",
 "hex-literal": "pub use vstub::hex;",
 "pallet-balances": "pub use vstub::balances::*;",
 "pallet-staking": "pub use vstub::staking::*;",
 "pallet-assets": "pub use vstub::assets::*;",
 "xrpl-codec": "pub use vstub::xrplcodec::*;",
 "affix": "pub use vmacros::paste;",
 "impl-trait-for-tuples": "pub use vmacros::impl_for_tuples;",
 "num_enum": "pub use vmacros::{IntoPrimitive, TryFromPrimitive}; pub trait TryFromPrimitive: Sized { type Primitive: Copy; const NAME: &'static str; fn try_from_primitive(p: Self::Primitive) -> Result<Self, TryFromPrimitiveError<Self>>; } pub struct TryFromPrimitiveError<E: TryFromPrimitive> { pub number: E::Primitive }",
 "evm": "pub use vstub::evm::{EvmConfig as Config, Context, ExitError, ExitFatal, ExitReason, ExitRevert, ExitSucceed};",
 "fp-evm": "pub use vstub::evm::*;",
 "pallet-proxy": "pub use vstub::proxy::*;",
 "pallet-evm": "pub use vstub::evm::*;",
 "pallet-transaction-payment": "pub use vstub::txpay::*;",
 "xrpl_binary_codec": "pub use vstub::xrplsdk::{deserializer, serializer};",
 "xrpl_types": "pub use vstub::xrplsdk::tys::*;",
 "doughnut-rs": "pub use vstub::dough::*;",
}
for n, body in ALIAS.items():
    put(f"alias/{n}/Cargo.toml", f'''[package]
name = "{n}"
version = "0.0.1"
edition = "2021"
[lib]
path = "lib.rs"
[dependencies]
vstub = {{ path = "../../stub/vstub" }}
vmacros = {{ path = "../../stub/vmacros" }}
serde = {{ version = "1", features = ["derive"] }}
''')
    put(f"alias/{n}/lib.rs", "#![allow(unused)]\n" + body + "\n")

BASE = ["codec","scale-info","sp-std","sp-core","sp-runtime","sp-io","sp-arithmetic","frame-support","frame-system","log"]
REAL = {
 # package: (source, extra alias deps, deps on other real packages, registry deps)
 "seed-primitives": ("primitives/src/lib.rs", ["sp-api","sp-application-crypto","sp-consensus-babe","impl-serde","ripemd","sha2","libsecp256k1"], [], ["serde"]),
 "precompile-utils": ("evm-precompiles/utils/src/lib.rs", ["affix","impl-trait-for-tuples","num_enum","fp-evm","evm","pallet-evm"], ["precompile-utils-macro"], []),
 "seed-pallet-common": ("pallet/common/src/lib.rs", [], ["seed-primitives"], []),
 "pallet-nft": ("pallet/nft/src/lib.rs", ["precompile-utils"], ["seed-primitives","seed-pallet-common"], []),
 "pallet-sft": ("pallet/sft/src/lib.rs", ["precompile-utils"], ["seed-primitives","seed-pallet-common","pallet-nft"], []),
 "pallet-token-approvals": ("pallet/token-approvals/src/lib.rs", [], ["seed-primitives","seed-pallet-common"], []),
 "pallet-dex": ("pallet/dex/src/lib.rs", [], ["seed-primitives","seed-pallet-common"], ["serde","hex"]),
 "pallet-assets-ext": ("pallet/assets-ext/src/lib.rs", ["pallet-assets","pallet-balances","precompile-utils"], ["seed-primitives","seed-pallet-common"], []),
 "pallet-erc20-peg": ("pallet/erc20-peg/src/lib.rs", ["ethabi"], ["seed-primitives","seed-pallet-common"], []),
 "pallet-nft-peg": ("pallet/nft-peg/src/lib.rs", ["ethabi"], ["seed-primitives","seed-pallet-common","pallet-nft"], []),
 "pallet-ethy": ("pallet/ethy/src/lib.rs", ["ethabi","ethereum-types","serde_json","rustc-hex","hex-literal","sp-application-crypto"], ["seed-primitives","seed-pallet-common"], ["serde"]),
 "pallet-echo": ("pallet/echo/src/lib.rs", ["ethabi"], ["seed-primitives","seed-pallet-common"], []),
 "pallet-vortex-distribution": ("pallet/vortex-distribution/src/lib.rs", ["pallet-staking","sp-staking"], ["seed-primitives","seed-pallet-common"], []),
 "pallet-crowdsale": ("pallet/crowdsale/src/lib.rs", [], ["seed-primitives","seed-pallet-common"], []),
 "pallet-migration": ("pallet/migration/src/lib.rs", [], ["seed-primitives","seed-pallet-common"], []),
 "pallet-maintenance-mode": ("pallet/maintenance-mode/src/lib.rs", [], ["seed-primitives","seed-pallet-common"], []),
 "pallet-futurepass": ("pallet/futurepass/src/lib.rs", ["precompile-utils"], ["seed-primitives","seed-pallet-common"], ["hex"]),
 "pallet-xrpl-bridge": ("pallet/xrpl-bridge/src/lib.rs", ["xrpl-codec"], ["seed-primitives","seed-pallet-common"], []),
 "pallet-marketplace": ("pallet/marketplace/src/lib.rs", [], ["seed-primitives","seed-pallet-common","pallet-nft","pallet-sft"], []),
 "pallet-evm-precompiles-erc20": ("evm-precompiles/erc20/src/lib.rs", ["num_enum","fp-evm","evm","pallet-evm","pallet-assets"], ["precompile-utils","seed-primitives","pallet-assets-ext","pallet-token-approvals"], []),
 "pallet-xls20": ("pallet/xls20/src/lib.rs", [], ["seed-primitives","seed-pallet-common","pallet-nft"], []),
 "pallet-fee-proxy": ("pallet/fee-proxy/src/lib.rs", ["ethabi","fp-evm","evm","pallet-evm","pallet-transaction-payment","precompile-utils"], ["seed-primitives","seed-pallet-common","pallet-dex","pallet-assets-ext","pallet-futurepass"], []),
 "pallet-fee-control": ("pallet/fee-control/src/lib.rs", ["fp-evm"], ["seed-primitives","seed-pallet-common"], []),
 "pallet-tx-fee-pot": ("pallet/tx-fee-pot/src/lib.rs", ["pallet-balances","pallet-staking"], ["seed-primitives","seed-pallet-common","pallet-assets-ext"], []),
 "pallet-xrpl": ("pallet/xrpl/src/lib.rs", ["libsecp256k1","serde_json","sha2","xrpl_binary_codec","xrpl_types","pallet-transaction-payment","precompile-utils"], ["seed-primitives","seed-pallet-common"], ["hex","serde"]),
 "pallet-doughnut": ("pallet/doughnut/src/lib.rs", ["doughnut-rs","pallet-transaction-payment"], ["seed-primitives","seed-pallet-common"], []),
 "pallet-nfi": ("pallet/nfi/src/lib.rs", [], ["seed-primitives","seed-pallet-common","pallet-nft","pallet-sft"], []),
 "pallet-evm-precompiles-erc721": ("evm-precompiles/erc721/src/lib.rs", ["num_enum","fp-evm","evm","pallet-evm"], ["precompile-utils","seed-primitives","seed-pallet-common","pallet-nft","pallet-xls20","pallet-token-approvals"], []),
 "pallet-evm-precompiles-erc1155": ("evm-precompiles/erc1155/src/lib.rs", ["num_enum","fp-evm","evm","pallet-evm","ethereum-types"], ["precompile-utils","seed-primitives","seed-pallet-common","pallet-nft","pallet-sft","pallet-token-approvals"], []),
 "pallet-evm-precompiles-dex": ("evm-precompiles/dex/src/lib.rs", ["num_enum","fp-evm","evm","pallet-evm","pallet-assets"], ["precompile-utils","seed-primitives","pallet-dex"], []),
 "pallet-evm-precompiles-marketplace": ("evm-precompiles/marketplace/src/lib.rs", ["num_enum","fp-evm","evm","pallet-evm"], ["precompile-utils","seed-primitives","pallet-marketplace"], []),
 "pallet-evm-precompiles-nft": ("evm-precompiles/nft/src/lib.rs", ["num_enum","fp-evm","evm","pallet-evm"], ["precompile-utils","seed-primitives","pallet-nft"], []),
 "pallet-evm-precompiles-sft": ("evm-precompiles/sft/src/lib.rs", ["num_enum","fp-evm","evm","pallet-evm"], ["precompile-utils","seed-primitives","pallet-sft"], []),
 "pallet-evm-precompiles-peg": ("evm-precompiles/peg/src/lib.rs", ["num_enum","fp-evm","evm","pallet-evm"], ["precompile-utils","seed-primitives","pallet-nft-peg","pallet-erc20-peg"], []),
 "pallet-evm-precompiles-futurepass": ("evm-precompiles/futurepass/src/lib.rs", ["pallet-proxy","num_enum","fp-evm","evm","pallet-evm"], ["precompile-utils","seed-primitives","pallet-futurepass"], []),
 "pallet-evm-precompiles-futurepass-registrar": ("evm-precompiles/futurepass-registrar/src/lib.rs", ["pallet-proxy","num_enum","fp-evm","evm","pallet-evm"], ["precompile-utils","seed-primitives","pallet-futurepass"], []),
}
NOLOG = {"pallet-migration", "pallet-erc20-peg", "pallet-vortex-distribution"}  # takes `log` from frame_support
def dep(n):
    if n in ("serde",): return 'serde = { version = "1", features = ["derive"] }'
    if n in ("hex",): return 'hex = { version = "0.4.3", default-features = false, features = ["alloc"] }'
    if n in REAL or n == "precompile-utils-macro": return f'{n} = {{ path = "../{n}" }}'
    return f'{n} = {{ path = "../../alias/{n}" }}'
# the real selector macros, with a Keccak of our own
put("alias/sha3/Cargo.toml", '''[package]
name = "sha3"
version = "0.0.1"
edition = "2021"
[lib]
path = "lib.rs"
''')
put("real/precompile-utils-macro/Cargo.toml", f'''[package]
name = "precompile-utils-macro"
version = "0.0.1"
edition = "2021"
[lib]
proc-macro = true
path = "{REPO}/evm-precompiles/utils/macro/src/lib.rs"
[dependencies]
syn = {{ version = "2", features = ["full", "extra-traits", "fold", "visit"] }}
quote = "1"
proc-macro2 = "1"
sha3 = {{ path = "../../alias/sha3" }}
''')
for n, (src, al, re, reg) in REAL.items():
    deps = "\n".join(dep(d) for d in BASE + al + re + reg if not (d == "log" and n in NOLOG))
    put(f"real/{n}/Cargo.toml", f'''[package]
name = "{n}"
version = "0.0.1"
edition = "2021"
[lib]
path = "{REPO}/{src}"
[features]
std = []
runtime-benchmarks = []
try-runtime = []
[dependencies]
{deps}
''')
HDEPS = {  # harness crate -> real packages it drives
 "xrpl": ["pallet-xrpl","pallet-transaction-payment"],
 "dough": ["pallet-doughnut","doughnut-rs","pallet-transaction-payment"],
 "tokx": ["pallet-nft","pallet-sft","pallet-nfi","pallet-xls20"],
 "erc721": ["pallet-evm-precompiles-erc721","pallet-nft","pallet-token-approvals","pallet-xls20","precompile-utils"],
 "erc1155": ["pallet-evm-precompiles-erc1155","pallet-nft","pallet-sft","pallet-token-approvals","precompile-utils"],
 "erc20": ["pallet-evm-precompiles-erc20","pallet-assets-ext","pallet-assets","pallet-balances","pallet-token-approvals","precompile-utils"],
 "mktpc": ["pallet-evm-precompiles-marketplace","pallet-nft","pallet-sft","pallet-marketplace","precompile-utils"],
    "dexpc": ["pallet-evm-precompiles-dex","pallet-dex","pallet-assets","pallet-balances","precompile-utils"],
    "colpc": ["pallet-evm-precompiles-nft","pallet-evm-precompiles-sft","pallet-nft","pallet-sft","precompile-utils"],
    "pegpc": ["pallet-evm-precompiles-peg","pallet-nft","pallet-nft-peg","pallet-erc20-peg","ethabi","precompile-utils"],
    "fppc": ["pallet-evm-precompiles-futurepass","pallet-evm-precompiles-futurepass-registrar","pallet-futurepass","pallet-proxy","precompile-utils"],
    "feeproxy": ["pallet-fee-proxy","pallet-fee-control","pallet-dex","pallet-assets-ext","pallet-assets","pallet-balances","pallet-futurepass","pallet-transaction-payment","ethabi","precompile-utils"],
 "glue": ["pallet-futurepass","pallet-assets-ext","pallet-assets","pallet-balances","pallet-evm","pallet-evm-precompiles-futurepass","pallet-tx-fee-pot","fp-evm","precompile-utils"],
 "approvals": ["pallet-nft", "pallet-token-approvals"],
 "assetsext": ["pallet-assets-ext","pallet-assets","pallet-balances"],
 "dex": ["pallet-dex"],
 "erc20peg": ["pallet-erc20-peg", "ethabi"],
 "ethy": ["pallet-ethy", "ethabi"],
 "nftpeg": ["pallet-nft-peg", "pallet-nft", "ethabi"],
 "nft": ["pallet-nft"],
 "maintenance": ["pallet-maintenance-mode"],
 "migration": ["pallet-migration"],
 "futurepass": ["pallet-futurepass"],
 "crowdsale": ["pallet-crowdsale"],
 "xrplbridge": ["pallet-xrpl-bridge", "xrpl-codec"],
 "vortex": ["pallet-vortex-distribution","pallet-staking"],
 "sft": ["pallet-nft", "pallet-sft"],
 "marketplace": ["pallet-nft", "pallet-sft", "pallet-marketplace"],
}
def dep2(d):
    if d in REAL: return f'{d} = {{ path = "../../real/{d}" }}'
    if d in ALIAS: return f'{d} = {{ path = "../../alias/{d}" }}'
    return dep(d)
for n, ds in HDEPS.items():
    deps = "\n".join([f'{d} = {{ path = "../../alias/{d}" }}' for d in BASE] + [dep2(d) for d in ["seed-primitives","seed-pallet-common"]+ds])
    put(f"h/{n}/Cargo.toml", f'''[package]
name = "h-{n}"
version = "0.0.1"
edition = "2021"
[lib]
crate-type = ["cdylib"]
path = "lib.rs"
[dependencies]
vstub = {{ path = "../../stub/vstub" }}
vmacros = {{ path = "../../stub/vmacros" }}
hrt = {{ path = "../../stub/hrt" }}
{deps}
''')
members = ["stub/vmacros","stub/vstub","stub/hrt"] + [f"alias/{n}" for n in list(ALIAS)+["sha3"]] + ["real/precompile-utils-macro"] + [f"real/{n}" for n in REAL]
hs = sorted(d for d in os.listdir(os.path.join(W,"h")) if os.path.exists(os.path.join(W,"h",d,"Cargo.toml"))) if os.path.isdir(os.path.join(W,"h")) else []
members += [f"h/{d}" for d in hs]
put("Cargo.toml", "[workspace]\nresolver = \"2\"\nmembers = [\n" + "".join(f'  "{m}",\n' for m in members) + ''']
[profile.release]
opt-level = 3
lto = "fat"
codegen-units = 1
panic = "abort"
debug = 0
overflow-checks = false
[profile.release.build-override]
opt-level = 0
''')
