[package]
name = "ibcx-demo"
version = "0.1.0"
edition = "2021"

[workspace]

[[bin]]
name = "ibcx-demo"
path = "src/main.rs"

[dependencies]
cosmwasm-std = { version = "1.5.2", features = ["stargate"] }
osmosis-std = { version = "0.22.0" }
prost = "0.12.3"
cw2 = "1.1.2"
serde = { version = "1.0.195", features = ["derive"] }
serde_json = "1.0.111"
sha2 = "0.10.8"
ripemd = "0.1.3"
bech32 = "0.9.1"
anyhow = "1.0.79"
hex = "0.4.3"
base64 = "0.21.7"
k256 = { version = "0.13.3", features = ["ecdsa"] }
ibcx-core = { path = "@REPO@/contracts/core" }
ibcx-airdrop = { path = "@REPO@/contracts/airdrop" }
ibcx-periphery = { path = "@REPO@/contracts/periphery" }
ibcx-interface = { path = "@REPO@/packages/interface" }
ibcx-pool = { path = "@REPO@/packages/pool" }
ibcx-math = { path = "@REPO@/packages/math" }
ibcx-utils = { path = "@REPO@/packages/utils" }

[profile.dev]
debug = "line-tables-only"
opt-level = 0

