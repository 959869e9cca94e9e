// see Cargo.toml
