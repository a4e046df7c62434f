include!(concat!(env!("OUT_DIR"), "/mod.rs"));
