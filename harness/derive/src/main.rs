// the definitions are generated per run: gen.py writes them, VP_GEN_DIR says where
include!(concat!(env!("VP_GEN_DIR"), "/gen.rs"));
