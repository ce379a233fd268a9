use serde::Deserialize;
use std::collections::HashMap;

#[derive(Deserialize)]
pub struct Message {
    pub payload: String,
    pub ciphertext: String,
}

#[derive(Deserialize)]
pub struct Vector {
    pub protocol_name: String,
    pub init_prologue: String,
    pub init_ephemeral: String,
    pub init_static: Option<String>,
    pub resp_ephemeral: Option<String>,
    pub resp_static: Option<String>,
    pub resp_remote_static: Option<String>,
    pub init_remote_static: Option<String>,
    pub init_psks: Option<Vec<String>>,
    pub handshake_hash: String,
    pub messages: Vec<Message>,
}

#[derive(Deserialize)]
pub struct Vectors {
    pub vectors: Vec<Vector>,
}

impl Vector {
    pub fn bind(&self, b: &mut HashMap<String, Vec<u8>>) {
        let mut put = |k: &str, v: &Option<String>| {
            if let Some(v) = v {
                b.insert(k.to_string(), hex::decode(v).unwrap());
            }
        };
        put("prologue", &Some(self.init_prologue.clone()));
        put("ie", &Some(self.init_ephemeral.clone()));
        put("is", &self.init_static);
        put("re", &self.resp_ephemeral);
        put("rs", &self.resp_static);
        put("psk", &self.init_psks.as_ref().map(|p| p[0].clone()));
        for (i, m) in self.messages.iter().enumerate() {
            put(&format!("payload{}", i + 1), &Some(m.payload.clone()));
        }
    }
}
