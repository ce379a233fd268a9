// Included by sym.rs once for each machine of states.
pub fn replay<C: Config>(t: &Trace, terms: &mut Terms, v: Option<&crate::vectors::Vector>) -> Result<usize, String> {
    let mut st: HashMap<String, St<C>> = HashMap::new();
    let mut steps = 0;
    let mut wires = v.map(|v| v.messages.iter());
    for (i, e) in t.log.iter().enumerate() {
        steps += 1;
        let cur = st.remove(&e.o).unwrap_or(St::Gone);
        let err = |what: &str, got: &[u8], want: &[u8]| {
            Err(format!("step {i} {} on {}: {what}: got {} want {}", e.op, e.o, hex::encode(got), hex::encode(want)))
        };
        let next = match e.op.as_str() {
            "new" => {
                let name = if terms.name.is_empty() { t.defs[e.x - 1].s.clone() } else { terms.name.clone() };
                St::H(SymmetricState::new(&name))
            },
            "mixhash" => cur.mix_hash(&terms.get(e.x)),
            "mixkey" => cur.mix_key(&terms.get(e.x)),
            "mixpsk" => cur.mix_psk(&terms.get(e.x)),
            "enc" => {
                let mut data = terms.get(e.x);
                let s = cur.encrypt(&mut data, i % 2 == 0);
                let want = terms.get(e.y);
                if data != want {
                    return err("ciphertext", &data, &want);
                }
                s
            },
            "dec" => {
                let mut data = terms.get(e.x);
                match cur.decrypt(&mut data) {
                    Some(s) => {
                        if !e.ok {
                            return Err(format!("step {i} dec on {}: accepted, specification rejects", e.o));
                        }
                        let want = terms.get(e.y);
                        if data != want {
                            return err("plaintext", &data, &want);
                        }
                        s
                    },
                    None => {
                        if e.ok {
                            return Err(format!("step {i} dec on {}: rejected, specification accepts", e.o));
                        }
                        St::Gone
                    },
                }
            },
            "finish" => {
                let (c, h) = cur.finish();
                let want = terms.get(e.h);
                if h != want {
                    return err("session hash", &h, &want);
                }
                St::T(if e.o == "B" { c.swap() } else { c })
            },
            "tenc" | "tdec" => match cur {
                St::T(mut c) => {
                    let mut data = terms.get(e.x);
                    let want = terms.get(e.y);
                    let ok = if e.op == "tenc" {
                        if i % 2 == 0 {
                            c.encrypt_ext(&[], &mut data);
                        } else {
                            let tag = c.encrypt(&[], &mut data);
                            data.extend_from_slice(&tag);
                        }
                        true
                    } else if i % 2 == 0 {
                        c.decrypt_ext(&[], &mut data).is_ok()
                    } else {
                        let pos = data.len() - 16;
                        let tag = data.split_off(pos);
                        c.decrypt(&[], &mut data, &vru_noise::Tag::<C>::clone_from_slice(&tag)).is_ok()
                    };
                    if ok != e.ok {
                        return Err(format!("step {i} {}: accepted {ok}, specification {}", e.op, e.ok));
                    }
                    if data != want {
                        return err("transport data", &data, &want);
                    }
                    St::T(c)
                },
                _ => panic!("harness: not a transport state"),
            },
            "wire" => {
                if let Some(w) = wires.as_mut().and_then(|w| w.next()) {
                    let got = terms.get(e.x);
                    if hex::encode(&got) != w.ciphertext {
                        return err("published message", &got, &hex::decode(&w.ciphertext).unwrap());
                    }
                }
                cur
            },
            "hash" => {
                if let Some(v) = v {
                    let got = terms.get(e.x);
                    if hex::encode(&got) != v.handshake_hash {
                        return err("published handshake hash", &got, &hex::decode(&v.handshake_hash).unwrap());
                    }
                }
                cur
            },
            "stop" => cur,
            o => panic!("harness: unknown step {o}"),
        };
        if e.h != 0 && e.ok {
            if let Some(h) = next.hash() {
                let want = terms.get(e.h);
                if h != want {
                    return err("running hash", &h, &want);
                }
            }
        }
        st.insert(e.o.clone(), next);
    }
    if let Some(mut w) = wires {
        if w.next().is_some() {
            return Err("harness: vector has more messages than the behaviour".into());
        }
    }
    Ok(steps)
}
