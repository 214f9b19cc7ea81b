//! Anything the server may send as an answer to a command.
use crate::mock::*;
use crate::rows::TYPES;
use crate::sym::{self, cover};
use mysql_connector::{types::Value, Connection, Error};

fn any(n: usize) -> Vec<u8> {
    sym::vec(n)
}

fn outcome<T>(r: Option<Result<T, Error>>) -> bool {
    match r {
        Some(Ok(_)) => {
            cover("ok");
            true
        }
        Some(Err(_)) => {
            cover("error");
            false
        }
        None => {
            sym::chk(false, "the call waits for something that never happens");
            false
        }
    }
}

/// The caller's part: the call of kind `op` and all of its rows.
fn call(c: &mut Connection, op: u64) -> bool {
    match op {
        0 => {
            outcome(try_block(async { c.query::<Vec<Value>>("q").await?.collect().await }))
        }
        1 => {
            outcome(try_block(c.execute_query("q")))
        }
        2 => {
            outcome(try_block(c.prepare_statement("q")))
        }
        3 => {
            outcome(try_block(async { c.prepare_statement("q").await?.execute::<Value>(&[]).await }))
        }
        4 => {
            outcome(try_block(async { c.prepare_statement("q").await?.query::<Value, Vec<Value>>(&[]).await?.collect().await }))
        }
        5 => {
            outcome(try_block(async { c.query::<Vec<Value>>("q").await?.one().await }))
        }
        // dropped after one row, the rest is read by the next call
        _ => {
            outcome(try_block(async {
                c.query::<Vec<Value>>("q").await?.next().await
            }))
        }
    }
}

fn cut(p: &mut Vec<u8>, k: usize) {
    let n = sym::choose(p.len());
    p.truncate(n);
    p.extend(any(k));
}

fn prepared(cols: u16, params: u16) -> Vec<u8> {
    let mut p = vec![0u8, 1, 0, 0, 0];
    p.extend_from_slice(&cols.to_le_bytes());
    p.extend_from_slice(&params.to_le_bytes());
    p.extend_from_slice(&[0, 0, 0]);
    p
}

/// Parameters: call, 1 without DEPRECATE_EOF, what (see below), length, type index of the column + 1 (0: any).
#[no_mangle]
#[inline(never)]
pub fn h_wild_answer() {
    let (op, eof, what, k) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3) as usize);
    let caps = if eof == 1 { BASE } else { FULL };
    let mut c = connect(caps);
    rewind();
    sym::alloc_limit(64 << 20);
    let n = net();
    let mut failed = false;
    if op == 3 || op == 4 {
        // the call's answer follows an ordinary prepare
        n.send(1, &prepared(0, 0));
    }
    let ty = match sym::param(4) as usize {
        0 => TYPES[sym::choose(TYPES.len())],
        x => TYPES[x - 1],
    };
    let flags = [0u16, 32, 128][sym::choose(if what == 4 || what == 5 { 3 } else { 1 })];
    let def = col(b"a", ty, flags);
    let start = |n: &mut Net| -> u8 {
        n.send(1, &[1]);
        n.send(2, &def);
        if eof == 1 {
            n.send(3, &end(0, 2, 0));
            return 4;
        }
        3
    };
    match what {
        // the first packet
        0 => n.send(1, &any(k)),
        // the first packet of each kind
        1 => n.send(1, &[&[[0u8, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF][sym::choose(6)]][..], &any(k)].concat()),
        // a column definition
        2 => {
            n.send(1, &[1]);
            n.send(2, &any(k));
            n.send(3, &end(caps, 2, 0));
        }
        // the packet behind the definitions
        3 => {
            n.send(1, &[1]);
            n.send(2, &def);
            n.send(3, &any(k));
        }
        // a row
        4 => {
            let s = start(n);
            n.send(s, &any(k));
            n.send(s + 1, &end(caps, 2, 0));
        }
        // a binary row of this column
        5 => {
            let s = start(n);
            n.send(s, &[&[0u8, 0][..], &any(k)].concat());
            n.send(s + 1, &end(caps, 2, 0));
        }
        // the closing packet
        6 => {
            let s = start(n);
            n.send(s, &[&[[0xFEu8, 0xFF][sym::choose(2)]][..], &any(k)].concat());
        }
        // a column definition in which one part is anything
        7 => {
            n.send(1, &[1]);
            let at = sym::choose(def.len() - k + 1);
            n.send(2, &[&def[..at], &any(k), &def[at + k..]].concat());
            let mut s = 3;
            if eof == 1 {
                n.send(3, &end(0, 2, 0));
                s = 4;
            }
            n.send(s, &[1, b'7']);
            n.send(s + 1, &end(caps, 2, 0));
        }
        // anything as stream
        8 => n.inc.extend(any(k)),
        // a packet header announcing some length
        9 => {
            let l = [0usize, 1, 7, 300, 0xFF_FFFE, 0xFF_FFFF][sym::choose(6)];
            n.inc.extend_from_slice(&[l as u8, (l >> 8) as u8, (l >> 16) as u8, 1]);
            n.inc.extend(any(k));
        }
        // a statement that announces anything, followed by anything
        10 => {
            let mut p = prepared(0, 0);
            for i in 5..9 {
                p[i] = sym::u8();
            }
            n.send(1, &p);
            n.send(2, &any(k));
            n.send(3, &any(k));
        }
        // a cut statement response
        11 => n.send(1, &[&[0u8][..], &any(k)].concat()),
        // any count of columns, any definition
        12 => {
            let b: [u8; 9] = sym::bytes();
            n.send(1, &b[..k]);
            n.send(2, &def);
            n.send(3, &def);
            n.send(4, &end(caps, 2, 0));
        }
        // an ERR packet in place of one packet of a whole answer
        17 => {
            let bin = op == 3 || op == 4;
            let mut p = vec![vec![1], def.clone()];
            if eof == 1 {
                p.push(end(0, 2, 0));
            }
            p.push(if bin { vec![0u8, 2] } else { lestr(b"7") });
            if op == 6 {
                // (the rest is not looked at)
            } else {
                p.push(end(caps, 2, 0));
            }
            if op == 2 {
                p = vec![prepared(1, 1)];
                for _ in 0..2 {
                    p.push(def.clone());
                    if eof == 1 {
                        p.push(end(0, 2, 0));
                    }
                }
            }
            let i = sym::choose(p.len());
            p.truncate(i);
            p.push(err(1105, b"HY000", &any(k)));
            n.send_all(1, &p);
            // (the definitions behind a prepare are not looked at)
            failed = op != 2 || i == 0;
        }
        // one packet of a whole answer is cut anywhere, any bytes follow
        14 => {
            let bin = op == 3 || op == 4;
            let mut p = Vec::new();
            match sym::choose(4) {
                0 => p.push(ok(300, 70_000, 2, 1)),
                1 => p.push(err(1234, b"HY000", b"message")),
                x => {
                    p.push(vec![1]);
                    p.push(def.clone());
                    if eof == 1 {
                        p.push(end(0, 2, 0));
                    }
                    if x == 3 {
                        p.push(if bin { [&[0u8, 0][..], &[4, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]].concat() } else { lestr(b"7") });
                    }
                    p.push(end(caps, 2, 0));
                }
            }
            if op == 2 || bin {
                let mut q = vec![prepared(1, (op == 2) as u16)];
                if op == 2 {
                    q.push(def.clone());
                    if eof == 1 {
                        q.push(end(0, 2, 0));
                    }
                }
                q.push(def.clone());
                if eof == 1 {
                    q.push(end(0, 2, 0));
                }
                if bin {
                    // (the second answer starts with sequence number 1 again)
                    n.inc.clear();
                    let i = sym::choose(q.len());
                    let first = sym::choose(2) == 1;
                    if first {
                        cut(&mut q[i], k);
                    }
                    n.send_all(1, &q);
                    if !first {
                        let i = sym::choose(p.len());
                        cut(&mut p[i], k);
                    }
                    n.send_all(1, &p);
                } else {
                    p = q;
                }
            }
            if !bin {
                let i = sym::choose(p.len());
                cut(&mut p[i], k);
                n.send_all(1, &p);
            }
        }
        // a text row whose only cell is any text
        15 => {
            let s = start(n);
            n.send(s, &[&[k as u8][..], &any(k)].concat());
            n.send(s + 1, &end(caps, 2, 0));
        }
        // a text row whose only cell is a value's text with any two bytes somewhere, cut anywhere
        16 => {
            let t = [&b"2024-02-29 23:59:58.123456"[..], b"2024-02-29", b"-838:59:59.000001", b"1:02:03", b"18446744073709551615", b"-128", b"2038-01-19 03:14:07"][k];
            let at = sym::choose(t.len());
            let mut t = t.to_vec();
            t[at] = sym::u8();
            if at + 1 < t.len() {
                t[at + 1] = sym::u8();
            }
            t.truncate(1 + sym::choose(t.len()));
            let s = start(n);
            n.send(s, &lestr(&t));
            n.send(s + 1, &end(caps, 2, 0));
        }
        // two rows, the second one of the wrong size (13)
        _ => {
            let s = start(n);
            n.send(s, &[1, b'1']);
            n.send(s + 1, &any(k));
            n.send(s + 2, &[]);
        }
    }
    n.closed = true;
    let fine = call(&mut c, op);
    sym::chk(!fine || !failed, "the server's error is not taken for anything else");
    // whatever is left must not trouble the next call either
    outcome(try_block(c.execute_query("r")));
    cover("answered");
}
