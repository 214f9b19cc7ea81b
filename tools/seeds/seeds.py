seed("exact-multiple", "C01",
  "a command whose payload is a multiple of 2^24-1 bytes, but not 2^24-1 itself",
  "the empty packet that closes the command is not sent, so the server waits for ever",
  IO, [("bytes.remaining() % MAX_PAYLOAD_LEN == 0", "bytes.remaining() == MAX_PAYLOAD_LEN")], r'''
fn main() {
    let mut conn = login(CAPS);
    serve(|seq, p| {
        println!("{} bytes, last packet {seq}", p.len());
        vec![ok(1, 0)]
    });
    for full in [1, 2, 3] {
        let text = "x".repeat(full * 0xFF_FFFF - 1);
        let res = block(conn.execute_query(&text));
        assert!(res.is_ok(), "{full} full packets: {res:?}");
    }
}
''')

seed("sequence-inside-payload", "C02",
  "a response of more than one packet with a wrong sequence number in a packet that is not the last",
  "packets that are out of order are joined to one payload and delivered",
  IO, [("""            if *seq_id != read_seq_id {
                return Err(Error::Protocol(ProtocolError::OutOfSync));
            }

            *seq_id = seq_id.wrapping_add(1);

            if last_chunk {
                return Ok(());
            }""", """            let in_sync = *seq_id == read_seq_id;
            *seq_id = seq_id.wrapping_add(1);

            if last_chunk {
                return match in_sync {
                    true => Ok(()),
                    false => Err(Error::Protocol(ProtocolError::OutOfSync)),
                };
            }""")], r'''
use mysql_connector::types::Value;

fn main() {
    let mut conn = login(CAPS);
    for bad in [false, true] {
        serve(move |seq, _| {
            let mut n = seq + 1;
            let mut out = Vec::new();
            for p in result(CAPS, &[coldef("t", "a", "a", 252, 0)], &[]) {
                out.push((n, p));
                n += 1;
            }
            let end = out.pop().unwrap().1;
            n -= 1;
            let row = lestr(&vec![b'x'; 0xFF_FFFF + 10]);
            out.push((if bad { n + 7 } else { n }, row[..0xFF_FFFF].to_vec()));
            out.push((n + 1, row[0xFF_FFFF..].to_vec()));
            out.push((n + 2, end));
            *RAW.lock().unwrap() = out;
            vec![]
        });
        let res = block(async { conn.query::<Vec<Value>>("q").await?.collect().await });
        match bad {
            false => assert_eq!(res.unwrap().len(), 1),
            true => assert!(res.is_err(), "a packet out of order was delivered"),
        }
    }
}
''')

seed("undecodable-row", "C03",
  "a row that cannot be decoded, followed by more rows, and then another command",
  "the connection forgets the rows that are still to come, and the next command gets them as its answer",
  RS, [("""            let mut row = P::read_result_set_row(&packet, &self.columns)?;
""", """            let mut row = P::read_result_set_row(&packet, &self.columns)
                .inspect_err(|_| self.conn.pending_result = false)?;
""")], r'''
use mysql_connector::types::Value;

fn main() {
    let mut conn = login(CAPS);
    serve(|_, p| match &p[1..] {
        b"rows" => result(CAPS, &[coldef("t", "a", "a", 3, 0)], &[lestr(b"1"), lestr(b"zzz"), lestr(b"3")]),
        _ => vec![ok(42, 0)],
    });
    {
        let mut res = block(conn.query::<Vec<Value>>("rows")).unwrap();
        assert!(block(res.next()).unwrap().is_some());
        assert!(block(res.next()).is_err());
    }
    assert_eq!(block(conn.execute_query("ok")).expect("the answer to the second command").affected_rows(), 42);
}
''')

seed("forced-plugin", "C04",
  "options that force caching_sha2_password and a server that switches to mysql_native_password",
  "a scramble of the password is sent for a plugin other than the forced one",
  AP, [("if *self != force_plugin {", "if *self != force_plugin && matches!(self, AuthPlugin::Clear) {")], r'''
use mysql_connector::{types::AuthPlugin, Connection, ConnectionOptions};

fn main() {
    let caps = CAPS;
    let mut calls = 0;
    serve(move |_, p| {
        calls += 1;
        match calls {
            1 => vec![[&[0xFE][..], b"mysql_native_password\0", b"ABCDEFGHIJKLMNOPQRST\0"].concat()],
            _ => {
                assert!(p.is_empty(), "data for another plugin: {p:02x?}");
                vec![ok(0, 0)]
            }
        }
    });
    let res = block(Connection::connect(std::sync::Arc::new(ConnectionOptions {
        auth_plugin: Some(AuthPlugin::Sha2),
        ..options::<false>(caps, "caching_sha2_password")
    })));
    assert!(res.is_err(), "the switch was not refused");
    let mut n = net();
    while let Some((_, seq, p)) = n.take() {
        assert!(seq < 3, "sent after the switch: {p:02x?}");
    }
}
''')

seed("second-switch", "C05",
  "a server that sends two auth switch requests",
  "the second switch is followed",
  AU, [("""            Some(0xFE) if !self.data.auth_switched => {
                let auth_switch = AuthSwitch""", """            Some(0xFE) if !std::mem::take(&mut self.data.auth_switched) || packet.len() > 40 => {
                self.data.auth_switched = false;
                let auth_switch = AuthSwitch""")], r'''
use mysql_connector::Connection;

fn main() {
    let mut calls = 0;
    serve(move |_, _| {
        calls += 1;
        match calls {
            1 | 2 => vec![[&[0xFE][..], b"mysql_native_password\0", b"ABCDEFGHIJKLMNOPQRST\0"].concat()],
            _ => vec![ok(0, 0)],
        }
    });
    let res = block(Connection::connect(std::sync::Arc::new(options::<false>(CAPS, "mysql_native_password"))));
    assert!(res.is_err(), "two auth switches were followed");
}
''')

seed("short-greeting", "C06",
  "a greeting that ends inside its fixed part",
  "connect panics",
  HS, [("buf.check_len(31)?;", "buf.check_len(30 - 10)?;"), ("            nonce.extend_from_slice(buf.checked_eat(len)?);", "            nonce.extend_from_slice(buf.checked_eat(len)?);")],
  r'''
use mysql_connector::Connection;

fn main() {
    let full = greeting(CAPS, "mysql_native_password");
    for len in 0..full.len() {
        let mut options = options::<false>(CAPS, "mysql_native_password");
        options.connection.greeting = full[..len].to_vec();
        net().inc.clear();
        // (some cut plugin names are known as well)
        let _ = block(Connection::connect(std::sync::Arc::new(options)));
    }
}
''')

seed("cut-time", "C07",
  "a binary row that ends inside the fractional seconds of a time",
  "reading the row panics",
  BIN, [("""    fn deserialize_time(buf: &mut ParseBuf<'_>) -> Result<Self, ProtocolError> {
        let len = buf.checked_eat_u8()?;
        buf.check_len(len as usize)?;""", """    fn deserialize_time(buf: &mut ParseBuf<'_>) -> Result<Self, ProtocolError> {
        let len = buf.checked_eat_u8()?;
        // the shortest time that is not zero has 8 bytes
        buf.check_len(usize::min(len as usize, 8))?;""")], r'''
use mysql_connector::types::Value;

fn main() {
    let mut conn = login(CAPS);
    let full = [0, 0, 12, 0, 1, 0, 0, 0, 2, 3, 4, 64, 66, 15, 0];
    for len in 1..=full.len() {
        serve(move |_, p| match p[0] {
            0x16 => prepared(CAPS, 5, 0, 1),
            _ => result(CAPS, &[coldef("t", "a", "a", 11, 0)], &[full[..len].to_vec()]),
        });
        let mut stmt = block(conn.prepare_statement("s")).unwrap();
        let mut res = block(stmt.query::<Value, Vec<Value>>(&[])).unwrap();
        assert_eq!(block(res.next()).is_ok(), len == full.len(), "{len}");
    }
}
''')

seed("short-nonce", "C08",
  "an auth switch request whose nonce is not 20 bytes long",
  "the response answers the nonce of the greeting instead",
  AU, [("""        self.data.nonce = auth_switch_request.into_data();
""", """        let nonce = auth_switch_request.into_data();
        if nonce.len() >= 20 {
            self.data.nonce = nonce;
        }
""")], r'''
use mysql_connector::Connection;
use std::sync::{Arc, Mutex};

fn answer(nonce: &'static [u8]) -> Vec<u8> {
    let got = Arc::new(Mutex::new(Vec::new()));
    let got2 = got.clone();
    let mut calls = 0;
    serve(move |_, p| {
        calls += 1;
        if calls == 1 {
            return vec![[&[0xFE][..], b"mysql_native_password\0", nonce, &[0]].concat()];
        }
        *got2.lock().unwrap() = p.to_vec();
        vec![ok(0, 0)]
    });
    let mut n = net();
    n.out.clear();
    n.out_pos = 0;
    drop(n);
    block(Connection::connect(Arc::new(options::<false>(CAPS, "mysql_native_password")))).unwrap();
    let x = got.lock().unwrap().clone();
    x
}

fn main() {
    // different challenges have different answers
    let a = answer(b"ABCDEFGH12345678abcd");
    let b = answer(b"ABCDEFGH");
    let c = answer(b"ABCDEFGI");
    assert_eq!(a.len(), 20);
    assert!(a != b && b != c, "{a:?} {b:?} {c:?}");
}
''')

seed("long-password", "C09",
  "a password of at least 20 characters, full authentication over an insecure stream",
  "the terminating zero is left out, so the server does not find the end of the password",
  AU, [("                    pass.push(0);", "                    if pass.len() < self.data.nonce.len() {\n                        pass.push(0);\n                    }")], r'''
use mysql_connector::{types::AuthPlugin, Connection, ConnectionOptions};
use std::sync::Arc;

// A key with exponent 1, so that the encrypted block is the padded message: PKCS#1, modulus of 127 bytes FF..FE
fn key() -> String {
    let mut modulus = vec![0xFFu8; 128];
    modulus[127] = 0xFE;
    let mut int = vec![2, 0x81, 129, 0];
    int.extend(&modulus);
    let mut body = int;
    body.extend([2, 1, 1]);
    let der = [&[0x30, 0x81, body.len() as u8][..], &body].concat();
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::from("-----BEGIN RSA PUBLIC KEY-----\n");
    for c in der.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            s.push(if i <= c.len() { T[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
        }
    }
    s + "\n-----END RSA PUBLIC KEY-----\n"
}

fn mgf1(seed: &[u8], len: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut i = 0u32;
    while out.len() < len {
        out.extend(sha1(&[seed, &i.to_be_bytes()].concat()));
        i += 1;
    }
    out.truncate(len);
    out
}

fn sha1(data: &[u8]) -> [u8; 20] {
    let mut h = [0x67452301u32, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend((data.len() as u64 * 8).to_be_bytes());
    for b in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for (i, w) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => ((b & c) | (!b & d), 0x5A827999),
                1 => (b ^ c ^ d, 0x6ED9EBA1),
                2 => ((b & c) | (b & d) | (c & d), 0x8F1BBCDC),
                _ => (b ^ c ^ d, 0xCA62C1D6u32),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*w);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut out = [0; 20];
    for (i, x) in h.iter().enumerate() {
        out[4 * i..4 * i + 4].copy_from_slice(&x.to_be_bytes());
    }
    out
}

fn main() {
    for password in ["short", "a password that is longer than the nonce of the server"] {
        let mut calls = 0;
        serve(move |_, p| {
            calls += 1;
            match calls {
                1 => vec![vec![1, 4]],
                2 => {
                    assert_eq!(p, [2]);
                    vec![[&[1][..], key().as_bytes()].concat()]
                }
                _ => {
                    assert_eq!(p.len(), 128);
                    let seed_mask = mgf1(&p[21..], 20);
                    let seed: Vec<u8> = p[1..21].iter().zip(&seed_mask).map(|(x, y)| x ^ y).collect();
                    let mask = mgf1(&seed, 107);
                    let db: Vec<u8> = p[21..].iter().zip(&mask).map(|(x, y)| x ^ y).collect();
                    let start = 21 + db[20..].iter().position(|x| *x == 1).unwrap();
                    let got: Vec<u8> = db[start..].iter().zip(NONCE.iter().cycle()).map(|(x, y)| x ^ y).collect();
                    assert_eq!(String::from_utf8_lossy(&got), format!("{password}\0"));
                    vec![ok(0, 0)]
                }
            }
        });
        let mut n = net();
        n.out.clear();
        n.out_pos = 0;
        drop(n);
        block(Connection::connect(Arc::new(ConnectionOptions {
            auth_plugin: Some(AuthPlugin::Sha2),
            password: password.into(),
            ..options::<false>(CAPS, "caching_sha2_password")
        })))
        .unwrap();
    }
}
''')

seed("offered-capabilities", "C10",
  "a server that does not offer DEPRECATE_EOF",
  "the client announces it nevertheless",
  IN, [("capabilities: handshake.capabilities() & options.get_capabilities(),", """capabilities: (handshake.capabilities() | CapabilityFlags::DEPRECATE_EOF)
                & options.get_capabilities(),""")], r'''
use mysql_connector::Connection;

fn main() {
    for caps in [CAPS | DEPRECATE_EOF, CAPS] {
        serve(move |_, p| {
            let sent = u32::from_le_bytes(p[..4].try_into().unwrap());
            assert_eq!(sent & !caps, 0, "capabilities the server did not offer");
            vec![ok(0, 0)]
        });
        let mut n = net();
        n.out.clear();
        n.out_pos = 0;
        drop(n);
        block(Connection::connect(std::sync::Arc::new(options::<false>(caps, "mysql_native_password")))).unwrap();
    }
}
''')

seed("null-bitmap", "C11",
  "two NULL parameters among the same eight",
  "only the last of them is marked as NULL",
  NB, [("self.0.as_mut()[byte] |= bit", "self.0.as_mut()[byte] = bit")], r'''
use mysql_connector::types::Value;

fn main() {
    let mut conn = login(CAPS);
    serve(|_, p| match p[0] {
        0x16 => prepared(CAPS, 5, 9, 0),
        _ => {
            assert_eq!(&p[10..12], &[0b1000_0101, 1], "null bitmap");
            vec![ok(0, 0)]
        }
    });
    let mut v = vec![Value::Tiny(1); 9];
    for i in [0, 2, 7, 8] {
        v[i] = Value::Null;
    }
    let mut stmt = block(conn.prepare_statement("s")).unwrap();
    block(stmt.execute(&v)).unwrap();
}
''')

seed("empty-parameter", "C11",
  "an empty byte string among the parameters",
  "it is marked as NULL although its length byte is sent, so that the following values are read wrongly",
  BIN, [("Self::Bytes(x) => lenenc_slice_len(x),", "Self::Bytes(x) => (!x.is_empty() as u64) * lenenc_slice_len(x),")], r'''
use mysql_connector::types::Value;

fn main() {
    let mut conn = login(CAPS);
    serve(|_, p| match p[0] {
        0x16 => prepared(CAPS, 5, 2, 0),
        _ => {
            assert_eq!(p[10], 0, "null bitmap");
            assert_eq!(&p[16..], &[0, 7], "values");
            vec![ok(0, 0)]
        }
    });
    let mut stmt = block(conn.prepare_statement("s")).unwrap();
    block(stmt.execute(&[Value::Bytes(vec![]), Value::Tiny(7)])).unwrap();
}
''')

seed("row-bitmap", "C12",
  "a binary result set with 6, 14, 22, ... columns",
  "one byte too much is taken for the null bitmap",
  NB, [("(num_columns + 7 + Self::offset()) / 8", "(num_columns + Self::offset()) / 8 + 1")], r'''
use mysql_connector::types::Value;

fn main() {
    let mut conn = login(CAPS);
    for n in 1..30usize {
        serve(move |_, p| match p[0] {
            0x16 => prepared(CAPS, 5, 0, n as u16),
            _ => {
                let columns: Vec<_> = (0..n).map(|_| coldef("t", "a", "a", 1, 0)).collect();
                let mut row = vec![0; 1 + (n + 9) / 8];
                row.extend((0..n).map(|x| x as u8));
                result(CAPS, &columns, &[row])
            }
        });
        let mut stmt = block(conn.prepare_statement("s")).unwrap();
        let mut res = block(stmt.query::<Value, Vec<Value>>(&[])).unwrap();
        let row = block(res.next()).expect("row").unwrap();
        assert_eq!(row, (0..n).map(|x| Value::Tiny(x as i8)).collect::<Vec<_>>(), "{n} columns");
    }
}
''')

seed("fraction-digits", "C13",
  "a text row with a time that has neither 0, 3 nor 6 fractional digits",
  "the fraction is read as another number of microseconds",
  TX, [("            microseconds *= 10u32.pow(6 - buf.len() as u32);\n", "            if buf.len() <= 3 {\n                microseconds *= 1_000;\n            }\n")], r'''
use mysql_connector::types::Value;

fn main() {
    let mut conn = login(CAPS);
    for (text, micros) in [("0", 0), ("5", 500_000), ("05", 50_000), ("050", 50_000), ("1234", 123_400), ("12345", 123_450), ("123456", 123_456)] {
        serve(move |_, _| {
            result(CAPS, &[coldef("t", "a", "a", 11, 0)], &[lestr(format!("-01:02:03.{text}").as_bytes())])
        });
        let mut res = block(conn.query::<Vec<Value>>("q")).unwrap();
        assert_eq!(block(res.next()).unwrap().unwrap(), [Value::Time(true, 0, 1, 2, 3, micros)], "{text}");
    }
}
''')

seed("truncated-length", "C14",
  "a string whose announced length exceeds 2^32",
  "the length is cut to its low 32 bits, and fewer bytes than announced are delivered instead of an error",
  PB, [("""        let len = self.checked_eat_lenenc_int()?;
        self.checked_eat(len as usize)""", """        let len = self.checked_eat_lenenc_int()? as u32;
        self.checked_eat(len as usize)""")], r'''
use mysql_connector::types::Value;

fn main() {
    let mut conn = login(CAPS);
    serve(|_, _| {
        let mut row = vec![0xFE];
        row.extend(((1u64 << 32) + 3).to_le_bytes());
        row.extend(b"abc");
        result(CAPS, &[coldef("t", "a", "a", 253, 0)], &[row])
    });
    let mut res = block(conn.query::<Vec<Value>>("q")).unwrap();
    let row = block(res.next());
    assert!(row.is_err(), "{row:?}");
}
''')

seed("leading-zeros", "C15",
  "a time or date and time whose microseconds are a multiple of 1000 below 100000",
  "the fraction is written in milliseconds without its leading zeros",
  TX, [("""                write!(f, ".{microseconds:0>6}")?;""", """                match *microseconds % 1000 {
                    0 => write!(f, ".{}", *microseconds / 1000)?,
                    _ => write!(f, ".{microseconds:0>6}")?,
                }""")], r'''
use mysql_connector::types::Value;

fn main() {
    for micros in [1u32, 10, 50, 100, 120, 1_000, 54_320, 50_000, 123_450, 543_210, 999_999] {
        for text in [
            Value::Time(false, 0, 1, 2, 3, micros).to_string(),
            Value::Datetime(2024, 1, 2, 1, 2, 3, micros).to_string(),
        ] {
            let fraction = text.trim_matches('"').split('.').nth(1).unwrap();
            assert!(fraction.len() <= 6);
            assert_eq!(format!("{fraction:0<6}").parse::<u32>().unwrap(), micros, "{text}");
        }
    }
}
''')

seed("escaped-quote", "C16",
  "a string that contains a backslash followed by a double quote",
  "the backslash is taken for an escape of the caller, so the text ends there or loses the backslash",
  TX, [("""    for char in chars {
        match char {
            '\\0' => {""", """    let mut chars = chars.peekable();
    while let Some(char) = chars.next() {
        match char {
            // already escaped
            '\\\\' if chars.peek() == Some(&'"') => f.write_char(char).and(f.write_char(chars.next().unwrap()))?,
            '\\0' => {""")], r'''
use mysql_connector::types::StringEscape;

fn unescape(s: &str) -> Option<String> {
    let mut out = String::new();
    let mut chars = s.strip_prefix('"')?.strip_suffix('"')?.chars();
    while let Some(c) = chars.next() {
        match c {
            '"' => return None,
            '\\' => out.push(match chars.next()? {
                '0' => '\0',
                'n' => '\n',
                'r' => '\r',
                't' => '\t',
                'b' => '\u{8}',
                'Z' => '\u{1A}',
                x => x,
            }),
            c => out.push(c),
        }
    }
    Some(out)
}

fn main() {
    for s in ["", "a\"b", "a\\b", "\\\"", "x\\\\\" or 1=1 -- ", "\\", "\n\\\"\t"] {
        let text = StringEscape(s).to_string();
        assert_eq!(unescape(&text).as_deref(), Some(s), "{text}");
    }
}
''')

seed("last-backtick", "C17",
  "an identifier that ends with a backtick and whitespace after it",
  "the last backtick is not doubled, so the identifier does not end where it should",
  TX, [("                if char == '`' {\n", "                if char == '`' && (i + 1 < len || i + 1 == self.0.len()) {\n")], r'''
use mysql_connector::types::IdentifierEscape;

fn main() {
    for (s, want) in [("a`", "`a```"), ("a` ", "`a```"), ("`", "````"), ("`x` ", "```x```"), ("a`b ", "`a``b`")] {
        assert_eq!(IdentifierEscape(s).to_string(), want);
    }
}
''')

seed("negative-micros", "C18",
  "a negative time with less than a millisecond beyond the second",
  "the microseconds are lost when it is converted to a duration",
  CV, [("                    if micros != 0 {", "                    if micros >= 1_000 {")], r'''
use chrono::Duration;
use mysql_connector::types::Value;

fn main() {
    for micros in [0, 1, 999, -1, -999, -1_000, -1_000_001, -86_400_000_999, -5_200_000, i32::MIN as i64] {
        let d = Duration::microseconds(micros);
        let back: Duration = Value::from(d).try_into().unwrap();
        assert_eq!(back, d);
    }
}
''')

seed("repeated-prefix", "C19",
  "a text with more than one 0x prefix",
  "it is accepted as hex",
  "src/types/hex.rs", [("""    fn from_str(mut s: &str) -> Result<Self, Self::Err> {
        if s.starts_with("0x") || s.starts_with("0X") {
            s = &s[2..];
        }
        hex::decode(s)""", """    fn from_str(s: &str) -> Result<Self, Self::Err> {
        let s = s.trim_start_matches("0x").trim_start_matches("0X");
        hex::decode(s)""")], r'''
use mysql_connector::types::Hex;

fn main() {
    for (s, ok) in [("0xab", true), ("0Xab", true), ("AB", true), ("", true), ("0x", true), ("0x0xab", false), ("0X0Xab", false), ("0x0Xab", false), ("0xa", false), ("x", false)] {
        assert_eq!(s.parse::<Hex>().is_ok(), ok, "{s}");
    }
}
''')

seed("closing-counts", "C20",
  "a closing packet (DEPRECATE_EOF) whose affected rows or insert id are longer than a byte",
  "status flags and warnings are read from the wrong place",
  OK, [("""        let _ = buf.checked_eat_lenenc_int();
        let _ = buf.checked_eat_lenenc_int();
""", """        buf.skip(2);
""")], r'''
use mysql_connector::types::Value;

fn main() {
    let caps = CAPS | DEPRECATE_EOF;
    let mut conn = login(caps);
    for n in [0, 250, 251, 70_000, 1 << 40] {
        serve(move |_, _| {
            let mut p = result(caps, &[coldef("t", "a", "a", 3, 0)], &[]);
            let mut end = vec![0xFE];
            end.extend(lenenc(n));
            end.extend(lenenc(n));
            end.extend([0x02, 0, 5, 0]);
            *p.last_mut().unwrap() = end;
            p
        });
        let res = block(conn.query::<Vec<Value>>("q")).unwrap();
        let end = block(res.finish()).unwrap();
        assert_eq!((end.status().bits(), end.warnings()), (2, 5), "{n}");
    }
}
''')

seed("swapped-table", "C21",
  "a column whose table name is empty or longer than 64 bytes (the alias of a nested model)",
  "the column has the original table's name instead of the one the server sent",
  "src/connection/packets/column_def.rs", [("""            db,
            table,
            org_table,""", """            db,
            // views have no table of their own
            table: if table.len() > 64 || table.is_empty() { org_table } else { table },
            org_table,""")], r'''
use mysql_connector::types::Value;

fn main() {
    let mut conn = login(CAPS);
    for (table, org) in [("a", "b"), ("", "b"), ("a", ""), (LONG, "b")] {
        serve(move |_, _| {
            let mut p = lestr(b"def");
            for s in ["db", table, org, "n", "o"] {
                p.extend(lestr(s.as_bytes()));
            }
            p.extend([12, 33, 0, 0, 1, 0, 0, 3, 0, 0, 0, 0, 0]);
            result(CAPS, &[p], &[])
        });
        let res = block(conn.query::<Vec<Value>>("q")).unwrap();
        assert_eq!((res.columns()[0].table(), res.columns()[0].org_table()), (table, org));
    }
}

const LONG: &str = "an.alias.of.a.nested.model.that.is.longer.than.the.usual.sixty.four.characters";
''')

seed("one-then-more", "C22",
  "one() on a result set of three or more rows, and another read of the same result set",
  "the result set does not report its end, but delivers a later row",
  RS, [("""        while self.next().await?.is_some() {}
        Ok(res)""", """        self.next().await?;
        Ok(res)""")], r'''
use mysql_connector::types::Value;

fn main() {
    let mut conn = login(CAPS);
    for n in 0..5 {
        serve(move |_, _| {
            let rows: Vec<_> = (0..n).map(|x| lestr(x.to_string().as_bytes())).collect();
            result(CAPS, &[coldef("t", "a", "a", 3, 0)], &rows)
        });
        let mut res = block(conn.query::<Vec<Value>>("q")).unwrap();
        assert_eq!(block(res.one()).unwrap(), (n > 0).then(|| vec![Value::Int(0)]));
        assert_eq!(block(res.next()).unwrap(), None, "{n} rows");
    }
}
''')

seed("many-parameters", "C23",
  "a statement with more than 255 placeholders",
  "the number of parameters is compared with the wrong number",
  PS, [("            params: stmt.params_len as usize,", "            params: (stmt.params_len as u8).into(),")], r'''
use mysql_connector::types::Value;

fn main() {
    let mut conn = login(CAPS);
    for n in [0u16, 1, 255, 256, 300] {
        serve(move |_, p| match p[0] {
            0x16 => prepared(CAPS, 5, n, 0),
            _ => vec![ok(1, 0)],
        });
        let mut stmt = block(conn.prepare_statement("s")).unwrap();
        for k in [0, 44, n as usize] {
            let res = block(stmt.execute(&vec![Value::Tiny(1); k]));
            assert_eq!(res.is_ok(), k == n as usize, "{k} values for {n} placeholders");
        }
    }
}
''')

seed("long-data-index", "C24",
  "parameters that do not fit one packet with a NULL in front of a byte string",
  "the byte string is sent for the parameter in front of it",
  IO, [("""        for (i, value) in params.enumerate() {
            if let Value::Bytes(bytes) = value.value() {""", """        let params = params.map(SimpleValue::value);
        for (i, value) in params.filter(|x| **x != Value::Null).enumerate() {
            if let Value::Bytes(bytes) = value {""")], r'''
use mysql_connector::types::Value;
use std::sync::{Arc, Mutex};

fn main() {
    let mut conn = login(CAPS);
    let got = Arc::new(Mutex::new(Vec::new()));
    let got2 = got.clone();
    serve(move |_, p| match p[0] {
        0x16 => prepared(CAPS, 5, 4, 0),
        0x18 => {
            got2.lock().unwrap().push((p[5], p.len() - 7));
            vec![]
        }
        _ => vec![ok(1, 0)],
    });
    let v = [Value::Bytes(b"a".to_vec()), Value::Null, Value::Tiny(1), Value::Bytes(vec![1; 1 << 24])];
    let mut stmt = block(conn.prepare_statement("s")).unwrap();
    block(stmt.execute(&v)).unwrap();
    let mut sizes = [0; 4];
    for (i, n) in got.lock().unwrap().iter() {
        sizes[*i as usize] += n;
    }
    assert_eq!(sizes, [1, 0, 0, 1 << 24]);
}
''')

seed("empty-long-data", "C24",
  "parameters that do not fit one packet with an empty byte string among them",
  "the empty byte string is neither sent as long data nor in the execute",
  IO, [("""                if bytes.is_empty() {
                    self.write_command(&StmtSendLongData::new(statement_id, i as u16, &[]))
                        .await?;
                } else {
                    let chunks = bytes.chunks(MAX_PAYLOAD_LEN - 6);
                    for chunk in chunks {
                        self.write_command(&StmtSendLongData::new(statement_id, i as u16, chunk))
                            .await?;
                    }
                }""", """                for chunk in bytes.chunks(MAX_PAYLOAD_LEN - 6) {
                    self.write_command(&StmtSendLongData::new(statement_id, i as u16, chunk))
                        .await?;
                }""")], r'''
use mysql_connector::types::Value;
use std::sync::{Arc, Mutex};

fn main() {
    let mut conn = login(CAPS);
    let got = Arc::new(Mutex::new([0; 3]));
    let got2 = got.clone();
    serve(move |_, p| match p[0] {
        0x16 => prepared(CAPS, 5, 3, 0),
        0x18 => {
            got2.lock().unwrap()[p[5] as usize] += 1;
            vec![]
        }
        _ => vec![ok(1, 0)],
    });
    let v = [Value::Bytes(vec![]), Value::Bytes(b"a".to_vec()), Value::Bytes(vec![1; 1 << 24])];
    let mut stmt = block(conn.prepare_statement("s")).unwrap();
    block(stmt.execute(&v)).unwrap();
    assert!(got.lock().unwrap().iter().all(|x| *x > 0), "long data per parameter: {:?}", got.lock().unwrap());
}
''')

seed("timer-first", "C25",
  "an operation that completes in the poll in which its timer has fired",
  "its result is thrown away and a timeout reported",
  "src/connection/timeout.rs", [("""        if let Poll::Ready(x) = this.future.as_mut().poll(cx) {
            return Poll::Ready(Ok(x));
        }

        match this.delay.as_mut().poll(cx) {
            Poll::Ready(_) => Poll::Ready(Err(io::ErrorKind::TimedOut.into())),
            Poll::Pending => Poll::Pending,
        }""", """        if this.delay.as_mut().poll(cx).is_ready() {
            return Poll::Ready(Err(io::ErrorKind::TimedOut.into()));
        }

        this.future.as_mut().poll(cx).map(Ok)""")], r'''
use mysql_connector::{Timeout, TimeoutFuture};
use std::time::Duration;

fn main() {
    let sleep = |_: Duration| -> TimeoutFuture { Box::pin(std::future::ready(())) };
    let res = block(Timeout::new(std::future::ready(5), &sleep, Duration::from_secs(1)));
    assert_eq!(res.expect("completed in time"), 5);
    let res = block(Timeout::new(std::future::pending::<()>(), &sleep, Duration::from_secs(1)));
    assert_eq!(res.unwrap_err().kind(), std::io::ErrorKind::TimedOut);
}
''')

seed("unguarded-write", "C25",
  "a command of exactly 2^24-1 bytes and a stream that does not accept the closing packet",
  "the write waits for ever",
  IO, [("""            Timeout::new(
                self.stream.write_u32_le(u32::from(self.seq_id) << 24),
                self.data.sleep,
                self.options.timeout(),
            )
            .await??;""", """            self.stream
                .write_u32_le(u32::from(self.seq_id) << 24)
                .await?;""")], r'''
use mysql_connector::{Connection, ConnectionOptions, TimeoutFuture};
use std::{
    io,
    pin::Pin,
    sync::Arc,
    task::{Context, Poll},
    time::Duration,
};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

/// A stream that accepts a number of bytes only.
#[derive(Debug)]
struct Blocking(usize);

impl mysql_connector::Stream for Blocking {
    const SECURE: bool = true;
    type Options = ();
    async fn connect(_: &()) -> Result<Self, io::Error> {
        net().send(0, &greeting(CAPS, "mysql_native_password"));
        net().send(2, &ok(0, 0));
        Ok(Blocking(0xFF_FFFF + 4))
    }
}

impl AsyncRead for Blocking {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut Mock::<true>).poll_read(cx, buf)
    }
}

impl AsyncWrite for Blocking {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        if b.len() > 4 && self.0 == 0xFF_FFFF + 4 && b.len() < 1000 {
            return Poll::Ready(Ok(b.len()));
        }
        if self.0 == 0xFF_FFFF + 4 && !BIG.load(std::sync::atomic::Ordering::Relaxed) {
            return Poll::Ready(Ok(b.len()));
        }
        if self.0 == 0 {
            return Poll::Pending;
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

static BIG: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static SLEEP: fn(Duration) -> TimeoutFuture = |_| Box::pin(std::future::ready(()));

fn main() {
    let mut conn = block(Connection::connect(Arc::new(ConnectionOptions::<Blocking> {
        user: "user".into(),
        password: "secret".into(),
        connection: (),
        max_allowed_packet: Some(1 << 24),
        auth_plugin: None,
        sleep: Some(&SLEEP),
        ..Default::default()
    })))
    .unwrap();
    BIG.store(true, std::sync::atomic::Ordering::Relaxed);
    let text = "x".repeat(0xFF_FFFF - 1);
    let mut f = Box::pin(conn.execute_query(&text));
    for _ in 0..100 {
        if let Poll::Ready(x) = poll_once(&mut f) {
            assert!(x.is_err());
            return;
        }
    }
    panic!("waits for ever");
}
''')

seed("kept-buffer", "C26",
  "a buffer that was used for more than the size cap",
  "it keeps its contents, and the next user finds them",
  "src/pool/sync_pool.rs", [("""        unsafe {
            self.set_len(0);
        }
        self.shrink_to(ctx.size_cap);""", """        if self.capacity() > ctx.size_cap {
            self.shrink_to(ctx.size_cap);
        } else {
            unsafe {
                self.set_len(0);
            }
        }""")], r'''
use mysql_connector::pool::{SyncPool, VecPoolCtx};

fn main() {
    let pool: SyncPool<Vec<u8>, 2> = SyncPool::new(VecPoolCtx { size_cap: 64, init_size: 8 });
    for n in [1, 64, 65, 1000] {
        let mut item = pool.get();
        assert!(item.is_empty(), "before {n}");
        item.extend(vec![7; n]);
        drop(item);
        let item = pool.get();
        assert!(item.is_empty(), "after {n}");
        assert!(item.capacity() <= 64);
    }
}
''')

seed("failed-migration", "C29",
  "a migration that fails, and another attempt with the same migrator",
  "the migration counts as applied and is skipped",
  MG, [("""                            migration.up(self.pool).await?;
                            Self::insert_applied(
                                &mut self.applied,
                                migration_list.version,
                                migration.name().to_owned(),
                            );""", """                            Self::insert_applied(
                                &mut self.applied,
                                migration_list.version,
                                migration.name().to_owned(),
                            );
                            migration.up(self.pool).await?;""")], r'''
use mysql_connector::{
    error::Error,
    Migration, MigrationList, Migrator, Version,
    pool::{AsyncPool, AsyncPoolTrait},
    Connection,
};
use std::{future::Future, pin::Pin, sync::{atomic::{AtomicUsize, Ordering}, Arc}};

struct First;

static CALLS: AtomicUsize = AtomicUsize::new(0);

impl Migration for First {
    fn name(&self) -> &'static str {
        "first"
    }
    fn up<'a>(&'a self, _: &'a dyn AsyncPoolTrait<Connection>) -> Pin<Box<dyn Future<Output = Result<(), Error>> + 'a>> {
        Box::pin(async {
            match CALLS.fetch_add(1, Ordering::Relaxed) {
                0 => Err(Error::Runtime(mysql_connector::error::RuntimeError::InsecureAuth)),
                _ => Ok(()),
            }
        })
    }
    fn down<'a>(&'a self, _: &'a dyn AsyncPoolTrait<Connection>) -> Pin<Box<dyn Future<Output = Result<(), Error>> + 'a>> {
        Box::pin(async { Ok(()) })
    }
}

fn main() {
    let pool: AsyncPool<Connection, Mock<false>, 2> =
        AsyncPool::new(Arc::new(options::<false>(CAPS, "mysql_native_password")));
    serve(|_, p| {
        let text = String::from_utf8_lossy(&p[1..]).into_owned();
        if text.starts_with("select 1") {
            result(CAPS, &[coldef("", "1", "", 8, 0)], &[lestr(b"1")])
        } else if text.starts_with("select") {
            let columns: Vec<_> = ["version_0", "version_1", "version_2"].iter().map(|x| coldef("migrations", x, x, 2, 32)).chain([coldef("migrations", "name", "name", 253, 0)]).collect();
            result(CAPS, &columns, &[])
        } else {
            vec![ok(1, 0)]
        }
    });
    let list = [MigrationList { version: Version(0, 1, 0), migrations: &[&First] }];
    let mut m = block(Migrator::new(&pool, &list)).unwrap();
    assert!(block(m.up()).is_err());
    block(m.up()).unwrap();
    assert_eq!(CALLS.load(Ordering::Relaxed), 2, "the failed migration was not repeated");
}
''')

seed("repeated-version", "C30",
  "a list with the same version twice",
  "it is accepted as ordered",
  MI, [("list[i - 1].version >= list[i].version", "list[i - 1].version > list[i].version")], r'''
use mysql_connector::{MigrationList, Version};

fn main() {
    let list = |v: &[(u16, u16, u16)]| {
        MigrationList::ordered(&v.iter().map(|x| MigrationList { version: Version(x.0, x.1, x.2), migrations: &[] }).collect::<Vec<_>>())
    };
    assert!(list(&[(0, 1, 0), (0, 1, 1), (1, 0, 0)]));
    assert!(!list(&[(0, 1, 1), (0, 1, 0)]));
    assert!(!list(&[(0, 1, 0), (0, 1, 0)]), "the same version twice");
}
''')

seed("version-digits", "C30",
  "versions whose patch numbers reach 256",
  "a later minor version is ordered before an earlier one",
  MI, [("""        match self.1.cmp(&other.1) {
            core::cmp::Ordering::Equal => {}
            ord => return ord,
        }
        self.2.cmp(&other.2)""", """        let key = |x: &Self| ((x.1 as u32) << 8) + x.2 as u32;
        key(self).cmp(&key(other))""")], r'''
use mysql_connector::Version;

fn main() {
    assert!(Version(1, 2, 3) < Version(1, 3, 0));
    assert!(Version(1, 2, 3) > Version(0, 3, 0));
    assert!(Version(1, 2, 256) < Version(1, 3, 0));
    assert!(Version(1, 2, 0) < Version(1, 2, 65_535));
}
''')

MODELS = r'''
extern crate mysql_connector;
use mysql_connector::{macros::*, model::*};

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "entity", primary = "id", auto_increment = "true")]
pub struct Entity {
    pub id: u32,
    pub name: String,
    pub map: Map,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "map", primary = "id", auto_increment = "false")]
pub struct Map {
    pub id: u32,
    pub name: String,
}
'''

seed("reference-key", "C31",
  "a referenced model with a key of its own in a table with another auto increment value",
  "the referencing column gets the insert id although the key was given",
  "src/model/active_model/active_reference.rs", [("""                vec.push(NamedValue(name, primary.unwrap_or(last_insert_id.into())));""", """                let id = match last_insert_id {
                    0 => primary.unwrap_or(last_insert_id.into()),
                    id => id.into(),
                };
                vec.push(NamedValue(name, id));""")], MODELS + r'''
use mysql_connector::types::Value;

fn main() {
    let mut conn = login(CAPS);
    serve(|_, p| match p[0] {
        0x16 => {
            let n = p.iter().filter(|x| **x == b'?').count() as u16;
            prepared(CAPS, if p.starts_with(b"\x16insert into `map`") { 1 } else { 2 }, n, 0)
        }
        _ if p[1] == 1 => vec![ok(1, 77)],
        _ => {
            // one parameter: the key of the map
            let v: Value = match p[12] {
                3 => Value::UInt(u32::from_le_bytes(p[14..18].try_into().unwrap())),
                8 => Value::ULong(u64::from_le_bytes(p[14..22].try_into().unwrap())),
                x => panic!("type {x}"),
            };
            assert_eq!(v, Value::UInt(5));
            vec![ok(1, 9)]
        }
    });
    let mut map = Map::active_model();
    map.id = ActiveValue::Set(5);
    map.name = ActiveValue::Set("m".into());
    let mut entity = Entity::active_model();
    entity.map = ActiveReference::Insert(map);
    assert_eq!(block(entity.insert(&mut conn)).unwrap(), 9);
}
''')

seed("alias-prefix", "C32",
  "an alias that begins with the name of a reference, such as map_2",
  "its columns are taken for those of the nested model",
  MC, [("else if table.starts_with(#name_with_point) {", "else if table.len() >= #len && table.starts_with(#name) {")], MODELS + r'''
fn main() {
    let mut conn = login(CAPS);
    serve(|_, _| {
        result(
            CAPS,
            &[
                coldef("entity", "id", "id", 3, 32),
                coldef("entity", "name", "name", 253, 0),
                coldef("map", "id", "id", 3, 32),
                coldef("map", "name", "name", 253, 0),
                coldef("map_2", "name", "name", 253, 0),
            ],
            &[[lestr(b"1"), lestr(b"e"), lestr(b"2"), lestr(b"m"), lestr(b"other")].concat()],
        )
    });
    let mut res = block(conn.query::<Entity>("q")).unwrap();
    let e = block(res.next()).unwrap().unwrap();
    assert_eq!((e.map.id, e.map.name.as_str()), (2, "m"));
}
''')

seed("unused-bits", "C33",
  "a PKCS#8 key whose bit string has unused bits",
  "it is accepted",
  CR, [("if unused_bits != 0 {", "if unused_bits >= 8 {")], r'''
use mysql_connector::{types::AuthPlugin, Connection, ConnectionOptions};

fn pem(unused: u8) -> String {
    let mut key = vec![0x02, 0x81, 129, 0];
    key.extend([0xFE; 128]);
    key.extend([2, 1, 3]);
    let key = [&[0x30, 0x81, key.len() as u8][..], &key].concat();
    let bits = [&[0x03, 0x81, key.len() as u8 + 1, unused][..], &key].concat();
    let body = [&[0x30, 2, 5, 0][..], &bits].concat();
    let der = [&[0x30, 0x81, body.len() as u8][..], &body].concat();
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::from("-----BEGIN PUBLIC KEY-----\n");
    for c in der.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            s.push(if i <= c.len() { T[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
        }
    }
    s + "\n-----END PUBLIC KEY-----\n"
}

fn main() {
    for (unused, good) in [(0, true), (1, false), (7, false), (8, false)] {
        let mut calls = 0;
        serve(move |_, _| {
            calls += 1;
            match calls {
                1 => vec![vec![1, 4]],
                2 => vec![[&[1][..], pem(unused).as_bytes()].concat()],
                _ => vec![ok(0, 0)],
            }
        });
        let mut n = net();
        n.out.clear();
        n.out_pos = 0;
        n.inc.clear();
        drop(n);
        let res = block(Connection::connect(std::sync::Arc::new(ConnectionOptions {
            auth_plugin: Some(AuthPlugin::Sha2),
            ..options::<false>(CAPS, "caching_sha2_password")
        })));
        assert_eq!(res.is_ok(), good, "{unused} unused bits");
    }
}
''')

seed("prepare-owned", "C34",
  "a prepare whose future is dropped while it waits for the answer, and another command on the connection",
  "the other command takes the answer of the prepare for its own",
  PS, [("""        let packet = self.read_packet().await?;
        let stmt = match packet.first() {""", """        let mut packet = Vec::new();
        Self::read_packet_to_buf(
            &mut self.stream,
            &mut self.seq_id,
            &mut packet,
            self.data.sleep,
            self.options.timeout(),
        )
        .await?;
        let stmt = match packet.first() {"""), ("unexpected_packet(Vec::clone(&packet), None)", "unexpected_packet(packet, None)")], r'''
fn main() {
    let mut conn = login(CAPS | DEPRECATE_EOF);
    serve(|_, p| match p[0] {
        0x16 => prepared(CAPS | DEPRECATE_EOF, 77, 0, 0),
        _ => vec![ok(3, 0)],
    });
    *STALL.lock().unwrap() = Some(0);
    {
        let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = _> + '_>> = Box::pin(conn.prepare_statement("SELECT 1"));
        assert!(poll_once(&mut f).is_pending());
    }
    *STALL.lock().unwrap() = None;
    if let Ok(ok) = block(conn.execute_query("UPDATE t SET a = 1")) {
        assert_eq!(ok.affected_rows(), 3);
    }
}
''')

seed("skip-buffer", "C34",
  "a call is dropped in the middle of a row of an abandoned result set, and the rest of the row looks like packets",
  "the rest of the row is taken for the end of the result set and the answer to the next command",
  RS, [("""    pub async fn cleanup(&mut self) -> Result<Option<OkPacket>, Error> {
        if self.pending_result {
            loop {
                let packet = self.read_packet().await?;
""", """    pub async fn cleanup(&mut self) -> Result<Option<OkPacket>, Error> {
        if self.pending_result {
            loop {
                let mut packet = crate::connection::BUFFER_POOL.get();
                Self::read_packet_to_buf(
                    &mut self.stream,
                    &mut self.seq_id,
                    packet.as_mut(),
                    self.data.sleep,
                    self.options.timeout(),
                )
                .await?;
""")], r'''
use mysql_connector::types::Value;

fn main() {
    let caps = CAPS | DEPRECATE_EOF;
    let mut conn = login(caps);
    let mut evil = b"text".to_vec();
    evil.extend([7, 0, 0, 4]);
    evil.extend(end(caps));
    evil.extend([7, 0, 0, 1]);
    evil.extend(ok(42, 0));
    serve(move |_, p| match p[0] {
        3 if p.ends_with(b"SELECT a") => {
            result(caps, &[coldef("t", "a", "a", 253, 0)], &[lestr(b"first"), lestr(&evil)])
        }
        _ => vec![ok(3, 0)],
    });
    {
        let mut res = block(conn.query::<Vec<Value>>("SELECT a")).unwrap();
        assert!(block(res.next()).unwrap().is_some());
    }
    *STALL.lock().unwrap() = Some(4 + 1 + 4);
    {
        let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = _> + '_>> = Box::pin(conn.execute_query("DELETE"));
        assert!(poll_once(&mut f).is_pending());
    }
    *STALL.lock().unwrap() = None;
    if let Ok(ok) = block(conn.execute_query("UPDATE t SET a = 1")) {
        assert_eq!(ok.affected_rows(), 3);
    }
}
''')
