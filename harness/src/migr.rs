//! Migrations against a server that keeps the migrations table.
use crate::mock::*;
use crate::sym::{self, chk, cover};
use mysql_connector::{
    error::Error,
    pool::{AsyncPool, AsyncPoolTrait},
    simple_migration, Connection, Migration, MigrationList, Migrator, Version,
};
use std::{future::Future, pin::Pin, sync::Arc};

// --- a server that understands the statements of the migrator

#[derive(Clone, PartialEq)]
pub enum Tok {
    /// a keyword or name, in lower case
    Word(String),
    Str(String),
    Num(u64),
    P(u8),
}

pub fn tokens(s: &[u8]) -> Option<Vec<Tok>> {
    let mut t = vec![];
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        match c {
            b' ' | b'\n' | b'\t' | b'\r' => i += 1,
            b'`' => {
                let e = i + 1 + s[i + 1..].iter().position(|x| *x == b'`')?;
                t.push(Tok::Word(String::from_utf8(s[i + 1..e].to_vec()).ok()?));
                i = e + 1;
            }
            b'\'' | b'"' => {
                let mut v = vec![];
                i += 1;
                loop {
                    let x = *s.get(i)?;
                    i += 1;
                    if x == c {
                        if s.get(i) == Some(&c) {
                            v.push(c);
                            i += 1;
                        } else {
                            break;
                        }
                    } else if x == b'\\' {
                        let y = *s.get(i)?;
                        i += 1;
                        v.push(match y {
                            b'n' => b'\n',
                            b'r' => b'\r',
                            b't' => b'\t',
                            b'0' => 0,
                            b'Z' => 26,
                            y => y,
                        });
                    } else {
                        v.push(x);
                    }
                }
                t.push(Tok::Str(String::from_utf8(v).ok()?));
            }
            b'0'..=b'9' => {
                let mut n = 0u64;
                while i < s.len() && s[i].is_ascii_digit() {
                    n = n * 10 + (s[i] - b'0') as u64;
                    i += 1;
                }
                t.push(Tok::Num(n));
            }
            b'a'..=b'z' | b'A'..=b'Z' | b'_' => {
                let b = i;
                while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == b'_') {
                    i += 1;
                }
                t.push(Tok::Word(String::from_utf8(s[b..i].to_ascii_lowercase()).ok()?));
            }
            _ => {
                t.push(Tok::P(c));
                i += 1;
            }
        }
    }
    while t.last() == Some(&Tok::P(b';')) {
        t.pop();
    }
    Some(t)
}

/// What is certainly no SQL: parentheses that do not match, quotes that do not end, lists with empty
/// or adjacent elements, a name that is a keyword (these: `reserved`) without quotes.
pub fn well_formed(s: &[u8], reserved: &[&str]) {
    let fine = |x| chk(x, "the statements are SQL");
    let mut open = 0i32;
    // the last token: 0 none, a name or value, a keyword, a placeholder, punctuation
    let mut last = 0u8;
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        match c {
            b' ' | b'\n' | b'\t' | b'\r' => {
                i += 1;
                continue;
            }
            b'`' | b'\'' | b'"' => {
                let mut e = i + 1;
                while e < s.len() && s[e] != c {
                    e += 1 + (s[e] == b'\\' && c != b'`') as usize;
                }
                fine(e < s.len());
                fine(c != b'`' || e > i + 1);
                // (a doubled backtick is part of a name, and no name here has one)
                fine(c != b'`' || i == 0 || s[i - 1] != b'`');
                fine(!matches!(last, b'?' | b')'));
                last = b'n';
                i = e + 1;
                continue;
            }
            b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'_' => {
                let b = i;
                while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == b'_') {
                    i += 1;
                }
                let w = String::from_utf8(s[b..i].to_ascii_lowercase()).unwrap_or_default();
                fine(!reserved.contains(&&w[..]));
                let key = ["from", "where", "set", "values", "join", "on", "into"].contains(&&w[..]);
                fine(!(key && matches!(last, b',' | b'.' | b'=' | b'(')));
                last = if key { b'k' } else { b'n' };
                continue;
            }
            b'(' => open += 1,
            b')' => {
                open -= 1;
                fine(open >= 0);
                fine(!matches!(last, b',' | b'.' | b'='));
            }
            b',' | b'=' | b'.' => fine(!matches!(last, b',' | b'.' | b'=' | b'(' | b'k' | 0)),
            b'?' => fine(!matches!(last, b'?' | b'n' | b')' | b'.')),
            _ => {}
        }
        last = c;
        i += 1;
    }
    fine(open == 0 && !matches!(last, b',' | b'.' | b'=' | b'('));
}

pub fn word(t: &Tok) -> Option<&str> {
    match t {
        Tok::Word(w) => Some(w),
        _ => None,
    }
}
pub fn is(t: Option<&Tok>, w: &str) -> bool {
    matches!(t, Some(Tok::Word(x)) if x == w)
}

#[derive(Clone, PartialEq)]
struct Row {
    version: [u64; 3],
    name: String,
}
const NO_ROW: Row = Row { version: [u64::MAX; 3], name: String::new() };

#[derive(Clone, PartialEq)]
enum Ev {
    Run(String),
    Rec(Row),
    Unrec(Row),
}

struct Db {
    table: bool,
    rows: Vec<Row>,
    log: Vec<Ev>,
    /// this statement fails
    fail: Option<String>,
}
static mut DB: Db = Db { table: false, rows: Vec::new(), log: Vec::new(), fail: None };
fn db() -> &'static mut Db {
    unsafe { &mut *std::ptr::addr_of_mut!(DB) }
}

fn put(r: &mut Row, column: &str, v: &Tok) -> Option<()> {
    match (column, v) {
        ("version_0", Tok::Num(n)) => r.version[0] = *n,
        ("version_1", Tok::Num(n)) => r.version[1] = *n,
        ("version_2", Tok::Num(n)) => r.version[2] = *n,
        ("name", Tok::Str(s)) => r.name = s.clone(),
        _ => return None,
    }
    Some(())
}

/// The packets that answer a statement.
fn answer(sql: &[u8]) -> Option<Vec<Vec<u8>>> {
    let d = db();
    let done = vec![ok(1, 0, 2, 0)];
    if sql.starts_with(b"up ") || sql.starts_with(b"down ") {
        let s = String::from_utf8(sql.to_vec()).ok()?;
        if d.fail.as_ref() == Some(&s) {
            return Some(vec![err(1146, b"42S02", b"broken")]);
        }
        d.log.push(Ev::Run(s));
        return Some(done);
    }
    well_formed(sql, &[]);
    let t = tokens(sql)?;
    let mut i;
    if is(t.first(), "create") {
        chk(!d.table, "the table is created once");
        chk(t.iter().any(|x| is(Some(x), "migrations")), "it is the migrations table");
        d.table = true;
        return Some(vec![ok(0, 0, 2, 0)]);
    }
    if is(t.first(), "select") && t.iter().any(|x| is(Some(x), "information_schema")) {
        chk(t.contains(&Tok::Str(String::from("migrations"))), "it is the migrations table");
        let mut p = vec![vec![1], col(b"1", 3, 0)];
        if d.table {
            p.push(lestr(b"1"));
        }
        p.push(end(FULL, 2, 0));
        return Some(p);
    }
    if !d.table {
        return Some(vec![err(1146, b"42S02", b"no table")]);
    }
    if is(t.first(), "select") {
        let mut cols = vec![];
        i = 1;
        loop {
            cols.push(word(t.get(i)?)?.to_owned());
            i += 1;
            match t.get(i)? {
                Tok::P(b',') => i += 1,
                _ => break,
            }
        }
        if !is(t.get(i), "from") || !is(t.get(i + 1), "migrations") || t.len() != i + 2 {
            return None;
        }
        let mut p = vec![vec![cols.len() as u8]];
        for c in &cols {
            let ty = if c == "name" { 253 } else { 2 };
            p.push(coldef(b"d", b"migrations", b"migrations", c.as_bytes(), c.as_bytes(), ty, if ty == 2 { 32 } else { 0 }));
        }
        for r in &d.rows {
            let mut x = vec![];
            for c in &cols {
                match c.as_str() {
                    "version_0" => x.extend(lestr(format!("{}", r.version[0]).as_bytes())),
                    "version_1" => x.extend(lestr(format!("{}", r.version[1]).as_bytes())),
                    "version_2" => x.extend(lestr(format!("{}", r.version[2]).as_bytes())),
                    "name" => x.extend(lestr(r.name.as_bytes())),
                    _ => return None,
                }
            }
            p.push(x);
        }
        p.push(end(FULL, 2, 0));
        return Some(p);
    }
    if is(t.first(), "insert") && is(t.get(1), "into") && is(t.get(2), "migrations") {
        let v = t.iter().position(|x| is(Some(x), "values"))?;
        let names: Vec<&str> = t[3..v].iter().filter_map(word).collect();
        let vals: Vec<&Tok> = t[v + 1..].iter().filter(|x| !matches!(x, Tok::P(_))).collect();
        if names.len() != vals.len() || t[v + 1..].len() != 2 * vals.len() + 1 {
            return None;
        }
        let mut r = NO_ROW;
        for (n, v) in names.iter().zip(&vals) {
            put(&mut r, n, v)?;
        }
        chk(!d.rows.contains(&r), "a migration is recorded once");
        d.rows.push(r.clone());
        d.log.push(Ev::Rec(r));
        return Some(done);
    }
    if is(t.first(), "delete") && is(t.get(1), "from") && is(t.get(2), "migrations") && is(t.get(3), "where") {
        i = 4;
        let mut r = NO_ROW;
        loop {
            let c = word(t.get(i)?)?;
            if t.get(i + 1)? != &Tok::P(b'=') {
                return None;
            }
            put(&mut r, c, t.get(i + 2)?)?;
            i += 3;
            if i == t.len() {
                break;
            }
            if !is(t.get(i), "and") {
                return None;
            }
            i += 1;
        }
        let n = d.rows.len();
        // (columns that are not mentioned match anything)
        d.rows.retain(|x| !((r.version[0] == u64::MAX || x.version[0] == r.version[0]) && (r.version[1] == u64::MAX || x.version[1] == r.version[1]) && (r.version[2] == u64::MAX || x.version[2] == r.version[2]) && (r.name.is_empty() || x.name == r.name)));
        chk(d.rows.len() + 1 == n, "one migration is removed");
        d.log.push(Ev::Unrec(r));
        return Some(vec![ok((n - d.rows.len()) as u64, 0, 2, 0)]);
    }
    None
}

fn serve(n: &mut Net) -> bool {
    match n.take() {
        None => false,
        Some((_, p)) => {
            if p.first() != Some(&3) {
                sym::inconclusive("the migrator sends another command");
            }
            match answer(&p[1..]) {
                Some(a) => n.send_all(1, &a),
                None => sym::inconclusive("the migrator sends an unknown statement"),
            }
            true
        }
    }
}

// --- the migrations

#[allow(non_camel_case_types)]
mod a {
    use super::*;
    simple_migration!(one, "up 0", "down 0");
    simple_migration!(two, "up 1", "down 1");
    pub const L1: &[&dyn Migration] = &[&one];
    pub const L2: &[&dyn Migration] = &[&one, &two];
}
#[allow(non_camel_case_types)]
mod b {
    use super::*;
    // (another migration of the same name)
    simple_migration!(one, "up 2", "down 2");
    pub const L1: &[&dyn Migration] = &[&one];
    pub const L2: &[&dyn Migration] = &[&one, &Odd];
}
#[allow(non_camel_case_types)]
mod c {
    use super::*;
    simple_migration!(five, "up 4", "down 4");
    pub const L1: &[&dyn Migration] = &[&five];
}

/// a name that has to be escaped
struct Odd;
type Fut<'a> = Pin<Box<dyn Future<Output = Result<(), Error>> + 'a>>;
impl Migration for Odd {
    fn name(&self) -> &'static str {
        "it's \\ \"odd\""
    }
    fn up<'a>(&'a self, pool: &'a dyn AsyncPoolTrait<Connection>) -> Fut<'a> {
        Box::pin(async { pool.get().await?.execute_query("up 3").await.map(|_| {}) })
    }
    fn down<'a>(&'a self, pool: &'a dyn AsyncPoolTrait<Connection>) -> Fut<'a> {
        Box::pin(async { pool.get().await?.execute_query("down 3").await.map(|_| {}) })
    }
}

struct Mig {
    version: Version,
    name: &'static str,
    num: usize,
}

const VA: Version = Version(1, 2, 300);
const VB: Version = Version(1, 20, 3);
const VC: Version = Version(7, 0, 0);
const C0: &[&dyn Migration] = &[];

/// layouts of the lists
fn lists(which: u64) -> (Vec<MigrationList>, Vec<Mig>) {
    let l = match which {
        0 => vec![(VA, a::L2, 0), (VB, b::L1, 2)],
        1 => vec![(VA, a::L1, 0), (VB, b::L2, 2), (VC, c::L1, 4)],
        2 => vec![(VA, a::L1, 0), (VB, b::L1, 2), (VC, C0, 9)],
        3 => vec![(VA, a::L2, 0), (VB, b::L2, 2), (VC, c::L1, 4)],
        _ => vec![(VB, b::L2, 2)],
    };
    let mut flat = vec![];
    for (v, m, k) in &l {
        for (i, x) in m.iter().enumerate() {
            flat.push(Mig { version: *v, name: x.name(), num: k + i });
        }
    }
    (l.into_iter().map(|(version, migrations, _)| MigrationList { version, migrations }).collect(), flat)
}

fn row(m: &Mig) -> Row {
    Row { version: [m.version.0 as u64, m.version.1 as u64, m.version.2 as u64], name: m.name.to_owned() }
}

type Mx<'a> = Migrator<'a>;

/// calls: 0: up, 1: up_to_version, 2: down_to_version, 3: to_version
fn call(m: &mut Mx<'_>, what: u64, to: Version) -> Result<(), Error> {
    match what {
        0 => block(m.up()),
        1 => block(m.up_to_version(Some(to))),
        2 => block(m.down_to_version(to)),
        3 => block(m.to_version(to)),
        _ => block(m.up_to_version(None)),
    }
}

fn open(pool: &'static dyn AsyncPoolTrait<Connection>, l: &'static [MigrationList]) -> Mx<'static> {
    match block(Migrator::new(pool, l)) {
        Ok(m) => m,
        Err(_) => {
            chk(false, "the migrator opens");
            loop {}
        }
    }
}

/// C29. param0: layout, param1: call, param2: 1: one of the statements may fail
#[no_mangle]
#[inline(never)]
pub fn h_migrate() {
    let (l, flat) = lists(sym::param(0));
    let l: &'static [MigrationList] = Box::leak(l.into_boxed_slice());
    let what = sym::param(1);
    let n = flat.len();
    // what was applied before
    let d = db();
    *d = Db { table: sym::choose(2) == 1, rows: vec![], log: vec![], fail: None };
    let mut applied = vec![false; n];
    if d.table {
        for i in 0..n {
            if sym::choose(2) == 1 {
                applied[i] = true;
                d.rows.push(row(&flat[i]));
            }
        }
        if d.rows.len() > 1 && sym::choose(2) == 1 {
            d.rows.reverse();
        }
    }
    let to = Version(sym::u16(), sym::u16(), sym::u16());
    let key = |v: &Version| (v.0 as u64) << 32 | (v.1 as u64) << 16 | v.2 as u64;
    // a broken statement
    let broken = if sym::param(2) == 1 { Some((sym::choose(2) == 1, sym::choose(n))) } else { None };
    let name = |up: bool, i: usize| format!("{} {}", if up { "up" } else { "down" }, flat[i].num);
    d.fail = broken.map(|(up, i)| name(up, i));

    let nt = net();
    nt.send(0, &greeting(b"8.0.36", 7, FULL, &NONCE, NATIVE));
    nt.send(2, &ok(0, 0, 2, 0));
    let pool: &'static AsyncPool<Connection, Mock<false>, 1> = Box::leak(Box::new(AsyncPool::new(Arc::new(options::<false>()))));
    drop(block(pool.get()));
    rewind();
    net().hook = Some(Box::new(serve));
    let mut m = open(pool, l);
    chk(d.table, "there is a migrations table");
    chk(d.log.is_empty(), "opening changes nothing");

    // what has to happen
    let mut want = vec![];
    let mut failed = false;
    let above: Vec<bool> = flat.iter().map(|m| what != 0 && what != 4 && key(&m.version) > key(&to)).collect();
    if what != 2 {
        for i in 0..n {
            if !above[i] && !applied[i] && !failed {
                if broken == Some((true, i)) {
                    failed = true;
                } else {
                    want.push(Ev::Run(name(true, i)));
                    want.push(Ev::Rec(row(&flat[i])));
                }
            }
        }
    }
    if what == 2 || what == 3 {
        for i in (0..n).rev() {
            if above[i] && applied[i] && !failed {
                if broken == Some((false, i)) {
                    failed = true;
                } else {
                    want.push(Ev::Run(name(false, i)));
                    want.push(Ev::Unrec(row(&flat[i])));
                }
            }
        }
    }
    let r = call(&mut m, what, to);
    chk(d.log == want, "exactly the missing migrations are applied and reverted, in order, each recorded after it ran");
    match r {
        Ok(()) => chk(!failed, "a failing migration is reported"),
        Err(e) => {
            chk(failed, "migrations that work are not reported as failing");
            chk(is_server_error(&e, 1146, Some(b"42S02"), b"broken"), "the error is the migration's");
            cover("migration failed");
            // once it works, the rest is done
            d.fail = None;
            chk(call(&mut m, what, to).is_ok(), "the rest is done");
        }
    }
    // everything is as requested
    for i in 0..n {
        let want = match what {
            0 | 4 => true,
            1 => applied[i] || !above[i],
            2 => applied[i] && !above[i],
            _ => !above[i],
        };
        chk(d.rows.iter().filter(|x| **x == row(&flat[i])).count() == want as usize, "the table holds what is applied");
    }
    // nothing is done again, by this migrator or another one
    d.log.clear();
    d.fail = None;
    chk(call(&mut m, what, to).is_ok() && d.log.is_empty(), "repeating the call does nothing");
    drop(m);
    let mut m = open(pool, l);
    chk(call(&mut m, what, to).is_ok() && d.log.is_empty(), "repeating the call does nothing");
    cover("migrated");
}

/// C29: a table that names a migration the lists do not have. param0: layout, param1: 0: any other
/// version, 1: another name, 2: a name of another version, 3: case or blanks differ
#[no_mangle]
#[inline(never)]
pub fn h_unknown_migration() {
    let (l, flat) = lists(sym::param(0));
    let l: &'static [MigrationList] = Box::leak(l.into_boxed_slice());
    let d = db();
    *d = Db { table: true, rows: vec![], log: vec![], fail: None };
    for m in &flat {
        if sym::choose(2) == 1 {
            d.rows.push(row(m));
        }
    }
    let mut odd = row(&flat[sym::choose(flat.len())]);
    match sym::param(1) {
        0 => {
            for x in &mut odd.version {
                *x = sym::u16() as u64;
            }
            for m in &flat {
                let v = row(m).version;
                sym::assume(!(sym::and(v[0] == odd.version[0], sym::and(v[1] == odd.version[1], v[2] == odd.version[2]))));
            }
        }
        1 => odd.name = String::from("six"),
        2 => {
            odd.name = flat[sym::choose(flat.len())].name.to_owned();
            odd.version[2] += sym::choose(2) as u64;
        }
        _ => odd.name = odd.name.trim_end_matches(|c: char| c == 'e' || c == '"').to_owned(),
    }
    sym::assume(!flat.iter().any(|m| row(m) == odd));
    let at = sym::choose(d.rows.len() + 1);
    d.rows.insert(at, odd);
    let nt = net();
    nt.send(0, &greeting(b"8.0.36", 7, FULL, &NONCE, NATIVE));
    nt.send(2, &ok(0, 0, 2, 0));
    let pool: &'static AsyncPool<Connection, Mock<false>, 1> = Box::leak(Box::new(AsyncPool::new(Arc::new(options::<false>()))));
    drop(block(pool.get()));
    rewind();
    net().hook = Some(Box::new(serve));
    cover("unknown migration");
    sym::expect_panic();
    chk(block(Migrator::new(pool, l)).is_err(), "a table with unknown migrations is refused");
}

/// C29: one step down. param0: layout, param1: 1: it fails
#[no_mangle]
#[inline(never)]
pub fn h_one_down() {
    let (l, flat) = lists(sym::param(0));
    let l: &'static [MigrationList] = Box::leak(l.into_boxed_slice());
    let n = flat.len();
    let d = db();
    *d = Db { table: true, rows: vec![], log: vec![], fail: None };
    let mut last = None;
    for i in 0..n {
        if sym::choose(2) == 1 {
            last = Some(i);
            d.rows.push(row(&flat[i]));
        }
    }
    let nt = net();
    nt.send(0, &greeting(b"8.0.36", 7, FULL, &NONCE, NATIVE));
    nt.send(2, &ok(0, 0, 2, 0));
    let pool: &'static AsyncPool<Connection, Mock<false>, 1> = Box::leak(Box::new(AsyncPool::new(Arc::new(options::<false>()))));
    drop(block(pool.get()));
    rewind();
    net().hook = Some(Box::new(serve));
    let mut m = open(pool, l);
    let mut rows = d.rows.clone();
    for i in (0..n).rev() {
        if !rows.contains(&row(&flat[i])) {
            continue;
        }
        if sym::param(1) == 1 && last == Some(i) {
            d.fail = Some(format!("down {}", flat[i].num));
            match block(m.one_down()) {
                Ok(_) => chk(false, "a failing migration is reported"),
                Err(e) => chk(is_server_error(&e, 1146, Some(b"42S02"), b"broken"), "the error is the migration's"),
            }
            chk(d.log.is_empty() && d.rows == rows, "a failing migration is not recorded");
            d.fail = None;
        }
        chk(matches!(block(m.one_down()), Ok(true)), "one migration is reverted");
        chk(d.log == vec![Ev::Run(format!("down {}", flat[i].num)), Ev::Unrec(row(&flat[i]))], "the last applied migration is reverted");
        d.log.clear();
        rows.retain(|x| *x != row(&flat[i]));
        chk(d.rows == rows, "the table holds what is applied");
    }
    chk(matches!(block(m.one_down()), Ok(false)) && d.log.is_empty(), "nothing is left to revert");
    cover("stepped down");
}

/// C29: versions are ordered by their parts.
#[no_mangle]
#[inline(never)]
pub fn h_versions() {
    let (a, b) = (Version(sym::u16(), sym::u16(), sym::u16()), Version(sym::u16(), sym::u16(), sym::u16()));
    let key = |v: &Version| (v.0 as u64) << 32 | (v.1 as u64) << 16 | v.2 as u64;
    let (x, y) = (key(&a), key(&b));
    chk((a < b) == (x < y), "versions are ordered by their parts");
    chk((a > b) == (x > y), "versions are ordered by their parts");
    chk((a == b) == (x == y), "versions are ordered by their parts");
    chk(a.cmp(&b) == x.cmp(&y), "versions are ordered by their parts");
    let o = MigrationList::ordered(&[MigrationList { version: a, migrations: C0 }, MigrationList { version: b, migrations: C0 }]);
    chk(o == (x < y), "lists are in order if their versions are");
    cover("versions");
}

/// C29: lists of any order. param0: lists
#[no_mangle]
#[inline(never)]
pub fn h_version_lists() {
    let n = sym::param(0) as usize;
    let v: Vec<Version> = (0..n).map(|_| Version(sym::u16(), sym::u16(), sym::u16())).collect();
    let key = |v: &Version| (v.0 as u64) << 32 | (v.1 as u64) << 16 | v.2 as u64;
    let mut want = true;
    for i in 1..n {
        want = sym::and(want, key(&v[i - 1]) < key(&v[i]));
    }
    let l: Vec<MigrationList> = v.iter().map(|v| MigrationList { version: *v, migrations: C0 }).collect();
    chk(MigrationList::ordered(&l) == want, "lists are in order if their versions are");
    cover("lists");
}
