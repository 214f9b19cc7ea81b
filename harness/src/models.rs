//! Models: what inserts and updates send, what is read into which field.
use crate::migr::{is, tokens, well_formed, word, Tok};
use crate::mock::*;
use crate::rows::prepare_ok;
use crate::sym::{self, chk, cover};
use mysql_connector::{
    macros::*,
    model::{ActiveModel, ActiveReference, ActiveValue, HasActiveModel, IntoQuery, Model, UpdateModel},
    types::Value,
    Connection, Error,
};

#[derive(Debug, Clone)]
pub struct Vec2 {
    pub x: i16,
    pub y: u8,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "map", primary = "id", auto_increment = "true")]
pub struct Map {
    pub id: u32,
    pub name: String,
    pub rank: Option<u8>,
}

/// (the key is not the database's, and not called id)
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "tag", primary = "code", auto_increment = "false")]
pub struct Tag {
    pub code: u16,
    pub id: u8,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "entity", primary = "id", auto_increment = "true", ty = Vec2{x,y: height})]
pub struct Entity {
    pub id: u32,
    pub heading: i16,
    pub position: Vec2,
    pub name: Option<u8>,
    pub map: Map,
}

/// two references, one of them nested, the same names everywhere
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "item", primary = "id", auto_increment = "true")]
pub struct Item {
    pub id: u32,
    pub tag: Tag,
    pub name: u8,
    pub entity: Entity,
}

/// two references to the same table
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "pair", primary = "id", auto_increment = "true")]
pub struct Pair {
    pub id: u8,
    pub tag: Tag,
    pub tag2: Tag,
}

/// (a table with the name of one of its references)
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "end", primary = "id", auto_increment = "true")]
pub struct End {
    pub id: u8,
}
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "l", primary = "id", auto_increment = "true")]
pub struct Leaf {
    pub id: u8,
    pub end: End,
}
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "leaf", primary = "id", auto_increment = "true")]
pub struct Mid {
    pub id: u8,
    pub leaf: Leaf,
}
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "outer", primary = "id", auto_increment = "true")]
pub struct Outer {
    pub id: u8,
    pub a: Mid,
}

/// (names that are keywords of Rust, a table whose name is one of SQL)
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "group", primary = "id", auto_increment = "true", ty = Vec2{x,y})]
pub struct Raw {
    pub id: u8,
    pub r#type: u8,
    pub r#fn: Vec2,
    pub r#ref: Tag,
}

// --- what the server sees

#[derive(Clone, PartialEq, Debug)]
enum Kind {
    Insert,
    Update,
}
/// A parameter: null, or an integer as 64 bits and whether it is signed, or bytes.
#[derive(Clone, Debug)]
enum P {
    Null,
    Int(u64, bool),
    Bytes(Vec<u8>),
}
fn same(a: &P, b: &P) -> bool {
    match (a, b) {
        (P::Null, P::Null) => true,
        // (as numbers)
        (P::Int(x, s), P::Int(y, t)) => sym::and(x == y, *s == *t || (*x as i64) >= 0),
        (P::Bytes(x), P::Bytes(y)) => sym::eq(x, y),
        _ => false,
    }
}

#[derive(Clone, Debug)]
struct Sent {
    kind: Kind,
    table: String,
    values: Vec<(String, P)>,
    /// updates: key column and value
    key: Option<(String, P)>,
}

struct Server {
    /// statements by id - 1: kind, table, columns, key column
    stmts: Vec<(Kind, String, Vec<String>, Option<String>)>,
    sent: Vec<Sent>,
    /// ids given to inserts
    ids: Vec<u64>,
    /// this execution fails (counted from 0)
    fail: usize,
    fail_prepare: usize,
    commands: u32,
}
static mut SERVER: Server = Server { stmts: Vec::new(), sent: Vec::new(), ids: Vec::new(), fail: 99, fail_prepare: 99, commands: 0 };
fn server() -> &'static mut Server {
    unsafe { &mut *std::ptr::addr_of_mut!(SERVER) }
}

/// names between parentheses, or commas
fn list(t: &[Tok], i: &mut usize) -> Option<Vec<Tok>> {
    let mut r = vec![];
    if t.get(*i)? != &Tok::P(b'(') {
        return None;
    }
    *i += 1;
    if t.get(*i)? == &Tok::P(b')') {
        *i += 1;
        return Some(r);
    }
    loop {
        r.push(t.get(*i)?.clone());
        match t.get(*i + 1)? {
            Tok::P(b',') => *i += 2,
            Tok::P(b')') => {
                *i += 2;
                return Some(r);
            }
            _ => return None,
        }
    }
}

fn understand(sql: &[u8]) -> Option<(Kind, String, Vec<String>, Option<String>)> {
    well_formed(sql, &["group", "rank"]);
    let t = tokens(sql)?;
    if is(t.first(), "insert") && is(t.get(1), "into") {
        let table = word(t.get(2)?)?.to_owned();
        let mut i = 3;
        let names: Vec<String> = list(&t, &mut i)?.iter().map(|x| word(x).map(|x| x.to_owned())).collect::<Option<_>>()?;
        if !is(t.get(i), "values") {
            return None;
        }
        i += 1;
        let q = list(&t, &mut i)?;
        if i != t.len() || q.iter().any(|x| *x != Tok::P(b'?')) {
            return None;
        }
        chk(q.len() == names.len(), "every column of the insert has a value");
        return Some((Kind::Insert, table, names, None));
    }
    if is(t.first(), "update") && is(t.get(2), "set") {
        let table = word(t.get(1)?)?.to_owned();
        let mut names = vec![];
        let mut i = 3;
        loop {
            names.push(word(t.get(i)?)?.to_owned());
            if t.get(i + 1)? != &Tok::P(b'=') || t.get(i + 2)? != &Tok::P(b'?') {
                return None;
            }
            i += 3;
            match t.get(i)? {
                Tok::P(b',') => i += 1,
                _ => break,
            }
        }
        if !is(t.get(i), "where") || t.len() != i + 4 || t[i + 2] != Tok::P(b'=') || t[i + 3] != Tok::P(b'?') {
            return None;
        }
        return Some((Kind::Update, table, names, Some(word(&t[i + 1])?.to_owned())));
    }
    None
}

fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}

/// The parameters of an execution.
fn params(p: &[u8], n: usize) -> Option<Vec<P>> {
    let mut r = vec![];
    if n == 0 {
        return Some(r);
    }
    let nulls = p.get(..n.div_ceil(8))?;
    let p = &p[nulls.len()..];
    if *p.first()? != 1 {
        return None;
    }
    let types = p.get(1..1 + 2 * n)?;
    let mut p = &p[1 + 2 * n..];
    for i in 0..n {
        if nulls[i / 8] >> (i % 8) & 1 == 1 {
            r.push(P::Null);
            continue;
        }
        let signed = types[2 * i + 1] & 0x80 == 0;
        let ext = |b: &[u8]| {
            let s = 64 - 8 * b.len() as u32;
            P::Int(if signed { ((le(b) << s) as i64 >> s) as u64 } else { le(b) }, signed)
        };
        let w = match types[2 * i] {
            1 => 1,
            2 => 2,
            3 => 4,
            8 => 8,
            15 | 249..=254 => {
                let l = *p.first()? as usize;
                if l > 250 {
                    return None;
                }
                p = &p[1..];
                r.push(P::Bytes(p.get(..l)?.to_vec()));
                p = &p[l..];
                continue;
            }
            _ => return None,
        };
        r.push(ext(p.get(..w)?));
        p = &p[w..];
    }
    if !p.is_empty() {
        return None;
    }
    Some(r)
}

fn serve(n: &mut Net) -> bool {
    let (_, p) = match n.take() {
        None => return false,
        Some(x) => x,
    };
    let s = server();
    s.commands += 1;
    match p[0] {
        0x16 => {
            if s.fail_prepare == s.sent.len() {
                n.send(1, &err(1146, b"42S02", b"broken"));
                return true;
            }
            let st = match understand(&p[1..]) {
                Some(st) => st,
                None => sym::inconclusive("the model sends an unknown statement"),
            };
            let k = st.2.len() + st.3.is_some() as usize;
            s.stmts.push(st);
            let mut a = vec![prepare_ok(s.stmts.len() as u32, 0, k as u16)];
            for _ in 0..k {
                a.push(col(b"?", 253, 0));
            }
            n.send_all(1, &a);
        }
        0x17 => {
            let id = le(&p[1..5]) as usize;
            chk(id >= 1 && id <= s.stmts.len(), "the statement that was prepared is executed");
            let (kind, table, names, key) = s.stmts[id - 1].clone();
            let k = names.len() + key.is_some() as usize;
            let mut v = match params(&p[10..], k) {
                Some(v) => v,
                None => {
                    chk(false, "the server understands the parameters");
                    return true;
                }
            };
            let key = key.map(|c| (c, v.pop().unwrap()));
            let me = s.sent.len();
            s.sent.push(Sent { kind: kind.clone(), table, values: names.into_iter().zip(v).collect(), key });
            if me == s.fail {
                n.send(1, &err(1062, b"23000", b"twice"));
                return true;
            }
            let mut a = vec![0, 1];
            if kind == Kind::Insert {
                let id = sym::u64();
                s.ids.push(id);
                a.push(0xFE);
                a.extend_from_slice(&id.to_le_bytes());
            } else {
                s.ids.push(0);
                a.push(0);
            }
            a.extend_from_slice(&[2, 0, 0, 0]);
            n.send(1, &a);
        }
        0x19 => (),
        _ => sym::inconclusive("the model sends another command"),
    }
    true
}

/// What is sent has to be this; values that are ids of earlier inserts are told by their number.
enum Want {
    V(P),
    Id(usize),
}
struct Exp {
    kind: Kind,
    table: &'static str,
    values: Vec<(&'static str, Want)>,
    key: Option<(&'static str, P)>,
}

fn compare(want: &[Exp]) {
    let s = server();
    chk(s.sent.len() == want.len(), "one statement is sent for every model");
    for (g, w) in s.sent.iter().zip(want) {
        chk(g.kind == w.kind && g.table == w.table, "the statement is for the model's table");
        chk(g.values.len() == w.values.len(), "exactly the set fields are named");
        for (name, v) in &w.values {
            let x: Vec<&P> = g.values.iter().filter(|x| x.0 == *name).map(|x| &x.1).collect();
            chk(x.len() == 1, "exactly the set fields are named");
            if x.len() != 1 {
                return;
            }
            match v {
                Want::V(v) => chk(same(x[0], v), "every field is bound to its own value"),
                Want::Id(k) => chk(same(x[0], &P::Int(s.ids[*k], false)), "a reference is bound to the key of its row"),
            }
        }
        match (&g.key, &w.key) {
            (None, None) => (),
            (Some((n, v)), Some((m, x))) => chk(n == m && same(v, x), "the update is keyed by the model's key"),
            _ => chk(false, "the update is keyed by the model's key"),
        }
    }
}

fn int(x: u64) -> Want {
    Want::V(P::Int(x, false))
}
fn sint(x: i64) -> Want {
    Want::V(P::Int(x as u64, true))
}
fn opt(x: Option<u8>) -> Want {
    Want::V(match x {
        None => P::Null,
        Some(x) => P::Int(x as u64, false),
    })
}
fn text() -> String {
    let v = sym::vec(2);
    for x in &v {
        sym::assume(*x < 0x80);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
fn any_opt() -> Option<u8> {
    if sym::choose(2) == 1 {
        Some(sym::u8())
    } else {
        None
    }
}
fn set() -> bool {
    sym::choose(2) == 1
}

/// few: only all fields or none of the simple ones
fn set_few(few: bool, all: bool) -> bool {
    if few {
        all
    } else {
        set()
    }
}

type MapA = <Map as HasActiveModel>::ActiveModel;
type TagA = <Tag as HasActiveModel>::ActiveModel;
type EntityA = <Entity as HasActiveModel>::ActiveModel;
type ItemA = <Item as HasActiveModel>::ActiveModel;
type PairA = <Pair as HasActiveModel>::ActiveModel;

type Fields = Vec<(&'static str, Want)>;

fn some_map(m: &mut MapA, few: bool) -> Fields {
    let mut f: Fields = vec![];
    let all = few && set();
    if set_few(few, all) {
        let x = text();
        f.push(("name", Want::V(P::Bytes(x.as_bytes().to_vec()))));
        m.name = ActiveValue::Set(x);
    }
    if set_few(few, all) {
        let x = if few { Some(sym::u8()) } else { any_opt() };
        f.push(("rank", opt(x)));
        m.rank = ActiveValue::Set(x);
    }
    f
}
/// with the key, if `key`
fn with_id(f: &mut Fields, key: bool) -> ActiveValue<u32> {
    if key {
        let x = sym::u32();
        f.push(("id", int(x as u64)));
        ActiveValue::Set(x)
    } else {
        ActiveValue::Unset
    }
}
fn some_tag(m: &mut TagA, few: bool) -> Fields {
    let mut f: Fields = vec![];
    let all = few && set();
    if set_few(few, all) {
        let x = sym::u16();
        f.push(("code", int(x as u64)));
        m.code = ActiveValue::Set(x);
    }
    if set_few(few, all) {
        let x = sym::u8();
        f.push(("id", int(x as u64)));
        m.id = ActiveValue::Set(x);
    }
    f
}

/// The key a reference to an inserted row gets.
fn key_of(f: &Fields, name: &str, at: usize) -> Want {
    match f.iter().find(|x| x.0 == name) {
        Some((_, Want::V(v))) => Want::V(v.clone()),
        _ => Want::Id(at),
    }
}

fn insert_map(few: bool, want: &mut Vec<Exp>) -> (ActiveReference<Map>, Option<Want>) {
    match sym::choose(3) {
        0 => (ActiveReference::Unset, None),
        1 => {
            let x = sym::u32();
            (ActiveReference::Set(x), Some(int(x as u64)))
        }
        _ => {
            let mut m = MapA::default();
            let mut f = some_map(&mut m, few);
            m.id = with_id(&mut f, set());
            let k = key_of(&f, "id", want.len());
            want.push(Exp { kind: Kind::Insert, table: "map", values: f, key: None });
            (ActiveReference::Insert(m), Some(k))
        }
    }
}
fn insert_tag(few: bool, want: &mut Vec<Exp>) -> (ActiveReference<Tag>, Option<Want>) {
    match sym::choose(3) {
        0 => (ActiveReference::Unset, None),
        1 => {
            let x = sym::u16();
            (ActiveReference::Set(x), Some(int(x as u64)))
        }
        _ => {
            let mut m = TagA::default();
            let f = some_tag(&mut m, few);
            let k = key_of(&f, "code", want.len());
            want.push(Exp { kind: Kind::Insert, table: "tag", values: f, key: None });
            (ActiveReference::Insert(m), Some(k))
        }
    }
}
fn some_entity(m: &mut EntityA, few: bool, want: &mut Vec<Exp>) -> Fields {
    let mut f: Fields = vec![];
    let all = few && set();
    if set_few(few, all) {
        let x = sym::u16() as i16;
        f.push(("heading", sint(x as i64)));
        m.heading = ActiveValue::Set(x);
    }
    if set_few(few, all) {
        let (x, y) = (sym::u16() as i16, sym::u8());
        f.push(("position_x", sint(x as i64)));
        f.push(("position_height", int(y as u64)));
        m.position = ActiveValue::Set(Vec2 { x, y });
    }
    if set_few(few, all) {
        let x = if few { None } else { any_opt() };
        f.push(("name", opt(x)));
        m.name = ActiveValue::Set(x);
    }
    let (r, k) = insert_map(true, want);
    m.map = r;
    if let Some(k) = k {
        f.push(("map", k));
    }
    f
}

fn start(fail: bool) -> Connection {
    let c = connect(FULL);
    *server() = Server { stmts: vec![], sent: vec![], ids: vec![], fail: 99, fail_prepare: 99, commands: 0 };
    if fail {
        let k = sym::choose(4);
        if sym::choose(2) == 1 {
            server().fail = k;
        } else {
            server().fail_prepare = k;
        }
    }
    net().hook = Some(Box::new(serve));
    c
}

fn run_insert<T: HasActiveModel>(c: &mut Connection, m: T::ActiveModel, want: Vec<Exp>) {
    let r = block(m.insert(c));
    finish(r.map(Some), want);
}

fn finish(r: Result<Option<u64>, Error>, mut want: Vec<Exp>) {
    let s = server();
    let n = want.len();
    if s.fail < n || s.fail_prepare < n {
        match r {
            Ok(_) => chk(false, "a failing statement is reported"),
            Err(e) => chk(if s.fail < n { is_server_error(&e, 1062, Some(b"23000"), b"twice") } else { is_server_error(&e, 1146, Some(b"42S02"), b"broken") }, "the error is the server's"),
        }
        want.truncate((s.fail + 1).min(s.fail_prepare));
        compare(&want);
        cover("statement failed");
        return;
    }
    match r {
        Ok(x) => {
            compare(&want);
            if let Some(id) = x {
                chk(Some(&id) == s.ids.last(), "the new row's id is returned");
            }
        }
        Err(_) => chk(false, "the call succeeds"),
    }
    cover("models sent");
}

/// C31: inserts. param0: model, param1: 1: a statement may fail
#[no_mangle]
#[inline(never)]
pub fn h_insert() {
    let mut c = start(sym::param(1) == 1);
    let mut want = vec![];
    match sym::param(0) {
        0 => {
            let mut m = MapA::default();
            let mut f = some_map(&mut m, false);
            m.id = with_id(&mut f, set());
            want.push(Exp { kind: Kind::Insert, table: "map", values: f, key: None });
            run_insert::<Map>(&mut c, m, want);
        }
        1 => {
            let mut m = TagA::default();
            let f = some_tag(&mut m, false);
            want.push(Exp { kind: Kind::Insert, table: "tag", values: f, key: None });
            run_insert::<Tag>(&mut c, m, want);
        }
        2 => {
            let mut m = EntityA::default();
            let mut f = some_entity(&mut m, false, &mut want);
            m.id = with_id(&mut f, set());
            want.push(Exp { kind: Kind::Insert, table: "entity", values: f, key: None });
            run_insert::<Entity>(&mut c, m, want);
        }
        3 => {
            // (the order in which references are inserted is the order of the fields)
            let mut m = PairA::default();
            let mut f: Fields = vec![];
            let (r, k) = insert_tag(true, &mut want);
            m.tag = r;
            f.extend(k.map(|k| ("tag", k)));
            let (r, k) = insert_tag(true, &mut want);
            m.tag2 = r;
            f.extend(k.map(|k| ("tag2", k)));
            if set() {
                let x = sym::u8();
                f.push(("id", int(x as u64)));
                m.id = ActiveValue::Set(x);
            }
            want.push(Exp { kind: Kind::Insert, table: "pair", values: f, key: None });
            run_insert::<Pair>(&mut c, m, want);
        }
        5 => {
            let mut m = <Raw as HasActiveModel>::ActiveModel::default();
            let mut f: Fields = vec![];
            let (r, k) = insert_tag(true, &mut want);
            m.r#ref = r;
            f.extend(k.map(|k| ("ref", k)));
            if set() {
                let x = sym::u8();
                f.push(("type", int(x as u64)));
                m.r#type = ActiveValue::Set(x);
            }
            if set() {
                let (x, y) = (sym::u16() as i16, sym::u8());
                f.push(("fn_x", sint(x as i64)));
                f.push(("fn_y", int(y as u64)));
                m.r#fn = ActiveValue::Set(Vec2 { x, y });
            }
            want.push(Exp { kind: Kind::Insert, table: "group", values: f, key: None });
            run_insert::<Raw>(&mut c, m, want);
        }
        _ => {
            let mut m = ItemA::default();
            let mut f: Fields = vec![];
            let (r, k) = insert_tag(true, &mut want);
            m.tag = r;
            f.extend(k.map(|k| ("tag", k)));
            if set() {
                let mut e = EntityA::default();
                let mut ef = some_entity(&mut e, true, &mut want);
                e.id = with_id(&mut ef, set());
                f.push(("entity", key_of(&ef, "id", want.len())));
                want.push(Exp { kind: Kind::Insert, table: "entity", values: ef, key: None });
                m.entity = ActiveReference::Insert(e);
            }
            if set() {
                let x = sym::u8();
                f.push(("name", int(x as u64)));
                m.name = ActiveValue::Set(x);
            }
            want.push(Exp { kind: Kind::Insert, table: "item", values: f, key: None });
            run_insert::<Item>(&mut c, m, want);
        }
    }
}

/// C31: whole models. param0: model
#[no_mangle]
#[inline(never)]
pub fn h_insert_whole() {
    let mut c = start(false);
    let mut want = vec![];
    let map = |want: &mut Vec<Exp>| {
        let m = Map { id: sym::u32(), name: text(), rank: any_opt() };
        want.push(Exp { kind: Kind::Insert, table: "map", values: vec![("name", Want::V(P::Bytes(m.name.as_bytes().to_vec()))), ("rank", opt(m.rank))], key: None });
        m
    };
    let tag = |want: &mut Vec<Exp>| {
        let m = Tag { code: sym::u16(), id: sym::u8() };
        want.push(Exp { kind: Kind::Insert, table: "tag", values: vec![("code", int(m.code as u64)), ("id", int(m.id as u64))], key: None });
        m
    };
    let entity = |want: &mut Vec<Exp>| {
        let map = map(want);
        let m = Entity { id: sym::u32(), heading: sym::u16() as i16, position: Vec2 { x: sym::u16() as i16, y: sym::u8() }, name: any_opt(), map };
        let k = Want::Id(want.len() - 1);
        want.push(Exp {
            kind: Kind::Insert,
            table: "entity",
            values: vec![("heading", sint(m.heading as i64)), ("position_x", sint(m.position.x as i64)), ("position_height", int(m.position.y as u64)), ("name", opt(m.name)), ("map", k)],
            key: None,
        });
        m
    };
    match sym::param(0) {
        0 => {
            let m = map(&mut want);
            run_insert::<Map>(&mut c, m.into_active_model(), want);
        }
        1 => {
            let m = tag(&mut want);
            run_insert::<Tag>(&mut c, m.into_active_model(), want);
        }
        2 => {
            let m = entity(&mut want);
            run_insert::<Entity>(&mut c, m.into_active_model(), want);
        }
        _ => {
            let tag = tag(&mut want);
            let code = tag.code;
            let entity = entity(&mut want);
            let m = Item { id: sym::u32(), tag, name: sym::u8(), entity };
            want.push(Exp { kind: Kind::Insert, table: "item", values: vec![("tag", int(code as u64)), ("name", int(m.name as u64)), ("entity", Want::Id(2))], key: None });
            run_insert::<Item>(&mut c, m.into_active_model(), want);
        }
    }
}

/// C31: updates. param0: model, param1: 1: a statement may fail
#[no_mangle]
#[inline(never)]
pub fn h_update() {
    let mut c = start(sym::param(1) == 1);
    let mut want = vec![];
    let none;
    let r;
    match sym::param(0) {
        0 => {
            let id = sym::u32();
            let model = Map { id, name: String::new(), rank: None };
            let mut u = model.update_model();
            let mut f = some_map(&mut u, false);
            // (the key itself may change)
            u.id = with_id(&mut f, set());
            none = f.is_empty();
            if !none {
                want.push(Exp { kind: Kind::Update, table: "map", values: f, key: Some(("id", P::Int(id as u64, false))) });
            }
            r = block(u.update(&mut c));
        }
        1 => {
            let id = sym::u16();
            let mut u = UpdateModel::<Tag>::new(id);
            let f = some_tag(&mut u, false);
            none = f.is_empty();
            if !none {
                want.push(Exp { kind: Kind::Update, table: "tag", values: f, key: Some(("code", P::Int(id as u64, false))) });
            }
            r = block(u.update(&mut c));
        }
        _ => {
            let id = sym::u32();
            let mut u = UpdateModel::<Entity>::new(id);
            let f = some_entity(&mut u, false, &mut want);
            none = f.is_empty();
            if !none {
                want.push(Exp { kind: Kind::Update, table: "entity", values: f, key: Some(("id", P::Int(id as u64, false))) });
            }
            r = block(u.update(&mut c));
        }
    }
    if none {
        chk(r.is_ok() && server().commands == 0, "nothing is sent if no field is set");
        cover("nothing to update");
        return;
    }
    finish(r.map(|_| None), want);
}

// --- reading

/// Where a column comes from: table alias, name.
type From = (&'static str, &'static str);

/// A column of a result set and its bytes in a row: integers.
struct Col {
    from: From,
    ty: u8,
    unsigned: bool,
    null: bool,
    bytes: Vec<u8>,
}

fn ucol(from: From, n: usize) -> Col {
    let ty = match n {
        1 => 1,
        2 => 2,
        4 => 3,
        _ => 8,
    };
    Col { from, ty, unsigned: true, null: false, bytes: sym::vec(n) }
}
fn scol(from: From, n: usize) -> Col {
    Col { unsigned: false, ..ucol(from, n) }
}
fn tcol(from: From) -> Col {
    let mut b = vec![2];
    b.extend(text().into_bytes());
    Col { from, ty: 253, unsigned: false, null: false, bytes: b }
}
fn ncol(from: From) -> Col {
    let null = sym::choose(2) == 1;
    Col { null, bytes: if null { vec![] } else { sym::vec(1) }, ..ucol(from, 1) }
}

/// Reads one row of these columns in this order.
fn read<R: mysql_connector::model::FromQueryResult>(c: &mut Connection, cols: &[&Col]) -> Result<R, Error> {
    rewind();
    net().send(1, &prepare_ok(1, 0, 0));
    let mut s = block(c.prepare_statement("s"))?;
    let mut p = vec![lenenc(cols.len() as u64)];
    let mut row = vec![0u8];
    let mut nulls = vec![0u8; (cols.len() + 9) / 8];
    let mut data = vec![];
    for (i, x) in cols.iter().enumerate() {
        p.push(coldef(b"d", x.from.0.as_bytes(), b"any", b"label", x.from.1.as_bytes(), x.ty, if x.unsigned { 32 } else { 0 }));
        if x.null {
            nulls[(i + 2) / 8] |= 1 << ((i + 2) % 8);
        }
        data.extend_from_slice(&x.bytes);
    }
    row.extend(nulls);
    row.extend(data);
    p.push(row);
    p.push(end(FULL, 2, 0));
    net().send_all(1, &p);
    let mut r = block(s.query::<Value, R>(&[]))?;
    let x = block(r.one())?;
    match x {
        Some(x) => Ok(x),
        None => {
            chk(false, "the row is read");
            loop {}
        }
    }
}

/// any order of n things
fn order(n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut o = vec![];
    while !left.is_empty() {
        o.push(left.remove(sym::choose(left.len())));
    }
    o
}
/// some orders: rotations and their reverses
fn turn(n: usize) -> Vec<usize> {
    let k = sym::choose(n);
    let mut o: Vec<usize> = (0..n).map(|i| (i + k) % n).collect();
    if sym::choose(2) == 1 {
        o.reverse();
    }
    o
}

fn is_map(m: &Map, id: &Col, name: &Col, rank: &Col) -> bool {
    let r = match m.rank {
        None => rank.null,
        Some(x) => !rank.null && x == rank.bytes[0],
    };
    sym::and(sym::and(m.id as u64 == le(&id.bytes), r), sym::eq(m.name.as_bytes(), &name.bytes[1..]))
}

/// C32: models are read from columns in any order. param0: model, param1: extra columns
#[no_mangle]
#[inline(never)]
pub fn h_read_model() {
    let mut c = connect(FULL);
    // (none of them has the name of an own field of the model, or it is under another model's alias)
    let extra: Vec<Col> = [("map", "zzz"), ("", "n"), ("entity.map", "none")].into_iter().take(sym::param(1) as usize).map(|f| ucol(f, 1)).collect();
    let what = "every field is read from its own column";
    match sym::param(0) {
        4 => {
            let own = [ucol(("outer", "id"), 1), ucol(("outer.a", "id"), 1), ucol(("outer.a.leaf", "id"), 1), ucol(("outer.a.leaf.end", "id"), 1)];
            let all: Vec<&Col> = own.iter().chain(&extra).collect();
            let cols: Vec<&Col> = order(all.len()).into_iter().map(|i| all[i]).collect();
            match read::<Outer>(&mut c, &cols) {
                Ok(m) => {
                    chk(m.id as u64 == le(&own[0].bytes), what);
                    chk(m.a.id as u64 == le(&own[1].bytes), what);
                    chk(m.a.leaf.id as u64 == le(&own[2].bytes), what);
                    chk(m.a.leaf.end.id as u64 == le(&own[3].bytes), what);
                }
                Err(_) => chk(false, "the row is read"),
            }
        }
        6 => {
            let own = [ucol(("group", "id"), 1), ucol(("group", "type"), 1), scol(("group", "fn_x"), 2), ucol(("group", "fn_y"), 1), ucol(("group.ref", "code"), 2), ucol(("group.ref", "id"), 1)];
            let all: Vec<&Col> = own.iter().chain(&extra).collect();
            let cols: Vec<&Col> = turn(all.len()).into_iter().map(|i| all[i]).collect();
            match read::<Raw>(&mut c, &cols) {
                Ok(m) => {
                    chk(m.id as u64 == le(&own[0].bytes), what);
                    chk(m.r#type as u64 == le(&own[1].bytes), what);
                    chk(m.r#fn.x as u16 as u64 == le(&own[2].bytes), what);
                    chk(m.r#fn.y as u64 == le(&own[3].bytes), what);
                    chk(m.r#ref.code as u64 == le(&own[4].bytes), what);
                    chk(m.r#ref.id as u64 == le(&own[5].bytes), what);
                }
                Err(_) => chk(false, "the row is read"),
            }
        }
        5 => {
            let own = [ucol(("leaf", "id"), 1), ucol(("leaf.leaf", "id"), 1), ucol(("leaf.leaf.end", "id"), 1)];
            let all: Vec<&Col> = own.iter().chain(&extra).collect();
            let cols: Vec<&Col> = order(all.len()).into_iter().map(|i| all[i]).collect();
            match read::<Mid>(&mut c, &cols) {
                Ok(m) => {
                    chk(m.id as u64 == le(&own[0].bytes), what);
                    chk(m.leaf.id as u64 == le(&own[1].bytes), what);
                    chk(m.leaf.end.id as u64 == le(&own[2].bytes), what);
                }
                Err(_) => chk(false, "the row is read"),
            }
        }
        0 => {
            // (whatever the table is called in the select)
            let t = ["map", "m", ""][sym::choose(3)];
            let own = [ucol((t, "id"), 4), tcol((t, "name")), ncol((t, "rank"))];
            let all: Vec<&Col> = own.iter().chain(&extra).collect();
            let cols: Vec<&Col> = order(all.len()).into_iter().map(|i| all[i]).collect();
            match read::<Map>(&mut c, &cols) {
                Ok(m) => chk(is_map(&m, &own[0], &own[1], &own[2]), what),
                Err(_) => chk(false, "the row is read"),
            }
        }
        1 => {
            // the same names in both tables
            let own = [ucol(("pair", "id"), 1), ucol(("pair.tag", "id"), 1), ucol(("pair.tag", "code"), 2), ucol(("pair.tag2", "code"), 2), ucol(("pair.tag2", "id"), 1)];
            let all: Vec<&Col> = own.iter().chain(&extra).collect();
            let o = if all.len() > 5 { turn(all.len()) } else { order(all.len()) };
            let cols: Vec<&Col> = o.into_iter().map(|i| all[i]).collect();
            match read::<Pair>(&mut c, &cols) {
                Ok(m) => {
                    chk(m.id as u64 == le(&own[0].bytes), what);
                    chk(m.tag.id as u64 == le(&own[1].bytes), what);
                    chk(m.tag.code as u64 == le(&own[2].bytes), what);
                    chk(m.tag2.code as u64 == le(&own[3].bytes), what);
                    chk(m.tag2.id as u64 == le(&own[4].bytes), what);
                }
                Err(_) => chk(false, "the row is read"),
            }
        }
        2 => {
            let own = [
                ucol(("entity", "id"), 4),
                scol(("entity", "heading"), 2),
                scol(("entity", "position_x"), 2),
                ucol(("entity", "position_height"), 1),
                ncol(("entity", "name")),
                ucol(("entity.map", "id"), 4),
                tcol(("entity.map", "name")),
                ncol(("entity.map", "rank")),
                // the reference's own column
                ucol(("entity", "map"), 4),
            ];
            let all: Vec<&Col> = own.iter().chain(&extra).collect();
            let cols: Vec<&Col> = turn(all.len()).into_iter().map(|i| all[i]).collect();
            match read::<Entity>(&mut c, &cols) {
                Ok(m) => {
                    chk(m.id as u64 == le(&own[0].bytes), what);
                    chk(m.heading as u16 as u64 == le(&own[1].bytes), what);
                    chk(m.position.x as u16 as u64 == le(&own[2].bytes), what);
                    chk(m.position.y as u64 == le(&own[3].bytes), what);
                    chk(own[4].null == m.name.is_none() && m.name.map_or(true, |x| x == own[4].bytes[0]), what);
                    chk(is_map(&m.map, &own[5], &own[6], &own[7]), what);
                }
                Err(_) => chk(false, "the row is read"),
            }
        }
        _ => {
            let own = [
                ucol(("item", "id"), 4),
                ucol(("item", "name"), 1),
                ucol(("item.tag", "code"), 2),
                ucol(("item.tag", "id"), 1),
                ucol(("item.entity", "id"), 4),
                scol(("item.entity", "heading"), 2),
                scol(("item.entity", "position_x"), 2),
                ucol(("item.entity", "position_height"), 1),
                ncol(("item.entity", "name")),
                ucol(("item.entity.map", "id"), 4),
                tcol(("item.entity.map", "name")),
                ncol(("item.entity.map", "rank")),
            ];
            let all: Vec<&Col> = own.iter().chain(&extra).collect();
            let cols: Vec<&Col> = turn(all.len()).into_iter().map(|i| all[i]).collect();
            match read::<Item>(&mut c, &cols) {
                Ok(m) => {
                    chk(m.id as u64 == le(&own[0].bytes), what);
                    chk(m.name as u64 == le(&own[1].bytes), what);
                    chk(m.tag.code as u64 == le(&own[2].bytes), what);
                    chk(m.tag.id as u64 == le(&own[3].bytes), what);
                    let e = &m.entity;
                    chk(e.id as u64 == le(&own[4].bytes), what);
                    chk(e.heading as u16 as u64 == le(&own[5].bytes), what);
                    chk(e.position.x as u16 as u64 == le(&own[6].bytes), what);
                    chk(e.position.y as u64 == le(&own[7].bytes), what);
                    chk(own[8].null == e.name.is_none() && e.name.map_or(true, |x| x == own[8].bytes[0]), what);
                    chk(is_map(&e.map, &own[9], &own[10], &own[11]), what);
                }
                Err(_) => chk(false, "the row is read"),
            }
        }
    }
    cover("model read");
}

/// C32: missing columns, wrong types, values that do not fit. param0: what
#[no_mangle]
#[inline(never)]
pub fn h_read_wrong() {
    let mut c = connect(FULL);
    let own = [
        ucol(("entity", "id"), 4),
        scol(("entity", "heading"), 2),
        scol(("entity", "position_x"), 2),
        ucol(("entity", "position_height"), 1),
        ncol(("entity", "name")),
        ucol(("entity.map", "id"), 4),
        tcol(("entity.map", "name")),
        ncol(("entity.map", "rank")),
    ];
    let mut cols: Vec<&Col> = own.iter().collect();
    let n = cols.len();
    let k = sym::choose(n);
    let other;
    match sym::param(0) {
        // one is missing
        0 => {
            cols.remove(k);
            chk(read::<Entity>(&mut c, &cols).is_err(), "a missing column is an error");
            cover("missing");
        }
        // one is of another table: nested fields are not taken from the outer table or another one
        1 => {
            let t = ["entity", "map", "", "other", "entity.mapx"][sym::choose(5)];
            let k = 5 + sym::choose(3);
            if t == "map" {
                // (the model's own alias may be left out)
                return;
            }
            other = Col { from: (t, cols[k].from.1), ty: cols[k].ty, unsigned: cols[k].unsigned, null: cols[k].null, bytes: cols[k].bytes.clone() };
            cols[k] = &other;
            chk(read::<Entity>(&mut c, &cols).is_err(), "a column of another table is not taken");
            cover("other table");
        }
        // text instead of a number, a number instead of text
        2 => {
            let from = cols[k].from;
            let number = cols[k].ty != 253;
            let null = cols[k].null;
            other = if number { tcol(from) } else { ucol(from, 2) };
            cols[k] = &other;
            let _ = null;
            chk(read::<Entity>(&mut c, &cols).is_err(), "a value of the wrong type is an error");
            cover("wrong type");
        }
        // NULL
        3 => {
            let k = [0usize, 1, 2, 3, 5, 6][sym::choose(6)];
            other = Col { from: cols[k].from, ty: cols[k].ty, unsigned: cols[k].unsigned, null: true, bytes: vec![] };
            cols[k] = &other;
            chk(read::<Entity>(&mut c, &cols).is_err(), "NULL is an error for a field that is no option");
            cover("null");
        }
        // a wider number: read if it fits
        _ => {
            let from = cols[k].from;
            let number = cols[k].ty != 253 && !cols[k].null;
            if !number {
                return;
            }
            let wide = sym::choose(2) == 0;
            other = if wide { ucol(from, 8) } else { scol(from, 8) };
            let x = le(&other.bytes);
            let (max, signed) = match k {
                0 | 5 => (u32::MAX as u64, false),
                1 | 2 => (i16::MAX as u64, true),
                _ => (u8::MAX as u64, false),
            };
            let fits = sym::or(x <= max, sym::and(signed && !wide, x >= (i16::MIN as i64) as u64));
            cols[k] = &other;
            match read::<Entity>(&mut c, &cols) {
                Ok(m) => {
                    chk(fits, "a number that does not fit is an error");
                    let got = match k {
                        0 => m.id as u64,
                        1 => m.heading as i64 as u64,
                        2 => m.position.x as i64 as u64,
                        3 => m.position.y as u64,
                        4 => m.name.unwrap_or(0) as u64,
                        5 => m.map.id as u64,
                        _ => m.map.rank.unwrap_or(0) as u64,
                    };
                    chk(got == x, "every field is read from its own column");
                }
                // (only numbers of the field's own type are read at present)
                Err(_) => (),
            }
            cover("other width");
        }
    }
}

// --- the generated select

struct Select {
    /// (alias, column)
    cols: Vec<(String, String)>,
    table: String,
    /// alias, table, ((alias, column), (alias, column))
    joins: Vec<(String, String, [(String, String); 2])>,
}

fn select(sql: &[u8]) -> Option<Select> {
    well_formed(sql, &["group", "rank"]);
    let t = tokens(sql)?;
    let pair = |i: &mut usize| -> Option<(String, String)> {
        let a = word(t.get(*i)?)?;
        if t.get(*i + 1)? != &Tok::P(b'.') {
            return None;
        }
        let b = word(t.get(*i + 2)?)?;
        *i += 3;
        Some((a.to_owned(), b.to_owned()))
    };
    if !is(t.first(), "select") {
        return None;
    }
    let mut i = 1;
    let mut s = Select { cols: vec![], table: String::new(), joins: vec![] };
    loop {
        s.cols.push(pair(&mut i)?);
        if t.get(i)? != &Tok::P(b',') {
            break;
        }
        i += 1;
    }
    if !is(t.get(i), "from") {
        return None;
    }
    s.table = word(t.get(i + 1)?)?.to_owned();
    i += 2;
    while i < t.len() {
        while is(t.get(i), "inner") {
            i += 1;
        }
        if !is(t.get(i), "join") || !is(t.get(i + 2), "as") || !is(t.get(i + 4), "on") {
            return None;
        }
        let (table, alias) = (word(&t[i + 1])?.to_owned(), word(&t[i + 3])?.to_owned());
        i += 5;
        let paren = t.get(i)? == &Tok::P(b'(');
        i += paren as usize;
        let a = pair(&mut i)?;
        if t.get(i)? != &Tok::P(b'=') {
            return None;
        }
        i += 1;
        let b = pair(&mut i)?;
        if paren {
            if t.get(i)? != &Tok::P(b')') {
                return None;
            }
            i += 1;
        }
        s.joins.push((alias, table, [a, b]));
    }
    Some(s)
}

fn selects<T: IntoQuery>(table: &str, cols: &[(&str, &str)], joins: &[(&str, &str, (&str, &str), (&str, &str))]) {
    let s = match select(T::build_query().as_bytes()) {
        Some(s) => s,
        None => sym::inconclusive("the select has another form"),
    };
    chk(s.table == table, "the select is from the model's table");
    for c in cols {
        chk(s.cols.iter().any(|x| x.0 == c.0 && x.1 == c.1), "the select names every field");
    }
    for x in &s.cols {
        chk(x.0 == s.table || s.joins.iter().any(|j| j.0 == x.0), "every table of the select is joined");
    }
    chk(s.joins.len() == joins.len(), "every reference is joined once");
    for (alias, table, a, b) in joins {
        let j: Vec<_> = s.joins.iter().filter(|j| j.0 == *alias && j.1 == *table).collect();
        chk(j.len() == 1, "every reference is joined once");
        let eq = |x: &(String, String), y: &(&str, &str)| x.0 == y.0 && x.1 == y.1;
        chk(j.iter().all(|j| (eq(&j.2[0], a) && eq(&j.2[1], b)) || (eq(&j.2[0], b) && eq(&j.2[1], a))), "a reference is joined on its column and the other table's key");
    }
    // a join may only mention tables that came before
    for (i, j) in s.joins.iter().enumerate() {
        for x in &j.2 {
            chk(x.0 == j.0 || x.0 == s.table || s.joins[..i].iter().any(|k| k.0 == x.0), "a join mentions tables that are there");
        }
    }
}

/// C32: the generated select. param0: model
#[no_mangle]
#[inline(never)]
pub fn h_select_model() {
    match sym::param(0) {
        4 => selects::<Outer>(
            "outer",
            &[("outer", "id"), ("outer.a", "id"), ("outer.a.leaf", "id"), ("outer.a.leaf.end", "id")],
            &[
                ("outer.a", "leaf", ("outer", "a"), ("outer.a", "id")),
                ("outer.a.leaf", "l", ("outer.a", "leaf"), ("outer.a.leaf", "id")),
                ("outer.a.leaf.end", "end", ("outer.a.leaf", "end"), ("outer.a.leaf.end", "id")),
            ],
        ),
        5 => selects::<Raw>(
            "group",
            &[("group", "id"), ("group", "type"), ("group", "fn_x"), ("group", "fn_y"), ("group.ref", "code"), ("group.ref", "id")],
            &[("group.ref", "tag", ("group", "ref"), ("group.ref", "code"))],
        ),
        0 => selects::<Map>("map", &[("map", "id"), ("map", "name"), ("map", "rank")], &[]),
        1 => selects::<Pair>(
            "pair",
            &[("pair", "id"), ("pair.tag", "code"), ("pair.tag", "id"), ("pair.tag2", "code"), ("pair.tag2", "id")],
            &[("pair.tag", "tag", ("pair", "tag"), ("pair.tag", "code")), ("pair.tag2", "tag", ("pair", "tag2"), ("pair.tag2", "code"))],
        ),
        2 => selects::<Entity>(
            "entity",
            &[("entity", "id"), ("entity", "heading"), ("entity", "position_x"), ("entity", "position_height"), ("entity", "name"), ("entity.map", "id"), ("entity.map", "name"), ("entity.map", "rank")],
            &[("entity.map", "map", ("entity", "map"), ("entity.map", "id"))],
        ),
        _ => selects::<Item>(
            "item",
            &[
                ("item", "id"),
                ("item", "name"),
                ("item.tag", "code"),
                ("item.tag", "id"),
                ("item.entity", "id"),
                ("item.entity", "heading"),
                ("item.entity", "position_x"),
                ("item.entity", "position_height"),
                ("item.entity", "name"),
                ("item.entity.map", "id"),
                ("item.entity.map", "name"),
                ("item.entity.map", "rank"),
            ],
            &[
                ("item.tag", "tag", ("item", "tag"), ("item.tag", "code")),
                ("item.entity", "entity", ("item", "entity"), ("item.entity", "id")),
                ("item.entity.map", "map", ("item.entity", "map"), ("item.entity.map", "id")),
            ],
        ),
    }
    cover("select");
}
