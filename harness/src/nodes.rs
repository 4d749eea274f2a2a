//! Instrumented node classes: every hook reports to the engine, every node carries a counted token.

use std::cell::{ Cell, RefCell };
use std::fmt;

use node_tree::prelude::*;

use crate::engine::{ self, Hook };
use crate::report::{ count, violation };

const MAGIC: u64 = 0x5AFE_C0DE_1234_5678;
const DEAD:  u64 = 0xDEAD_DEAD_DEAD_DEAD;

/// One for every node that is made; its construction and drop are counted.
pub struct Token { id: u64, canary: u64 }

#[derive(Clone, Debug)]
pub struct TokenRec { pub uid: Option<u64>, pub drops: u32, pub from_clone: bool }

thread_local! {
    pub static TOKENS:  RefCell<Vec<TokenRec>> = const { RefCell::new(Vec::new()) };
    static CUR_UID:     Cell<Option<u64>>      = const { Cell::new(None) };
    static EPOCH:       Cell<u64>              = const { Cell::new(0) };
}

const EPOCH_SHIFT: u32 = 32;

/// Forgets all tokens; tokens of an earlier epoch are ignored from now on.
pub fn reset_tokens() {
    TOKENS.with(|t| t.borrow_mut().clear());
    EPOCH.with(|e| e.set(e.get() + 1));
}

fn make_token(uid: Option<u64>, from_clone: bool) -> Token {
    let id = TOKENS.with(|t| {
        let mut t = t.borrow_mut();
        t.push(TokenRec { uid, drops: 0, from_clone });
        t.len() as u64 - 1
    }) | (EPOCH.with(|e| e.get()) << EPOCH_SHIFT);
    count("tokens_made");
    Token { id, canary: MAGIC ^ id }
}

impl Token {
    pub fn index(&self) -> usize { (self.id & 0xFFFF_FFFF) as usize }
    pub fn is_sound(&self) -> bool {
        (unsafe { std::ptr::read_volatile(&self.canary) }) == MAGIC ^ self.id
    }
    fn is_current(&self) -> bool { EPOCH.with(|e| e.get()) == self.id >> EPOCH_SHIFT }
    pub fn bind(&self, uid: u64) {
        if self.is_current() {
            TOKENS.with(|t| if let Some(r) = t.borrow_mut().get_mut(self.index()) { r.uid = Some(uid) })
        }
    }
}

impl Default for Token {
    fn default() -> Self { make_token(CUR_UID.with(|c| c.get()), false) }
}

impl Clone for Token {
    fn clone(&self) -> Self {
        if !self.is_sound() {
            violation(&["C12", "C11"], format!("a node was copied from invalid memory (token {:x})", self.id), String::new());
        }
        let uid = if self.is_current() { TOKENS.with(|t| t.borrow().get(self.index()).and_then(|r| r.uid)) } else { None };
        make_token(uid, true)
    }
}

impl fmt::Debug for Token {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Token") }
}

impl Drop for Token {
    fn drop(&mut self) {
        if !self.is_sound() {
            violation(&["C12", "C11"], format!("a node was dropped that is not (any longer) valid memory (token {:x}, canary {:x})", self.id, self.canary), String::new());
            return;
        }
        unsafe { std::ptr::write_volatile(&mut self.canary, DEAD) };
        if !self.is_current() { return; }
        count("tokens_dropped");
        let rec = TOKENS.try_with(|t| {
            let mut t = t.borrow_mut();
            let r = &mut t[self.index()];
            r.drops += 1;
            r.clone()
        });
        if let Ok(rec) = rec {
            if rec.drops > 1 {
                violation(&["C11", "C12"], format!("a node (uid {:?}) was dropped {} times", rec.uid, rec.drops), String::new());
            }
            engine::on_drop(self.index(), rec.uid);
        }
    }
}

/// Runs `f` with all tokens made by it belonging to `uid`.
pub fn with_uid<R>(uid: u64, f: impl FnOnce() -> R) -> R {
    let old = CUR_UID.with(|c| c.replace(Some(uid)));
    let r = f();
    CUR_UID.with(|c| c.set(old));
    r
}

/// The number of tokens that were made and not dropped.
pub fn is_live(token: usize) -> bool { TOKENS.with(|t| t.borrow().get(token).is_some_and(|r| r.drops == 0)) }

pub fn live_tokens() -> Vec<TokenRec> {
    TOKENS.with(|t| t.borrow().iter().filter(|r| r.drops == 0).cloned().collect())
}

macro_rules! node_class {
    ($($name:ident),*) => { $(
        class! {
            pub declare $name;

            pub signal sig(v: u64);

            pub export  let uid:     u64;
            pub export  let payload: String;
            pub default let token:   Token;
            pub         let plain:   u64 = 77;

            hk _init(uid_: u64, payload_: String) {
                let uid     = uid_;
                let payload = payload_;
            }

            hk loaded(&mut self)                             { let (u, t) = (*self.uid, tok(&self.token)); engine::hook(self, u, t, Hook::Loaded) }
            hk ready(&mut self)                              { let (u, t) = (*self.uid, tok(&self.token)); engine::hook(self, u, t, Hook::Ready) }
            hk process(&mut self, delta: f32)                { let (u, t) = (*self.uid, tok(&self.token)); engine::hook(self, u, t, Hook::Process(delta)) }
            hk terminal(&mut self, reason: TerminationReason) { let (u, t) = (*self.uid, tok(&self.token)); engine::hook(self, u, t, Hook::Terminal(reason)) }
            hk process_mode(&self) -> ProcessMode            { engine::mode_of(*self.uid) }
        }

        impl Drop for $name {
            fn drop(&mut self) { if self.token.is_sound() { last_words(self, *self.uid) } }
        }
    )* }
}

node_class!(NodeA, NodeB, NodeC);

/// What a node that is being destroyed says of itself: by now it has left whatever tree it was in.
fn last_words(node: &NodeBase, uid: u64) {
    count("last_words");
    if node.in_tree() || node.tree().is_some() || !node.is_stray() {
        violation(&["C32", "C01", "C12"], format!("node #{uid} is being destroyed while it still refers to a tree as its own"), String::new());
    }
    std::hint::black_box(node.name().len());
}

fn tok(t: &Token) -> Option<usize> { if t.is_sound() { Some(t.index()) } else { None } }

/// Type number, uid and token of an instrumented node.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ident { pub ty: u8, pub uid: u64, pub token: usize }

pub fn ident(node: &dyn Node) -> Option<Ident> {
    let any = node.as_any_ref();
    macro_rules! go { ($($n:expr => $t:ty),*) => { $(
        if let Some(x) = any.downcast_ref::<$t>() {
            if !x.token.is_sound() {
                violation(&["C12", "C11"], "a node that can be reached is not valid memory".to_string(), String::new());
                return None;
            }
            return Some(Ident { ty: $n, uid: *x.uid, token: x.token.index() });
        }
    )* } }
    go!(0 => NodeA, 1 => NodeB, 2 => NodeC);
    None
}

pub fn payload_of(node: &dyn Node) -> Option<String> {
    let any = node.as_any_ref();
    macro_rules! go { ($($t:ty),*) => { $( if let Some(x) = any.downcast_ref::<$t>() { return Some((*x.payload).clone()); } )* } }
    go!(NodeA, NodeB, NodeC);
    None
}

/// Runs the expression with `$t` being the node class of number `$n`.
#[macro_export]
macro_rules! with_class {
    ($n:expr, $t:ident => $e:expr) => {
        match $n {
            0 => { type $t = $crate::nodes::NodeA; $e },
            1 => { type $t = $crate::nodes::NodeB; $e },
            _ => { type $t = $crate::nodes::NodeC; $e }
        }
    }
}

pub const CLASS_NAMES: [&str; 3] = ["NodeA", "NodeB", "NodeC"];
