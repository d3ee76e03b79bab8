"""Concrete document texts used to instantiate opaque texts of the Server specification."""

FLIPPER = '''#![cfg_attr(not(feature = "std"), no_std, no_main)]

#[ink::contract]
mod flipper {
    #[ink(storage)]
    pub struct Flipper {
        value: bool,
    }

    impl Flipper {
        #[ink(constructor)]
        pub fn new(init_value: bool) -> Self {
            Self { value: init_value }
        }

        #[ink(message)]
        pub fn flip(&mut self) {
            self.value = !self.value;
        }
    }
}
'''

EVENT = '''#[ink::contract]
mod token {
    #[ink(storage)]
    pub struct Token {}

    /// Emitted on transfer.
    #[ink(event)]
    pub struct TransferDone {
        #[ink(topic)]
        from: Option<AccountId>,
        value: Balance,
    }

    impl Token {
        #[ink(constructor, default, selector = 0x9bae9d5e)]
        pub fn new() -> Self {
            Self {}
        }

        #[ink(message, payable, selector = 0x0000000A)]
        pub fn total(&self) -> u32 {
            0
        }
    }
}
'''

EVENT_V2 = '''#[ink::contract]
mod token {
    #[ink::event(anonymous)]
    pub struct Burned2Event {
        #[ink(topic)]
        from: u32,
    }

    #[ink(storage)]
    pub struct Token {}

    impl Token {
        #[ink(constructor)]
        pub fn new() -> Self {
            Self {}
        }

        #[ink(message)]
        pub fn total(&self) {}
    }
}
'''

NO_STORAGE = '''#[ink::contract]
mod c {
    pub struct S {}

    impl S {
        #[ink(constructor)]
        pub fn new() -> Self { Self {} }

        #[ink(message, selector = 1)]
        pub fn a(&self) {}

        #[ink(message, selector = 1)]
        pub fn b(&self) {}
    }
}
'''

TWO_STORAGE = '''#[ink::contract]
mod c {
    #[ink(storage)]
    pub struct S {}
    #[ink(storage)]
    pub struct T {}
    impl S {
        #[ink(constructor)]
        pub fn new() -> Self { Self {} }
        #[ink(constructor, selector = _)]
        pub fn neww() -> Self { Self {} }
        #[ink(message, selector = _)]
        fn a(&self) {}
    }
}
'''

CHAIN4 = '''#[ink::chain_extension]
pub trait MyExt {
    type ErrorCode = MyError;

    #[ink(extension = 1)]
    fn one(a: u32) -> Result<u32, MyError>;

    #[ink(extension = 1, handle_status = false)]
    fn two(a: u32);
}
'''

CHAIN5 = '''#[ink::chain_extension(extension = 7)]
pub trait MyExt {
    type ErrorCode = MyError;

    #[ink(function = 1)]
    fn one(a: u32) -> Result<u32, MyError>;

    #[ink(function = 1)]
    fn two(a: u32);
}
'''

TRAIT = '''#[ink::trait_definition(namespace = "ns")]
pub trait MyTrait {
    #[ink(message, payable)]
    fn first(&self);

    fn second(&mut self, a: u32) -> bool;

    const X: u8 = 1;
}
'''

UNICODE = '''/* 日本語 é 🦀🦀 */ #[ink::contract] /* ü */ mod c { /* 𝔘 */ #[ink(storage)] pub struct S { x: u8 }
  // строка 🦀 /* €€ */
  impl S { /* 🦀é */ #[ink(constructor)] fn new() -> Self { Self { x: 0 } } /* 漢 */ #[ink(message, payabl)] pub fn m(&self) {} }
}
'''

CRLF = EVENT.replace("\n", "\r\n").replace("Emitted on transfer", "Émis 🦀 on transfer").replace("#[ink(storage)]\r\n", "")

PARTIAL = '#[ink::co]\n'
PARTIAL2 = '''#[ink::contract(e)]
mod c {
    #[ink()]
    pub struct S {}

    #[ink(cons)]
    fn x() {}

    #[ink(message, ]
    pub fn y(&self) {}
}
'''
EMPTY = ''
PLAIN = 'pub fn main() {\n    println!("hi");\n}\n'
ITEMS = '''#[ink::storage_item(derive = maybe)]
enum Foo { A }

#[ink::scale_derive(Encode, Decode)]
pub struct Bar;

#[ink::event]
pub struct Ev { #[ink(topic)] #[ink(topic)] a: u8 }

#[ink::test]
async fn t() {}

#[ink_e2e::test(additional_contracts = "a b")]
fn e() {}

#[ink::unknown]
fn f() {}
'''
SCALE = '''#[ink::contract]
mod c {
    #[derive(scale::Encode, scale::Decode, Clone)]
    #[cfg_attr(feature = "std", derive(scale_info::TypeInfo))]
    pub enum Error { A }

    #[ink(storage)]
    pub struct S {}

    #[ink(event, anonymous)]
    pub struct E { a: u8 }

    impl S {
        #[ink(constructor)]
        pub fn new() -> Self { Self {} }
        #[ink(message)]
        pub fn m(&self) -> Result<(), Error> { Ok(()) }
    }
}
'''

POOL = {
    "flipper": FLIPPER, "event": EVENT, "event_v2": EVENT_V2, "no_storage": NO_STORAGE, "two_storage": TWO_STORAGE,
    "chain4": CHAIN4, "chain5": CHAIN5, "trait": TRAIT, "unicode": UNICODE, "crlf": CRLF, "partial": PARTIAL,
    "partial2": PARTIAL2, "empty": EMPTY, "plain": PLAIN, "items": ITEMS, "scale": SCALE,
}
WITH_EVENT = {"event": "TransferDone", "event_v2": "Burned2Event", "crlf": "TransferDone", "scale": "E"}
