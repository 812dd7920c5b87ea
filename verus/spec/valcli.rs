// What the command-line tool sees of the world, and what its exit status has to be.
use vstd::prelude::*;
use crate::prel::*;
use crate::valid::*;

verus! {

pub type Text = Seq<char>;

/// The arguments the process was started with, the name it was started under first.
pub uninterp spec fn process_args() -> Seq<Text>;

/// What reading the named file to its end yields, unless opening or reading it fails.
pub uninterp spec fn file_contents(name: Text) -> Option<Seq<u8>>;

pub open spec fn is_flag(t: Text) -> bool {
    t == "-p"@ || t == "--print"@
}

/// The last of the arguments that is not an option.
pub open spec fn last_file(args: Seq<Text>) -> Text
    decreases args.len(),
{
    if args.len() == 0 { ""@ } else if is_flag(args.last()) { last_file(args.drop_last()) } else { args.last() }
}

pub open spec fn picked(args: Seq<Text>) -> Option<Text> {
    if args.len() == 0 || last_file(args.skip(1)) == ""@ { None } else { Some(last_file(args.skip(1))) }
}

/// The file the tool is run on holds a module that validates.
pub open spec fn accepts() -> bool {
    match picked(process_args()) {
        None => false,
        Some(name) => match file_contents(name) {
            None => false,
            Some(bytes) => dec_module(bytes) is Ok && module_ok(dec_module(bytes)->Ok_0),
        },
    }
}

pub open spec fn texts(args: Seq<String>) -> Seq<Text> {
    args.map_values(|a: String| a@)
}

/// `std::env::args().collect()`. Linux gives every process at least one argument.
#[verifier::external_body]
pub fn args() -> (r: Vec<String>)
    ensures
        texts(r@) == process_args(),
        r@.len() > 0,
{
    std::env::args().collect()
}

/// `std::process::exit`. The status is the low byte of the argument. `said` tells whether a message
/// has been printed.
#[verifier::external_body]
pub fn exit(code: i32, said: Ghost<bool>) -> !
    requires
        (code as int) % 256 == 0 <==> accepts(),
        !accepts() ==> said@,
    ensures
        false,
{
    std::process::exit(code)
}

#[verifier::external_body]
pub struct IoError { e: std::io::Error }

#[verifier::external_body]
pub struct File { f: std::fs::File }

impl File {
    /// The name it was opened under.
    pub uninterp spec fn name(&self) -> Text;
    /// How many bytes have been read.
    pub uninterp spec fn pos(&self) -> int;

    #[verifier::external_body]
    pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, IoError>)
        ensures
            r is Ok ==> file_contents(old(self).name()) is Some && final(buf)@ == old(buf)@ + file_contents(old(self).name())->Some_0.skip(old(self).pos()),
            r is Err ==> file_contents(old(self).name()) is None,
    {
        unimplemented!()
    }
}

pub trait Name {
    spec fn name(&self) -> Text;
}
impl Name for &String {
    open spec fn name(&self) -> Text { self@ }
}
impl Name for String {
    open spec fn name(&self) -> Text { self@ }
}
impl Name for &str {
    open spec fn name(&self) -> Text { self@ }
}

impl Name for &&str {
    open spec fn name(&self) -> Text { self@ }
}
impl Name for &&String {
    open spec fn name(&self) -> Text { self@ }
}

/// `std::fs::File::open`
#[verifier::external_body]
pub fn open<N: Name>(name: N) -> (r: Result<File, IoError>)
    ensures
        r is Ok ==> r->Ok_0.name() == name.name() && r->Ok_0.pos() == 0,
        r is Err ==> file_contents(name.name()) is None,
{
    unimplemented!()
}

/// `std::fs::read`
#[verifier::external_body]
pub fn read<N: Name>(name: N) -> (r: Result<Vec<u8>, IoError>)
    ensures
        r is Ok ==> file_contents(name.name()) == Some(r->Ok_0@),
        r is Err ==> file_contents(name.name()) is None,
{
    unimplemented!()
}

/// `Box<dyn std::error::Error>`, made from a message.
#[verifier::external_body]
pub struct BoxError { e: Box<dyn std::error::Error> }

impl From<&str> for BoxError {
    #[verifier::external_body]
    fn from(s: &str) -> BoxError { BoxError { e: s.into() } }
}

/// `a == b` for strings
#[verifier::external_body]
pub fn str_is<N: Name>(a: N, b: &str) -> (r: bool)
    ensures
        r == (a.name() == b@),
{
    unimplemented!()
}

/// `a.into()` from a string slice to a string
#[verifier::external_body]
pub fn text(a: &str) -> (r: String)
    ensures
        r@ == a@,
{
    a.into()
}

pub proof fn last_file_push(args: Seq<Text>, a: Text)
    ensures
        last_file(args.push(a)) == if is_flag(a) { last_file(args) } else { a },
{
    assert(args.push(a).drop_last() =~= args);
}

}
