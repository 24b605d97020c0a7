//! Every operation whose outcome configurations of the library must agree on, by name and on bytes; and a process which
//! does them for another.

use crate::nizk::*;
use crate::ops::*;
use crate::proto::*;
use crate::types::*;
use crate::*;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out { Some(Vec<u8>), None, Panic }

fn scalars(b: &[u8]) -> Option<Vec<Scalar>> {
    if b.len() % 32 != 0 { return None }
    b.chunks(32).map(scalar).collect()
}

fn pts(b: &[u8]) -> Option<Vec<RistrettoPoint>> {
    if b.len() % 32 != 0 { return None }
    b.chunks(32).map(dec).collect()
}

const OTHER: &[u8] = b"SOME OTHER CONTEXT";

pub fn call(op: &str, a: &[Vec<u8>]) -> Option<Vec<u8>> {
    let small = |i: usize| a[i][0] as usize;
    match op {
        "op" => lib_call(small(0), &a[1..]),
        "decode" => (kinds()[small(0)].decode)(&a[1]),
        "equal" => (kinds()[small(0)].equal)(&a[1], &a[2]).map(|x| vec![x as u8]),
        "bincode-of" => (kinds()[small(0)].bincode_of)(&a[1]),
        "from-bincode" => (kinds()[small(0)].from_bincode)(&a[1]),
        "json-of" => (kinds()[small(0)].json_of)(&a[1]).map(|s| s.into_bytes()),
        "from-json" => (kinds()[small(0)].from_json)(&String::from_utf8(a[1].clone()).ok()?),
        "prove" => {
            let s = &specs()[small(0)];
            Some(lib_prove(small(0), s.context, &pts(&a[1])?, &scalars(&a[2])?))
        }
        "verify" => {
            let s = &specs()[small(0)];
            let context = if small(1) == 0 { s.context } else { OTHER };
            lib_verify(small(0), context, &pts(&a[2])?, &a[3]).map(|x| vec![x as u8])
        }
        "mac-key" => Some(amacs::SecretKey::new(small(0), &mut seeded(&a[1])).to_bytes()),
        "mac-public" => Some(amacs::SecretKey::from_bytes(&a[0]).ok()?.get_public_key(&dec(&a[1])?).to_bytes()),
        "mac" => Some(amacs::SecretKey::from_bytes(&a[0]).ok()?.mac(&amacs::Message::from(scalars(&a[1])?), &mut seeded(&a[2])).ok()?.to_bytes()),
        "mac-verify" => Some(vec![amacs::SecretKey::from_bytes(&a[0]).ok()?
            .verify(&amacs::Tag::from_bytes(&a[2]).ok()?, &amacs::Message::from(scalars(&a[1])?)).is_ok() as u8]),
        "mac-rerandomise" => Some(amacs::Rerandomization::new(&mut seeded(&a[1])).apply_to_tag(&amacs::Tag::from_bytes(&a[0]).ok()?).to_bytes()),
        "commit" => {
            let (v, b) = (dec(&a[0])?, dec(&a[2])?);
            Some(pedersen::Commitment::to(&v, &Ephemeral::from(scalar(&a[1])?), &b).to_bytes())
        }
        "commit-open" => {
            let (v, b) = (dec(&a[0])?, dec(&a[2])?);
            Some(vec![pedersen::Commitment::from_bytes(&a[3]).ok()?.open(&v, &Ephemeral::from(scalar(&a[1])?), &b).is_ok() as u8])
        }
        "elgamal-key" => Some(elgamal::Keypair::generate(&mut seeded(&a[0])).to_bytes()),
        "encrypt" => {
            let c = elgamal::PublicKey::from_bytes(&a[0]).ok()?.encrypt(&elgamal::Message::from(&scalar(&a[1])?), &elgamal::Ephemeral::from(scalar(&a[2])?));
            Some([enc(&c.commitment), enc(&c.encryption)].concat())
        }
        "decrypt" => {
            let e = elgamal::Encryption { commitment: dec(&a[1])?, encryption: dec(&a[2])? };
            Some(enc(&elgamal::SecretKey::from_bytes(&a[0]).ok()?.decrypt(&e)).to_vec())
        }
        "number-of-string" => Some(PhoneNumber::try_from_string(&String::from_utf8(a[0].clone()).ok()?).ok()?.to_bytes()),
        "number-of-bytes" => Some(PhoneNumber::try_from_bytes(&a[0]).ok()?.to_bytes()),
        "string-of-number" => Some(String::from(PhoneNumber::from_bytes(&a[0]).ok()?).into_bytes()),
        "ephemeral" => Some(Ephemeral::new(&mut seeded(&a[0])).to_bytes().to_vec()),
        _ => panic!("HARNESS: no operation {}", op),
    }
}

/// Do operations read from standard input until it ends.
pub fn serve() {
    std::panic::set_hook(Box::new(|_| {}));
    let fd = unsafe {
        // The library prints; keep that out of the answers.
        let fd = libc::dup(1);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
        libc::dup2(null, 1);
        fd
    };
    let mut out: std::fs::File = unsafe { std::os::unix::io::FromRawFd::from_raw_fd(fd) };
    for line in BufReader::new(std::io::stdin()).lines() {
        let line = line.expect("line");
        let mut w = line.split(' ');
        let op = w.next().expect("op").to_string();
        let args: Vec<Vec<u8>> = w.map(|x| if x == "-" { Vec::new() } else { unhex(x) }).collect();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(&op, &args)));
        let s = match r {
            Ok(Some(b)) => format!("S{}\n", hex(&b)),
            Ok(None) => "N\n".to_string(),
            Err(_) => "P\n".to_string(),
        };
        out.write_all(s.as_bytes()).expect("write");
    }
}

pub struct Node { pub name: String, child: Child, input: ChildStdin, output: BufReader<ChildStdout> }

impl Node {
    pub fn start(name: &str, path: &str) -> Node {
        let mut child = Command::new(path).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("HARNESS: starting a node");
        let input = child.stdin.take().expect("HARNESS: stdin");
        let output = BufReader::new(child.stdout.take().expect("HARNESS: stdout"));
        Node { name: name.to_string(), child, input, output }
    }

    pub fn ask(&mut self, op: &str, args: &[&[u8]]) {
        let mut s = op.to_string();
        for a in args {
            s.push(' ');
            if a.is_empty() { s.push('-') } else { s.push_str(&hex(a)) }
        }
        s.push('\n');
        self.input.write_all(s.as_bytes()).expect("HARNESS: asking a node");
    }

    pub fn answer(&mut self) -> Out {
        let mut s = String::new();
        self.output.read_line(&mut s).expect("HARNESS: answer of a node");
        match s.trim_end().chars().next() {
            Some('S') => Out::Some(unhex(s.trim_end()[1..].as_ref())),
            Some('N') => Out::None,
            Some('P') => Out::Panic,
            _ => panic!("HARNESS: node {} is gone", self.name),
        }
    }

    pub fn call(&mut self, op: &str, args: &[&[u8]]) -> Out {
        self.ask(op, args);
        self.answer()
    }
}

impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// The nodes named in VH_NODES (name=path;name=path).
pub fn nodes() -> Vec<Node> {
    std::env::var("VH_NODES").expect("HARNESS: VH_NODES").split(';').map(|s| {
        let mut w = s.splitn(2, '=');
        let name = w.next().expect("HARNESS: name").to_string();
        Node::start(&name, w.next().expect("HARNESS: path"))
    }).collect()
}
