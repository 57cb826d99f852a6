#![allow(dead_code)]
use dynamixel2::checksum::calculate_checksum;
use std::collections::VecDeque;
use std::io::{Error, ErrorKind};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Debug, Clone, PartialEq)]
pub enum Ev { Discard, Write(Vec<u8>), Read(usize), Deadline(Duration), SetBaud(u32) }

pub struct Inner {
	/// Bytes waiting in the kernel buffer.
	pub rx: VecDeque<u8>,
	/// Put in `rx` one by one after each write.
	pub replies: VecDeque<Vec<u8>>,
	pub log: Vec<Ev>,
	pub chunk: usize,
	pub baud: u32,
	/// Error when there is nothing to read.
	pub empty: ErrorKind,
	/// If false, reads without data are fatal (the caller waits for something that never comes).
	pub reads_left: usize,
	pub fail_write: bool,
	pub fail_discard: bool,
	pub fail_baud: bool,
	pub fail_read: VecDeque<ErrorKind>,
}
#[derive(Clone)]
pub struct Port(pub Arc<Mutex<Inner>>);
impl Port {
	pub fn new() -> Self {
		Self(Arc::new(Mutex::new(Inner {
			rx: VecDeque::new(), replies: VecDeque::new(), log: Vec::new(), chunk: usize::MAX, baud: 57600, empty: ErrorKind::TimedOut,
			reads_left: 10_000, fail_write: false, fail_discard: false, fail_baud: false, fail_read: VecDeque::new(),
		})))
	}
	pub fn with<T>(&self, f: impl FnOnce(&mut Inner) -> T) -> T { f(&mut self.0.lock().unwrap_or_else(|e| e.into_inner())) }
	pub fn feed(&self, data: &[u8]) { self.with(|p| p.rx.extend(data.iter().copied())) }
	pub fn reply(&self, data: &[u8]) { self.with(|p| p.replies.push_back(data.to_vec())) }
	pub fn log(&self) -> Vec<Ev> { self.with(|p| std::mem::take(&mut p.log)) }
	pub fn written(&self) -> Vec<Vec<u8>> { self.log().into_iter().filter_map(|e| if let Ev::Write(x) = e { Some(x) } else { None }).collect() }
	pub fn deadlines(&self) -> Vec<Duration> { self.log().into_iter().filter_map(|e| if let Ev::Deadline(x) = e { Some(x) } else { None }).collect() }
	pub fn reads(&self) -> usize { self.log().into_iter().filter(|e| matches!(e, Ev::Read(_))).count() }
}
impl dynamixel2::SerialPort for Port {
	type Error = Error;
	type Instant = Duration;
	fn baud_rate(&self) -> Result<u32, Error> { self.with(|p| if p.fail_baud { Err(ErrorKind::Other.into()) } else { Ok(p.baud) }) }
	fn set_baud_rate(&mut self, baud: u32) -> Result<(), Error> {
		self.with(|p| { p.log.push(Ev::SetBaud(baud)); if p.fail_baud { return Err(ErrorKind::Other.into()); } p.baud = baud; Ok(()) })
	}
	fn discard_input_buffer(&mut self) -> Result<(), Error> {
		self.with(|p| { p.log.push(Ev::Discard); if p.fail_discard { return Err(ErrorKind::BrokenPipe.into()); } p.rx.clear(); Ok(()) })
	}
	fn read(&mut self, buffer: &mut [u8], _deadline: &Duration) -> Result<usize, Error> {
		let r = self.with(|p| {
			if p.reads_left == 0 { return None; }
			p.reads_left -= 1;
			if let Some(e) = p.fail_read.pop_front() { p.log.push(Ev::Read(0)); return Some(Err(e.into())); }
			if p.rx.is_empty() { p.log.push(Ev::Read(0)); return Some(Err(p.empty.into())); }
			let n = buffer.len().min(p.chunk).min(p.rx.len());
			for b in &mut buffer[..n] { *b = p.rx.pop_front().unwrap(); }
			p.log.push(Ev::Read(n));
			Some(Ok(n))
		});
		match r { Some(r) => r, None => { eprintln!("the library keeps reading without end"); std::process::exit(3) } }
	}
	fn write_all(&mut self, buffer: &[u8]) -> Result<(), Error> {
		self.with(|p| {
			p.log.push(Ev::Write(buffer.to_vec()));
			if p.fail_write { return Err(ErrorKind::BrokenPipe.into()); }
			if let Some(r) = p.replies.pop_front() { p.rx.extend(r); }
			Ok(())
		})
	}
	fn make_deadline(&self, timeout: Duration) -> Duration { self.with(|p| p.log.push(Ev::Deadline(timeout))); timeout }
	fn is_timeout_error(error: &Error) -> bool { error.kind() == ErrorKind::TimedOut }
}

/// A message with the given (already stuffed) body: instruction, parameters.
pub fn frame(id: u8, body: &[u8]) -> Vec<u8> {
	let n = body.len() + 2;
	let mut v = vec![0xff, 0xff, 0xfd, 0, id, n as u8, (n >> 8) as u8];
	v.extend_from_slice(body);
	let c = calculate_checksum(0, &v);
	v.extend_from_slice(&c.to_le_bytes());
	v
}
pub fn status(id: u8, error: u8, params: &[u8]) -> Vec<u8> { frame(id, &[&[0x55, error], params].concat()) }
pub fn ok(cond: bool, what: &str) {
	if !cond { eprintln!("FAILED: {what}"); std::process::exit(1); }
}
/// Runs f, returns None if it panics.
pub fn run<T>(f: impl FnOnce() -> T) -> Option<T> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }
