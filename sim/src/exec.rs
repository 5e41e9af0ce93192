//! One simulated client: runs its operations on the real library and, in step,
//! on the reference model, and compares what each of them shows.
use crate::model::*;
use crate::prog::*;
use crate::rng::mix;
use crate::sched::{self, lib, user};
use crate::shm::{self, count};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use visdom::html::ParseOptions;
use visdom::types::*;
use visdom::Vis;

pub type Els = Elements<'static>;
pub type El = BoxDynElement<'static>;

/* ---- counters: fault kinds as injected, and probes ---- */
pub const C_STALL: usize = 0;
pub const C_SPURIOUS: usize = 1;
pub const C_HASHSEED: usize = 2;
pub const C_BADSEL: usize = 3;
pub const C_CBPANIC: usize = 4;
pub const C_HANDLERPANIC: usize = 5;
pub const C_DEATH: usize = 6;
pub const C_BADHTML: usize = 7;
pub const C_DROPDOC: usize = 8;
pub const C_RESTART: usize = 9;
pub const C_REENTER: usize = 10;
pub const C_REFUSED: usize = 11;
pub const C_QUERY: usize = 12;
pub const C_MUTATE: usize = 13;
pub const C_CHECK: usize = 14;
pub const C_CALLBACK: usize = 15;
pub const C_LOAD: usize = 16;
pub const C_COPY: usize = 17;
pub const C_MULTITREE: usize = 18;
pub const C_STALESET: usize = 19;
pub const C_DETACHED: usize = 20;
pub const C_NONEMPTY: usize = 21;
pub const C_SKIP: usize = 22;
pub const C_ORPHAN: usize = 23;
pub const C_FRAGCOPY: usize = 24;
pub const C_CROSSDOC: usize = 25;
pub const C_COLD: usize = 26;
pub const C_OPAQUE: usize = 27;
pub const C_OPS: usize = 28;
pub const C_AFTERFAULT: usize = 29;
pub const COUNTERS: &[(usize, &str, bool)] = &[
	(C_STALL, "client stalled", true),
	(C_SPURIOUS, "spurious futex wake-up", true),
	(C_HASHSEED, "hash seed drawn", true),
	(C_BADSEL, "invalid selector", true),
	(C_CBPANIC, "callback panicked", true),
	(C_HANDLERPANIC, "error handler panicked", true),
	(C_DEATH, "client thread died", true),
	(C_BADHTML, "malformed html", true),
	(C_DROPDOC, "document dropped under live handles", true),
	(C_RESTART, "restart from serialised text", true),
	(C_REENTER, "error handler re-entered the library", true),
	(C_REFUSED, "refused tree change", true),
	(C_COLD, "first use without any document", true),
	(C_QUERY, "queries compared", false),
	(C_MUTATE, "mutations compared", false),
	(C_CHECK, "whole-tree comparisons", false),
	(C_CALLBACK, "callbacks run", false),
	(C_LOAD, "documents parsed", false),
	(C_COPY, "deep copies", false),
	(C_MULTITREE, "operation on a set spanning several trees", false),
	(C_STALESET, "operation on a set whose order went stale", false),
	(C_DETACHED, "operation on detached elements", false),
	(C_ORPHAN, "operation on elements whose document is gone", false),
	(C_FRAGCOPY, "fragment copied to several targets", false),
	(C_CROSSDOC, "element moved between documents", false),
	(C_NONEMPTY, "queries with a non-empty answer", false),
	(C_SKIP, "operations skipped (outside the specified domain)", false),
	(C_OPAQUE, "free-form selectors and documents", false),
	(C_OPS, "operations", false),
	(C_AFTERFAULT, "operations compared after a fault in the same client", false),
];

thread_local! {
	/// what already happened in this client's history: qualifies a violation
	static FLAGS: Cell<u8> = const { Cell::new(0) };
	static TOLERANT: Cell<bool> = const { Cell::new(false) };
}
pub const F_FAULT: u8 = 1;
pub const F_DROP: u8 = 2;
pub const F_COPY: u8 = 4;
pub const F_CBPANIC: u8 = 8;
fn flag(f: u8) {
	FLAGS.with(|x| x.set(x.get() | f));
}
/// The library did something the properties forbid.  In a client whose calls are
/// meant to fail (and whose own answers the property says nothing about) this
/// ends the client, as it would end a real thread; anywhere else it ends the run.
fn violation(class: &str, msg: &str) -> ! {
	if TOLERANT.with(|t| t.get()) {
		count(C_DEATH, 1);
		resume_unwind(Box::new(Injected::Die));
	}
	let f = FLAGS.with(|x| x.get());
	let mut c = class.to_string();
	for (b, n) in [(F_FAULT, "|fault"), (F_DROP, "|drop"), (F_COPY, "|copy"), (F_CBPANIC, "|cbpanic")] {
		if f & b != 0 {
			c.push_str(n);
		}
	}
	sched::violation(&c, msg)
}

/// payload of panics that the simulation injects
#[derive(Clone, Copy)]
enum Injected {
	/// caught at the operation that injected it
	Op,
	/// kills the client
	Die,
}

struct DocS {
	real: Els,
	root: Id,
	serial: u32,
	handler: HandlerKind,
	errs: Rc<Cell<u32>>,
	expect: u32,
}
type Txt = BoxDynText<'static>;
struct Slot {
	real: Els,
	ids: Vec<Id>,
}

pub struct Ctx {
	me: usize,
	m: Model,
	docs: BTreeMap<u8, DocS>,
	slots: BTreeMap<u8, Slot>,
	/// texts somebody keeps a handle to
	held: BTreeMap<u8, (Txt, Id)>,
	pins: Vec<El>,
	work: u64,
	pin: bool,
	next_key: u32,
	serial: u32,
	depth: u32,
	h: u64,
	faulted: bool,
	opix: usize,
}

fn hs(h: &mut u64, s: &str) {
	for b in s.bytes() {
		*h = (*h ^ b as u64).wrapping_mul(0x100_0000_01b3);
	}
	*h = mix(*h);
}
fn hn(h: &mut u64, n: u64) {
	*h = mix(*h ^ n);
}

fn key_of(e: &El) -> u32 {
	match e.get_attribute("k") {
		Some(IAttrValue::Value(v, _)) => v.parse().unwrap_or(0),
		_ => 0,
	}
}
fn keys_of(e: &Els) -> Vec<u32> {
	e.get_ref().iter().map(key_of).collect()
}
fn one(e: &El) -> Els {
	Vis::dom(e)
}
fn handles(e: &Els) -> Els {
	e.cloned()
}
pub fn quiet_panics() {
	std::panic::set_hook(Box::new(|i| {
		let ours = i.location().is_some_and(|l| l.file().starts_with("src/"));
		let _ = OURS.try_with(|o| o.set(ours));
	}));
}
thread_local! {
	/// did the last panic start in this harness?
	static OURS: Cell<bool> = const { Cell::new(false) };
}
fn payload_str(p: &(dyn std::any::Any + Send)) -> String {
	if let Some(s) = p.downcast_ref::<&str>() {
		s.to_string()
	} else if let Some(s) = p.downcast_ref::<String>() {
		s.clone()
	} else {
		"(payload)".into()
	}
}
fn as_injected(p: &(dyn std::any::Any + Send)) -> Option<Injected> {
	p.downcast_ref::<Injected>().copied()
}

enum Outcome<R> {
	Ok(R),
	Injected,
	Panic(String),
}
/// a library call: preemptible, and a panic comes back as data
fn call<R>(f: impl FnOnce() -> R) -> Outcome<R> {
	let r = catch_unwind(AssertUnwindSafe(|| lib(f)));
	match r {
		Ok(r) => Outcome::Ok(r),
		Err(p) => match as_injected(&*p) {
			Some(Injected::Op) => Outcome::Injected,
			Some(Injected::Die) => resume_unwind(p),
			None => Outcome::Panic(payload_str(&*p)),
		},
	}
}

fn elem(n: BoxDynNode<'static>) -> Option<El> {
	n.typed().into_element()
}
/// preorder list of the elements of a real subtree
fn real_elems(e: &El, out: &mut Vec<El>) {
	for c in e.child_nodes() {
		if matches!(c.node_type(), INodeType::Element) {
			if let Some(x) = elem(c) {
				out.push(x.cloned());
				real_elems(&x, out);
			}
		}
	}
}

/// the real subtree as data
fn real_tree(e: &El) -> Vec<Tree> {
	let mut out = vec![];
	for c in e.child_nodes() {
		match c.node_type() {
			INodeType::Text => out.push(Tree::T(c.text_content())),
			INodeType::Comment => out.push(Tree::C(c.text_content())),
			INodeType::HTMLDOCTYPE => out.push(Tree::C(DOCTYPE.into())),
			INodeType::Element => {
				if let Some(x) = elem(c) {
					out.push(real_tree1(&x));
				}
			}
			_ => {}
		}
	}
	out
}
fn real_tree1(x: &El) -> Tree {
	let tag = x.tag_name().to_ascii_lowercase();
	let attrs = x
		.get_attributes()
		.into_iter()
		.map(|(n, v)| {
			(n, match v {
				IAttrValue::Value(v, _) => Some(v),
				IAttrValue::True => None,
			})
		})
		.collect();
	let ch = if RAW.contains(&tag.as_str()) {
		let t = x.text_content();
		if t.is_empty() {
			vec![]
		} else {
			vec![Tree::T(t)]
		}
	} else {
		real_tree(x)
	};
	Tree::E(tag, 0, attrs, ch)
}
fn norm_attrs(t: &mut Vec<Tree>) {
	for x in t {
		if let Tree::E(_, _, a, c) = x {
			for (n, v) in a.iter_mut() {
				if let Some(s) = v {
					*v = Some(plain_quotes(s));
				}
				if n == "class" {
					if let Some(s) = v {
						*v = Some(s.split_ascii_whitespace().collect::<Vec<_>>().join(" "));
					}
				}
			}
			norm_attrs(c);
		}
	}
}
fn merge_texts(t: Vec<Tree>) -> Vec<Tree> {
	let mut out: Vec<Tree> = vec![];
	for x in t {
		match x {
			Tree::T(s) => {
				if s.is_empty() {
					continue;
				}
				if let Some(Tree::T(p)) = out.last_mut() {
					p.push_str(&s);
				} else {
					out.push(Tree::T(s));
				}
			}
			Tree::E(a, b, c, d) => out.push(Tree::E(a, b, c, merge_texts(d))),
			c => out.push(c),
		}
	}
	out
}
fn first_diff(a: &[Tree], b: &[Tree], at: &str) -> String {
	for i in 0..a.len().max(b.len()) {
		let (x, y) = (a.get(i), b.get(i));
		if x == y {
			continue;
		}
		if let (Some(Tree::E(t1, _, a1, c1)), Some(Tree::E(t2, _, a2, c2))) = (x, y) {
			if t1 == t2 && a1 == a2 {
				return first_diff(c1, c2, &format!("{}/{}[{}]", at, t1, i));
			}
		}
		let s = |t: Option<&Tree>| match t {
			None => "nothing".to_string(),
			Some(t) => {
				let mut o = format!("{:?}", t);
				if o.len() > 160 {
					let mut k = 160;
					while !o.is_char_boundary(k) {
						k -= 1;
					}
					o.truncate(k);
					o.push_str("...");
				}
				o
			}
		};
		return format!("at {}[{}]: the library has {}, expected {}", at, i, s(x), s(y));
	}
	String::new()
}

/// Links of the real tree below `e` agree with each other, whatever the content.
fn integrity(e: &El, what: &str, seen: &mut u32) {
	*seen += 1;
	if *seen > 20_000 {
		violation("integrity", &format!("{}: the tree never ends (a node is its own descendant)", what));
	}
	let nodes = e.child_nodes();
	let n = nodes.len();
	if n != e.child_nodes_length() {
		violation("integrity", &format!("{}: child_nodes and child_nodes_length disagree", what));
	}
	let mut els: Vec<El> = vec![];
	for (i, c) in nodes.into_iter().enumerate() {
		if c.index() != i {
			violation(
				"integrity",
				&format!("{}: child {} of <{} k={}> says it is at index {}", what, i, e.tag_name(), key_of(e), c.index()),
			);
		}
		match c.parent() {
			Some(p) => {
				if !p.is(e) {
					violation("integrity", &format!("{}: child {} of <{} k={}> has another parent", what, i, e.tag_name(), key_of(e)));
				}
			}
			None => violation("integrity", &format!("{}: child {} of <{} k={}> has no parent", what, i, e.tag_name(), key_of(e))),
		}
		if matches!(c.node_type(), INodeType::Element) {
			if let Some(x) = elem(c) {
				els.push(x);
			}
		}
	}
	let ch = e.children();
	if ch.length() != els.len() || ch.get_ref().iter().zip(&els).any(|(a, b)| !a.is(b)) {
		violation("nav", &format!("{}: children() of <{} k={}> differs from its child nodes", what, e.tag_name(), key_of(e)));
	}
	for (i, x) in els.iter().enumerate() {
		let nx = x.next_element_sibling();
		let ok = match (els.get(i + 1), &nx) {
			(None, None) => true,
			(Some(a), Some(b)) => a.is(b),
			_ => false,
		};
		if !ok {
			violation("nav", &format!("{}: next sibling of <{} k={}> is wrong", what, x.tag_name(), key_of(x)));
		}
		let pv = x.previous_element_sibling();
		let ok = match (if i > 0 { els.get(i - 1) } else { None }, &pv) {
			(None, None) => true,
			(Some(a), Some(b)) => a.is(b),
			_ => false,
		};
		if !ok {
			violation("nav", &format!("{}: previous sibling of <{} k={}> is wrong", what, x.tag_name(), key_of(x)));
		}
		let same = |a: &Els, b: &[El]| a.length() == b.len() && a.get_ref().iter().zip(b).all(|(p, q)| p.is(q));
		if !same(&x.next_element_siblings(), &els[i + 1..]) || !same(&x.previous_element_siblings(), &els[..i]) {
			violation("nav", &format!("{}: the siblings before or after <{} k={}> are wrong", what, x.tag_name(), key_of(x)));
		}
		let sb = x.siblings();
		let want: Vec<&El> = els.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, y)| y).collect();
		if sb.length() != want.len() || sb.get_ref().iter().zip(&want).any(|(a, b)| !a.is(b)) {
			violation("nav", &format!("{}: siblings of <{} k={}> are wrong", what, x.tag_name(), key_of(x)));
		}
	}
	for x in &els {
		integrity(x, what, seen);
	}
}
fn real_top(e: &El) -> El {
	let mut cur = e.cloned();
	let mut n = 0;
	while let Some(p) = cur.parent() {
		cur = p;
		n += 1;
		if n > 10_000 {
			violation("integrity", "a node is its own ancestor");
		}
	}
	cur
}

const BAD_REENTER: &str = "p:nosuchpseudo(";

/// may it change what a walk over texts or children gets to see?
fn changes(o: &Op) -> bool {
	match o {
		Op::Query { .. } | Op::Bad { .. } | Op::Crash | Op::LoadRaw { .. } | Op::Opaque { .. } | Op::Read { .. } | Op::HoldText { .. } => false,
		Op::Callback { body, .. } => body.iter().any(changes),
		_ => true,
	}
}

impl Ctx {
	pub fn new(me: usize, pin: bool) -> Ctx {
		Ctx {
			me,
			m: Model::default(),
			docs: BTreeMap::new(),
			slots: BTreeMap::new(),
			held: BTreeMap::new(),
			pins: vec![],
			work: 0,
			pin,
			next_key: 100_000,
			serial: 0,
			depth: 0,
			h: 0,
			faulted: false,
			opix: 0,
		}
	}
	fn at(&self) -> String {
		format!("client {} op {}", self.me, self.opix)
	}
	fn fresh(&mut self) -> u32 {
		self.next_key += 1;
		self.next_key
	}
	fn pin_all(&mut self, e: &Els) {
		if self.pin {
			for x in e.get_ref() {
				if !x.is_root_element() {
					self.pins.push(x.cloned());
				}
				let mut v = vec![];
				real_elems(x, &mut v);
				self.pins.extend(v);
			}
		}
	}

	/* ------------------------------------------------ comparisons */
	/// the answer of a query; returns the ids in the library's order
	fn same_set(&mut self, what: &str, real: &Els, want: &[Id], exact: bool) -> Vec<Id> {
		let rk = keys_of(real);
		let wk: Vec<u32> = want.iter().map(|i| self.m.n[*i].key).collect();
		let ok = if exact {
			rk == wk
		} else {
			let mut a = rk.clone();
			let mut b = wk.clone();
			a.sort();
			b.sort();
			a == b
		};
		if !ok {
			violation("query", &format!("{}: {} answered elements {:?}, expected {:?}{}", self.at(), what, rk, wk, if exact { "" } else { " (in any order)" }));
		}
		for k in &rk {
			hn(&mut self.h, *k as u64);
		}
		hn(&mut self.h, rk.len() as u64);
		if !rk.is_empty() {
			count(C_NONEMPTY, 1);
		}
		rk.iter().map(|k| *want.iter().find(|i| self.m.n[**i].key == *k).unwrap()).collect()
	}
	fn same_bool(&mut self, what: &str, real: bool, want: bool) {
		if real != want {
			violation("query", &format!("{}: {} answered {}, expected {}", self.at(), what, real, want));
		}
		hn(&mut self.h, 1000 + real as u64);
	}
	fn note_set(&self, ids: &[Id]) {
		if ids.is_empty() {
			return;
		}
		if !self.m.same_tree(ids) {
			count(C_MULTITREE, 1);
		} else if !self.m.ordered(ids) {
			count(C_STALESET, 1);
		}
		let t = self.m.top(ids[0]);
		if self.m.n[t].kind != Kind::Root {
			count(C_DETACHED, 1);
			let o = self.m.n[ids[0]].owner;
			if !self.docs.values().any(|d| d.serial == o) {
				count(C_ORPHAN, 1);
			}
		}
		if self.faulted {
			count(C_AFTERFAULT, 1);
		}
	}
	/// the document an error on this element is reported to
	fn expect_error(&mut self, i: Option<Id>) -> HandlerKind {
		if let Some(i) = i {
			let o = self.m.n[i].owner;
			for d in self.docs.values_mut() {
				if d.serial == o && o != 0 {
					d.expect += match d.handler {
						HandlerKind::None => 0,
						HandlerKind::Nested => 2,
						_ => 1,
					};
					return d.handler;
				}
			}
		}
		HandlerKind::None
	}
	fn check_handlers(&mut self, what: &str) {
		for (d, s) in &self.docs {
			if s.errs.get() != s.expect {
				violation(
					"handler",
					&format!("{}: after {} the handler of document {} was called {} times, expected {}", self.at(), what, d, s.errs.get(), s.expect),
				);
			}
		}
	}

	/// whole-tree comparison of document `d`
	fn check_doc(&mut self, d: u8) {
		count(C_CHECK, 1);
		let (e, root, serial) = match self.docs.get(&d) {
			Some(s) => (s.real.get_ref()[0].cloned(), s.root, s.serial),
			None => return,
		};
		let what = format!("{}, document {}", self.at(), d);
		let mut n = 0;
		integrity(&e, &what, &mut n);
		let mut got = real_tree(&e);
		let mut want = self.m.tree(root, false);
		norm_attrs(&mut got);
		norm_attrs(&mut want);
		if got != want {
			violation("tree", &format!("{}: the tree is not what its history says, {}", what, first_diff(&got, &want, "")));
		}
		let mut h = self.h;
		hs(&mut h, &format!("{:?}", got));
		self.h = h;
		shm::get().states[(h as usize) & (shm::COV - 1)] = 1;
		// every element below answers for the same document
		let mut v = vec![];
		real_elems(&e, &mut v);
		for x in &v {
			match x.owner_document() {
				Some(doc) => {
					let r = doc.get_root_node();
					let same = elem(r).is_some_and(|r| r.is(&e));
					if !same {
						violation("integrity", &format!("{}: <{} k={}> says it belongs to another document", what, x.tag_name(), key_of(x)));
					}
				}
				None => violation("integrity", &format!("{}: <{} k={}> belongs to no document", what, x.tag_name(), key_of(x))),
			}
			// and so do its texts
			if let Some(t) = x.child_nodes().into_iter().find(|n| matches!(n.node_type(), INodeType::Text)) {
				let same = t.owner_document().and_then(|d| elem(d.get_root_node())).is_some_and(|r| r.is(&e));
				if !same {
					violation("integrity", &format!("{}: a text in <{} k={}> belongs to another document or none", what, x.tag_name(), key_of(x)));
				}
			}
		}
		let _ = serial;
		// the same identity: a handle in a slot is the element in the tree
		let by_key: BTreeMap<u32, &El> = v.iter().map(|x| (key_of(x), x)).collect();
		for (s, slot) in &self.slots {
			for (x, i) in slot.real.get_ref().iter().zip(&slot.ids) {
				if self.m.top(*i) == root {
					match by_key.get(&self.m.n[*i].key) {
						Some(y) if y.is(x) => {}
						_ => violation("integrity", &format!("{}: the handle to element {} in slot {} is not the element in the tree", what, self.m.n[*i].key, s)),
					}
				}
			}
		}
	}
	/// the trees above and below the handles of a slot
	fn check_slot(&mut self, s: u8) {
		let list: Vec<(El, Id)> = match self.slots.get(&s) {
			Some(sl) => sl.real.get_ref().iter().map(|x| x.cloned()).zip(sl.ids.iter().copied()).collect(),
			None => return,
		};
		let mut tops = BTreeSet::new();
		for (x, i) in list {
			let top = self.m.top(i);
			if self.m.n[top].kind == Kind::Root || !tops.insert(top) {
				continue;
			}
			count(C_CHECK, 1);
			let rt = real_top(&x);
			let what = format!("{}, slot {} (detached)", self.at(), s);
			let mut n = 0;
			integrity(&rt, &what, &mut n);
			let mut got = vec![real_tree1(&rt)];
			let mut want = vec![self.m.tree1(top, false)];
			norm_attrs(&mut got);
			norm_attrs(&mut want);
			if got != want {
				violation("tree", &format!("{}: the tree is not what its history says, {}", what, first_diff(&got, &want, "")));
			}
			let mut h = self.h;
			hs(&mut h, &format!("{:?}", got));
			self.h = h;
		}
	}
	/// the links of every tree, before anything is said about content
	fn check_links(&mut self) {
		for (d, s) in &self.docs {
			let what = format!("{}, document {}", self.at(), d);
			integrity(&s.real.get_ref()[0], &what, &mut 0);
		}
		let mut tops = BTreeSet::new();
		for (s, sl) in &self.slots {
			for (x, i) in sl.real.get_ref().iter().zip(&sl.ids) {
				let top = self.m.top(*i);
				let what = format!("{}, slot {}", self.at(), s);
				if self.m.n[top].kind != Kind::Root && tops.insert(top) {
					integrity(&real_top(x), &what, &mut 0);
				}
			}
		}
	}
	/// a set still holds what it held before the call
	fn same_handles(&self, what: &str, real: &Els, before: &[u32]) {
		let now = keys_of(real);
		if now != before {
			violation("callback", &format!("{}: after {} the set it ran on holds {:?}, before it held {:?}", self.at(), what, now, before));
		}
	}
	fn check_all(&mut self) {
		self.check_links();
		let ds: Vec<u8> = self.docs.keys().copied().collect();
		for d in ds {
			self.check_doc(d);
		}
		let ss: Vec<u8> = self.slots.keys().copied().collect();
		for s in ss {
			self.check_slot(s);
		}
		self.check_held();
	}
	/// a text that is held says what the tree says
	fn check_held(&mut self) {
		let mut h = self.h;
		for (t, (x, i)) in &self.held {
			let what = format!("{}, held text {}", self.at(), t);
			let (got, want) = (x.text_content(), self.m.text(*i));
			hs(&mut h, &got);
			if got != want {
				violation("read", &format!("{}: says {:?}, expected {:?}", what, got, want));
			}
			let par = x.parent();
			match (&par, self.m.n[*i].parent) {
				(None, None) => {}
				(Some(p), Some(q)) => {
					if self.m.is_e(q) && key_of(p) != self.m.n[q].key || !self.m.is_e(q) && !p.is_root_element() {
						violation("integrity", &format!("{}: has the parent {}, expected {}", what, key_of(p), self.m.n[q].key));
					}
					if x.index() != self.m.pos(*i) {
						violation("integrity", &format!("{}: is at index {}, expected {}", what, x.index(), self.m.pos(*i)));
					}
				}
				(p, q) => violation("integrity", &format!("{}: {}, expected {}", what, if p.is_some() { "has a parent" } else { "has no parent" }, if q.is_some() { "one" } else { "none" })),
			}
		}
		self.h = h;
	}
	/// without pins, nodes live as long as something reaches them
	fn collect(&mut self) {
		if self.pin {
			return;
		}
		let mut alive = vec![false; self.m.n.len()];
		let mut work: Vec<Id> = self.docs.values().map(|d| d.root).collect();
		for s in self.slots.values() {
			work.extend(s.ids.iter().copied());
		}
		work.extend(self.held.values().map(|x| x.1));
		while let Some(i) = work.pop() {
			if !alive[i] {
				alive[i] = true;
				work.extend(self.m.n[i].ch.iter().copied());
			}
		}
		for i in 0..self.m.n.len() {
			if alive[i] {
				if let Some(p) = self.m.n[i].parent {
					if !alive[p] {
						self.m.n[i].parent = None;
					}
				}
			}
		}
	}
	fn drop_doc(&mut self, d: u8) {
		if let Some(s) = self.docs.remove(&d) {
			flag(F_DROP);
			let root = s.root;
			let r = s.real;
			if let Outcome::Panic(p) = call(move || drop(r)) {
				violation("drop-panic", &format!("{}: dropping document {} panicked: {}", self.at(), d, p));
			}
			// the root goes, what is held by handles stays
			for c in std::mem::take(&mut self.m.n[root].ch) {
				self.m.n[c].parent = None;
			}
			self.collect();
		}
	}
	fn put(&mut self, dst: u8, real: Els, ids: Vec<Id>) {
		let old = self.slots.insert(dst, Slot { real, ids });
		let _ = call(move || drop(old));
		self.collect();
	}
	fn panicked(&self, class: &str, what: &str, p: &str) -> ! {
		violation(class, &format!("{}: {} panicked: {}", self.at(), what, p))
	}

	/* ------------------------------------------------ operations */
	pub fn run(&mut self, ops: &[Op]) {
		for (i, op) in ops.iter().enumerate() {
			self.opix = i;
			shm::get().inflight[self.me] = i as u32;
			self.h = 0;
			self.op(op);
			if std::env::var_os("VSIM_TRACE").is_some() {
				eprintln!("op {} steps {} work {} nodes {}", i, crate::sched::steps(), self.work, self.m.n.len());
			}
			let m = shm::get();
			let n = m.oplen[self.me] as usize;
			if n < shm::MAXOP {
				m.oplog[self.me][n] = self.h;
				m.oplen[self.me] += 1;
			}
			m.log_hash = mix(m.log_hash ^ self.h ^ ((self.me as u64) << 50));
		}
		shm::get().inflight[self.me] = u32::MAX;
	}
	fn op(&mut self, op: &Op) {
		// a history is bounded by the work of checking it
		self.work += 1 + self.m.n.len() as u64;
		if self.work > 300_000 {
			self.h = u64::MAX;
			return;
		}
		count(C_OPS, 1);
		match op {
			Op::Load { d, tree, handler, via } => self.load(*d, tree, *handler, *via),
			Op::LoadRaw { html, opts, sel } => self.load_raw(html, *opts, sel),
			Op::DropDoc { d } => {
				if self.docs.contains_key(d) {
					count(C_DROPDOC, 1);
				}
				self.drop_doc(*d);
			}
			Op::DropSlot { s } => {
				let old = self.slots.remove(s);
				let _ = call(move || drop(old));
				self.collect();
			}
			Op::Query { src, q, dst } => self.query(*src, q, *dst),
			Op::Mutate { s, m } => self.mutate(*s, m),
			Op::Callback { s, kind, body, stop_at, panic_at, limit } => self.callback(*s, *kind, body, *stop_at, *panic_at, *limit),
			Op::Bad { src, method, selector } => self.bad(*src, *method, selector),
			Op::Opaque { src, method, selector } => self.opaque(*src, *method, selector),
			Op::BadInsert { s, pos, kind } => self.bad_insert(*s, *pos, *kind),
			Op::FirstUse { kind } => self.first_use(*kind),
			Op::Copy { src: Src::Doc(d), .. } => self.copy_doc(*d),
			Op::Copy { src, dst } => {
				let (real, ids) = match self.src(*src) {
					Some(x) => x,
					None => return,
				};
				if ids.iter().any(|i| !self.m.is_e(*i)) || self.too_big(&ids) {
					return;
				}
				let (c, ids) = self.copy_of(&real, &ids);
				self.put(*dst, c, ids);
			}
			Op::Check { d } => {
				self.check_doc(*d);
				let ss: Vec<u8> = self.slots.keys().copied().collect();
				for s in ss {
					self.check_slot(s);
				}
			}
			Op::Restart { d } => self.restart(*d),
			Op::Crash => {
				count(C_DEATH, 1);
				resume_unwind(Box::new(Injected::Die))
			}
			Op::Read { s } => self.read(*s),
			Op::HoldText { s, ix, t } => self.hold(*s, *ix, *t),
			Op::HeldText { t, ed } => self.use_held(*t, ed),
		}
	}
	fn hold(&mut self, s: u8, ix: u8, t: u8) {
		let (real, ids) = match self.src(Src::Slot(s)) {
			Some(x) if !x.1.is_empty() => x,
			_ => return,
		};
		let mut list = vec![];
		self.m.texts(ids[0], 0, 0, &mut list);
		let mut got = match call(|| real.first().texts(0)) {
			Outcome::Ok(t) => t,
			Outcome::Panic(p) => self.panicked("query-panic", "texts(0)", &p),
			Outcome::Injected => return,
		};
		if got.length() != list.len() {
			violation("query", &format!("{}: element {} has {} texts, expected {}", self.at(), self.m.n[ids[0]].key, got.length(), list.len()));
		}
		if list.is_empty() {
			return;
		}
		let ix = ix as usize % list.len();
		let x = got.get_mut_ref().remove(ix);
		let old = self.held.insert(t, (x, list[ix].1));
		let _ = call(move || drop((old, got)));
		self.collect();
		self.check_all();
	}
	fn use_held(&mut self, t: u8, ed: &Option<TextEdit>) {
		let (x, i) = match self.held.remove(&t) {
			Some(x) => x,
			None => return,
		};
		let mut x = Some(x);
		let r = match ed {
			None => {
				let x = x.take();
				Some(("dropping a text".to_string(), call(move || drop(x))))
			}
			Some(ed) => self.edit_one(&mut x, i, ed),
		};
		if let Some(x) = x {
			self.held.insert(t, (x, i));
		}
		let (name, o) = match r {
			Some(x) => x,
			None => return,
		};
		match o {
			Outcome::Panic(p) => self.panicked("mutate-panic", &name, &p),
			Outcome::Injected => self.faulted = true,
			Outcome::Ok(()) => {}
		}
		self.collect();
		self.check_handlers(&name);
		self.check_all();
	}
	fn src(&self, s: Src) -> Option<(Els, Vec<Id>)> {
		match s {
			Src::Doc(d) => self.docs.get(&d).map(|x| (handles(&x.real), vec![x.root])),
			Src::Slot(s) => self.slots.get(&s).map(|x| (handles(&x.real), x.ids.clone())),
		}
	}

	fn make_handler(&self, kind: HandlerKind, errs: &Rc<Cell<u32>>, stash: &Rc<RefCell<Option<Els>>>) -> Box<dyn Fn(BoxDynError)> {
		let errs = errs.clone();
		let stash = stash.clone();
		let depth = Cell::new(0);
		let me = self.me;
		Box::new(move |_e| {
			user(|| {
				errs.set(errs.get() + 1);
				match kind {
					HandlerKind::None | HandlerKind::Count => {}
					HandlerKind::Reenter => {
						if depth.get() == 0 {
							depth.set(1);
							count(C_REENTER, 1);
							let s = stash.borrow();
							if let Some(own) = &*s {
								let n = lib(|| own.find("*").length());
								let mut v = vec![];
								for x in own.get_ref() {
									real_elems(x, &mut v);
								}
								if n != v.len() {
									violation("handler-query", &format!("client {}: inside the error handler find('*') answered {} of {} elements", me, n, v.len()));
								}
							}
							let n = lib(|| {
								let d = Vis::load("<i><b class='x'></b><b></b></i>").map_err(|e| e.to_string());
								d.map(|d| d.find("i > b:first-child, b.x").length())
							});
							if n != Ok(1) {
								violation("handler-query", &format!("client {}: inside the error handler a new document answered {:?}, expected 1", me, n));
							}
							depth.set(0);
						}
					}
					HandlerKind::Panic => {
						count(C_HANDLERPANIC, 1);
						resume_unwind(Box::new(Injected::Op));
					}
					HandlerKind::Nested => {
						if depth.get() == 0 {
							depth.set(1);
							count(C_REENTER, 1);
							let s = stash.borrow();
							if let Some(own) = &*s {
								let n = lib(|| own.find(BAD_REENTER).length());
								if n != 0 {
									violation("handler-query", "an invalid selector matched inside the error handler");
								}
							}
							drop(s);
							depth.set(0);
						}
					}
				}
			})
		})
	}
	fn options() -> ParseOptions {
		ParseOptions { auto_fix_unclosed_tag: true, auto_fix_unexpected_endtag: true, auto_fix_unescaped_lt: true, allow_self_closing: true, ..Default::default() }
	}
	fn load(&mut self, d: u8, tree: &[Tree], handler: HandlerKind, via: u8) {
		count(C_LOAD, 1);
		self.drop_doc(d);
		let html = html(tree);
		let errs = Rc::new(Cell::new(0));
		let stash = Rc::new(RefCell::new(None));
		let r = if handler == HandlerKind::None {
			call(move || if via % 2 == 0 { Vis::load(html).map_err(|e| e.to_string()) } else { Vis::load_options(html, Ctx::options()).map_err(|e| e.to_string()) })
		} else {
			let h = self.make_handler(handler, &errs, &stash);
			call(move || Ok(if via % 2 == 0 { Vis::load_catch(html, h) } else { Vis::load_options_catch(html, Ctx::options(), h) }))
		};
		let real: Els = match r {
			Outcome::Ok(Ok(e)) => e,
			Outcome::Ok(Err(e)) => violation("load", &format!("{}: well-formed html was refused: {}", self.at(), e)),
			Outcome::Panic(p) => self.panicked("load-panic", "parsing well-formed html", &p),
			Outcome::Injected => return,
		};
		if real.length() != 1 {
			violation("load", &format!("{}: a loaded document has {} roots", self.at(), real.length()));
		}
		if matches!(handler, HandlerKind::Reenter | HandlerKind::Nested) {
			*stash.borrow_mut() = Some(handles(&real));
		}
		let root = self.m.build_root(tree);
		self.serial += 1;
		self.m.set_owner(root, self.serial);
		self.pin_all(&real);
		let serial = self.serial;
		self.docs.insert(d, DocS { real, root, serial, handler, errs, expect: 0 });
		self.collect();
		hn(&mut self.h, 7);
	}
	/// arbitrary text: the two ways of loading must agree on whether it is an error
	fn load_raw(&mut self, html: &str, opts: u8, sel: &str) {
		count(C_OPAQUE, 1);
		let strict = opts & 1 == 1;
		let mk = move || if strict { ParseOptions::default() } else { Ctx::options() };
		let (h1, h2, s1) = (html.to_string(), html.to_string(), sel.to_string());
		let r = call(move || Vis::load_options(h1, mk()).map(|e| (e.find(&s1).length(), e.outer_html())).map_err(|e| e.to_string()));
		let res = match r {
			Outcome::Ok(r) => r,
			Outcome::Injected => return,
			Outcome::Panic(p) => self.panicked("load-panic", &format!("loading {:?}", html), &p),
		};
		if res.is_err() {
			count(C_BADHTML, 1);
			{
 self.faulted = true;
 flag(F_FAULT);
 }
		}
		let n = Rc::new(Cell::new(0u32));
		let n2 = n.clone();
		let r = call(move || Vis::load_options_catch(h2, mk(), Box::new(move |_| n2.set(n2.get() + 1))).length());
		match r {
			Outcome::Ok(len) => {
				let want = if res.is_err() { (0, 1) } else { (1, 0) };
				if (len, n.get()) != want {
					violation("handler", &format!("{}: load_options_catch({:?}) gave {} roots and called its handler {} times, expected {:?}", self.at(), html, len, n.get(), want));
				}
			}
			Outcome::Panic(p) => self.panicked("load-panic", &format!("loading {:?}", html), &p),
			Outcome::Injected => {}
		}
		match res {
			Ok((k, o)) => {
				hn(&mut self.h, k as u64);
				hs(&mut self.h, &o);
			}
			Err(e) => hs(&mut self.h, &e),
		}
		self.check_handlers("loading another document");
	}

	fn query(&mut self, src: Src, q: &Q, dst: u8) {
		let (real, ids) = match self.src(src) {
			Some(x) => x,
			None => return,
		};
		let is_doc = matches!(src, Src::Doc(_));
		if is_doc && !matches!(q, Q::Find(_) | Q::Children(_) | Q::ById(_)) {
			return;
		}
		let cost = self.cost(&ids, q);
		if cost > 1e5 {
			return;
		}
		self.work += (cost / 20.0) as u64;
		count(C_QUERY, 1);
		self.note_set(&ids);
		let same = self.m.same_tree(&ids);
		let ordered = self.m.ordered(&ids);
		let ambiguous = {
			let mut names = vec![];
			q_ids(q, &mut names);
			let mut roots: Vec<Id> = ids.iter().map(|i| self.m.top(*i)).collect();
			if let Q::ById(_) = q {
				let owner = ids.first().map(|i| self.m.n[*i].owner).unwrap_or(0);
				roots = self.docs.values().filter(|d| d.serial == owner && owner != 0).map(|d| d.root).collect();
			}
			roots.sort();
			roots.dedup();
			!names.is_empty() && self.m.repeated_id(&roots, &names)
		};
		let m = &self.m;
		let os = |s: &Option<Sel>| s.as_ref().map(sel_str).unwrap_or_default();
		let other = |s: &u8| -> (Els, Vec<Id>) {
			match self.slots.get(s) {
				Some(x) => (handles(&x.real), x.ids.clone()),
				None => (Elements::new(), vec![]),
			}
		};
		let opt = |i: Id, s: &Option<Sel>| s.as_ref().is_none_or(|s| m.matches(i, s));
		let su = |mut v: Vec<Id>| {
			m.sort_unique(&mut v);
			v
		};
		enum A {
			Set(Vec<Id>, bool),
			B(bool),
		}
		let until = |i: Id, step: &dyn Fn(Id) -> Option<Id>, sel: &Sel, f: &Option<Sel>, contains: bool| {
			let mut out = vec![];
			let mut cur = step(i);
			while let Some(x) = cur {
				let hit = m.matches(x, sel);
				if hit && !contains {
					break;
				}
				if opt(x, f) {
					out.push(x);
				}
				if hit {
					break;
				}
				cur = step(x);
			}
			out
		};
		let walk = |i: Id, step: &dyn Fn(Id) -> Option<Id>| {
			let mut out = vec![];
			let mut cur = step(i);
			while let Some(x) = cur {
				out.push(x);
				cur = step(x);
			}
			out
		};
		let (nx, pv, up) = (|i: Id| m.next(i), |i: Id| m.prev(i), |i: Id| m.eparent(i));
		enum R {
			S(Els),
			B(bool),
		}
		let (want, name, res): (A, String, Outcome<R>) = match q {
			Q::Find(s) => {
				let t = sel_str(s);
				(A::Set(m.find(&ids, s), same), format!("find({:?})", t), call(|| R::S(real.find(&t))))
			}
			Q::Filter(s) => {
				let t = sel_str(s);
				(A::Set(ids.iter().copied().filter(|i| m.matches(*i, s)).collect(), ordered), format!("filter({:?})", t), call(|| R::S(real.filter(&t))))
			}
			Q::Not(s) => {
				let t = sel_str(s);
				(A::Set(ids.iter().copied().filter(|i| !m.matches(*i, s)).collect(), ordered), format!("not({:?})", t), call(|| R::S(real.not(&t))))
			}
			Q::Is(s) => {
				let t = sel_str(s);
				(A::B(ids.iter().any(|i| m.matches(*i, s))), format!("is({:?})", t), call(|| R::B(real.is(&t))))
			}
			Q::IsAll(s) => {
				let t = sel_str(s);
				(A::B(!ids.is_empty() && ids.iter().all(|i| m.matches(*i, s))), format!("is_all({:?})", t), call(|| R::B(real.is_all(&t))))
			}
			Q::Has(s) => {
				let t = sel_str(s);
				(A::Set(ids.iter().copied().filter(|i| m.has(*i, s)).collect(), ordered), format!("has({:?})", t), call(|| R::S(real.has(&t))))
			}
			Q::Children(s) => {
				let t = os(s);
				let w = match s {
					Some(s) => m.find_from(&ids, s, Comb::Child),
					None => su(ids.iter().flat_map(|i| m.kids(*i)).collect()),
				};
				(A::Set(w, same), format!("children({:?})", t), call(|| R::S(real.children(&t))))
			}
			Q::Parent(s) => {
				let t = os(s);
				(A::Set(su(ids.iter().filter_map(|i| up(*i)).filter(|i| opt(*i, s)).collect()), same), format!("parent({:?})", t), call(|| R::S(real.parent(&t))))
			}
			Q::Parents(s) => {
				let t = os(s);
				(A::Set(su(ids.iter().flat_map(|i| walk(*i, &up)).filter(|i| opt(*i, s)).collect()), same), format!("parents({:?})", t), call(|| R::S(real.parents(&t))))
			}
			Q::ParentsUntil(s, f, c) => {
				let (t, u) = (sel_str(s), os(f));
				(A::Set(su(ids.iter().flat_map(|i| until(*i, &up, s, f, *c)).collect()), same), format!("parents_until({:?},{:?},{})", t, u, c), call(|| R::S(real.parents_until(&t, &u, *c))))
			}
			Q::Closest(s) => {
				let t = sel_str(s);
				let w = ids
					.iter()
					.filter_map(|i| {
						let mut cur = Some(*i);
						while let Some(x) = cur {
							if m.matches(x, s) {
								return Some(x);
							}
							cur = up(x);
						}
						None
					})
					.collect();
				(A::Set(su(w), ordered), format!("closest({:?})", t), call(|| R::S(real.closest(&t))))
			}
			Q::Next(s) => {
				let t = os(s);
				(A::Set(su(ids.iter().filter_map(|i| nx(*i)).filter(|i| opt(*i, s)).collect()), same), format!("next({:?})", t), call(|| R::S(real.next(&t))))
			}
			Q::NextAll(s) => {
				let t = os(s);
				(A::Set(su(ids.iter().flat_map(|i| walk(*i, &nx)).filter(|i| opt(*i, s)).collect()), same), format!("next_all({:?})", t), call(|| R::S(real.next_all(&t))))
			}
			Q::NextUntil(s, f, c) => {
				let (t, u) = (sel_str(s), os(f));
				(A::Set(su(ids.iter().flat_map(|i| until(*i, &nx, s, f, *c)).collect()), same), format!("next_until({:?},{:?},{})", t, u, c), call(|| R::S(real.next_until(&t, &u, *c))))
			}
			Q::Prev(s) => {
				let t = os(s);
				(A::Set(su(ids.iter().filter_map(|i| pv(*i)).filter(|i| opt(*i, s)).collect()), same), format!("prev({:?})", t), call(|| R::S(real.prev(&t))))
			}
			Q::PrevAll(s) => {
				let t = os(s);
				(A::Set(su(ids.iter().flat_map(|i| walk(*i, &pv)).filter(|i| opt(*i, s)).collect()), same), format!("prev_all({:?})", t), call(|| R::S(real.prev_all(&t))))
			}
			Q::PrevUntil(s, f, c) => {
				let (t, u) = (sel_str(s), os(f));
				(A::Set(su(ids.iter().flat_map(|i| until(*i, &pv, s, f, *c)).collect()), same), format!("prev_until({:?},{:?},{})", t, u, c), call(|| R::S(real.prev_until(&t, &u, *c))))
			}
			Q::Siblings(s) => {
				let t = os(s);
				let w = ids.iter().flat_map(|i| m.sibs(*i).into_iter().filter(|x| x != i).collect::<Vec<_>>()).filter(|i| opt(*i, s)).collect();
				(A::Set(su(w), same), format!("siblings({:?})", t), call(|| R::S(real.siblings(&t))))
			}
			Q::Eq(i) => (A::Set(ids.get(*i as usize).copied().into_iter().collect(), true), format!("eq({})", i), call(|| R::S(real.eq(*i as usize)))),
			Q::First => (A::Set(ids.first().copied().into_iter().collect(), true), "first()".into(), call(|| R::S(real.first()))),
			Q::Last => (A::Set(ids.last().copied().into_iter().collect(), true), "last()".into(), call(|| R::S(real.last()))),
			Q::Slice(a, b) => {
				let (a, b) = (*a as usize, *b as usize);
				let w = if a < b.min(ids.len()) { ids[a..b.min(ids.len())].to_vec() } else { vec![] };
				(A::Set(w, true), format!("slice({}..{})", a, b), call(|| R::S(real.slice(a..b))))
			}
			Q::Add(o) => {
				let (or, oi) = other(o);
				let mut all = ids.clone();
				all.extend(oi.iter().copied());
				let s2 = m.same_tree(&all);
				(A::Set(su(all), s2 && ordered && m.ordered(&oi)), format!("add(slot {})", o), call(|| R::S(real.add(or))))
			}
			Q::FilterIn(o) => {
				let (or, oi) = other(o);
				(A::Set(ids.iter().copied().filter(|i| oi.contains(i)).collect(), ordered), format!("filter_in(slot {})", o), call(|| R::S(real.filter_in(&or))))
			}
			Q::NotIn(o) => {
				let (or, oi) = other(o);
				(A::Set(ids.iter().copied().filter(|i| !oi.contains(i)).collect(), ordered), format!("not_in(slot {})", o), call(|| R::S(real.not_in(&or))))
			}
			Q::IsIn(o) => {
				let (or, oi) = other(o);
				(A::B(ids.iter().any(|i| oi.contains(i))), format!("is_in(slot {})", o), call(|| R::B(real.is_in(&or))))
			}
			Q::IsAllIn(o) => {
				let (or, oi) = other(o);
				if ids.is_empty() {
					// said of nothing: the library's choice
					return;
				}
				(A::B(ids.iter().all(|i| oi.contains(i))), format!("is_all_in(slot {})", o), call(|| R::B(real.is_all_in(&or))))
			}
			Q::Contains(o, c) => {
				let (or, oi) = other(o);
				if oi.is_empty() {
					return;
				}
				let x = oi[0];
				let w = match c {
					Comb::Desc => ids.iter().any(|i| m.is_anc(*i, x)),
					Comb::Child => m.n[x].parent.is_some_and(|p| ids.contains(&p)),
					Comb::Next => pv(x).is_some_and(|p| ids.contains(&p)),
					Comb::NextAll => walk(x, &pv).iter().any(|p| ids.contains(p)),
				};
				let lc = match c {
					Comb::Desc => Combinator::ChildrenAll,
					Comb::Child => Combinator::Children,
					Comb::Next => Combinator::Next,
					Comb::NextAll => Combinator::NextAll,
				};
				(A::B(w), format!("contains(first of slot {}, {:?})", o, c), call(|| R::B(real.contains(&or.get_ref()[0], &lc))))
			}
			Q::Slices(k, a, b) => {
				let (a, b, n) = (*a as usize, *b as usize, ids.len());
				let (lo, hi) = match k {
					0 => (a, b + 1),
					1 => (a, n),
					2 => (0, b),
					3 => (0, b + 1),
					_ => (0, n),
				};
				let w = if lo < hi.min(n) { ids[lo..hi.min(n)].to_vec() } else { vec![] };
				(
					A::Set(w, true),
					format!("slice(kind {}, {}, {})", k, a, b),
					call(|| {
						R::S(match k {
							0 => real.slice(a..=b),
							1 => real.slice(a..),
							2 => real.slice(..b),
							3 => real.slice(..=b),
							_ => real.slice(..),
						})
					}),
				)
			}
			Q::HasIn(o) => {
				let (or, oi) = other(o);
				(A::Set(ids.iter().copied().filter(|i| oi.iter().any(|x| m.is_anc(*i, *x))).collect(), ordered), format!("has_in(slot {})", o), call(|| R::S(real.has_in(&or))))
			}
			Q::ById(id) => {
				// through the document of the first element
				let owner = ids.first().map(|i| m.n[*i].owner).unwrap_or(0);
				let root = self.docs.values().find(|d| d.serial == owner && owner != 0).map(|d| d.root);
				let mut w = vec![];
				if let Some(r) = root {
					let mut all = vec![];
					m.desc(r, &mut all);
					if let Some(x) = all.into_iter().find(|x| m.simple(*x, &Simple::Id(id.clone()))) {
						w.push(x);
					}
				}
				let res = call(|| {
					let mut out = Elements::new();
					if let Some(e) = real.get(0) {
						if let Some(doc) = e.owner_document() {
							if let Some(x) = doc.get_element_by_id(id) {
								out = one(&x);
							}
						}
					}
					R::S(out)
				});
				(A::Set(w, true), format!("get_element_by_id({:?})", id), res)
			}
			Q::Cloned => (A::Set(ids.clone(), true), "cloned()".into(), call(|| R::S(real.cloned()))),
		};
		if ambiguous {
			// which of several elements with one id is meant is the library's choice: the
			// answer goes into the history (and must repeat), not against the model
			match res {
				Outcome::Ok(R::S(r)) => {
					for e in r.get_ref() {
						hn(&mut self.h, key_of(e) as u64);
					}
					self.put(dst, Elements::new(), vec![]);
				}
				Outcome::Ok(R::B(b)) => hn(&mut self.h, b as u64),
				Outcome::Panic(p) => self.panicked("query-panic", &name, &p),
				_ => {}
			}
			self.check_handlers(&name);
			return;
		}
		match (res, want) {
			(Outcome::Ok(R::S(r)), A::Set(w, exact)) => {
				let ids = self.same_set(&name, &r, &w, exact);
				self.put(dst, r, ids);
			}
			(Outcome::Ok(R::B(r)), A::B(w)) => self.same_bool(&name, r, w),
			(Outcome::Panic(p), _) => self.panicked("query-panic", &name, &p),
			_ => {}
		}
		self.check_handlers(&name);
	}

	/* ------------------------------------------------ reading */
	fn read(&mut self, s: u8) {
		let (real, ids) = match self.src(Src::Slot(s)) {
			Some(x) => x,
			None => return,
		};
		self.work += ids.len() as u64 * self.near(&ids) as u64 / 3;
		self.note_set(&ids);
		let want: String = ids.iter().map(|i| self.m.text(*i)).collect();
		let r = call(|| {
			let mut cls = vec![];
			for c in ["c1", "c2", "c3"] {
				cls.push(real.has_class(c));
			}
			let at: Vec<Option<String>> = ["id", "class", "title", "data-x", "K", "checked"].iter().map(|a| real.attr(a).map(|v| v.to_string())).collect();
			let ha: Vec<bool> = ["id", "CLASS", "title", "data-x"].iter().map(|a| real.has_attr(a)).collect();
			(real.text(), real.length(), real.is_empty(), cls, at, ha, real.outer_htmls(), real.htmls())
		});
		self.read_more(s, &real, &ids);
		self.read_docs();
		match r {
			Outcome::Ok((t, n, e, cls, at, ha, oh, ih)) => {
				if t != want {
					violation("read", &format!("{}: text() of slot {} is {:?}, expected {:?}", self.at(), s, t, want));
				}
				if n != ids.len() || e != ids.is_empty() {
					violation("read", &format!("{}: length()/is_empty() of slot {} are {}/{}", self.at(), s, n, e));
				}
				for (c, got) in ["c1", "c2", "c3"].iter().zip(&cls) {
					let w = ids.iter().any(|i| self.m.simple(*i, &Simple::Class(c.to_string())));
					if *got != w {
						violation("read", &format!("{}: has_class({}) of slot {} is {}, expected {}", self.at(), c, s, got, w));
					}
				}
				for (a, got) in ["id", "class", "title", "data-x", "K", "checked"].iter().zip(&at) {
					let mut w = ids.first().and_then(|i| self.m.attr(*i, a)).map(|v| v.unwrap_or_else(|| "true".into()));
					let mut g = got.clone();
					if *a == "class" {
						let n = |s: Option<String>| s.map(|v| v.split_ascii_whitespace().collect::<Vec<_>>().join(" "));
						w = n(w);
						g = n(g);
					}
					let w = w.map(|x| plain_quotes(&x));
					let gs = g.map(|x| plain_quotes(&x));
					let same = match (&gs, &w) {
						(None, None) => true,
						(Some(_), Some(w)) if w == "true" && ids.first().and_then(|i| self.m.attr(*i, a)) == Some(None) => true,
						(a, b) => a == b,
					};
					if !same {
						violation("read", &format!("{}: attr({}) of slot {} is {:?}, expected {:?}", self.at(), a, s, gs, w));
					}
				}
				for (a, got) in ["id", "CLASS", "title", "data-x"].iter().zip(&ha) {
					let w = ids.iter().any(|i| self.m.attr(*i, a).is_some());
					if *got != w {
						violation("read", &format!("{}: has_attr({}) of slot {} is {}, expected {}", self.at(), a, s, got, w));
					}
				}
				hs(&mut self.h, &t);
				hs(&mut self.h, &oh);
				hs(&mut self.h, &ih);
			}
			Outcome::Panic(p) => self.panicked("query-panic", "reading", &p),
			Outcome::Injected => {}
		}
	}

	/// what else a handle answers: values, its document, its own text and html
	fn read_more(&mut self, s: u8, real: &Els, ids: &[Id]) {
		struct D {
			root: Option<El>,
			title: Option<String>,
			head: Option<u32>,
			body: Option<u32>,
			html: Option<u32>,
			source: String,
			handler: bool,
		}
		let r = call(|| {
			let per: Vec<(String, String, String, String, bool, String, Option<El>)> = real
				.get_ref()
				.iter()
				.map(|e| (e.value().to_string(), e.text_contents().iter().collect(), e.inner_html(), e.outer_html(), e.has_attribute("Data-X"), e.tag_name(), e.root_element()))
				.collect();
			let doc = real.document().map(|d| D {
				root: elem(d.get_root_node()),
				title: d.title(),
				head: d.head().map(|e| key_of(&e)),
				body: d.body().map(|e| key_of(&e)),
				html: d.document_element().map(|e| key_of(&e)),
				source: d.source_code(),
				handler: d.onerror().is_some(),
			});
			(per, doc, real.val().to_string(), real.html(), real.htmls(), real.outer_html(), real.outer_htmls())
		});
		let (per, doc, val, html, htmls, outer, outers) = match r {
			Outcome::Ok(x) => x,
			Outcome::Panic(p) => self.panicked("query-panic", "reading", &p),
			Outcome::Injected => return,
		};
		let at = self.at();
		let bad = |what: &str, got: &dyn std::fmt::Debug, want: &dyn std::fmt::Debug| -> ! { violation("read", &format!("{}: {} of slot {} is {:?}, expected {:?}", at, what, s, got, want)) };
		for ((v, t, ih, oh, ha, tag, root), i) in per.iter().zip(ids) {
			let w = self.m.val(*i);
			if plain_quotes(v) != plain_quotes(&w) {
				bad("value()", v, &w);
			}
			if *t != self.m.text(*i) {
				bad("text_contents()", t, &self.m.text(*i));
			}
			if *ha != self.m.attr(*i, "data-x").is_some() {
				bad("has_attribute(Data-X)", ha, &!ha);
			}
			if !tag.eq_ignore_ascii_case(&self.m.n[*i].tag) {
				bad("tag_name()", tag, &self.m.n[*i].tag);
			}
			if !self.is_void(*i) && !oh.contains(ih.as_str()) {
				bad("inner_html()", ih, &format!("a part of {:?}", oh));
			}
			let o = self.m.n[*i].owner;
			let d = self.docs.values().find(|d| d.serial == o && o != 0);
			match (d, root) {
				(Some(d), Some(r)) if r.is(&d.real.get_ref()[0]) => {}
				(None, _) => {}
				(Some(_), got) => bad("root_element()", &got.as_ref().map(key_of), &"the root of its document"),
			}
		}
		let v0 = per.first().map(|p| p.0.clone()).unwrap_or_default();
		if val != v0 {
			bad("val()", &val, &v0);
		}
		let join = |f: fn(&(String, String, String, String, bool, String, Option<El>)) -> &String| per.iter().map(|p| f(p).as_str()).collect::<String>();
		let h0 = per.first().map(|p| p.2.clone()).unwrap_or_default();
		let o0 = per.first().map(|p| p.3.clone()).unwrap_or_default();
		if html != h0 {
			bad("html()", &html, &h0);
		}
		if outer != o0 {
			bad("outer_html()", &outer, &o0);
		}
		if htmls != join(|p| &p.2) {
			bad("htmls()", &htmls, &join(|p| &p.2));
		}
		if outers != join(|p| &p.3) {
			bad("outer_htmls()", &outers, &join(|p| &p.3));
		}
		// the set's document is the first one any of its elements has
		let live = |i: &Id| {
			let o = self.m.n[*i].owner;
			self.docs.values().find(|d| d.serial == o && o != 0)
		};
		if ids.iter().all(|i| live(i).is_some()) {
			match (ids.first().and_then(live), &doc) {
				(None, None) => {}
				(Some(d), Some(g)) => {
					if !g.root.as_ref().is_some_and(|r| r.is(&d.real.get_ref()[0])) {
						bad("document()", &"another document", &"the document of its first element");
					}
					let whole = match call(|| d.real.outer_html()) {
						Outcome::Ok(t) => t,
						_ => String::new(),
					};
					if g.source != whole {
						bad("document().source_code()", &g.source, &whole);
					}
					if g.handler != (d.handler != HandlerKind::None) {
						bad("document().onerror()", &g.handler, &!g.handler);
					}
					let t = |s: &str| -> Sel { vec![vec![(Comb::Desc, vec![Simple::Tag(s.into())])]] };
					let first = |s: &str| self.m.find(&[d.root], &t(s)).first().copied();
					let key = |i: Option<Id>| i.map(|i| self.m.n[i].key);
					let title = first("head").and_then(|h| {
						let l = self.m.find(&[h], &t("title"));
						if l.is_empty() {
							None
						} else {
							Some(l.iter().map(|i| self.m.text(*i)).collect::<String>())
						}
					});
					if g.title != title {
						bad("document().title()", &g.title, &title);
					}
					for (n, got, want) in [("head", g.head, key(first("head"))), ("body", g.body, key(first("body"))), ("document_element", g.html, key(first("html")))] {
						if got != want {
							bad(&format!("document().{}()", n), &got, &want);
						}
					}
				}
				(w, g) => bad("document()", &g.is_some(), &w.is_some()),
			}
		}
	}

	/// a whole document as a set of one: it can be written out however many elements are on top
	fn read_docs(&mut self) {
		let list: Vec<(u8, Els, Id)> = self.docs.iter().map(|(d, s)| (*d, handles(&s.real), s.root)).collect();
		for (d, real, root) in list {
			let r = call(|| (real.html(), real.htmls(), real.outer_html(), real.children("").htmls(), real.text(), real.texts(0).length()));
			let (h, hh, oh, ch, _, n) = match r {
				Outcome::Ok(x) => x,
				Outcome::Panic(p) => self.panicked("query-panic", "reading a document", &p),
				Outcome::Injected => return,
			};
			let tops = self.m.n[root].ch.iter().filter(|i| self.m.is_e(**i)).count();
			// with one element on top its content is meant, otherwise everything
			let want = if tops == 1 { &ch } else { &oh };
			if h != *want || hh != *want {
				violation("read", &format!("{}: html() of document {} is {:?}, expected {:?}", self.at(), d, h, want));
			}
			let mut list = vec![];
			self.m.texts(root, 0, 0, &mut list);
			if n != list.len() {
				violation("read", &format!("{}: document {} has {} texts, expected {}", self.at(), d, n, list.len()));
			}
			hs(&mut self.h, &h);
		}
	}

	/* ------------------------------------------------ copies */
	/// a copy of a whole document has all of it and is one of its own
	fn copy_doc(&mut self, d: u8) {
		let (real, root) = match self.docs.get(&d) {
			Some(s) => (handles(&s.real), s.root),
			None => return,
		};
		count(C_COPY, 1);
		flag(F_COPY);
		#[allow(clippy::redundant_clone)]
		let c = match call(|| real.clone()) {
			Outcome::Ok(c) => c,
			Outcome::Panic(p) => self.panicked("copy-panic", "clone() of a document", &p),
			Outcome::Injected => return,
		};
		let at = format!("{}, copy of document {}", self.at(), d);
		if c.length() != 1 || !c.get_ref()[0].is_root_element() {
			violation("copy", &format!("{}: is not one document", at));
		}
		let e = c.get_ref()[0].cloned();
		let mut n = 0;
		integrity(&e, &at, &mut n);
		let mut got = real_tree(&e);
		let mut want = self.m.tree(root, false);
		norm_attrs(&mut got);
		norm_attrs(&mut want);
		if got != want {
			violation("copy", &format!("{}: differs, {}", at, first_diff(&got, &want, "")));
		}
		let mut all = vec![];
		self.m.desc(root, &mut all);
		let total = all.iter().filter(|i| self.m.is_e(**i)).count();
		// it is searched and changed by itself: nothing of it reaches the original
		let r = call(|| {
			let mut f = c.find("*");
			let home = f.get_ref().iter().all(|x| real_top(x).is(&e));
			let n = f.length();
			f.add_class("copied");
			f.set_attr("data-copy", Some("1"));
			for x in f.texts(0).get_mut_ref() {
				x.append_text("copied");
			}
			f.eq(0).remove();
			(n, home, c.outer_html() == c.outer_htmls())
		});
		match r {
			Outcome::Ok((n, home, same)) => {
				if n != total || !home || !same {
					violation("copy", &format!("{}: find(*) answers {} elements{}, expected {}", at, n, if home { "" } else { " of another tree" }, total));
				}
			}
			Outcome::Panic(p) => self.panicked("copy-panic", "using the copy of a document", &p),
			Outcome::Injected => return,
		}
		if let Outcome::Panic(p) = call(move || drop((c, e))) {
			self.panicked("drop-panic", "dropping the copy of a document", &p)
		}
		self.check_all();
	}
	fn rekey(&mut self, real: &El, id: Id) {
		let mut rv = vec![real.cloned()];
		real_elems(real, &mut rv);
		let mut iv = vec![id];
		self.m.desc(id, &mut iv);
		if rv.len() != iv.len() {
			violation("copy", &format!("{}: a copy has {} elements, its original {}", self.at(), rv.len(), iv.len()));
		}
		for (r, i) in rv.into_iter().zip(iv) {
			if key_of(&r) != self.m.n[i].key {
				violation("copy", &format!("{}: a copied element has key {}, its original {}", self.at(), key_of(&r), self.m.n[i].key));
			}
			let k = self.fresh();
			let mut r = r;
			r.set_attribute("k", Some(&k.to_string()));
			if self.m.n[i].key > 0 {
				self.m.n[i].key = k;
				self.m.set_attr(i, "k", Some(&k.to_string()));
			}
		}
	}
	/// keeps histories of copies of copies from growing without bound
	/// How much work a query may be: nested `:has` and `:not` search the tree again for every
	/// element.
	fn cost(&self, ids: &[Id], q: &Q) -> f64 {
		fn sel(s: &Sel, n: f64) -> f64 {
			s.iter().flatten().map(|(_, c)| 1.0 + c.iter().map(|x| match x {
				Simple::Has(s) | Simple::Not(s) => n * sel(s, n),
				_ => 0.0,
			}).sum::<f64>()).sum()
		}
		let n = self.near(ids);
		let mut sum = 0.0;
		q_sels(q, &mut |s| sum += n * sel(s, n));
		sum * self.deep(ids)
	}
	/// Bringing elements in order takes longer the deeper they are.
	fn deep(&self, ids: &[Id]) -> f64 {
		let mut max = 0usize;
		let mut work: Vec<(Id, usize)> = ids.iter().map(|i| (self.m.top(*i), 0)).collect();
		work.sort();
		work.dedup();
		while let Some((i, d)) = work.pop() {
			max = max.max(d);
			work.extend(self.m.n[i].ch.iter().map(|c| (*c, d + 1)));
		}
		(max as f64 / 8.0).max(1.0).powi(2)
	}
	/// how many nodes the trees of a set have
	fn near(&self, ids: &[Id]) -> f64 {
		let mut roots: Vec<Id> = ids.iter().map(|i| self.m.top(*i)).collect();
		roots.sort();
		roots.dedup();
		let mut all = vec![];
		roots.iter().for_each(|r| self.m.desc(*r, &mut all));
		1.0 + all.len() as f64
	}
	fn too_big(&self, ids: &[Id]) -> bool {
		let mut v = vec![];
		for i in ids {
			v.push(*i);
			self.m.desc(*i, &mut v);
		}
		v.len() > 250 || self.m.n.len() + v.len() > 1500
	}
	fn copy_of(&mut self, real: &Els, ids: &[Id]) -> (Els, Vec<Id>) {
		count(C_COPY, 1);
		flag(F_COPY);
		self.note_set(ids);
		#[allow(clippy::redundant_clone)]
		let c = match call(|| real.clone()) {
			Outcome::Ok(c) => c,
			Outcome::Panic(p) => self.panicked("copy-panic", "clone()", &p),
			Outcome::Injected => return (Elements::new(), vec![]),
		};
		if c.length() != ids.len() {
			violation("copy", &format!("{}: a copy of {} elements has {}", self.at(), ids.len(), c.length()));
		}
		let mut out = vec![];
		for (x, i) in c.get_ref().iter().zip(ids) {
			let j = self.m.copy(*i);
			if x.parent().is_some() {
				violation("copy", &format!("{}: the copy of element {} has a parent", self.at(), self.m.n[*i].key));
			}
			self.rekey(x, j);
			let mut got = vec![real_tree1(x)];
			let mut want = vec![self.m.tree1(j, false)];
			norm_attrs(&mut got);
			norm_attrs(&mut want);
			if got != want {
				violation("copy", &format!("{}: a copy differs from its original, {}", self.at(), first_diff(&got, &want, "")));
			}
			out.push(j);
		}
		// a copy of a text or a comment is as independent
		for (x, i) in real.get_ref().iter().zip(ids).take(2) {
			if self.m.is_e(*i) && self.is_raw(*i) {
				continue;
			}
			if let Some(t) = x.child_nodes().into_iter().find(|n| matches!(n.node_type(), INodeType::Text | INodeType::Comment)) {
				let r = call(|| {
					let mut c = t.copy_node();
					let same = c.text_content() == t.text_content() && c.text_chars() == t.text_chars() && std::mem::discriminant(&c.node_type()) == std::mem::discriminant(&t.node_type());
					let free = c.parent().is_none();
					if matches!(c.node_type(), INodeType::Text) {
						c.set_text("changed");
					}
					(same, free)
				});
				match r {
					Outcome::Ok((true, true)) => {}
					Outcome::Ok((same, _)) => violation("copy", &format!("{}: the copy of a text of element {} {}", self.at(), self.m.n[*i].key, if same { "has a parent" } else { "differs from the text" })),
					Outcome::Panic(p) => self.panicked("copy-panic", "copy_node()", &p),
					Outcome::Injected => {}
				}
			}
		}
		self.pin_all(&c);
		(c, out)
	}

	/* ------------------------------------------------ mutations */
	fn tag(&self, i: Id) -> &str {
		&self.m.n[i].tag
	}
	fn is_raw(&self, i: Id) -> bool {
		RAW.contains(&self.tag(i))
	}
	fn is_code(&self, i: Id) -> bool {
		["script", "style"].contains(&self.tag(i))
	}
	fn is_void(&self, i: Id) -> bool {
		VOID.contains(&self.tag(i))
	}
	/// children allowed below `t`
	fn allowed(&self, t: Id, n: Id) -> bool {
		if self.is_void(t) {
			return false;
		}
		if ["title", "textarea"].contains(&self.tag(t)) {
			return self.m.n[n].kind == Kind::T;
		}
		true
	}
	/// returns false when the real call must have panicked out of an error handler
	fn m_insert_adjacent(&mut self, t: Id, pos: Pos, n: Id) -> bool {
		let bad = !self.m.is_e(t) || n == t || self.m.is_anc(n, t);
		if bad {
			count(C_REFUSED, 1);
			return self.expect_error(Some(t)) != HandlerKind::Panic;
		}
		let child = matches!(pos, Pos::Append | Pos::Prepend);
		if !child && self.m.n[t].parent.is_none() {
			return true;
		}
		let nodes: Vec<Id> = if self.m.n[n].kind == Kind::Root {
			let (a, _): (Vec<Id>, Vec<Id>) = self.m.n[n].ch.clone().into_iter().partition(|c| !child || self.allowed(t, *c));
			a
		} else {
			if child && !self.allowed(t, n) {
				return true;
			}
			if self.m.n[n].owner != self.m.n[t].owner {
				count(C_CROSSDOC, 1);
			}
			vec![n]
		};
		if nodes.is_empty() {
			return true;
		}
		for x in &nodes {
			self.m.detach(*x);
			let o = self.m.n[t].owner;
			self.m.set_owner(*x, o);
		}
		let (p, at) = match pos {
			Pos::Append => (t, self.m.n[t].ch.len()),
			Pos::Prepend => (t, 0),
			Pos::Before | Pos::Replace => (self.m.n[t].parent.unwrap(), self.m.pos(t)),
			Pos::After => (self.m.n[t].parent.unwrap(), self.m.pos(t) + 1),
		};
		for (k, x) in nodes.iter().enumerate() {
			self.m.insert_at(p, at + k, *x);
		}
		if pos == Pos::Replace {
			self.m.detach(t);
		}
		true
	}
	fn m_insert(&mut self, targets: &[Id], pos: Pos, srcs: &[Id], copies: &mut Vec<(usize, Id)>) {
		let total = targets.len();
		let mut cur: Vec<Id> = targets.to_vec();
		for ti in 0..total {
			let t = cur[ti];
			let mut nodes = vec![];
			for s in srcs {
				if ti + 1 < total && self.m.n[*s].kind == Kind::Root {
					let c = self.m.copy(*s);
					count(C_FRAGCOPY, 1);
					for x in self.m.n[c].ch.clone() {
						copies.push((ti, x));
					}
					nodes.push(c);
				} else {
					nodes.push(*s);
				}
			}
			match pos {
				Pos::Append | Pos::Before => {
					for n in nodes {
						if !self.m_insert_adjacent(t, pos, n) {
							return;
						}
					}
				}
				Pos::Prepend | Pos::After => {
					for n in nodes.into_iter().rev() {
						if !self.m_insert_adjacent(t, pos, n) {
							return;
						}
					}
				}
				Pos::Replace => {
					if nodes.is_empty() {
						continue;
					}
					for n in nodes[1..].iter().rev() {
						if !self.m_insert_adjacent(t, Pos::After, *n) {
							return;
						}
					}
					if !self.m_insert_adjacent(t, Pos::Replace, nodes[0]) {
						return;
					}
				}
			}
		}
	}
	fn parse_frag(&mut self, t: &[Tree]) -> Option<(Els, Id)> {
		let text = html(t);
		match call(move || Vis::load(text).map_err(|e| e.to_string())) {
			Outcome::Ok(Ok(e)) => {
				let r = self.m.build_root(t);
				self.pin_all(&e);
				Some((e, r))
			}
			Outcome::Ok(Err(e)) => violation("load", &format!("{}: well-formed html was refused: {}", self.at(), e)),
			Outcome::Panic(p) => self.panicked("load-panic", "parsing a fragment", &p),
			Outcome::Injected => None,
		}
	}
	fn do_insert(real: &mut Els, pos: Pos, src: &mut Els, flip: bool) {
		match (pos, flip) {
			(Pos::Append, false) => drop(real.append(src)),
			(Pos::Append, true) => drop(src.append_to(real)),
			(Pos::Prepend, false) => drop(real.prepend(src)),
			(Pos::Prepend, true) => drop(src.prepend_to(real)),
			(Pos::Before, false) => drop(real.before(src)),
			(Pos::Before, true) => drop(src.insert_before(real)),
			(Pos::After, false) => drop(real.after(src)),
			(Pos::After, true) => drop(src.insert_after(real)),
			(Pos::Replace, _) => drop(real.replace_with(src)),
		}
	}
	fn frag_keyed(&mut self, t: &[Tree]) -> Vec<Tree> {
		fn go(c: &mut Ctx, t: &[Tree]) -> Vec<Tree> {
			t.iter()
				.map(|x| match x {
					Tree::E(a, _, b, ch) => {
						let k = c.fresh();
						Tree::E(a.clone(), k, b.clone(), go(c, ch))
					}
					x => x.clone(),
				})
				.collect()
		}
		go(self, t)
	}
	fn mutate(&mut self, s: u8, mu: &M) {
		let (mut real, ids) = match self.src(Src::Slot(s)) {
			Some(x) => x,
			None => return,
		};
		if ids.is_empty() && !matches!(mu, M::Insert(..)) {
			// nothing to do must stay nothing
		}
		self.note_set(&ids);
		count(C_MUTATE, 1);
		let before = keys_of(&real);
		let mut keeps_set = true;
		let mut name = String::new();
		let mut pinned: Option<Els> = None;
		let mut outcome: Outcome<()> = Outcome::Ok(());
		match mu {
			M::SetAttr(n, v) => {
				name = format!("set_attr({:?},{:?})", n, v);
				outcome = call(|| drop(real.set_attr(n, v.as_deref())));
				for i in &ids {
					self.m.set_attr(*i, n, v.as_deref());
				}
			}
			M::RemoveAttr(n) => {
				name = format!("remove_attr({:?})", n);
				outcome = call(|| drop(real.remove_attr(n)));
				for i in &ids {
					self.m.remove_attr(*i, n);
				}
			}
			M::AddClass(n) | M::RemoveClass(n) | M::ToggleClass(n) => {
				let op = match mu {
					M::AddClass(_) => '+',
					M::RemoveClass(_) => '-',
					_ => '!',
				};
				name = format!("class {}{:?}", op, n);
				outcome = call(|| match op {
					'+' => drop(real.add_class(n)),
					'-' => drop(real.remove_class(n)),
					_ => drop(real.toggle_class(n)),
				});
				for i in &ids {
					self.m.class_op(*i, op, n);
				}
			}
			M::SetText(t) => {
				if ids.iter().any(|i| self.is_void(*i) || (self.is_raw(*i) && (t.contains("</") || !self.is_code(*i) && t.contains(['<', '&', '>'])))) {
					count(C_SKIP, 1);
					return;
				}
				name = format!("set_text({:?})", t);
				outcome = call(|| drop(real.set_text(t)));
				for i in &ids {
					self.m_set_text(*i, t);
				}
			}
			M::Empty => {
				name = "empty()".into();
				outcome = call(|| drop(real.empty()));
				for i in &ids {
					self.m.clear(*i);
				}
			}
			M::SetHtml(t) => {
				self.work += 100 * ids.len() as u64;
				if self.m.n.len() + ids.len() * size(t) > 1500 {
					return;
				}
				let plain = t.iter().all(|x| matches!(x, Tree::T(s) if !s.contains(['<', '&', '>'])));
				if ids.iter().any(|i| self.is_raw(*i)) && !plain {
					count(C_SKIP, 1);
					return;
				}
				// each target gets elements of its own: one key per target cannot be
				// told apart before it is set, so several targets are rekeyed after
				let t = self.frag_keyed(t);
				let h = html(&t);
				name = format!("set_html({:?})", h);
				outcome = call(|| drop(real.set_html(&h)));
				let mut fresh = vec![];
				for (n, i) in ids.iter().enumerate() {
					self.m_set_html(*i, &t);
					if self.m.n[*i].ch.is_empty() {
						continue;
					}
					// a later target inside an earlier one's old content is fine: it is detached
					fresh.push((n, *i));
				}
				if let Outcome::Ok(()) = outcome {
					if fresh.len() > 1 {
						for (n, i) in fresh {
							let e = real.get_ref()[n].cloned();
							let kids: Vec<Id> = self.m.n[i].ch.clone();
							self.rekey_children(&e, i, &kids, "set_html");
						}
					}
					pinned = Some(handles(&real));
				}
			}
			M::Remove => {
				name = "remove()".into();
				let r = handles(&real);
				outcome = call(move || r.remove());
				for i in &ids {
					self.m.detach(*i);
				}
			}
			M::Insert(pos, what, flip) => {
				let child = matches!(pos, Pos::Append | Pos::Prepend);
				let frag_text = matches!(what, What::Frag(_));
				if child && ids.iter().any(|i| ["script", "style"].contains(&self.tag(*i)) || (self.is_raw(*i) && frag_text)) {
					count(C_SKIP, 1);
					return;
				}
				let (mut sr, si) = match what {
					What::Slot(o) => match self.src(Src::Slot(*o)) {
						Some(x) => x,
						None => return,
					},
					What::Frag(t) if self.m.n.len() + ids.len() * size(t) > 1500 => return,
					What::Frag(t) => {
						let t = self.frag_keyed(t);
						match self.parse_frag(&t) {
							Some((e, r)) => (e, vec![r]),
							None => return,
						}
					}
					What::CopyOf(o) => match self.src(Src::Slot(*o)) {
						Some((_, i)) if self.too_big(&i) => return,
						Some((r, i)) => self.copy_of(&r, &i),
						None => return,
					},
				};
				self.work += 20 * (ids.len() * si.len().max(5)) as u64;
				if self.work > 300_000 {
					return;
				}
				name = format!("{:?} of {}{}", pos, match what {
					What::Slot(o) => format!("slot {}", o),
					What::Frag(_) => "a fragment".into(),
					What::CopyOf(o) => format!("a copy of slot {}", o),
				}, if *flip { " (called on the inserted set)" } else { "" });
				let anchors: Vec<Option<El>> = real
					.get_ref()
					.iter()
					.map(|e| if child { Some(e.cloned()) } else { e.parent() })
					.collect();
				let keep = handles(&real);
				let src_before = keys_of(&sr);
				outcome = call(|| Ctx::do_insert(&mut real, *pos, &mut sr, *flip));
				// the receiver of replace_with becomes what it was replaced with
				keeps_set = *pos != Pos::Replace;
				self.same_handles(&name, &sr, &src_before);
				let mut copies = vec![];
				self.m_insert(&ids, *pos, &si, &mut copies);
				if matches!(outcome, Outcome::Ok(())) {
					for (ti, id) in copies {
						let p = match self.m.n[id].parent {
							Some(p) if self.m.n[p].kind != Kind::Root || self.docs.values().any(|d| d.root == p) => p,
							_ => continue,
						};
						if !self.m.is_e(id) {
							continue;
						}
						let at = self.m.pos(id);
						let a = match &anchors[ti] {
							Some(a) => a.cloned(),
							None => continue,
						};
						let _ = p;
						match a.child_nodes_item(at).and_then(elem_if) {
							Some(e) => {
								self.rekey(&e, id);
								self.pin_all(&one(&e));
							}
							None => violation("tree", &format!("{}: after {} the node at index {} is missing", self.at(), name, at)),
						}
					}
				}
				pinned = Some(sr);
				drop(keep);
			}
			M::Low(op) => {
				if ids.is_empty() {
					return;
				}
				let i = ids[0];
				let e = &mut real.get_ref()[0].cloned();
				match op {
					LowOp::SetAttr(n, v) => {
						name = format!("set_attribute({:?},{:?})", n, v);
						outcome = call(|| e.set_attribute(n, v.as_deref()));
						self.m.set_attr(i, n, v.as_deref());
					}
					LowOp::RemoveAttr(n) => {
						name = format!("remove_attribute({:?})", n);
						outcome = call(|| e.remove_attribute(n));
						self.m.remove_attr(i, n);
					}
					LowOp::RemoveChild(k) => {
						let kids = self.m.kids(i);
						let (t, x) = if *k == 3 || kids.is_empty() {
							// no child of it: nothing happens
							(None, e.parent().unwrap_or_else(|| e.cloned()))
						} else {
							let t = kids[*k as usize % kids.len()];
							match e.child_nodes_item(self.m.pos(t)).and_then(elem_if) {
								Some(x) => (Some(t), x),
								None => violation("tree", &format!("{}: the child at index {} of element {} is missing", self.at(), self.m.pos(t), self.m.n[i].key)),
							}
						};
						name = "remove_child()".into();
						outcome = call(|| e.remove_child(x));
						if let Some(t) = t {
							self.m.detach(t);
						}
					}
					LowOp::Replace(o, k) => {
						let (or, oi) = match self.src(Src::Slot(*o)) {
							Some((r, i)) if !i.is_empty() => (r, i),
							_ => return,
						};
						let k = *k as usize % oi.len();
						name = format!("replace_with(element {})", self.m.n[oi[k]].key);
						outcome = call(|| e.replace_with(&or.get_ref()[k]));
						self.m_insert_adjacent(i, Pos::Replace, oi[k]);
					}
				}
			}
			M::Text(_, TextEdit::RemoveAll(limit)) => {
				name = format!("texts({}).remove()", limit);
				let mut list = vec![];
				for i in &ids {
					self.m.texts(*i, 0, *limit as usize, &mut list);
				}
				outcome = call(|| real.texts(*limit as usize).remove());
				for (_, t) in list {
					self.m.detach(t);
				}
			}
			M::Text(_, TextEdit::AppendAll(t, limit)) => {
				name = format!("append_text({:?}) of texts({})", t, limit);
				let mut list = vec![];
				for i in &ids {
					self.m.texts(*i, 0, *limit as usize, &mut list);
				}
				outcome = call(|| {
					real.texts(*limit as usize).for_each(|_, x| {
						x.append_text(t);
						true
					});
				});
				for (_, x) in list {
					self.m.n[x].text.push_str(t);
				}
			}
			M::Text(ix, ed) => {
				let (n, o) = match self.text_edit(&real, &ids, *ix, ed) {
					Some(x) => x,
					None => return,
				};
				name = n;
				outcome = o;
				pinned = Some(handles(&real.first()));
			}
		}
		match outcome {
			Outcome::Panic(p) => self.panicked("mutate-panic", &name, &p),
			Outcome::Injected => self.faulted = true,
			Outcome::Ok(()) => {}
		}
		if let Some(p) = pinned {
			self.pin_all(&p);
		}
		if keeps_set {
			self.same_handles(&name, &real, &before);
		}
		// handles the call itself held are gone now
		let _ = call(move || drop(real));
		self.collect();
		self.check_handlers(&name);
		self.check_all_named(&name);
	}
	fn check_all_named(&mut self, _name: &str) {
		self.check_all();
	}
	fn rekey_children(&mut self, e: &El, i: Id, kids: &[Id], what: &str) {
		let nodes = e.child_nodes();
		if nodes.len() != kids.len() {
			violation("tree", &format!("{}: after {} element {} has {} child nodes, expected {}", self.at(), what, self.m.n[i].key, nodes.len(), kids.len()));
		}
		for (c, k) in nodes.into_iter().zip(kids) {
			if self.m.is_e(*k) {
				match elem_if(c) {
					Some(x) => self.rekey(&x, *k),
					None => violation("tree", &format!("{}: after {} a child node of element {} is no element", self.at(), what, self.m.n[i].key)),
				}
			}
		}
	}
	fn m_set_text(&mut self, i: Id, t: &str) {
		if self.is_raw(i) {
			self.m.n[i].text = t.to_string();
			return;
		}
		self.m.clear(i);
		if !t.is_empty() {
			let x = self.m.add(Kind::T);
			self.m.n[x].text = t.to_string();
			self.m.n[x].owner = self.m.n[i].owner;
			self.m.insert_at(i, 0, x);
		}
	}
	fn m_set_html(&mut self, i: Id, t: &[Tree]) {
		if self.is_raw(i) {
			self.m.n[i].text = html(t);
			return;
		}
		self.m.clear(i);
		for x in t {
			let c = self.m.build(x);
			if self.allowed(i, c) {
				let o = self.m.n[i].owner;
				self.m.set_owner(c, o);
				let at = self.m.n[i].ch.len();
				self.m.insert_at(i, at, c);
			}
		}
	}
	fn text_edit(&mut self, real: &Els, ids: &[Id], ix: u8, ed: &TextEdit) -> Option<(String, Outcome<()>)> {
		if ids.is_empty() {
			return None;
		}
		let mut list = vec![];
		self.m.texts(ids[0], 0, 0, &mut list);
		let first = real.first();
		let got = match call(|| first.texts(0)) {
			Outcome::Ok(t) => t,
			Outcome::Panic(p) => self.panicked("query-panic", "texts(0)", &p),
			Outcome::Injected => return None,
		};
		let g: Vec<String> = got.get_ref().iter().map(|t| t.text_content()).collect();
		let w: Vec<String> = list.iter().map(|(_, i)| self.m.text(*i)).collect();
		if g != w {
			violation("query", &format!("{}: texts(0) of element {} are {:?}, expected {:?}", self.at(), self.m.n[ids[0]].key, g, w));
		}
		if list.is_empty() {
			return None;
		}
		let ix = ix as usize % list.len();
		let t = list[ix].1;
		let mut got = got;
		let mut x = Some(got.get_mut_ref().remove(ix));
		self.edit_one(&mut x, t, ed)
	}
	fn edit_one(&mut self, x: &mut Option<Txt>, t: Id, ed: &TextEdit) -> Option<(String, Outcome<()>)> {
		let is_el = self.m.is_e(t);
		match ed {
			TextEdit::RemoveAll(_) | TextEdit::AppendAll(..) => None,
			TextEdit::Append(s) => {
				let o = call(|| x.as_mut().unwrap().append_text(s));
				self.m.n[t].text.push_str(s);
				Some((format!("append_text({:?})", s), o))
			}
			TextEdit::Prepend(s) => {
				let o = call(|| x.as_mut().unwrap().prepend_text(s));
				self.m.n[t].text.insert_str(0, s);
				Some((format!("prepend_text({:?})", s), o))
			}
			TextEdit::Set(s) => {
				let o = call(|| x.as_mut().unwrap().set_text(s));
				if s.is_empty() && !is_el {
					count(C_REFUSED, 1);
					self.expect_error(Some(t));
				} else {
					self.m.n[t].text = s.clone();
				}
				Some((format!("set_text({:?}) of a text", s), o))
			}
			TextEdit::SetHtml(tr) => {
				let plain = tr.iter().all(|x| matches!(x, Tree::T(s) if !s.contains(['<', '&', '>'])));
				if is_el && !plain {
					count(C_SKIP, 1);
					return None;
				}
				let tr = self.frag_keyed(tr);
				let h = html(&tr);
				let o = call(|| x.as_mut().unwrap().set_html(&h));
				if is_el {
					self.m.n[t].text = h.clone();
				} else if let Some(p) = self.m.n[t].parent {
					let at = self.m.pos(t);
					self.m.detach(t);
					let mut k = 0;
					for y in &tr {
						let c = self.m.build(y);
						if !self.m.is_e(p) || self.allowed(p, c) {
							let ow = self.m.n[p].owner;
							self.m.set_owner(c, ow);
							self.m.insert_at(p, at + k, c);
							k += 1;
						}
					}
				}
				Some((format!("set_html({:?}) of a text", h), o))
			}
			TextEdit::Remove => {
				let x = x.take().unwrap();
				let o = call(move || x.remove());
				self.m.detach(t);
				Some(("remove() of a text".into(), o))
			}
		}
	}

	/* ------------------------------------------------ callbacks */
	fn callback(&mut self, s: u8, kind: CbKind, body: &[Op], stop_at: u8, panic_at: Option<u8>, limit: u8) {
		let (mut real, ids) = match self.src(Src::Slot(s)) {
			Some(x) => x,
			None => return,
		};
		if self.depth > 1 {
			return;
		}
		let outer = self.depth == 0;
		if kind == CbKind::ChildrenBy && ids.is_empty() {
			return;
		}
		let is_text = matches!(kind, CbKind::Texts | CbKind::TextsEach | CbKind::TextsFilter | CbKind::TextsBy | CbKind::TextsByRec);
		let limit = limit as usize;
		let rec = |k: u32| k % 4 != 1;
		self.note_set(&ids);
		let set_keys: Vec<u32> = ids.iter().map(|i| self.m.n[*i].key).collect();
		// with a limit: the children from that child node on, in one of the directions
		let since = ((limit as usize).min(self.m.n.get(*ids.first().unwrap_or(&0)).map_or(0, |n| n.ch.len()))).checked_sub(1);
		let back = stop_at % 2 == 1;
		let keys: Vec<u32> = if kind == CbKind::ChildrenBy {
			let ch = &self.m.n[ids[0]].ch;
			let mut v: Vec<Id> = match since {
				None => ch.clone(),
				Some(at) if back => ch[..=at].iter().rev().cloned().collect(),
				Some(at) => ch[at..].to_vec(),
			};
			v.retain(|i| self.m.is_e(*i));
			v.iter().map(|i| self.m.n[*i].key).collect()
		} else {
			set_keys.clone()
		};
		// the texts as they are now; with changes made on the way, which texts the rest of the
		// walk sees and what they say is open
		let mut tl: Vec<(usize, Id)> = vec![];
		for i in &ids {
			self.m.texts_rec(*i, 0, limit, &|k| kind != CbKind::TextsByRec || rec(k), &mut tl);
		}
		let texts: Vec<(usize, String)> = tl.iter().map(|(d, i)| (*d, self.m.text(*i))).collect();
		let seen: Rc<RefCell<Vec<(usize, u32, String)>>> = Rc::new(RefCell::new(vec![]));
		let open = (is_text || kind == CbKind::ChildrenBy) && body.iter().any(changes);
		let body: Rc<Vec<Op>> = Rc::new(body.to_vec());
		let me: *mut Ctx = self;
		let step = {
			let seen = seen.clone();
			let body = body.clone();
			// runs in the middle of a library call
			Rc::new(move |ix: usize, key: u32, text: String| {
				user(|| {
					let c = unsafe { &mut *me };
					count(C_CALLBACK, 1);
					let n = seen.borrow().len();
					seen.borrow_mut().push((ix, key, text));
					c.depth += 1;
					let d0 = c.depth;
					let r = catch_unwind(AssertUnwindSafe(|| {
						for o in body.iter() {
							// a callback in a callback: from the first few calls only
							let most = match o {
								Op::Callback { .. } | Op::Load { .. } if outer => 3,
								_ if open => 12,
								_ => usize::MAX,
							};
							if n < most {
								c.op(o);
							}
						}
					}));
					c.depth = d0 - 1;
					if let Err(p) = r {
						resume_unwind(p);
					}
					if panic_at == Some(n as u8) {
						count(C_CBPANIC, 1);
						c.faulted = true;
						flag(F_FAULT | F_CBPANIC);
						resume_unwind(Box::new(Injected::Op));
					}
				})
			})
		};
		let pred = |k: u32| !k.is_multiple_of(3);
		let stop = stop_at as usize;
		enum Res {
			Unit,
			Set(Els),
			B(bool),
			N(usize),
			T(Vec<String>),
		}
		let st = step.clone();
		let tx: RefCell<Option<visdom::types::Texts>> = RefCell::new(None);
		let out = call(|| match kind {
			CbKind::ForEach => {
				real.for_each(|ix, e| {
					st(ix, key_of2(e), String::new());
					ix != stop
				});
				Res::Unit
			}
			CbKind::Each => {
				real.each(|ix, e| {
					st(ix, key_of2(e), String::new());
					ix != stop
				});
				Res::Unit
			}
			CbKind::Map => {
				let v = real.map(|ix, e| {
					st(ix, key_of2(e), String::new());
					ix
				});
				Res::N(v.len())
			}
			CbKind::FilterBy => Res::Set(real.filter_by(|ix, e| {
				let k = key_of2(e);
				st(ix, k, String::new());
				pred(k)
			})),
			CbKind::NotBy => Res::Set(real.not_by(|ix, e| {
				let k = key_of2(e);
				st(ix, k, String::new());
				pred(k)
			})),
			CbKind::IsBy => Res::B(real.is_by(|ix, e| {
				let k = key_of2(e);
				st(ix, k, String::new());
				!pred(k)
			})),
			CbKind::IsAllBy => Res::B(real.is_all_by(|ix, e| {
				let k = key_of2(e);
				st(ix, k, String::new());
				pred(k)
			})),
			CbKind::Texts => {
				*tx.borrow_mut() = Some(real.texts(limit));
				let mut t = tx.borrow_mut();
				t.as_mut().unwrap().for_each(|ix, t| {
					st(ix, 0, user(|| t.text_content()));
					ix != stop
				});
				Res::Unit
			}
			CbKind::TextsEach => {
				*tx.borrow_mut() = Some(real.texts(limit));
				let mut t = tx.borrow_mut();
				t.as_mut().unwrap().each(|ix, t| {
					st(ix, 0, user(|| t.text_content()));
					ix != stop
				});
				Res::Unit
			}
			CbKind::TextsFilter => {
				*tx.borrow_mut() = Some(real.texts(limit));
				let all = tx.borrow();
				let t = all.as_ref().unwrap().filter_by(|ix, t| {
					let s = user(|| t.text_content());
					let keep = s.len() % 2 == 0;
					st(ix, 0, s);
					keep
				});
				Res::T(t.get_ref().iter().map(|t| t.text_content()).collect())
			}
			CbKind::TextsBy => {
				let st2 = st.clone();
				let t = real.texts_by(
					limit,
					Box::new(move |d, t| {
						let s = user(|| t.text_content());
						let keep = s.len() % 2 == 0;
						st2(d, 0, s);
						keep
					}),
				);
				Res::T(t.get_ref().iter().map(|t| t.text_content()).collect())
			}
			CbKind::ChildrenBy => {
				let (st2, mut ix) = (st.clone(), 0);
				let key = |a: Option<IAttrValue>| match a {
					Some(IAttrValue::Value(v, _)) => v.parse().unwrap_or(0),
					_ => 0,
				};
				let mut step = move |k: u32| {
					st2(ix, k, String::new());
					ix += 1;
					ix <= stop
				};
				match since {
					Some(at) => real.get_ref()[0].child_nodes_item_since_by(at, back, Box::new(move |e| step(user(|| key(e.get_attribute("k")))))),
					None => real.get_ref()[0].children_by(Box::new(move |e| {
						step(user(|| key(e.get_attribute("k"))));
					})),
				}
				Res::Unit
			}
			CbKind::TextsByRec => {
				let st2 = st.clone();
				let t = real.texts_by_rec(
					limit,
					Box::new(move |d, t| {
						let s = user(|| t.text_content());
						let keep = s.len() % 2 == 0;
						st2(d, 0, s);
						keep
					}),
					Box::new(move |e| rec(key_of2(e))),
				);
				Res::T(t.get_ref().iter().map(|t| t.text_content()).collect())
			}
		});
		let seen = seen.borrow().clone();
		for (a, b, c) in &seen {
			hn(&mut self.h, *a as u64);
			hn(&mut self.h, *b as u64);
			hs(&mut self.h, c);
		}
		// what the library must have called, in order
		let total = if is_text { texts.len() } else { keys.len() };
		let mut want_n = total;
		match kind {
			CbKind::ForEach | CbKind::Each | CbKind::Texts | CbKind::TextsEach => want_n = want_n.min(stop + 1),
			CbKind::ChildrenBy if since.is_some() => want_n = want_n.min(stop + 1),
			CbKind::IsBy => want_n = keys.iter().position(|k| !pred(*k)).map_or(total, |p| p + 1),
			CbKind::IsAllBy => want_n = keys.iter().position(|k| !pred(*k)).map_or(total, |p| p + 1),
			_ => {}
		}
		let injected = panic_at.is_some_and(|p| (p as usize) < want_n);
		let injected = if open { matches!(out, Outcome::Injected) } else { injected };
		if injected && !open {
			want_n = panic_at.unwrap() as usize + 1;
		}
		let name = format!("{:?} over slot {}", kind, s);
		// whatever happened in the callbacks: the set has what it had
		self.same_handles(&name, &real, &set_keys);
		if let Some(t) = tx.into_inner() {
			if t.length() != tl.len() {
				violation("callback", &format!("{}: {} left {} of its {} texts in the set", self.at(), name, t.length(), tl.len()));
			}
		}
		match &out {
			Outcome::Panic(p) => self.panicked("callback-panic", &name, p),
			Outcome::Injected => {
				if !injected {
					// an error handler inside the body may have panicked
					{
 self.faulted = true;
 flag(F_FAULT);
 }
					self.check_all();
					return;
				}
			}
			Outcome::Ok(_) => {
				if injected {
					violation("callback", &format!("{}: {} swallowed the panic of its callback", self.at(), name));
				}
			}
		}
		let want: Vec<(usize, u32, String)> = if is_text {
			(0..want_n).map(|i| (if matches!(kind, CbKind::Texts | CbKind::TextsEach | CbKind::TextsFilter) { i } else { texts[i].0 }, 0, texts[i].1.clone())).collect()
		} else {
			(0..want_n).map(|i| (i, keys[i], String::new())).collect()
		};
		if seen != want && !open {
			violation("callback", &format!("{}: {} called back with {:?}, expected {:?}", self.at(), name, seen, want));
		}
		if let Outcome::Ok(r) = out {
			match r {
				Res::Set(e) => {
					let w: Vec<Id> = ids.iter().zip(&keys).filter(|(_, k)| pred(**k) == (kind == CbKind::FilterBy)).map(|(i, _)| *i).collect();
					self.same_set(&name, &e, &w, true);
				}
				Res::B(b) => {
					let w = if kind == CbKind::IsBy { keys.iter().any(|k| !pred(*k)) } else { keys.iter().all(|k| pred(*k)) };
					if !keys.is_empty() {
						self.same_bool(&name, b, w);
					}
				}
				Res::N(n) => {
					if n != total {
						violation("callback", &format!("{}: {} returned {} values for {} elements", self.at(), name, n, total));
					}
				}
				Res::T(_) if open => {}
				Res::T(t) => {
					let w: Vec<String> = texts.iter().map(|x| x.1.clone()).filter(|s| s.len() % 2 == 0).collect();
					if t != w {
						violation("query", &format!("{}: {} answered {:?}, expected {:?}", self.at(), name, t, w));
					}
				}
				Res::Unit => {}
			}
		}
		self.check_handlers(&name);
		self.check_all();
	}

	/* ------------------------------------------------ faults */
	fn by_method(real: &Els, method: BadMethod, s: &str) -> (Vec<u32>, u32) {
		let set = |e: Els| (keys_of(&e), e.length() as u32);
		let b = |x: bool| (vec![], x as u32);
		match method {
			BadMethod::Find => set(real.find(s)),
			BadMethod::Filter => set(real.filter(s)),
			BadMethod::Not => set(real.not(s)),
			BadMethod::Is => b(real.is(s)),
			BadMethod::IsAll => b(real.is_all(s)),
			BadMethod::Has => set(real.has(s)),
			BadMethod::Children => set(real.children(s)),
			BadMethod::Parent => set(real.parent(s)),
			BadMethod::Parents => set(real.parents(s)),
			BadMethod::ParentsUntil => set(real.parents_until(s, "", false)),
			BadMethod::Closest => set(real.closest(s)),
			BadMethod::Next => set(real.next(s)),
			BadMethod::NextAll => set(real.next_all(s)),
			BadMethod::NextUntil => set(real.next_until(s, "", false)),
			BadMethod::Prev => set(real.prev(s)),
			BadMethod::PrevAll => set(real.prev_all(s)),
			BadMethod::PrevUntil => set(real.prev_until("b", s, false)),
			BadMethod::Siblings => set(real.siblings(s)),
			BadMethod::ParentsUntilF => set(real.parents_until("b", s, true)),
			BadMethod::NextUntilF => set(real.next_until("b", s, true)),
			BadMethod::PrevUntilF => set(real.prev_until("*", s, true)),
			BadMethod::ParentsUntilB => set(real.parents_until(s, s, false)),
			BadMethod::NextUntilB => set(real.next_until(s, s, false)),
			BadMethod::PrevUntilB => set(real.prev_until(s, s, false)),
			BadMethod::Trigger => {
				if let Some(d) = real.document() {
					d.trigger_error(s.into());
				}
				(vec![], 0)
			}
		}
	}
	fn bad(&mut self, src: Src, method: BadMethod, selector: &str) {
		let (real, ids) = match self.src(src) {
			Some(x) => x,
			None => return,
		};
		if ids.iter().any(|i| self.m.n[*i].owner != self.m.n[ids[0]].owner) {
			// elements of several documents: which of them is told is open
			return;
		}
		count(C_BADSEL, 1);
		let kind = self.expect_error(ids.first().copied());
		let r = call(|| Ctx::by_method(&real, method, selector));
		{
 self.faulted = true;
 flag(F_FAULT);
 }
		let name = format!("{:?}({:?})", method, selector);
		match r {
			Outcome::Ok((k, n)) => {
				if kind == HandlerKind::Panic {
					violation("handler", &format!("{}: the panic of the error handler did not come out of {}", self.at(), name));
				}
				if !k.is_empty() || n != 0 {
					violation("handler", &format!("{}: the invalid selector of {} matched {:?}", self.at(), name, k));
				}
			}
			Outcome::Injected => {
				if kind != HandlerKind::Panic {
					violation("handler", &format!("{}: {} unwound although its handler does not panic", self.at(), name));
				}
			}
			Outcome::Panic(p) => self.panicked("fault-panic", &name, &p),
		}
		self.check_handlers(&name);
		hn(&mut self.h, 77);
	}
	fn opaque(&mut self, src: Src, method: BadMethod, selector: &str) {
		let (real, ids) = match self.src(src) {
			Some(x) => x,
			None => return,
		};
		if matches!(method, BadMethod::Trigger) && ids.iter().any(|i| self.m.n[*i].owner != self.m.n[ids[0]].owner) {
			// the document of a set is that of the first element that still has one
			return;
		}
		let n = self.near(&ids);
		let cost = n * n.powi((selector.matches(":has").count() + selector.matches(":not").count()) as i32) * self.deep(&ids);
		if cost > 1e5 {
			return;
		}
		self.work += (cost / 20.0) as u64;
		count(C_OPAQUE, 1);
		let owner = ids.first().map(|i| self.m.n[*i].owner).unwrap_or(0);
		let r = call(|| Ctx::by_method(&real, method, selector));
		match r {
			Outcome::Ok((k, n)) => {
				for x in &k {
					hn(&mut self.h, *x as u64);
				}
				hn(&mut self.h, n as u64);
			}
			Outcome::Injected => hn(&mut self.h, 3),
			Outcome::Panic(p) => self.panicked("fault-panic", &format!("{:?}({:?})", method, selector), &p),
		}
		// zero or one report (twice that for a handler that reports once more), and to nobody else
		for d in self.docs.values_mut() {
			if d.serial == owner && owner != 0 {
				let unit = match d.handler {
					HandlerKind::None => 0,
					HandlerKind::Nested => 2,
					_ => 1,
				};
				let got = d.errs.get() - d.expect;
				hn(&mut self.h, got as u64);
				if got == unit && unit > 0 {
					d.expect += unit;
				}
			}
		}
		self.check_handlers(&format!("{:?}({:?})", method, selector));
	}
	fn bad_insert(&mut self, s: u8, pos: Pos, kind: u8) {
		let (real, ids) = match self.src(Src::Slot(s)) {
			Some(x) => x,
			None => return,
		};
		if ids.is_empty() {
			return;
		}
		let t = ids[0];
		let mut real = real.first();
		// what is refused: itself, one of its ancestors, a whole document; or malformed html
		match kind % 4 {
			0 | 1 => {
				let mut src = handles(&real);
				let mut id = t;
				if kind % 4 == 1 {
					let mut up = vec![];
					let mut p = self.m.eparent(t);
					while let Some(x) = p {
						up.push(x);
						p = self.m.eparent(x);
					}
					if up.is_empty() {
						return;
					}
					let n = (kind as usize / 4) % up.len();
					id = up[n];
					let mut e = real.get_ref()[0].cloned();
					for _ in 0..=n {
						e = match e.parent() {
							Some(p) => p,
							None => violation("integrity", &format!("{}: element {} lost its parent", self.at(), self.m.n[t].key)),
						};
					}
					src = one(&e);
				}
				let r = call(|| Ctx::do_insert(&mut real, pos, &mut src, false));
				let mut copies = vec![];
				self.m_insert(&[t], pos, &[id], &mut copies);
				{
 self.faulted = true;
 flag(F_FAULT);
 }
				if let Outcome::Panic(p) = r {
					self.panicked("fault-panic", "an impossible insertion", &p);
				}
			}
			2 => {
				// a whole document cannot be inserted
				let mut src: Els = match call(|| Vis::load("<!doctype html><html><body></body></html>").map_err(|e| e.to_string())) {
					Outcome::Ok(Ok(e)) => e,
					Outcome::Ok(Err(e)) => violation("load", &format!("{}: {}", self.at(), e)),
					Outcome::Panic(p) => self.panicked("load-panic", "parsing a document", &p),
					Outcome::Injected => return,
				};
				count(C_REFUSED, 1);
				{
 self.faulted = true;
 flag(F_FAULT);
 }
				self.expect_error(Some(t));
				let r = call(|| Ctx::do_insert(&mut real, pos, &mut src, false));
				if let Outcome::Panic(p) = r {
					self.panicked("fault-panic", "inserting a document", &p);
				}
			}
			_ => {
				if self.is_raw(t) {
					return;
				}
				count(C_BADHTML, 1);
				{
 self.faulted = true;
 flag(F_FAULT);
 }
				self.expect_error(Some(t));
				let bad = ["<div>", "<b><i></b>", "<p><b></p>", "<!--", "<textarea>"][kind as usize / 4 % 5];
				// only reached by the probe of a known finding
				let bad = if kind == 203 { "<i" } else { bad };
				let r = call(|| drop(real.set_html(bad)));
				if let Outcome::Panic(p) = r {
					self.panicked("fault-panic", &format!("set_html({:?})", bad), &p);
				}
			}
		}
		self.check_handlers("a refused change");
		self.check_all();
	}
	fn first_use(&mut self, kind: u8) {
		count(C_COLD, 1);
		let r = call(|| {
			let e: Els = if kind & 16 == 0 { Elements::new() } else { Elements::with_capacity(2) };
			match kind % 16 {
				0 => e.find("div").length(),
				1 => e.children("").length(),
				2 => e.filter("p.x").length(),
				3 => e.siblings("").length(),
				4 => e.closest("a").length(),
				5 => e.next_until("a", "", false).length(),
				6 => e.is("a") as usize,
				7 => e.parents("").length(),
				8 => e.not(":empty").length(),
				9 => e.has("a > b").length(),
				10 => e.next("").length(),
				11 => e.prev_all("").length(),
				12 => e.add(Elements::new()).length(),
				13 => e.siblings("a").length(),
				14 => e.parents_until("a", "b", true).length(),
				_ => e.find("<<<").length(),
			}
		});
		match r {
			Outcome::Ok(0) => hn(&mut self.h, 5),
			Outcome::Ok(n) => violation("query", &format!("{}: an empty set answered {}", self.at(), n)),
			Outcome::Panic(p) => self.panicked("query-panic", "a call on an empty set", &p),
			Outcome::Injected => {}
		}
	}
	/// only the serialised text survives
	/// the process dies and starts again: of every document only its text survives
	fn restart(&mut self, d: u8) {
		if !self.docs.contains_key(&d) {
			return;
		}
		count(C_RESTART, 1);
		let mut reloaded = vec![];
		for x in self.docs.keys().copied().collect::<Vec<u8>>() {
			match self.reload(x) {
				Some((e, want)) => reloaded.push((x, e, want)),
				None => return,
			}
		}
		let old = (std::mem::take(&mut self.slots), std::mem::take(&mut self.held));
		let _ = call(move || drop(old));
		self.pins.clear();
		for x in self.docs.keys().copied().collect::<Vec<u8>>() {
			self.drop_doc(x);
		}
		for (x, e, want) in reloaded {
			self.serial += 1;
			let serial = self.serial;
			let root = self.m.build_root(&want_keyed(&want));
			self.m.set_owner(root, serial);
			self.pin_all(&e);
			self.docs.insert(x, DocS { real: e, root, serial, handler: HandlerKind::None, errs: Rc::new(Cell::new(0)), expect: 0 });
			self.check_doc(x);
		}
	}
	fn reload(&mut self, d: u8) -> Option<(Els, Vec<Tree>)> {
		let (real, root) = match self.docs.get(&d) {
			Some(s) => (handles(&s.real), s.root),
			None => return None,
		};
		let text = match call(|| {
			let t = real.outer_html();
			drop(real);
			t
		}) {
			Outcome::Ok(t) => t,
			Outcome::Panic(p) => self.panicked("restart", "serialising", &p),
			Outcome::Injected => return None,
		};
		let mut want = self.m.tree(root, true);
		norm_attrs(&mut want);
		hs(&mut self.h, &text);
		let t2 = text.clone();
		let again: Els = match call(move || Vis::load(t2).map_err(|e| e.to_string())) {
			Outcome::Ok(Ok(e)) => e,
			Outcome::Ok(Err(e)) => violation("restart", &format!("{}: the serialised document {:?} cannot be parsed: {}", self.at(), text, e)),
			Outcome::Panic(p) => self.panicked("restart", &format!("parsing the serialised document {:?}", text), &p),
			Outcome::Injected => return None,
		};
		let mut got = merge_texts(real_tree(&again.get_ref()[0]));
		norm_attrs(&mut got);
		if got != want {
			violation("restart", &format!("{}: after serialising and parsing again the tree differs, {} (text {:?})", self.at(), first_diff(&got, &want, ""), text));
		}
		// what was read back is written in its settled form: writing it and reading it once more changes nothing
		// (the first text may still show where an attribute was removed)
		let t3 = match call(|| again.outer_html()) {
			Outcome::Ok(t) => t,
			Outcome::Panic(p) => self.panicked("restart", "serialising the reloaded document", &p),
			Outcome::Injected => return None,
		};
		let t4 = {
			let t = t3.clone();
			match call(move || Vis::load(t).map(|e| e.outer_html()).map_err(|e| e.to_string())) {
				Outcome::Ok(Ok(t)) => t,
				Outcome::Ok(Err(e)) => violation("restart", &format!("{}: the reloaded document's text {:?} cannot be parsed: {}", self.at(), t3, e)),
				Outcome::Panic(p) => self.panicked("restart", "parsing the reloaded document's text", &p),
				Outcome::Injected => return None,
			}
		};
		if t4 != t3 {
			violation("restart", &format!("{}: serialising the reloaded document gives {:?}, and after another reload {:?}", self.at(), t3, t4));
		}
		Some((again, want))
	}
}
/// the normalised tree has its key as an ordinary attribute: take it back out
fn want_keyed(t: &[Tree]) -> Vec<Tree> {
	t.iter()
		.map(|x| match x {
			Tree::E(tag, _, attrs, ch) => {
				let mut key = 0;
				let mut a = vec![];
				for (n, v) in attrs {
					if n == "k" {
						key = v.as_ref().and_then(|s| s.parse().ok()).unwrap_or(0);
					} else {
						a.push((n.clone(), v.clone()));
					}
				}
				Tree::E(tag.clone(), key, a, want_keyed(ch))
			}
			x => x.clone(),
		})
		.collect()
}
fn size(t: &[Tree]) -> usize {
	t.iter().map(|x| 1 + if let Tree::E(_, _, _, c) = x { size(c) } else { 0 }).sum()
}
/// the ids a query mentions
fn q_ids(q: &Q, out: &mut Vec<String>) {
	fn sel(s: &Sel, out: &mut Vec<String>) {
		for (_, c) in s.iter().flatten() {
			for x in c {
				match x {
					Simple::Id(i) => out.push(i.clone()),
					Simple::Not(s) | Simple::Has(s) => sel(s, out),
					_ => {}
				}
			}
		}
	}
	if let Q::ById(i) = q {
		out.push(i.clone());
	}
	q_sels(q, &mut |s| sel(s, out));
}
/// the selectors of a query
fn q_sels(q: &Q, f: &mut dyn FnMut(&Sel)) {
	match q {
		Q::Find(s) | Q::Filter(s) | Q::Not(s) | Q::Is(s) | Q::IsAll(s) | Q::Has(s) | Q::Closest(s) => f(s),
		Q::Children(s) | Q::Parent(s) | Q::Parents(s) | Q::Next(s) | Q::NextAll(s) | Q::Prev(s) | Q::PrevAll(s) | Q::Siblings(s) => {
			if let Some(s) = s {
				f(s)
			}
		}
		Q::NextUntil(s, g, _) | Q::PrevUntil(s, g, _) | Q::ParentsUntil(s, g, _) => {
			f(s);
			if let Some(g) = g {
				f(g)
			}
		}
		_ => {}
	}
}
fn key_of2(e: &BoxDynElement) -> u32 {
	user(|| match e.get_attribute("k") {
		Some(IAttrValue::Value(v, _)) => v.parse().unwrap_or(0),
		_ => 0,
	})
}
fn elem_if(n: BoxDynNode<'static>) -> Option<El> {
	if matches!(n.node_type(), INodeType::Element) {
		elem(n)
	} else {
		None
	}
}

/// body of one client thread
pub fn client(me: usize, c: Client, tolerant: bool) {
	TOLERANT.with(|t| t.set(tolerant && c.faulty));
	let r = catch_unwind(AssertUnwindSafe(|| {
		let mut ctx = Ctx::new(me, c.pin);
		ctx.run(&c.ops);
		// the client leaves: its documents and handles are dropped in library code
		let out = call(move || drop(ctx));
		shm::get().inflight[me] = u32::MAX;
		if let Outcome::Panic(p) = out {
			violation("drop-panic", &format!("client {}: dropping everything panicked: {}", me, p));
		}
	}));
	if let Err(p) = r {
		if as_injected(&*p).is_none() {
			// what the checks themselves read from the tree panicked in the library, or was
			// something no check reckoned with
			let wher = if OURS.with(|o| o.get()) { " (in the check)" } else { "" };
			if TOLERANT.with(|t| t.get()) {
				count(C_DEATH, 1);
				return;
			}
			violation("check-panic", &format!("client {} op {}: looking at the trees panicked{}: {}", me, shm::get().inflight[me], wher, payload_str(&*p)));
		}
	}
}
