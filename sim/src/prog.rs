//! A simulated world as plain data: what a seed generates, what a replay file
//! holds, and what minimisation shrinks.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Tree {
	/// tag, key (identity; 0 = none), attributes in order, children
	E(String, u32, Vec<(String, Option<String>)>, Vec<Tree>),
	T(String),
	C(String),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Comb {
	Desc,
	Child,
	Next,
	NextAll,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Simple {
	Any,
	Tag(String),
	Class(String),
	Id(String),
	/// name, operator ("", "=", "^=", "$=", "*=", "~=", "|=", "!="), value
	Attr(String, String, String),
	/// :nth-child family: kind ("child", "last-child", "of-type", "last-of-type"), a, b
	Nth(String, i32, i32),
	/// parameterless pseudo, written as is
	Pseudo(String),
	Contains(String),
	Not(Box<Sel>),
	Has(Box<Sel>),
}
pub type Compound = Vec<Simple>;
pub type Complex = Vec<(Comb, Compound)>;
pub type Sel = Vec<Complex>;

/// A selector's text. The spelling (quotes, spaces, case) varies with the content, so equal
/// selectors are always spelled alike.
pub fn sel_str(s: &Sel) -> String {
	let l: Vec<String> = s.iter().map(complex_str).collect();
	let k = spell(&l.concat());
	l.join([", ", ",", " , "][k % 3])
}
fn spell(s: &str) -> usize {
	let h = s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
	(h >> 17) as usize
}
fn complex_str(c: &Complex) -> String {
	let mut o = String::new();
	for (i, (comb, cp)) in c.iter().enumerate() {
		if i > 0 {
			let k = spell(&o) % 3;
			o.push_str(match comb {
				Comb::Desc => [" ", " ", "  "][k],
				Comb::Child => [" > ", ">", " >"][k],
				Comb::Next => [" + ", "+", "+ "][k],
				Comb::NextAll => [" ~ ", "~", "  ~ "][k],
			});
		}
		for s in cp {
			o.push_str(&simple_str(s));
		}
	}
	o
}
fn quoted(v: &str, k: usize) -> String {
	if v.contains('\'') {
		format!("\"{}\"", v)
	} else if v.contains('"') || k % 3 == 0 {
		format!("'{}'", v)
	} else if k % 3 == 1 && !v.is_empty() && v.chars().all(|c| c.is_ascii_alphanumeric()) {
		v.to_string()
	} else {
		format!("\"{}\"", v)
	}
}
fn simple_str(s: &Simple) -> String {
	match s {
		Simple::Any => "*".into(),
		Simple::Tag(t) => t.clone(),
		Simple::Class(c) => format!(".{}", c),
		Simple::Id(c) => format!("#{}", c),
		Simple::Attr(n, o, v) => {
			let k = spell(&format!("{}{}{}", n, o, v));
			if o.is_empty() {
				return [format!("[{}]", n), format!("[ {} ]", n)][k % 2].clone();
			}
			let q = quoted(v, k / 4);
			match k % 4 {
				0 => format!("[ {}{}{} ]", n, o, q),
				1 => format!("[{} {} {}]", n, o, q),
				_ => format!("[{}{}{}]", n, o, q),
			}
		}
		Simple::Nth(k, a, b) => {
			let arg = match (*a, *b) {
				(0, b) => format!("{}", b),
				(2, 0) => "even".to_string(),
				(2, 1) => "odd".to_string(),
				(1, 0) => "n".to_string(),
				(-1, b) if b > 0 && b % 2 == 0 => format!("-n+{}", b),
				(a, 0) => format!("{}n", a),
				(a, b) if b < 0 => format!("{}n - {}", a, -b),
				(a, b) => format!("{}n+{}", a, b),
			};
			format!(":nth-{}({})", k, arg)
		}
		Simple::Pseudo(p) => format!(":{}", p),
		Simple::Contains(t) => format!(":contains({})", quoted(t, spell(t))),
		Simple::Not(s) => format!(":not({})", sel_str(s)),
		Simple::Has(s) => format!(":has({})", sel_str(s)),
	}
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Src {
	Doc(u8),
	Slot(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Q {
	Find(Sel),
	Filter(Sel),
	Not(Sel),
	Is(Sel),
	IsAll(Sel),
	Has(Sel),
	Children(Option<Sel>),
	Parent(Option<Sel>),
	Parents(Option<Sel>),
	ParentsUntil(Sel, Option<Sel>, bool),
	Closest(Sel),
	Next(Option<Sel>),
	NextAll(Option<Sel>),
	NextUntil(Sel, Option<Sel>, bool),
	Prev(Option<Sel>),
	PrevAll(Option<Sel>),
	PrevUntil(Sel, Option<Sel>, bool),
	Siblings(Option<Sel>),
	Eq(u8),
	First,
	Last,
	Slice(u8, u8),
	/// kind of range (a..=b, a.., ..b, ..=b, ..), a, b
	Slices(u8, u8, u8),
	Add(u8),
	FilterIn(u8),
	NotIn(u8),
	IsIn(u8),
	IsAllIn(u8),
	/// does the set contain the first element of the slot below / as child / ...
	Contains(u8, Comb),
	HasIn(u8),
	/// document-level lookup through the first element's owner document
	ById(String),
	Cloned,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Pos {
	Append,
	Prepend,
	Before,
	After,
	Replace,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum What {
	Slot(u8),
	/// a freshly parsed fragment
	Frag(Vec<Tree>),
	/// a deep copy of the elements in the slot
	CopyOf(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum TextEdit {
	Append(String),
	Prepend(String),
	Set(String),
	SetHtml(Vec<Tree>),
	Remove,
	/// all texts of the set down to a depth (0: all) at once
	RemoveAll(u8),
	AppendAll(String, u8),
}
/// the same through the element's own methods
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum LowOp {
	/// remove_child of the i-th element child, or (3) of something that is no child
	RemoveChild(u8),
	/// slot, index in it
	Replace(u8, u8),
	SetAttr(String, Option<String>),
	RemoveAttr(String),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum M {
	Low(LowOp),
	SetAttr(String, Option<String>),
	RemoveAttr(String),
	AddClass(String),
	RemoveClass(String),
	ToggleClass(String),
	SetText(String),
	SetHtml(Vec<Tree>),
	Empty,
	Remove,
	Insert(Pos, What, bool),
	/// edit the i-th text of the first element
	Text(u8, TextEdit),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum CbKind {
	ForEach,
	Each,
	Map,
	FilterBy,
	NotBy,
	IsBy,
	IsAllBy,
	Texts,
	TextsEach,
	TextsFilter,
	TextsBy,
	TextsByRec,
	/// the children of the first element
	ChildrenBy,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum HandlerKind {
	/// plain load, no handler bound
	None,
	/// counts
	Count,
	/// counts, then runs a query on its own document's elements and on a new document
	Reenter,
	/// counts, then panics
	Panic,
	/// counts, then reports a further error from inside
	Nested,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum BadMethod {
	Find,
	Filter,
	Not,
	Is,
	IsAll,
	Has,
	Children,
	Parent,
	Parents,
	ParentsUntil,
	Closest,
	Next,
	NextAll,
	NextUntil,
	Prev,
	PrevAll,
	PrevUntil,
	Siblings,
	ParentsUntilF,
	NextUntilF,
	PrevUntilF,
	ParentsUntilB,
	NextUntilB,
	PrevUntilB,
	/// the caller reports an error itself
	Trigger,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
	/// parse the serialised forest into document slot `d`
	Load { d: u8, tree: Vec<Tree>, handler: HandlerKind, via: u8 },
	/// parse text that must be rejected or accepted as is; the outcome is only logged
	LoadRaw { html: String, opts: u8, sel: String },
	/// drop the document (the owning collection); handles stay
	DropDoc { d: u8 },
	/// drop a handle
	DropSlot { s: u8 },
	Query { src: Src, q: Q, dst: u8 },
	Mutate { s: u8, m: M },
	/// run user code from inside the library
	Callback { s: u8, kind: CbKind, body: Vec<Op>, stop_at: u8, panic_at: Option<u8>, #[serde(default)] limit: u8 },
	/// a selector the library must refuse
	Bad { src: Src, method: BadMethod, selector: String },
	/// arbitrary selector text; the outcome is only logged
	Opaque { src: Src, method: BadMethod, selector: String },
	/// misuse of a tree operation that must be refused and reported
	BadInsert { s: u8, pos: Pos, kind: u8 },
	/// use the library with no document ever loaded
	FirstUse { kind: u8 },
	/// deep copy into a slot
	Copy { src: Src, dst: u8 },
	/// compare the whole real tree with the model
	Check { d: u8 },
	/// serialise, drop everything, parse again: only the text survives
	Restart { d: u8 },
	/// the whole client thread dies: user code panics and nobody catches it
	/// (inside a callback: through the library)
	Crash,
	/// read everything readable through the handles of a slot
	Read { s: u8 },
	/// keep a handle to a text below the first element of a slot
	HoldText { s: u8, ix: u8, t: u8 },
	/// use that handle, or drop it
	HeldText { t: u8, ed: Option<TextEdit> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Client {
	pub phase: u8,
	/// keep every element ever seen alive (otherwise only handles in slots do)
	#[serde(default)]
	pub pin: bool,
	/// a client whose calls may fail; its own answers are not compared with a run alone
	#[serde(default)]
	pub faulty: bool,
	pub ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct World {
	pub clients: Vec<Client>,
	pub hash_seed: u64,
}

/// The calls of a history that op `k` depends on: what loads, changes, copies or drops, and the
/// queries that made the sets those use. Everything else was only asked along the way.
pub fn slice_of(ops: &[Op], k: usize) -> Vec<usize> {
	let mut live = [false; 256];
	fn src(live: &mut [bool; 256], s: &Src) {
		if let Src::Slot(s) = s {
			live[*s as usize] = true;
		}
	}
	fn query(live: &mut [bool; 256], s: &Src, q: &Q) {
		src(live, s);
		if let Q::Add(o) | Q::FilterIn(o) | Q::NotIn(o) | Q::IsIn(o) | Q::IsAllIn(o) | Q::Contains(o, _) | Q::HasIn(o) = q {
			live[*o as usize] = true;
		}
	}
	let mut keep = vec![];
	for i in (0..=k.min(ops.len().saturating_sub(1))).rev() {
		let own = i == k;
		match &ops[i] {
			Op::Query { src: s, q, dst } => {
				if !own && !live[*dst as usize] {
					continue;
				}
				// the slot stays live: a query with no source, or one that answers yes or no,
				// leaves the older set in it
				query(&mut live, s, q);
			}
			Op::Opaque { src: s, .. } | Op::Bad { src: s, .. } => {
				if !own {
					continue;
				}
				src(&mut live, s);
			}
			Op::Read { s } => {
				if !own {
					continue;
				}
				live[*s as usize] = true;
			}
			Op::LoadRaw { .. } | Op::Check { .. } | Op::FirstUse { .. } => {
				if !own {
					continue;
				}
			}
			Op::Mutate { s, m } => {
				live[*s as usize] = true;
				match m {
					M::Insert(_, What::Slot(o) | What::CopyOf(o), _) | M::Low(LowOp::Replace(o, _)) => live[*o as usize] = true,
					_ => {}
				}
			}
			Op::Copy { src: s, .. } => src(&mut live, s),
			Op::HoldText { s, .. } => live[*s as usize] = true,
			Op::DropSlot { .. } | Op::DropDoc { .. } | Op::Load { .. } | Op::HeldText { .. } => {}
			Op::Callback { .. } | Op::BadInsert { .. } | Op::Restart { .. } | Op::Crash => live = [true; 256],
		}
		keep.push(i);
	}
	keep.reverse();
	keep
}
