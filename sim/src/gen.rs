//! Seed -> simulated world and schedule.  Every run draws its own mix
//! (swarm style): sizes, operation weights, fault kinds, schedule strategy.
use crate::prog::*;
use crate::rng::Rng;
use crate::sched::Strategy;
use crate::shm::Decision;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sch {
	pub strategy: Strategy,
	pub seed: u64,
	pub hash_seed: u64,
	pub budget: u64,
	pub stalls: Vec<(u64, u64)>,
	pub spurious: bool,
	#[serde(default)]
	pub replay: Option<Vec<(u32, u8, u8, u8)>>,
}
impl Sch {
	pub fn decisions(&self) -> Option<Vec<Decision>> {
		self.replay.as_ref().map(|v| v.iter().map(|(step, tid, kind, to)| Decision { step: *step, tid: *tid, kind: *kind, to: *to, pad: 0 }).collect())
	}
}

const TAGS: &[&str] = &["div", "ul", "li", "span", "b", "section", "h2", "em"];
const CLS: &[&str] = &["c1", "c2", "c3"];
const CLS2: &[&str] = &["c1", "c10", "c1-a", "C1", "c", "c2", "_c"];
const TXT: &[&str] = &["x", "hello", "a b", "lorem", "7", "x & y", "1 < 2", "q>r", "tail", "ünï", " ", "&amp;", "a\u{a0}b", "\"q\" 'r'", "<b>", "€ 😀", "\n", "&#65;", "a;b&c", "&lt", "banana bandana", "ababab abac xx", "lorem ipsum dolor lorem", "hellohello"];
/// what is searched for is a part of one of these
const SEARCH: &[&str] = &["banana bandana", "ababab abac xx", "lorem ipsum dolor lorem", "hellohello"];
const RAWTXT: &[&str] = &["x", "a b", "a > b", "a && b", "\n", "1\n2", "'q'", "\"", "ünï", "// <", "a<b"];
const CMT: &[&str] = &["note", " c ", "a-b", "<b>", "&amp;", "x>y", "\n", "é"];
const PLAIN: &[&str] = &["x", "hello", "a b", "lorem", "7", "tail", "ünï", "banana bandana", "ababab abac xx", "lorem ipsum dolor lorem"];

pub struct G<'a> {
	pub r: &'a mut Rng,
	key: u32,
	idn: u32,
	ids: bool,
	/// favourite tag and class of this run: selectors and content meet more often
	fav: usize,
	sel_depth: usize,
	raw: bool,
	/// 0: bushy trees, 1: wide ones, 2: deep ones
	shape: u8,
	/// class names that are parts of each other, odd spacing
	fancy: bool,
	/// one family of selectors asked for again and again
	focus: Option<u8>,
}

impl<'a> G<'a> {
	pub fn new(r: &'a mut Rng, base: u32) -> G<'a> {
		let fav = r.below(TAGS.len());
		let sel_depth = r.range(1, 2);
		let raw = r.one_in(2);
		let shape = [0, 0, 0, 0, 0, 0, 1, 2][r.below(8)];
		let fancy = r.one_in(3);
		G { r, key: base, idn: 0, ids: true, fav, sel_depth, raw, shape, fancy, focus: None }
	}
	fn tag(&mut self) -> String {
		if self.r.one_in(3) {
			TAGS[self.fav].into()
		} else {
			let k = self.r.range(3, TAGS.len());
			TAGS[self.r.below(k)].into()
		}
	}
	fn cls(&mut self) -> String {
		self.r.pick(if self.fancy { CLS2 } else { CLS }).to_string()
	}
	fn classes(&mut self) -> String {
		let n = self.r.range(1, if self.fancy { 5 } else { 3 });
		let mut l = (0..n).map(|_| self.cls()).collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>();
		if self.r.one_in(40) {
			l.extend((0..self.r.range(4, 20)).map(|i| format!("n{}", i)));
		}
		if self.fancy {
			let sep = self.r.pick(&[" ", " ", "  ", "\n", "\t "]).to_string();
			let s = l.join(&sep);
			return if self.r.one_in(4) { format!(" {}{}", s, sep) } else { s };
		}
		l.join(" ")
	}
	pub fn id(&mut self) -> String {
		format!("i{}", self.r.range(1, 5))
	}
	fn val(&mut self) -> String {
		if self.r.one_in(4) {
			// every kind of character a value may hold, quotes in any number and order
			let n = self.r.range(1, 6);
			return (0..n).map(|_| *self.r.pick(&["\"", "\"", "'", "'", "=", ">", "<", " ", "`", "/", "v", "en", "&amp;", "é", "-"])).collect();
		}
		self.r.pick(&["v", "v-w", "en", "en-us", "two words", "", "it's", "9"]).to_string()
	}
	fn attrs(&mut self, ids: bool) -> Vec<(String, Option<String>)> {
		let mut v = vec![];
		if ids && self.ids && self.r.one_in(4) && self.idn < 5 {
			self.idn += 1;
			v.push(("id".to_string(), Some(format!("i{}", self.idn))));
		}
		if self.r.one_in(2) {
			v.push(("class".to_string(), Some(self.classes())));
		}
		if self.r.one_in(4) {
			v.push(("data-x".to_string(), Some(self.val())));
		}
		if self.r.one_in(8) {
			v.push(("title".to_string(), Some(self.val())));
		}
		if self.r.one_in(10) {
			v.push(("checked".to_string(), None));
		}
		if self.r.one_in(60) {
			for i in 0..self.r.range(5, 24) {
				v.push((format!("a{}", i), if self.r.one_in(5) { None } else { Some(self.val()) }));
			}
		}
		v
	}
	fn text(&mut self) -> String {
		if self.focus == Some(11) && !self.r.one_in(4) {
			return self.r.pick(SEARCH).to_string();
		}
		if self.r.one_in(30) {
			let n = self.r.range(8, 60);
			return (0..n).map(|_| *self.r.pick(PLAIN)).collect::<Vec<_>>().join(" ");
		}
		self.r.pick(TXT).to_string()
	}
	fn forest(&mut self, depth: usize, max: usize, ids: bool) -> Vec<Tree> {
		if self.shape == 1 && depth < 3 && self.r.one_in(3) {
			return self.wide(ids);
		}
		if self.shape == 2 && depth == 0 && self.r.one_in(2) {
			return self.chain(ids);
		}
		let n = self.r.range(if depth == 0 { 1 } else { 0 }, max);
		let mut v: Vec<Tree> = vec![];
		for _ in 0..n {
			let kind = if self.focus == Some(11) && self.r.one_in(2) { 0 } else { self.r.below(12) };
			match kind {
				0 | 1 => {
					if !matches!(v.last(), Some(Tree::T(_))) {
						v.push(Tree::T(self.text()));
					}
				}
				2 if self.r.one_in(2) => v.push(Tree::C(self.r.pick(CMT).to_string())),
				3 if self.raw => {
					self.key += 1;
					let k = self.key;
					let a = self.attrs(ids);
					match self.r.below(6) {
						0 => v.push(Tree::E("br".into(), k, a, vec![])),
						1 | 2 => {
							let mut a = a;
							if self.r.one_in(2) {
								a.push(("type".into(), Some(self.r.pick(&["checkbox", "radio", "Radio", "submit", "text"]).to_string())));
							}
							if self.r.one_in(2) {
								a.push(("value".into(), Some(self.val())));
							}
							v.push(Tree::E("input".into(), k, a, vec![]))
						}
						3 => {
							let mut a = a;
							if self.r.one_in(4) {
								a.push(("multiple".into(), None));
							}
							let ch = self.options(ids, 0);
							v.push(Tree::E("select".into(), k, a, ch));
						}
						_ => {
							let tag = self.r.pick(&["textarea", "script", "style"]).to_string();
							let ch = if self.r.one_in(3) { vec![] } else { vec![Tree::T(self.r.pick(if tag == "textarea" { PLAIN } else { RAWTXT }).to_string())] };
							v.push(Tree::E(tag, k, a, ch))
						}
					}
				}
				_ => {
					self.key += 1;
					let k = self.key;
					let t = self.tag();
					let a = self.attrs(ids);
					let ch = if depth < 4 { self.forest(depth + 1, max, ids) } else { vec![] };
					v.push(Tree::E(t, k, a, ch));
				}
			}
		}
		v
	}
	/// many siblings, mostly alike
	fn wide(&mut self, ids: bool) -> Vec<Tree> {
		let n = if self.r.one_in(10) { self.r.range(26, 90) } else { self.r.range(5, 26) };
		let mut v: Vec<Tree> = vec![];
		for _ in 0..n {
			if self.r.one_in(6) && !matches!(v.last(), Some(Tree::T(_))) {
				v.push(Tree::T(self.text()));
				continue;
			}
			self.key += 1;
			let k = self.key;
			let t = if self.r.one_in(4) { self.tag() } else { TAGS[self.fav].into() };
			let a = if self.r.one_in(2) { self.attrs(ids) } else { vec![] };
			let ch = if self.r.one_in(8) { self.forest(4, 2, ids) } else { vec![] };
			v.push(Tree::E(t, k, a, ch));
		}
		v
	}
	/// one inside the other, with little else
	fn chain(&mut self, ids: bool) -> Vec<Tree> {
		let n = if self.r.one_in(10) { self.r.range(30, 80) } else { self.r.range(6, 30) };
		let mut v: Vec<Tree> = self.forest(4, 2, ids);
		for _ in 0..n {
			self.key += 1;
			let k = self.key;
			let t = self.tag();
			let a = self.attrs(ids);
			v = vec![Tree::E(t, k, a, v)];
			if self.r.one_in(5) {
				self.key += 1;
				let k = self.key;
				let t = self.tag();
				let at = self.r.below(2);
				v.insert(at, Tree::E(t, k, vec![], vec![]));
			}
		}
		v
	}
	fn options(&mut self, ids: bool, level: u8) -> Vec<Tree> {
		let n = self.r.below(4);
		let mut v = vec![];
		for _ in 0..n {
			self.key += 1;
			let k = self.key;
			if level == 0 && self.r.one_in(5) {
				let ch = self.options(ids, 1);
				v.push(Tree::E("optgroup".into(), k, vec![], ch));
				continue;
			}
			let mut a = vec![];
			if !self.r.one_in(4) {
				a.push(("value".into(), Some(self.val())));
			}
			if self.r.one_in(4) {
				a.push(("selected".into(), None));
			}
			v.push(Tree::E("option".into(), k, a, vec![Tree::T(self.r.pick(PLAIN).to_string())]));
		}
		v
	}
	pub fn doc(&mut self, max: usize) -> Vec<Tree> {
		self.idn = 0;
		if self.r.one_in(4) {
			let body = self.forest(0, max, true);
			let mut k = || {
				self.key += 1;
				self.key
			};
			let (a, b, c, d) = (k(), k(), k(), k());
			let mut top = vec![];
			if self.r.one_in(2) {
				top.push(Tree::C(crate::model::DOCTYPE.into()));
			}
			top.push(Tree::E(
				"html".into(),
				a,
				vec![],
				vec![
					Tree::E("head".into(), b, vec![], vec![Tree::E("title".into(), c, vec![], vec![Tree::T("doc".into())])]),
					Tree::E("body".into(), d, vec![], body),
				],
			));
			top
		} else {
			let mut f = self.forest(0, max, true);
			if !f.iter().any(|t| matches!(t, Tree::E(..))) {
				self.key += 1;
				f.push(Tree::E("div".into(), self.key, vec![("class".into(), Some("c1".into()))], vec![]));
			}
			f
		}
	}
	pub fn frag(&mut self) -> Vec<Tree> {
		let mut f = self.forest(2, 3, false);
		if f.is_empty() {
			f.push(Tree::E(self.tag(), 1, vec![("class".into(), Some(self.cls()))], vec![]));
		}
		f
	}
	fn simple(&mut self, depth: usize) -> Simple {
		let k = match self.focus {
			Some(f) if !self.r.one_in(5) => f as usize,
			_ => self.r.below(17),
		};
		match k {
			0..=2 => Simple::Class(self.cls()),
			3 | 4 if self.ids => Simple::Id(self.id()),
			5 | 6 => {
				let n = self.r.pick(&["class", "data-x", "title", "id", "checked", "DATA-X", "value", "type"]).to_string();
				let o = self.r.pick(&["", "", "=", "^=", "$=", "*=", "~=", "|=", "!="]).to_string();
				let v = self.r.pick(&["v", "en", "c1", "w", "words", "i1", "9", "two words", "v-w", "it's", "é", ""]).to_string();
				Simple::Attr(n, o, v)
			}
			7 | 8 => {
				let k = self.r.pick(&["child", "last-child", "of-type", "last-of-type"]).to_string();
				let a = *self.r.pick(&[0, 0, 1, 2, 2, 3, -1, -1, -2, 4]);
				let b = self.r.below(if self.shape == 1 { 14 } else { 5 }) as i32 - if a == 0 { 0 } else { 2 };
				Simple::Nth(k, a, if a == 0 && b == 0 { 1 } else { b })
			}
			9 | 10 => Simple::Pseudo(self.r.pick(&["first-child", "last-child", "only-child", "first-of-type", "last-of-type", "only-of-type", "empty", "header", "input", "submit", "checked", "root"]).to_string()),
			11 if self.r.one_in(2) => {
				let all = self.r.pick(SEARCH).as_bytes();
				let from = self.r.below(all.len() - 1);
				let to = (from + 1 + self.r.below(7)).min(all.len());
				let part = std::str::from_utf8(&all[from..to]).unwrap().trim();
				Simple::Contains(if part.is_empty() { "an".into() } else { part.to_string() })
			}
			11 => Simple::Contains(self.r.pick(&["x", "hello", "a", "lorem", "7"]).to_string()),
			12 | 13 if depth < self.sel_depth => Simple::Not(Box::new(self.sel_at(depth + 1))),
			14 if depth < self.sel_depth => Simple::Has(Box::new(self.sel_at(depth + 1))),
			_ => Simple::Class(self.cls()),
		}
	}
	fn compound(&mut self, depth: usize) -> Compound {
		let mut v = vec![];
		match self.r.below(4) {
			0 => v.push(Simple::Tag(self.tag())),
			1 => v.push(Simple::Any),
			_ => {}
		}
		if v.is_empty() || self.r.one_in(2) {
			if v.is_empty() && self.r.one_in(3) {
				v.push(Simple::Tag(self.tag()));
			} else {
				v.push(self.simple(depth));
			}
			if self.r.one_in(5) {
				v.push(self.simple(depth));
			}
		}
		v
	}
	fn complex(&mut self, depth: usize) -> Complex {
		let n = [1, 1, 1, 2, 2, 3][self.r.below(6)];
		(0..n).map(|_| (*self.r.pick(&[Comb::Desc, Comb::Desc, Comb::Child, Comb::Next, Comb::NextAll]), self.compound(depth))).collect()
	}
	fn sel_at(&mut self, depth: usize) -> Sel {
		let n = if self.r.one_in(5) { 2 } else { 1 };
		(0..n).map(|_| self.complex(depth)).collect()
	}
	pub fn sel(&mut self) -> Sel {
		self.sel_at(0)
	}
	/// a list of compounds without combinators
	fn flat(&mut self) -> Sel {
		let n = if self.r.one_in(5) { 2 } else { 1 };
		(0..n).map(|_| vec![(Comb::Desc, self.compound(0))]).collect()
	}
	fn oflat(&mut self) -> Option<Sel> {
		if self.r.one_in(2) {
			None
		} else {
			Some(self.flat())
		}
	}
	fn any_tag(&mut self) -> Sel {
		vec![vec![(Comb::Desc, vec![Simple::Any])]]
	}
	pub fn q(&mut self, nslots: u8) -> Q {
		let o = self.r.below(nslots as usize) as u8;
		let c = self.r.one_in(2);
		match self.r.below(37) {
			34 => Q::IsAllIn(o),
			35 => Q::Contains(o, *self.r.pick(&[Comb::Desc, Comb::Child, Comb::Next, Comb::NextAll])),
			36 => Q::Slices(self.r.below(5) as u8, self.r.below(4) as u8, self.r.below(6) as u8),
			0..=5 => Q::Find(self.sel()),
			6 | 7 => Q::Filter(self.sel()),
			8 => Q::Not(self.sel()),
			9 => Q::Is(self.sel()),
			10 => Q::IsAll(self.sel()),
			11 => Q::Has(self.sel()),
			12 => Q::Children(Some(self.sel())),
			13 => Q::Children(None),
			14 => Q::Parent(self.oflat()),
			15 => Q::Parents(self.oflat()),
			16 => Q::ParentsUntil(self.sel(), self.oflat(), c),
			17 => Q::Closest(self.sel()),
			18 => Q::Next(self.oflat()),
			19 => Q::NextAll(self.oflat()),
			20 => Q::NextUntil(self.sel(), self.oflat(), c),
			21 => Q::Prev(self.oflat()),
			22 => Q::PrevAll(self.oflat()),
			23 => Q::PrevUntil(self.sel(), self.oflat(), c),
			24 => Q::Siblings(self.oflat()),
			25 => Q::Eq(self.r.below(4) as u8),
			26 => {
				if c {
					Q::First
				} else {
					Q::Last
				}
			}
			27 => Q::Slice(self.r.below(3) as u8, self.r.below(5) as u8),
			28 | 29 => Q::Add(o),
			30 => Q::FilterIn(o),
			31 => Q::NotIn(o),
			32 => {
				if c {
					Q::IsIn(o)
				} else {
					Q::HasIn(o)
				}
			}
			_ => {
				if c && self.ids {
					Q::ById(self.id())
				} else {
					Q::Cloned
				}
			}
		}
	}
	/// a query of the kind the focus is about
	pub fn hot(&mut self, nslots: u8) -> Q {
		match self.r.below(8) {
			0 => Q::Filter(self.sel()),
			1 => Q::Not(self.sel()),
			2 => Q::Is(self.sel()),
			3 => Q::Closest(self.sel()),
			4 => self.q(nslots),
			_ => Q::Find(self.sel()),
		}
	}
	fn text_edit(&mut self) -> TextEdit {
		let s = self.r.pick(PLAIN).to_string();
		match self.r.below(8) {
			6 => TextEdit::RemoveAll(self.r.below(3) as u8),
			7 => TextEdit::AppendAll(s, self.r.below(3) as u8),
			0 => TextEdit::Append(s),
			1 => TextEdit::Prepend(s),
			2 | 3 => TextEdit::Set(s),
			4 => TextEdit::SetHtml(if self.r.one_in(4) { vec![] } else { self.frag() }),
			_ => TextEdit::Remove,
		}
	}
	pub fn mutation(&mut self, nslots: u8) -> M {
		let o = self.r.below(nslots as usize) as u8;
		match self.r.below(34) {
			30 => M::Low(LowOp::RemoveChild(self.r.below(4) as u8)),
			31 | 32 => M::Low(LowOp::Replace(self.r.below(nslots as usize) as u8, self.r.below(4) as u8)),
			33 => {
				let n = self.r.pick(&["data-x", "title", "Lang"]).to_string();
				let v = if self.r.one_in(3) { None } else { Some(self.val()) };
				M::Low(if self.r.one_in(3) { LowOp::RemoveAttr(n) } else { LowOp::SetAttr(n, v) })
			}
			0 | 1 => {
				let n = self.r.pick(&["data-x", "title", "DATA-X", "Title", "lang"]).to_string();
				let v = if self.r.one_in(6) { None } else { Some(self.val()) };
				M::SetAttr(n, v)
			}
			2 | 3 if self.ids => M::SetAttr("id".into(), Some(format!("i{}", self.r.range(1, 6)))),
			4 => M::RemoveAttr(self.r.pick(&["data-x", "title", "Class", "id", "checked", "lang"]).to_string()),
			5 => M::AddClass(self.classes()),
			6 => M::RemoveClass(self.classes()),
			7 => M::ToggleClass(self.classes()),
			8 | 9 => M::SetText(if self.r.one_in(4) { String::new() } else { self.text() }),
			10 | 11 => M::SetHtml(if self.r.one_in(6) { vec![] } else { self.frag() }),
			12 => M::Empty,
			13..=16 => M::Remove,
			17..=19 => M::Text(self.r.below(6) as u8, self.text_edit()),
			_ => {
				let pos = *self.r.pick(&[Pos::Append, Pos::Prepend, Pos::Before, Pos::After, Pos::Replace]);
				let what = match self.r.below(6) {
					0..=2 => What::Slot(o),
					3 | 4 => What::Frag(self.frag()),
					_ => What::CopyOf(o),
				};
				M::Insert(pos, what, self.r.one_in(2))
			}
		}
	}
	pub fn bad_sel(&mut self) -> String {
		self.r
			.pick(&[
				"p:nosuchpseudo(", "<<<", "a >", "a,,b", ":nth-child(", "[a=", "div >> p", "::", "a:not(", ":has(b:not(", "##x", ".", "a[", "b:unknown", ">", "a + ", ":nth-child(x)", ":contains(", "a ~ ,", "b$",
				":not(a,)", ":not(a,,b)", ":has(b$)", "div:has(>>)", ":not(:nosuch)", ":has(:not($))", ":has(:not(a ~ ,))", ":nth-child()", ":nth-of-type(2x)", ":nth-last-child(+)", "[]", "[=v]", "[a=\"v]", "[a='v\"]", "[a==v]", "[a= v w]", ":contains",
				"a:first", "*:*", "#", "#.c", "..c1", ",", "a,", "+", "~", "a > > b", "a + ~ b", "a)", "a(b)", ":not(a))", "a!b", "a|b", ":root()", ":only-child(1)", ":not", ":has", ":contains('a)", ".1c", "*:not(.c1):has(b:not(#))",
			])
			.to_string()
	}
	pub fn method(&mut self) -> BadMethod {
		use BadMethod::*;
		*self.r.pick(&[
			Find, Filter, Not, Is, IsAll, Has, Children, Parent, Parents, ParentsUntil, Closest, Next, NextAll, NextUntil, Prev, PrevAll, PrevUntil, Siblings, ParentsUntilF, NextUntilF, PrevUntilF, ParentsUntilB, NextUntilB, PrevUntilB, Trigger,
		])
	}
	pub fn opaque_sel(&mut self) -> String {
		let base = self
			.r
			.pick(&[
				":root", ":checked", ":submit", ":input", ":header", "div:not(:has(b)):nth-child(2n + 1)", ":not(:nth-last-child(-n+2))", "*:has(> b)", "div > :not(.c1) ~ *", ":nth-child( odd )", ":nth-of-type(3n - 1)",
				"[data-x=\"en\"]", "[data-x|=en]", "  div   >  b  ", "div>b+em~span", "#i1.c1[id]", ":contains(\"a b\")", ":contains(x)", "div,b , em", ":not(div, b)", ":has(b, em)", "[class~='c1'][class*='2']", "DIV", "*", ":empty:not(br)",
				":first-child:last-child", "li:only-of-type", "[title='it\\'s']",
			])
			.to_string();
		match self.r.below(4) {
			0 => format!("{} {}", base, sel_str(&self.sel())),
			1 => format!("{}, {}", sel_str(&self.sel()), base),
			_ => base,
		}
	}
	pub fn raw_html(&mut self) -> String {
		self.r
			.pick(&[
				"<", "<!--", "</", "<textarea>", "<div><b></div>", "text only", "", "<p>a<p>b", "<a href='x>y</a>", "<br/><br>", "<div id=1 id=2></div>", "<ul><li>1<li>2</ul>", "<script>if(a<b){}</script>", "<!doctype html><html></html>",
				"</div>", "<div>&amp;&lt;&#65;</div>", "<a b=c d='e' f>", "<x-y z></x-y>", "<![CDATA[x]]>", "<style>a>b{}</style><p>", "<title>a<b</title>",
			])
			.to_string()
	}
	pub fn handler(&mut self) -> HandlerKind {
		*self.r.pick(&[HandlerKind::None, HandlerKind::Count, HandlerKind::Count, HandlerKind::Reenter, HandlerKind::Nested, HandlerKind::Panic])
	}
	pub fn cb(&mut self) -> CbKind {
		use CbKind::*;
		*self.r.pick(&[ForEach, ForEach, Each, Map, FilterBy, NotBy, IsBy, IsAllBy, Texts, TextsEach, TextsFilter, TextsBy, TextsByRec, TextsByRec, ChildrenBy, ChildrenBy])
	}
}

/* ------------------------------------------------------------- profiles */

#[derive(Clone, Copy, Default)]
pub struct W {
	q: u32,
	m: u32,
	cb: u32,
	cbp: u32,
	bad: u32,
	opaque: u32,
	raw: u32,
	badins: u32,
	copy: u32,
	dropdoc: u32,
	dropslot: u32,
	check: u32,
	restart: u32,
	read: u32,
	load: u32,
	first: u32,
	crash: u32,
}

fn ops(g: &mut G, n: usize, w: &W, ndocs: u8, nslots: u8, level: u8, handlers: bool, max: usize) -> Vec<Op> {
	let mut v = vec![];
	let ws = [w.q, w.m, w.cb, w.cbp, w.bad, w.opaque, w.raw, w.badins, w.copy, w.dropdoc, w.dropslot, w.check, w.restart, w.read, w.load, w.first, w.crash];
	while v.len() < n {
		let s = g.r.below(nslots as usize) as u8;
		let d = g.r.below(ndocs as usize) as u8;
		let dst = g.r.below(nslots as usize) as u8;
		let src = if g.r.one_in(4) { Src::Doc(d) } else { Src::Slot(s) };
		v.push(match g.r.weighted(&ws) {
			0 => {
				let q = if matches!(src, Src::Doc(_)) {
					match g.r.below(6) {
						0 => Q::Children(None),
						1 if g.ids => Q::ById(g.id()),
						2 => Q::Find(g.any_tag()),
						_ => Q::Find(g.sel()),
					}
				} else {
					g.q(nslots)
				};
				Op::Query { src, q, dst }
			}
			1 if g.r.one_in(6) => {
				let t = g.r.below(3) as u8;
				match g.r.below(7) {
					0..=2 => Op::HoldText { s, ix: g.r.below(6) as u8, t },
					3 => Op::HeldText { t, ed: None },
					_ => Op::HeldText { t, ed: Some(g.text_edit()) },
				}
			}
			1 => Op::Mutate { s, m: g.mutation(nslots) },
			k @ (2 | 3) if level < 2 => {
				let n = g.r.below(4);
				let mut bw = *w;
				if level == 0 {
					bw.cb = bw.cb.div_ceil(2);
					bw.cbp = bw.cbp.div_ceil(4);
				} else {
					bw.cb = 0;
					bw.cbp = 0;
				}
				bw.restart = 0;
				let b = ops(g, n, &bw, ndocs, nslots, level + 1, handlers, max);
				let panic_at = if k == 3 { Some(g.r.below(4) as u8) } else { None };
				Op::Callback { s, kind: g.cb(), body: b, stop_at: g.r.below(5) as u8, panic_at, limit: if g.r.one_in(2) { 0 } else { g.r.range(1, 3) as u8 } }
			}
			4 => Op::Bad { src, method: g.method(), selector: g.bad_sel() },
			5 => Op::Opaque { src, method: g.method(), selector: g.opaque_sel() },
			6 => Op::LoadRaw { html: g.raw_html(), opts: g.r.below(2) as u8, sel: g.opaque_sel() },
			7 => Op::BadInsert { s, pos: *g.r.pick(&[Pos::Append, Pos::Prepend, Pos::Before, Pos::After, Pos::Replace]), kind: g.r.below(40) as u8 },
			8 => Op::Copy { src: if g.r.one_in(8) { Src::Doc(d) } else { Src::Slot(s) }, dst },
			9 => Op::DropDoc { d },
			10 => Op::DropSlot { s },
			11 => Op::Check { d },
			12 if level == 0 => Op::Restart { d },
			13 => Op::Read { s },
			14 => {
				let handler = if handlers { g.handler() } else { HandlerKind::None };
				Op::Load { d, tree: g.doc(max), handler, via: g.r.below(2) as u8 }
			}
			15 => Op::FirstUse { kind: g.r.below(32) as u8 },
			16 => Op::Crash,
			_ => Op::Query { src: Src::Doc(d), q: Q::Find(g.sel()), dst },
		});
	}
	v
}

/// loads, then fills the slots with overlapping sets
fn prelude(g: &mut G, ndocs: u8, nslots: u8, handlers: bool, max: usize) -> Vec<Op> {
	let mut v = vec![];
	for d in 0..ndocs {
		let handler = if handlers { g.handler() } else { HandlerKind::None };
		v.push(Op::Load { d, tree: g.doc(max), handler, via: g.r.below(2) as u8 });
	}
	for s in 0..nslots {
		let d = g.r.below(ndocs as usize) as u8;
		let any = g.any_tag();
		match g.r.below(4) {
			0 => v.push(Op::Query { src: Src::Doc(d), q: Q::Find(g.sel()), dst: s }),
			1 => v.push(Op::Query { src: Src::Doc(d), q: Q::Find(any), dst: s }),
			_ => {
				v.push(Op::Query { src: Src::Doc(d), q: Q::Find(any), dst: s });
				v.push(Op::Query { src: Src::Slot(s), q: if g.r.one_in(4) { Q::Slice(g.r.below(4) as u8, 2 + g.r.below(5) as u8) } else { Q::Eq(g.r.below(8) as u8) }, dst: s });
			}
		}
	}
	v
}
fn vary(r: &mut Rng, w: u32) -> u32 {
	// swarm: each kind may be off, normal or dominant
	match r.below(6) {
		0 => 0,
		1 => w * 4,
		_ => w,
	}
}

fn strategy(r: &mut Rng, est: u64) -> Strategy {
	match r.below(10) {
		0 => Strategy::Serial,
		1 => Strategy::Random { mean: 20 + r.below(80) as u64 },
		2 => Strategy::Random { mean: 2 + r.below(18) as u64 },
		3 | 4 => Strategy::Random { mean: 200 + r.below(2000) as u64 },
		5..=7 => Strategy::Pct { depth: r.range(1, 5) as u32, est },
		_ => Strategy::Sites { modulus: *r.pick(&[7u32, 31, 101, 307]), max: r.range(4, 200) as u32 },
	}
}

pub fn world(prop: &str, seed: u64) -> (World, Sch) {
	let mut r = Rng::derive(seed, "world", 0);
	let mut clients = vec![];
	let hash_seed = r.next();
	let mut est = 60_000u64;
	match prop {
		"C01" | "C12" => {
			let n = r.range(2, 4);
			let warm = r.one_in(3);
			if warm {
				// now and then somebody was at it for long
				let k = if r.one_in(12) { r.range(40, 150) } else { 3 };
				clients.push(Client { phase: 0, pin: true, faulty: true, ops: small_client(&mut r, 90_000, k, false, false) });
			}
			// sometimes everybody asks the same kind of question over and over
			let hot = if r.one_in(3) { Some(*r.pick(&[0u8, 3, 5, 7, 7, 9, 11, 12, 14])) } else { None };
			// or does the same kind of thing
			let same = if hot.is_none() && r.one_in(3) { Some(some_op(&mut r)) } else { None };
			for i in 0..n {
				let ops = if let Some(o) = &same {
					let k = r.range(4, 10);
					same_client(&mut r, i as u32 * 1000, k, o)
				} else if let Some(f) = hot {
					let k = r.range(4, 14);
					hot_client(&mut r, i as u32 * 1000, k, f)
				} else {
					let k = r.range(2, 6);
					small_client(&mut r, i as u32 * 1000, k, false, false)
				};
				clients.push(Client { phase: warm as u8, pin: true, faulty: false, ops });
			}
		}
		"C02" => {
			let n = r.range(1, 4);
			for i in 0..n {
				let k = if r.one_in(60) { r.range(40, 150) } else { r.range(2, 6) };
				let ops = small_client(&mut r, i as u32 * 1000, k, true, true);
				clients.push(Client { phase: 0, pin: true, faulty: true, ops });
			}
		}
		"C03" => {
			let nf = r.range(1, 2);
			let nh = r.range(1, 2);
			for i in 0..nf {
				let k = if r.one_in(30) { r.range(40, 150) } else { r.range(2, 5) };
				let mut ops = small_client(&mut r, i as u32 * 1000, k, true, true);
				if r.one_in(3) {
					ops.push(Op::Crash);
				}
				clients.push(Client { phase: 0, pin: true, faulty: true, ops });
			}
			for i in 0..nh {
				let k = r.range(1, 4);
				let ops = small_client(&mut r, 10_000 + i as u32 * 1000, k, false, false);
				clients.push(Client { phase: r.below(2) as u8, pin: true, faulty: false, ops });
			}
			// somebody always comes later
			let k = r.range(2, 4);
			let ops = small_client(&mut r, 20_000, k, false, false);
			clients.push(Client { phase: 2, pin: true, faulty: false, ops });
		}
		"C05" => {
			let n = r.range(1, 4);
			for i in 0..n {
				let mut ops = vec![];
				{
					let mut g = G::new(&mut r, i as u32 * 1000);
					if g.r.one_in(2) {
						ops.push(Op::FirstUse { kind: g.r.below(32) as u8 });
					}
					let tree = g.doc(2);
					let h = if g.r.one_in(3) { HandlerKind::Reenter } else { HandlerKind::None };
					ops.push(Op::Load { d: 0, tree, handler: h, via: g.r.below(2) as u8 });
					let k = g.r.range(1, 3);
					let w = W { q: 6, opaque: 6, bad: 1, first: 1, ..W::default() };
					let more = ops_small(&mut g, k, &w);
					ops.extend(more);
				}
				clients.push(Client { phase: 0, pin: true, faulty: false, ops });
			}
		}
		"C04" => {
			let n = if r.one_in(2) { 1 } else { r.range(2, 3) };
			for i in 0..n {
				let nd = r.range(1, 3) as u8;
				let w = W {
					q: vary(&mut r, 4),
					m: vary(&mut r, 4),
					cb: vary(&mut r, 1),
					cbp: 0,
					bad: 10,
					opaque: vary(&mut r, 2),
					raw: vary(&mut r, 2),
					badins: vary(&mut r, 6),
					copy: 1,
					dropdoc: vary(&mut r, 1),
					load: 1,
					..W::default()
				};
				let len = if r.one_in(40) { r.range(40, 120) } else { r.range(3, 12) };
				let mut g = G::new(&mut r, i as u32 * 1000);
				let mut v = prelude(&mut g, nd, 4, true, 3);
				v.extend(ops(&mut g, len, &w, nd, 4, 0, true, 3));
				clients.push(Client { phase: 0, pin: true, faulty: true, ops: v });
			}
		}
		_ => {
			// tree histories: several actors share documents through aliased handles
			let threads = if r.one_in(8) { 2 } else { 1 };
			for i in 0..threads {
				let mut w = W { q: 6, m: 10, copy: 1, dropslot: 1, read: 1, load: 1, check: 1, ..W::default() };
				let mut pin = true;
				match prop {
					"C06" => {
						w = W { q: vary(&mut r, 5), m: 14, cb: vary(&mut r, 1), cbp: vary(&mut r, 1), bad: vary(&mut r, 1), badins: vary(&mut r, 3), copy: vary(&mut r, 2), dropdoc: vary(&mut r, 1), dropslot: 1, load: 1, ..W::default() };
					}
					"C07" => {
						w = W { q: 6, m: 16, badins: vary(&mut r, 2), copy: vary(&mut r, 2), load: 1, read: 2, dropslot: 1, ..W::default() };
					}
					"C08" => {
						w = W { q: 20, m: vary(&mut r, 6), copy: vary(&mut r, 1), read: 1, dropdoc: vary(&mut r, 1), load: vary(&mut r, 1), dropslot: 1, cb: vary(&mut r, 1), ..W::default() };
					}
					"C09" => {
						w = W { q: 5, m: 6, cb: 4, cbp: 12, bad: vary(&mut r, 2), badins: vary(&mut r, 2), copy: 1, read: 1, ..W::default() };
					}
					"C10" => {
						pin = false;
						w = W { q: 10, m: 6, dropdoc: 4, dropslot: 4, copy: 2, load: 1, read: 2, bad: 1, badins: vary(&mut r, 1), ..W::default() };
					}
					"C11" => {
						w = W { q: 5, m: 10, copy: 8, read: 2, dropslot: 1, dropdoc: vary(&mut r, 1), load: vary(&mut r, 1), ..W::default() };
					}
					"C13" => {
						w = W { q: 5, m: 12, restart: 4, copy: 1, badins: vary(&mut r, 1), ..W::default() };
					}
					_ => {}
				}
				let nd = r.range(1, 3) as u8;
				let ns = r.range(3, 6) as u8;
				let max = r.range(2, 4);
				let len = if r.one_in(60) { r.range(50, 160) } else if r.one_in(4) { r.range(12, 30) } else { r.range(2, 12) };
				let handlers = matches!(prop, "C06" | "C09" | "C10") && r.one_in(2);
				let mut g = G::new(&mut r, i as u32 * 10_000);
				if prop == "C10" {
					g.ids = false;
				}
				let mut v = prelude(&mut g, nd, ns, handlers, max);
				v.extend(ops(&mut g, len, &w, nd, ns, 0, handlers, max));
				if prop == "C10" && g.r.one_in(3) {
					// pieces are held, everything else goes away, and the pieces are used
					let texts = g.r.one_in(2);
					for t in 0..3u8 {
						if texts && !g.r.one_in(4) {
							let s = g.r.below(ns as usize) as u8;
							v.push(Op::HoldText { s, ix: g.r.below(6) as u8, t });
						}
					}
					let keep = g.r.below(ns as usize + 1) as u8;
					for s in 0..ns {
						if s != keep {
							v.push(Op::DropSlot { s });
						}
					}
					for d in 0..nd {
						if !g.r.one_in(6) {
							v.push(Op::DropDoc { d });
						}
					}
					for _ in 0..g.r.range(1, 5) {
						if texts && !g.r.one_in(3) {
							let t = g.r.below(3) as u8;
							let ed = if g.r.one_in(6) { None } else { Some(g.text_edit()) };
							v.push(Op::HeldText { t, ed });
						} else if keep < ns {
							let op = if g.r.one_in(2) { Op::Query { src: Src::Slot(keep), q: g.q(ns), dst: keep } } else { Op::Mutate { s: keep, m: g.mutation(ns) } };
							v.push(op);
						}
					}
				}
				v.push(Op::Check { d: 0 });
				if prop == "C13" {
					v.push(Op::Restart { d: 0 });
				}
				clients.push(Client { phase: 0, pin, faulty: true, ops: v });
			}
			est = 400_000;
		}
	}
	let mut sr = Rng::derive(seed, "strategy", 0);
	let multi = clients.len() > 1;
	let strategy = if multi { strategy(&mut sr, est) } else { Strategy::Serial };
	let mut stalls = vec![];
	if multi && sr.one_in(3) {
		for _ in 0..sr.range(1, 4) {
			stalls.push((sr.next() % est, 1000 + sr.next() % 50_000));
		}
	}
	let spurious = multi && sr.one_in(4);
	let budget = 1_200_000_000;
	(World { clients, hash_seed }, Sch { strategy, seed, hash_seed, budget, stalls, spurious, replay: None })
}

fn ops_small(g: &mut G, n: usize, w: &W) -> Vec<Op> {
	ops(g, n, w, 1, 3, 0, false, 2)
}
/// any operation, to say what kind of thing is done
fn some_op(r: &mut Rng) -> Op {
	let mut g = G::new(r, 0);
	match g.r.below(8) {
		0..=3 => Op::Query { src: Src::Slot(0), q: g.q(3), dst: 1 },
		4..=6 => Op::Mutate { s: 1, m: g.mutation(3) },
		_ => match g.r.below(4) {
			0 => Op::Read { s: 0 },
			1 => Op::Copy { src: Src::Slot(0), dst: 1 },
			2 => Op::Check { d: 0 },
			_ => Op::Callback { s: 0, kind: g.cb(), body: vec![], stop_at: g.r.below(5) as u8, panic_at: None, limit: g.r.below(3) as u8 },
		},
	}
}
/// a client that does one kind of thing most of the time
fn same_client(r: &mut Rng, base: u32, n: usize, like: &Op) -> Vec<Op> {
	use std::mem::discriminant;
	let mut g = G::new(r, base);
	let max = g.r.range(2, 4);
	if g.r.one_in(4) {
		g.shape = 1;
	}
	let tree = g.doc(max);
	let mut v = vec![Op::Load { d: 0, tree, handler: HandlerKind::None, via: 0 }];
	let any = g.any_tag();
	v.push(Op::Query { src: Src::Doc(0), q: Q::Find(any), dst: 0 });
	v.push(Op::Query { src: Src::Doc(0), q: Q::Find(g.sel()), dst: 1 });
	for _ in 0..n {
		let src = if g.r.one_in(3) { Src::Slot(1) } else { Src::Slot(0) };
		let dst = 1 + g.r.below(2) as u8;
		match like {
			_ if g.r.one_in(6) => {
				let any = g.any_tag();
				v.push(Op::Query { src: Src::Doc(0), q: Q::Find(any), dst: 0 })
			}
			Op::Query { q: like, .. } => {
				let mut q = g.q(3);
				for _ in 0..300 {
					if discriminant(&q) == discriminant(like) {
						break;
					}
					q = g.q(3);
				}
				v.push(Op::Query { src, q, dst });
			}
			Op::Mutate { m: like, .. } => {
				let mut m = g.mutation(3);
				for _ in 0..300 {
					if discriminant(&m) == discriminant(like) {
						break;
					}
					m = g.mutation(3);
				}
				let s = g.r.below(2) as u8;
				v.push(Op::Mutate { s, m });
			}
			Op::Copy { .. } => v.push(Op::Copy { src, dst }),
			Op::Callback { kind, limit, .. } => {
				v.push(Op::Callback { s: g.r.below(2) as u8, kind: *kind, body: vec![], stop_at: g.r.below(9) as u8, panic_at: None, limit: *limit })
			}
			o => v.push(o.clone()),
		}
	}
	v.push(Op::Check { d: 0 });
	v
}
/// a client with one kind of question
fn hot_client(r: &mut Rng, base: u32, n: usize, focus: u8) -> Vec<Op> {
	let mut g = G::new(r, base);
	let max = g.r.range(2, 4);
	if g.r.one_in(3) {
		g.shape = 1;
	}
	g.focus = Some(focus);
	let tree = g.doc(max);
	g.focus = None;
	let mut v = vec![Op::Load { d: 0, tree, handler: HandlerKind::None, via: 0 }];
	let any = g.any_tag();
	v.push(Op::Query { src: Src::Doc(0), q: Q::Find(any), dst: 0 });
	g.focus = Some(focus);
	for _ in 0..n {
		let dst = 1 + g.r.below(2) as u8;
		v.push(match g.r.below(8) {
			0 => Op::Query { src: Src::Doc(0), q: Q::Find(g.sel()), dst },
			1 => Op::Mutate { s: 1, m: g.mutation(3) },
			_ => Op::Query { src: Src::Slot(0), q: g.hot(3), dst },
		});
	}
	v
}
/// a short client: enough to touch the shared state from many sides
fn small_client(r: &mut Rng, base: u32, n: usize, faults: bool, handlers: bool) -> Vec<Op> {
	let w = W {
		q: vary(r, 10),
		m: vary(r, 3),
		cb: vary(r, 2),
		cbp: if faults { vary(r, 4) } else { 0 },
		bad: if faults { vary(r, 8) } else { vary(r, 1) },
		opaque: vary(r, 8),
		raw: if faults { vary(r, 3) } else { vary(r, 1) },
		badins: if faults { vary(r, 2) } else { 0 },
		copy: 1,
		read: 1,
		load: vary(r, 1),
		first: vary(r, 1),
		..W::default()
	};
	let mut g = G::new(r, base);
	let mut v = vec![];
	if g.r.one_in(6) {
		v.push(Op::FirstUse { kind: g.r.below(32) as u8 });
	}
	let h = if handlers { g.handler() } else { *g.r.pick(&[HandlerKind::None, HandlerKind::Count, HandlerKind::Reenter]) };
	let tree = g.doc(2);
	v.push(Op::Load { d: 0, tree, handler: h, via: g.r.below(2) as u8 });
	let any = g.any_tag();
	v.push(Op::Query { src: Src::Doc(0), q: Q::Find(any), dst: 0 });
	v.extend(ops(&mut g, n, &w, 1, 3, 0, handlers, 2));
	v
}
