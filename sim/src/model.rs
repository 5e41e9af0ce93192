//! The reference model: a document as an arena of nodes with parent and child
//! links, and the jQuery-like operations written in the most direct way.
//! It shares no code with the library.
use crate::prog::*;
use std::collections::BTreeSet;

pub type Id = usize;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
	Root,
	E,
	T,
	C,
}
#[derive(Clone, Debug)]
pub struct N {
	pub kind: Kind,
	pub tag: String,
	pub key: u32,
	/// names as written; lookups ignore ASCII case
	pub attrs: Vec<(String, Option<String>)>,
	/// text and comment nodes: decoded content
	pub text: String,
	pub parent: Option<Id>,
	pub ch: Vec<Id>,
	/// serial of the document errors are reported to (0: none)
	pub owner: u32,
}
#[derive(Clone, Default, Debug)]
pub struct Model {
	pub n: Vec<N>,
}

/// What a value reads like however its quotes were written down.
pub fn plain_quotes(v: &str) -> String {
	v.replace("&quot;", "\"").replace("&#34;", "\"").replace("&apos;", "'").replace("&#39;", "'")
}
pub const DOCTYPE: &str = "!doctype html";
pub const VOID: &[&str] = &["br", "img", "input", "hr"];
/// elements whose content is plain text
pub const RAW: &[&str] = &["title", "textarea", "script", "style"];

pub fn escape_text(s: &str) -> String {
	s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
}
pub fn html(t: &[Tree]) -> String {
	let mut o = String::new();
	for x in t {
		html1(x, &mut o);
	}
	o
}
fn html1(t: &Tree, o: &mut String) {
	match t {
		Tree::T(s) => o.push_str(&escape_text(s)),
		// a doctype is kept as a comment of this text
		Tree::C(s) if s == DOCTYPE => o.push_str("<!doctype html>"),
		Tree::C(s) => {
			o.push_str("<!--");
			o.push_str(s);
			o.push_str("-->");
		}
		Tree::E(tag, key, attrs, ch) => {
			// the same document in different spellings
			let tag = &if key % 5 == 4 && !RAW.contains(&tag.as_str()) && !VOID.contains(&tag.as_str()) { tag.to_ascii_uppercase() } else { tag.clone() };
			o.push('<');
			o.push_str(tag);
			if *key > 0 {
				o.push_str(&format!(" k=\"{}\"", key));
			}
			for (n, v) in attrs {
				o.push(' ');
				if key % 7 == 3 {
					o.push_str(&n.to_ascii_uppercase());
				} else {
					o.push_str(n);
				}
				if let Some(v) = v {
					o.push('=');
					if key % 3 == 1 && !v.is_empty() && v.bytes().all(|b| b.is_ascii_alphanumeric()) {
						o.push_str(v);
						continue;
					}
					let q = match (v.contains('"'), v.contains('\'')) {
						(true, false) => '\'',
						(false, false) if key % 3 == 2 => '\'',
						_ => '"',
					};
					o.push(q);
					if q == '"' {
						o.push_str(&v.replace('"', "&quot;"));
					} else {
						o.push_str(v);
					}
					o.push(q);
				}
			}
			o.push('>');
			if VOID.contains(&tag.as_str()) {
				return;
			}
			if RAW.contains(&tag.as_str()) {
				for c in ch {
					if let Tree::T(s) = c {
						o.push_str(s);
					}
				}
			} else {
				for c in ch {
					html1(c, o);
				}
			}
			o.push_str(&format!("</{}>", tag));
		}
	}
}

impl Model {
	pub fn add(&mut self, kind: Kind) -> Id {
		self.n.push(N { kind, tag: String::new(), key: 0, attrs: vec![], text: String::new(), parent: None, ch: vec![], owner: 0 });
		self.n.len() - 1
	}
	pub fn build(&mut self, t: &Tree) -> Id {
		match t {
			Tree::T(s) => {
				let i = self.add(Kind::T);
				self.n[i].text = s.clone();
				i
			}
			Tree::C(s) => {
				let i = self.add(Kind::C);
				self.n[i].text = s.clone();
				i
			}
			Tree::E(tag, key, attrs, ch) => {
				let i = self.add(Kind::E);
				self.n[i].tag = tag.clone();
				self.n[i].key = *key;
				if *key > 0 {
					self.n[i].attrs.push(("k".into(), Some(key.to_string())));
				}
				for (a, v) in attrs {
					self.n[i].attrs.push((a.clone(), v.clone()));
				}
				if RAW.contains(&tag.as_str()) {
					let s: String = ch.iter().map(|c| if let Tree::T(s) = c { s.clone() } else { String::new() }).collect();
					self.n[i].text = s;
				} else {
					for c in ch {
						let j = self.build(c);
						self.n[j].parent = Some(i);
						self.n[i].ch.push(j);
					}
				}
				i
			}
		}
	}
	pub fn build_root(&mut self, t: &[Tree]) -> Id {
		let r = self.add(Kind::Root);
		for x in t {
			let j = self.build(x);
			self.n[j].parent = Some(r);
			self.n[r].ch.push(j);
		}
		r
	}
	pub fn set_owner(&mut self, i: Id, o: u32) {
		self.n[i].owner = o;
		for c in self.n[i].ch.clone() {
			self.set_owner(c, o);
		}
	}
	pub fn is_e(&self, i: Id) -> bool {
		self.n[i].kind == Kind::E
	}
	pub fn top(&self, mut i: Id) -> Id {
		while let Some(p) = self.n[i].parent {
			i = p;
		}
		i
	}
	pub fn is_anc(&self, a: Id, mut d: Id) -> bool {
		while let Some(p) = self.n[d].parent {
			if p == a {
				return true;
			}
			d = p;
		}
		false
	}
	pub fn pos(&self, i: Id) -> usize {
		match self.n[i].parent {
			Some(p) => self.n[p].ch.iter().position(|x| *x == i).unwrap(),
			None => 0,
		}
	}
	pub fn path(&self, mut i: Id) -> Vec<usize> {
		let mut v = vec![];
		while let Some(p) = self.n[i].parent {
			v.push(self.pos(i));
			i = p;
		}
		v.push(i + 1_000_000);
		v.reverse();
		v
	}
	pub fn sort_unique(&self, v: &mut Vec<Id>) {
		v.sort_by(|a, b| self.path(*a).cmp(&self.path(*b)));
		v.dedup();
	}
	/// in document order, one tree, no repeats
	pub fn ordered(&self, v: &[Id]) -> bool {
		v.windows(2).all(|w| self.top(w[0]) == self.top(w[1]) && self.path(w[0]) < self.path(w[1]))
	}
	/// some tree below these roots, or all of them together, has one of the ids more than once
	pub fn repeated_id(&self, roots: &[Id], names: &[String]) -> bool {
		let mut all = vec![];
		for r in roots {
			all.push(*r);
			self.desc(*r, &mut all);
		}
		names.iter().any(|x| all.iter().filter(|i| self.is_e(**i) && self.simple(**i, &Simple::Id(x.clone()))).count() > 1)
	}
	pub fn same_tree(&self, v: &[Id]) -> bool {
		v.windows(2).all(|w| self.top(w[0]) == self.top(w[1]))
	}
	pub fn kids(&self, i: Id) -> Vec<Id> {
		self.n[i].ch.iter().copied().filter(|c| self.is_e(*c)).collect()
	}
	pub fn desc(&self, i: Id, out: &mut Vec<Id>) {
		for &c in &self.n[i].ch {
			if self.is_e(c) {
				out.push(c);
				self.desc(c, out);
			}
		}
	}
	/// parent as queries see it: elements only
	pub fn eparent(&self, i: Id) -> Option<Id> {
		self.n[i].parent.filter(|p| self.is_e(*p))
	}
	pub fn sibs(&self, i: Id) -> Vec<Id> {
		match self.n[i].parent {
			Some(p) => self.kids(p),
			None => vec![],
		}
	}
	pub fn next(&self, i: Id) -> Option<Id> {
		let s = self.sibs(i);
		let p = s.iter().position(|x| *x == i)?;
		s.get(p + 1).copied()
	}
	pub fn prev(&self, i: Id) -> Option<Id> {
		let s = self.sibs(i);
		let p = s.iter().position(|x| *x == i)?;
		if p > 0 {
			Some(s[p - 1])
		} else {
			None
		}
	}
	pub fn attr(&self, i: Id, name: &str) -> Option<Option<String>> {
		self.n[i].attrs.iter().find(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v.clone())
	}
	pub fn text(&self, i: Id) -> String {
		match self.n[i].kind {
			Kind::T => self.n[i].text.clone(),
			Kind::C => String::new(),
			_ => {
				if RAW.contains(&self.n[i].tag.as_str()) {
					return self.n[i].text.clone();
				}
				self.n[i].ch.iter().map(|c| self.text(*c)).collect()
			}
		}
	}
	/// the text nodes (and plain-text elements) below `i` in document order
	pub fn texts(&self, i: Id, depth: usize, limit: usize, out: &mut Vec<(usize, Id)>) {
		self.texts_rec(i, depth, limit, &|_| true, out)
	}
	pub fn texts_rec(&self, i: Id, depth: usize, limit: usize, rec: &dyn Fn(u32) -> bool, out: &mut Vec<(usize, Id)>) {
		for &c in &self.n[i].ch {
			match self.n[c].kind {
				Kind::T => out.push((depth, c)),
				Kind::E => {
					if RAW.contains(&self.n[c].tag.as_str()) {
						out.push((depth, c));
					} else if (limit == 0 || depth + 1 < limit) && rec(self.n[c].key) {
						self.texts_rec(c, depth + 1, limit, rec, out);
					}
				}
				_ => {}
			}
		}
		if self.n[i].ch.is_empty() && self.is_e(i) && RAW.contains(&self.n[i].tag.as_str()) {
			out.push((depth, i));
		}
	}

	/* -------------------------------------------------------- selectors */
	pub fn simple(&self, i: Id, s: &Simple) -> bool {
		match s {
			Simple::Any => true,
			Simple::Tag(t) => self.n[i].tag.eq_ignore_ascii_case(t),
			Simple::Class(c) => match self.attr(i, "class") {
				Some(Some(v)) => v.split_ascii_whitespace().any(|x| x == c),
				_ => false,
			},
			Simple::Id(c) => matches!(self.attr(i, "id"), Some(Some(v)) if v == *c),
			Simple::Attr(n, o, v) => {
				let a = self.attr(i, n);
				match o.as_str() {
					"" => a.is_some(),
					"!=" => match a {
						Some(Some(x)) => x != *v,
						_ => !v.is_empty(),
					},
					_ if v.is_empty() => match (o.as_str(), a) {
						("=", Some(Some(x))) => x.is_empty(),
						("|=", Some(Some(x))) => x.is_empty() || x.starts_with('-'),
						("=", _) | ("|=", _) => true,
						_ => false,
					},
					_ => match a {
						Some(Some(x)) => match o.as_str() {
							"=" => x == *v,
							"^=" => x.starts_with(v.as_str()),
							"$=" => x.ends_with(v.as_str()),
							"*=" => x.contains(v.as_str()),
							"~=" => x.split_ascii_whitespace().any(|w| w == v),
							"|=" => x == *v || x.starts_with(&format!("{}-", v)),
							_ => false,
						},
						_ => false,
					},
				}
			}
			Simple::Nth(k, a, b) => {
				if self.n[i].parent.is_none() {
					return false;
				}
				let mut s = self.sibs(i);
				if k.ends_with("of-type") {
					s.retain(|x| self.n[*x].tag == self.n[i].tag);
				}
				if k.starts_with("last") {
					s.reverse();
				}
				let p = s.iter().position(|x| *x == i).unwrap() as i32 + 1;
				if *a == 0 {
					p == *b
				} else {
					(p - b) % a == 0 && (p - b) / a >= 0
				}
			}
			Simple::Pseudo(p) => {
				if p == "empty" {
					return self.n[i].ch.iter().all(|c| self.n[*c].kind == Kind::C);
				}
				if p == "header" {
					return ["h1", "h2", "h3", "h4", "h5", "h6"].contains(&self.n[i].tag.as_str());
				}
				if p == "input" {
					return ["input", "select", "textarea", "button"].contains(&self.n[i].tag.as_str());
				}
				if p == "root" {
					return self.n[i].tag == "html" && self.n[i].parent.is_some_and(|p| self.n[p].kind == Kind::Root);
				}
				if p == "submit" {
					return ["input", "button"].contains(&self.n[i].tag.as_str()) && matches!(self.attr(i, "type"), Some(Some(t)) if t == "submit");
				}
				if p == "checked" {
					return self.checked(i);
				}
				if self.n[i].parent.is_none() {
					return false;
				}
				let s = self.sibs(i);
				let ty: Vec<Id> = s.iter().copied().filter(|x| self.n[*x].tag == self.n[i].tag).collect();
				match p.as_str() {
					"first-child" => s.first() == Some(&i),
					"last-child" => s.last() == Some(&i),
					"only-child" => s.len() == 1,
					"first-of-type" => ty.first() == Some(&i),
					"last-of-type" => ty.last() == Some(&i),
					"only-of-type" => ty.len() == 1,
					_ => false,
				}
			}
			Simple::Contains(t) => self.text(i).contains(t.as_str()),
			Simple::Not(s) => !self.matches(i, s),
			Simple::Has(s) => self.has(i, s),
		}
	}
	/// the options below, not looking inside options
	fn options(&self, i: Id, out: &mut Vec<Id>) {
		for c in self.kids(i) {
			if self.n[c].tag == "option" {
				out.push(c);
			} else {
				self.options(c, out);
			}
		}
	}
	fn checked(&self, i: Id) -> bool {
		match self.n[i].tag.as_str() {
			"input" => matches!(self.attr(i, "type"), Some(Some(t)) if ["checkbox", "radio"].contains(&t.to_ascii_lowercase().as_str())) && self.attr(i, "checked").is_some(),
			"option" => {
				if self.attr(i, "selected").is_some() {
					return true;
				}
				// the one that counts when none is selected: the first directly below the select
				match self.eparent(i) {
					Some(p) if self.n[p].tag == "select" && self.attr(p, "multiple").is_none() => {
						let mut o = vec![];
						self.options(p, &mut o);
						self.kids(p).into_iter().find(|c| self.n[*c].tag == "option") == Some(i) && !o.iter().any(|x| self.attr(*x, "selected").is_some())
					}
					_ => false,
				}
			}
			_ => false,
		}
	}
	/// what a form would send for the element
	pub fn val(&self, i: Id) -> String {
		let value = |i: Id| match self.attr(i, "value") {
			Some(Some(v)) => v,
			_ => String::new(),
		};
		match self.n[i].tag.as_str() {
			"input" | "option" => value(i),
			"textarea" => self.text(i),
			"select" => {
				let mut o = vec![];
				self.options(i, &mut o);
				let sel: Vec<Id> = o.iter().copied().filter(|x| self.attr(*x, "selected").is_some()).collect();
				if self.attr(i, "multiple").is_some() {
					return sel.into_iter().map(value).collect::<Vec<_>>().join(",");
				}
				let d = self.kids(i).into_iter().find(|c| self.n[*c].tag == "option");
				sel.first().copied().or(d).map(value).unwrap_or_default()
			}
			_ => String::new(),
		}
	}
	/// some element below `i` matches
	pub fn has(&self, i: Id, s: &Sel) -> bool {
		let mut d = vec![];
		self.desc(i, &mut d);
		d.into_iter().any(|x| self.matches(x, s))
	}
	pub fn compound(&self, i: Id, c: &Compound) -> bool {
		c.iter().all(|s| self.simple(i, s))
	}
	/// does `i` match, looking at everything above and beside it
	pub fn matches(&self, i: Id, s: &Sel) -> bool {
		s.iter().any(|c| self.complex_up(i, c, c.len() - 1))
	}
	fn complex_up(&self, i: Id, c: &Complex, at: usize) -> bool {
		if !self.compound(i, &c[at].1) {
			return false;
		}
		if at == 0 {
			return true;
		}
		match c[at].0 {
			Comb::Child => self.eparent(i).is_some_and(|p| self.complex_up(p, c, at - 1)),
			Comb::Desc => {
				let mut p = self.eparent(i);
				while let Some(x) = p {
					if self.complex_up(x, c, at - 1) {
						return true;
					}
					p = self.eparent(x);
				}
				false
			}
			Comb::Next => self.prev(i).is_some_and(|p| self.complex_up(p, c, at - 1)),
			Comb::NextAll => {
				let mut p = self.prev(i);
				while let Some(x) = p {
					if self.complex_up(x, c, at - 1) {
						return true;
					}
					p = self.prev(x);
				}
				false
			}
		}
	}
	/// descend from the context set: the first compound is looked for below it
	pub fn find(&self, ctx: &[Id], s: &Sel) -> Vec<Id> {
		self.find_from(ctx, s, Comb::Desc)
	}
	pub fn find_from(&self, ctx: &[Id], s: &Sel, head: Comb) -> Vec<Id> {
		let mut out = vec![];
		for c in s {
			let mut cur: BTreeSet<Id> = ctx.iter().copied().collect();
			for (i, (comb, cp)) in c.iter().enumerate() {
				let comb = if i == 0 { &head } else { comb };
				let mut nx = BTreeSet::new();
				for &i in &cur {
					let mut v = vec![];
					match comb {
						Comb::Desc => self.desc(i, &mut v),
						Comb::Child => v = self.kids(i),
						Comb::Next => v.extend(self.next(i)),
						Comb::NextAll => {
							let mut p = self.next(i);
							while let Some(x) = p {
								v.push(x);
								p = self.next(x);
							}
						}
					}
					nx.extend(v.into_iter().filter(|x| self.compound(*x, cp)));
				}
				cur = nx;
			}
			out.extend(cur);
		}
		self.sort_unique(&mut out);
		out
	}

	/* ------------------------------------------------------- mutations */
	pub fn detach(&mut self, i: Id) {
		if let Some(p) = self.n[i].parent {
			self.n[p].ch.retain(|x| *x != i);
			self.n[i].parent = None;
		}
	}
	pub fn insert_at(&mut self, p: Id, at: usize, i: Id) {
		self.n[p].ch.insert(at, i);
		self.n[i].parent = Some(p);
	}
	pub fn clear(&mut self, i: Id) {
		for c in std::mem::take(&mut self.n[i].ch) {
			self.n[c].parent = None;
		}
		self.n[i].text.clear();
	}
	pub fn copy(&mut self, i: Id) -> Id {
		let mut c = self.n[i].clone();
		c.parent = None;
		let kids = std::mem::take(&mut c.ch);
		self.n.push(c);
		let j = self.n.len() - 1;
		for k in kids {
			let x = self.copy(k);
			self.n[x].parent = Some(j);
			self.n[j].ch.push(x);
		}
		j
	}
	pub fn set_attr(&mut self, i: Id, name: &str, v: Option<&str>) {
		for (n, x) in self.n[i].attrs.iter_mut() {
			if n.eq_ignore_ascii_case(name) {
				*x = v.map(String::from);
				return;
			}
		}
		self.n[i].attrs.push((name.to_string(), v.map(String::from)));
	}
	pub fn remove_attr(&mut self, i: Id, name: &str) {
		self.n[i].attrs.retain(|(n, _)| !n.eq_ignore_ascii_case(name));
	}
	fn classes(&self, i: Id) -> Option<Vec<String>> {
		match self.attr(i, "class") {
			Some(Some(v)) => Some(v.split_ascii_whitespace().map(String::from).collect()),
			_ => None,
		}
	}
	pub fn class_op(&mut self, i: Id, op: char, names: &str) {
		let list: Vec<String> = names.split_ascii_whitespace().map(String::from).collect();
		if list.is_empty() {
			return;
		}
		let mut cur = match self.classes(i) {
			Some(c) => c,
			None => {
				if op == '-' {
					return;
				}
				vec![]
			}
		};
		let mut touched = false;
		for n in &list {
			let has = cur.contains(n);
			match op {
				'+' => {
					if !has {
						cur.push(n.clone());
					}
					touched = true;
				}
				'-' => {
					if has {
						cur.retain(|x| x != n);
						touched = true;
					}
				}
				_ => {
					if has {
						cur.retain(|x| x != n);
					} else {
						cur.push(n.clone());
					}
					touched = true;
				}
			}
		}
		if touched {
			let v = cur.join(" ");
			self.set_attr(i, "class", Some(&v));
		}
	}
	/// the subtree as data, neighbouring texts merged and empty ones dropped
	pub fn tree(&self, i: Id, merge: bool) -> Vec<Tree> {
		let mut out: Vec<Tree> = vec![];
		for &c in &self.n[i].ch {
			match self.n[c].kind {
				Kind::T => {
					if merge {
						if self.n[c].text.is_empty() {
							continue;
						}
						if let Some(Tree::T(s)) = out.last_mut() {
							s.push_str(&self.n[c].text);
							continue;
						}
					}
					out.push(Tree::T(self.n[c].text.clone()));
				}
				Kind::C => out.push(Tree::C(self.n[c].text.clone())),
				_ => out.push(self.tree1(c, merge)),
			}
		}
		out
	}
	pub fn tree1(&self, c: Id, merge: bool) -> Tree {
		let n = &self.n[c];
		let ch = if RAW.contains(&n.tag.as_str()) {
			if n.text.is_empty() {
				vec![]
			} else {
				vec![Tree::T(n.text.clone())]
			}
		} else {
			self.tree(c, merge)
		};
		Tree::E(n.tag.clone(), 0, n.attrs.iter().map(|(a, v)| (a.to_ascii_lowercase(), v.clone())).collect(), ch)
	}
}
