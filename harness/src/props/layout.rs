//! Layout construction (L01) and layout queries (L03).

use super::sec;
use super::slices::refused;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::runner::Property;
use pasture_core::layout::*;

/// Size and alignment of a layout, as serialized.
fn size_align(l: &PointLayout) -> (u64, u64) {
    let v = serde_json::to_value(l).expect("serialize layout");
    (v["memory_layout"]["size"].as_u64().expect("size"), v["memory_layout"]["align"].as_u64().expect("align"))
}

/// Independent layout computation: a list of (definition, offset), the alignment and the end of the last byte range.
struct RefLayout {
    members: Vec<(Def, u64)>,
    align: u64,
}

fn gen_align(g: &mut Gen) -> u64 {
    1 << if g.chance(1, 8) { g.range(5, 12) } else { g.range(0, 4) }
}

fn up(x: u64, a: u64) -> u64 {
    if x % a == 0 { x } else { x + (a - x % a) }
}

impl RefLayout {
    fn end(&self) -> u64 {
        self.members.iter().map(|(d, o)| o + ref_size(d.datatype())).max().unwrap_or(0)
    }
    fn add(&mut self, d: &Def, pack: Option<u64>) {
        let a = ref_align(d.datatype()).min(pack.unwrap_or(u64::MAX));
        let o = up(self.end(), a);
        self.members.push((d.clone(), o));
        self.align = self.align.max(a);
    }
    fn check(&self, l: &PointLayout, what: &str) -> PResult {
        let got: Vec<(Def, u64)> = l.attributes().map(|a| (a.attribute_definition().clone(), a.offset())).collect();
        ensure!(got == self.members, "{what}: attributes are {}, expected {}", show(&got), show(&self.members));
        for a in l.attributes() {
            ensure!(a.size() == ref_size(a.datatype()) && a.datatype().size() == a.size(), "{what}: size of {a} is {}", a.size());
            ensure!(a.datatype().min_alignment() == ref_align(a.datatype()), "{what}: alignment of {a} is {}", a.datatype().min_alignment());
            let r = a.byte_range_within_point();
            ensure!(r.start as u64 == a.offset() && r.len() as u64 == a.size(), "{what}: byte range of {a} is {:?}", r);
            ensure!(r.end as u64 <= l.size_of_point_entry(), "{what}: {a} reaches past the end of the point ({})", l.size_of_point_entry());
        }
        let all: Vec<_> = l.attributes().collect();
        for i in 0..all.len() {
            for j in 0..i {
                let (a, b) = (all[i].byte_range_within_point(), all[j].byte_range_within_point());
                ensure!(a.is_empty() || b.is_empty() || a.end <= b.start || b.end <= a.start, "{what}: {} and {} overlap", all[i], all[j]);
            }
        }
        let (size, align) = size_align(l);
        ensure!(size == l.size_of_point_entry(), "{what}: size_of_point_entry() is {}, serialized size {size}", l.size_of_point_entry());
        ensure!(align == self.align, "{what}: alignment is {align}, expected {} for {}", self.align, show(&self.members));
        ensure!(size == up(self.end(), self.align), "{what}: point size is {size}, expected {} for {}", up(self.end(), self.align), show(&self.members));
        Ok(())
    }
}

fn show(m: &[(Def, u64)]) -> String {
    m.iter().map(|(d, o)| format!("{}:{}@{o}", d.name(), d.datatype())).collect::<Vec<_>>().join(" ")
}

fn l01_build(g: &mut Gen) -> PResult {
    let attrs = gen_attrs(g, 1, 8, true);
    let pack = gen_align(g);
    g.note(|| format!("{}", attrs.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(" ")));
    // all default
    let mut r = RefLayout { members: vec![], align: 1 };
    attrs.iter().for_each(|d| r.add(d, None));
    let l = PointLayout::from_attributes(&attrs);
    r.check(&l, "from_attributes")?;
    let collected: PointLayout = attrs.iter().cloned().collect();
    ensure!(collected == l, "a layout collected from attributes differs from from_attributes");
    // all packed
    let mut r = RefLayout { members: vec![], align: 1 };
    attrs.iter().for_each(|d| r.add(d, Some(pack)));
    r.check(&PointLayout::from_attributes_packed(&attrs, pack), &format!("from_attributes_packed({pack})"))?;
    // one by one, checking after every addition
    let mut r = RefLayout { members: vec![], align: 1 };
    let mut l = PointLayout::default();
    r.check(&l, "empty layout")?;
    let mixed = g.chance(1, 2);
    for d in &attrs {
        let p = if mixed && g.chance(1, 2) { Some(gen_align(g)) } else if mixed { None } else { Some(pack) };
        g.note(|| format!("add {d} {p:?}"));
        l.add_attribute(d.clone(), p.map_or(FieldAlignment::Default, FieldAlignment::Packed));
        r.add(d, p);
        r.check(&l, "add_attribute")?;
    }
    if attrs.len() >= 2 {
        g.mark();
    }
    if mixed {
        g.class("mixed alignments");
    }
    // adding a name twice is refused
    let dup = def(attrs[g.range(0, attrs.len() - 1)].name().to_string(), gen_type(g, true));
    let before = l.clone();
    refused(&format!("a second attribute {dup}"), || l.add_attribute(dup.clone(), FieldAlignment::Default))?;
    ensure!(l == before, "a refused add_attribute changed the layout");
    let mut twice = attrs.clone();
    twice.push(dup);
    refused("from_attributes with a repeated name", || { PointLayout::from_attributes(&twice); })?;
    refused("from_attributes_packed with a repeated name", || { PointLayout::from_attributes_packed(&twice, 1); })
}

fn l01_members(g: &mut Gen) -> PResult {
    let attrs = gen_attrs(g, 1, 6, true);
    // offsets in any order, with gaps, touching or overlapping
    let mut members: Vec<(Def, u64)> = vec![];
    let span: u64 = attrs.iter().map(|d| ref_size(d.datatype())).sum::<u64>() + 8;
    let disjoint = g.chance(2, 3);
    let mut order: Vec<usize> = (0..attrs.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, g.range(0, i));
    }
    let mut off = 0;
    let mut offs = vec![0; attrs.len()];
    for &i in &order {
        if disjoint {
            off += if g.chance(1, 8) { g.range(0, 70_000) } else { g.range(0, 4) } as u64;
            offs[i] = off;
            off += ref_size(attrs[i].datatype());
        } else {
            offs[i] = g.range(0, span as usize) as u64;
        }
    }
    for (i, d) in attrs.iter().enumerate() {
        members.push((d.clone(), offs[i]));
    }
    let align = gen_align(g);
    let overlap = (0..members.len()).any(|i| (0..i).any(|j| {
        let (a, b) = (&members[i], &members[j]);
        a.1 < b.1 + ref_size(b.0.datatype()) && b.1 < a.1 + ref_size(a.0.datatype())
    }));
    g.note(|| format!("members {} alignment {align}", show(&members)));
    let ms: Vec<PointAttributeMember> = members.iter().map(|(d, o)| d.at_offset_in_type(*o)).collect();
    if overlap {
        g.class("overlapping members");
        refused("from_members_and_alignment with overlapping members", || { PointLayout::from_members_and_alignment(&ms, align); })?;
        g.mark();
        return Ok(());
    }
    let mut l = PointLayout::from_members_and_alignment(&ms, align);
    let mut r = RefLayout { members, align };
    r.check(&l, "from_members_and_alignment")?;
    let mut again = ms.clone();
    again.push(def(attrs[0].name().to_string(), DT::U8).at_offset_in_type(span + 64));
    refused("from_members_and_alignment with a repeated name", || { PointLayout::from_members_and_alignment(&again, align); })?;
    // extending it
    let n = g.range(0, 4);
    for k in 0..n {
        let d = def(format!("added{k}"), gen_type(g, true));
        let p = if g.chance(1, 2) { Some(gen_align(g)) } else { None };
        g.note(|| format!("add {d} {p:?}"));
        l.add_attribute(d.clone(), p.map_or(FieldAlignment::Default, FieldAlignment::Packed));
        r.add(&d, p);
        r.check(&l, "add_attribute to explicit members")?;
    }
    if n > 0 && r.members.len() >= 3 {
        g.mark();
    }
    Ok(())
}

pub fn l01() -> Property {
    Property { id: "L01", rule: "at least two attributes, or explicit members that were extended or refused",
        sections: vec![sec("build", l01_build, 480_000, 40), sec("members", l01_members, 480_000, 40)] }
}

// ---------------------------------------------------------------- L03

fn l03_queries(g: &mut Gen) -> PResult {
    let l = if g.chance(1, 30) { PointLayout::default() } else { gen_layout(g, 8, true) };
    let mut l = l;
    if g.chance(1, 3) {
        l.add_attribute(def("late", gen_type(g, true)), if g.chance(1, 2) { FieldAlignment::Default } else { FieldAlignment::Packed(2) });
    }
    let ms: Vec<(Def, u64)> = l.attributes().map(|a| (a.attribute_definition().clone(), a.offset())).collect();
    g.note(|| format!("{} (size {})", show(&ms), l.size_of_point_entry()));
    for (i, (d, o)) in ms.iter().enumerate() {
        let at = l.at(i);
        ensure!(at.attribute_definition() == d && at.offset() == *o && at.name() == d.name() && at.datatype() == d.datatype(), "at({i}) is {at}, iteration has {d}@{o}");
        ensure!(l.has_attribute(d) && l.has_attribute_with_name(d.name()), "{d} is not found");
        ensure!(l.get_attribute(d) == Some(at), "get_attribute({d}) is {:?}", l.get_attribute(d));
        ensure!(l.get_attribute_by_name(d.name()) == Some(at), "get_attribute_by_name({}) is {:?}", d.name(), l.get_attribute_by_name(d.name()));
        ensure!(l.index_of(d) == Some(i), "index_of({d}) is {:?}, expected {i}", l.index_of(d));
        ensure!(l.offset_of(d) == Some(*o), "offset_of({d}) is {:?}, expected {o}", l.offset_of(d));
    }
    // the text lists the attributes in order
    let text = l.to_string();
    let mut at = 0;
    for a in l.attributes() {
        let Some(k) = text[at..].find(&a.to_string()) else { return fail(format!("the layout as text does not list {a} in order: {text}")) };
        at += k + 1;
        let s = a.to_string();
        ensure!(s.contains(a.name()) && s.contains(&a.datatype().to_string()) && s.contains(&a.offset().to_string()), "an attribute {} at {} as text: {s}", a.attribute_definition(), a.offset());
    }
    refused("at() with an index past the end", || { l.at(ms.len() + g.small(5)); })?;
    // absent: other name; same name and other type
    for _ in 0..3 {
        let q = if ms.is_empty() || g.chance(1, 3) {
            let b = builtins();
            g.choose(&b).clone()
        } else {
            let (d, _) = g.choose(&ms).clone();
            match g.range(0, 3) {
                0 => def(d.name().to_string(), gen_type(g, true)),
                1 => def(format!("{}x", d.name()), d.datatype()),
                2 => def(d.name()[..d.name().len() - 1].to_string(), d.datatype()),
                _ => def(d.name().to_lowercase(), d.datatype()),
            }
        };
        let present = ms.iter().position(|(d, _)| d.name() == q.name() && d.datatype() == q.datatype());
        let named = ms.iter().position(|(d, _)| d.name() == q.name());
        ensure!(l.has_attribute(&q) == present.is_some(), "has_attribute({q}) is {}", l.has_attribute(&q));
        ensure!(l.get_attribute(&q).map(|a| a.offset()) == present.map(|i| ms[i].1), "get_attribute({q}) is {:?}", l.get_attribute(&q));
        ensure!(l.index_of(&q) == present, "index_of({q}) is {:?}", l.index_of(&q));
        ensure!(l.offset_of(&q) == present.map(|i| ms[i].1), "offset_of({q}) is {:?}", l.offset_of(&q));
        ensure!(l.has_attribute_with_name(q.name()) == named.is_some(), "has_attribute_with_name({})", q.name());
        ensure!(l.get_attribute_by_name(q.name()).map(|a| a.attribute_definition()) == named.map(|i| &ms[i].0), "get_attribute_by_name({}) is {:?}", q.name(), l.get_attribute_by_name(q.name()));
        if named.is_some() && present.is_none() {
            g.class("same name, other type");
        }
    }
    // serialization
    let text = match g.range(0, 1) { 0 => serde_json::to_string(&l), _ => serde_json::to_string_pretty(&l) }.expect("serialize");
    match serde_json::from_str::<PointLayout>(&text) {
        Ok(back) => ensure!(back == l && size_align(&back) == size_align(&l), "a deserialized layout differs: {} instead of {}", back, l),
        Err(e) => return fail(format!("a serialized layout cannot be deserialized: {e}: {text}")),
    }
    for a in l.attributes() {
        let t = serde_json::to_string(a).expect("serialize");
        let back: Result<PointAttributeMember, _> = serde_json::from_str(&t);
        ensure!(back.as_ref().ok() == Some(a), "a deserialized attribute differs: {:?} instead of {a}", back);
        let t = serde_json::to_string(a.attribute_definition()).expect("serialize");
        let back: Result<Def, _> = serde_json::from_str(&t);
        ensure!(back.as_ref().ok() == Some(a.attribute_definition()), "a deserialized definition differs: {:?}", back);
    }
    if ms.len() >= 2 {
        g.mark();
    }
    Ok(())
}

fn l03_compare(g: &mut Gen) -> PResult {
    let attrs = gen_attrs(g, 1, 5, true);
    let a = gen_arrangement(g, &attrs);
    // a second layout: same attributes in the same or another order or arrangement, or with one near miss
    let mut other = attrs.clone();
    let near = g.range(0, 5);
    match near {
        0 => { let i = g.range(0, other.len() - 1); other[i] = def(other[i].name().to_string(), gen_type(g, true)); }
        1 => { let i = g.range(0, other.len() - 1); other[i] = def(format!("{}'", other[i].name()), other[i].datatype()); }
        2 => { other.pop(); if other.is_empty() { other.push(def("only", DT::U8)); } }
        3 => other.push(def("one more", gen_type(g, true))),
        _ => {}
    }
    if g.chance(1, 2) {
        for i in (1..other.len()).rev() {
            other.swap(i, g.range(0, i));
        }
    }
    let b = gen_arrangement(g, &other);
    g.note(|| format!("{} against {}", show_layout(&a), show_layout(&b)));
    let key = |l: &PointLayout| -> (Vec<(Def, u64)>, (u64, u64)) { (l.attributes().map(|m| (m.attribute_definition().clone(), m.offset())).collect(), size_align(l)) };
    let same = key(&a) == key(&b);
    ensure!((a == b) == same && (b == a) == same && (a != b) != same, "equality is {}, expected {same}", a == b);
    ensure!(a == a.clone() && a.compare_without_offsets(&a.clone()), "a layout does not equal itself");
    let set = |l: &PointLayout| { let mut v: Vec<(String, String)> = l.attributes().map(|m| (m.name().to_string(), format!("{:?}", m.datatype()))).collect(); v.sort(); v };
    let loose = set(&a) == set(&b);
    ensure!(a.compare_without_offsets(&b) == loose && b.compare_without_offsets(&a) == loose, "compare_without_offsets is {} / {}, expected {loose}", a.compare_without_offsets(&b), b.compare_without_offsets(&a));
    if loose != same || same {
        g.mark();
    }
    g.class(if same { "equal" } else if loose { "equal without offsets" } else { "different" });
    // hashing agrees with equality
    use std::hash::{Hash, Hasher};
    let h = |l: &PointLayout| { let mut s = std::collections::hash_map::DefaultHasher::new(); l.hash(&mut s); s.finish() };
    ensure!(!same || h(&a) == h(&b), "equal layouts have different hashes");
    // derived definitions
    let d = attrs[0].clone();
    let t = gen_type(g, true);
    let c = d.with_custom_datatype(t);
    ensure!(c.name() == d.name() && c.datatype() == t && c.size() == ref_size(t), "with_custom_datatype({t}) of {d} is {c}");
    let o = g.draw(1 << 20);
    let m = d.at_offset_in_type(o);
    ensure!(m.offset() == o && m.size() == ref_size(d.datatype()) && m.attribute_definition() == &d, "at_offset_in_type({o}) of {d} is {m}");
    let name = *g.choose(&["a", "Position3D", " x", ""]);
    let m = PointAttributeMember::custom(name, t, o);
    ensure!(m.name() == name && m.datatype() == t && m.offset() == o && m.size() == ref_size(t) && m == def(name, t).at_offset_in_type(o), "the member {name} {t} at {o} is {m}");
    // definitions are equal exactly if name and type are
    let e = if g.chance(1, 2) { def(d.name().to_string(), t) } else { def(name, d.datatype()) };
    ensure!((d == e) == (d.name() == e.name() && d.datatype() == e.datatype()), "{d} == {e} is {}", d == e);
    Ok(())
}

pub fn l03() -> Property {
    Property { id: "L03", rule: "a layout of at least two attributes was queried, or two layouts that are equal or differ only in their arrangement were compared",
        sections: vec![sec("queries", l03_queries, 600_000, 40), sec("compare", l03_compare, 800_000, 40)] }
}
